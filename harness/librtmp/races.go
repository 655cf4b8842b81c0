package librtmp

import (
	"time"

	"github.com/SmartBrave/Athena/easyio"
	"github.com/sbraveyoung/GGmpeg/libhls"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// Sessions of one stream run at the same time.
//
//vf:prop C35
//vf:opt race steps=40000000
//vf:bounds a publisher of headers, key and inter frames, audio and renewed headers, that goes or stays; two of nine others (RTMP and HTTP viewers, an RTSP player that tears down and one that does not, another publisher of the name, one of another name, an RTSP description, a playlist and a manifest wanted, a play of no stream), each at one of three times
func VfRaceStream() {
	srv := NewServer(":0", "live")
	dir := nd.TempDir()
	srv.SetHlsDir("live", dir)
	if nd.Bool("segmented on demand") {
		srv.SetHlsMode("live", libhls.DELAY)
	}
	r, c := vfSession(srv, "live")
	nd.Assert(c.do(r, "publish", "x") == nil, "publishing")
	done := make(chan struct{}, 8)
	n := 1
	gone := nd.Bool("gone")
	go func() {
		for i, t := range []struct {
			typ  byte
			time uint32
			body []byte
		}{
			{18, 0, []byte{2, 0, 1, 'm', 5}},
			{9, 0, append([]byte{0x17, 0, 0, 0, 0}, vfDCR...)},
			{8, 0, []byte{0xaf, 0, 0x12, 0x10}},
			{9, 10, []byte{0x17, 1, 0, 0, 0, 0, 0, 0, 2, 0x65, 1}},
			{8, 20, []byte{0xaf, 1, 1, 2}},
			{9, 30, []byte{0x27, 1, 0, 0, 0, 0, 0, 0, 2, 0x41, 1}},
			{9, 40, append([]byte{0x17, 0, 0, 0, 0}, vfDCR...)},
			{18, 40, []byte{2, 0, 1, 'm', 5}},
			{9, 3000, []byte{0x17, 1, 0, 0, 0, 0, 0, 0, 2, 0x65, 2}},
			{8, 3020, []byte{0xaf, 1, 3, 4}},
			{8, 3030, []byte{0xaf, 0, 0x12, 0x10}},
			{9, 6000, []byte{0x17, 1, 0, 0, 0, 0, 0, 0, 2, 0x65, 3}},
		} {
			c.in = append(c.in, vfSplitMsg(t.typ, t.time, t.body, 128)...)
			if ParseMessage(r) != nil {
				break
			}
			if i%2 == 0 {
				time.Sleep(8 * time.Millisecond)
			}
		}
		if gone {
			r.cleanup()
		}
		done <- struct{}{}
	}()
	var wires []*vfWire
	rtsp := func() (*vfWire, func(method, url, headers string)) {
		w := &vfWire{more: make(chan []byte, 16), done: make(chan struct{})}
		s := newRTSPSession(w, srv)
		go func() {
			s.run()
			close(w.done)
		}()
		seq := 0
		return w, func(method, url, headers string) {
			seq++
			w.more <- vfRTSPText(method, url, seq, headers, "")
			time.Sleep(2 * time.Millisecond)
		}
	}
	a := nd.Pick("one", 0, 8)
	b := nd.Pick("other", 0, 8)
	nd.Assume(a <= b)
	when := nd.Pick("times", 0, 2)
	for i, k := range []int{a, b} {
		k := k
		delay := time.Duration(4+20*((when+i*when)%3)+i) * time.Millisecond
		var act func()
		switch k {
		case 0, 3, 4, 8:
			p, pc := vfSession(srv, "live")
			verb, name := "play", "x"
			switch k {
			case 3:
				verb = "publish"
			case 4:
				verb, name = "publish", "y"
			case 8:
				name = "z"
			}
			act = func() {
				_ = pc.do(p, verb, name)
				time.Sleep(20 * time.Millisecond)
				if k > 0 {
					p.cleanup()
				}
			}
		case 1:
			act = func() {
				if room := srv.apps["live"].Load("x"); room != nil {
					room.FLVJoin(easyio.NewEasyWriter(&vfConn{}))
				}
			}
			if !gone {
				f := act
				act = func() { go f() }
			}
		case 2, 5:
			w, ask := rtsp()
			if k == 2 {
				wires = append(wires, w)
			}
			act = func() {
				ask("DESCRIBE", vfURL, "")
				ask("SETUP", vfURL+"/trackID=0", "Transport: RTP/AVP/TCP;unicast;interleaved=0-1\r\n")
				ask("PLAY", vfURL, "")
				time.Sleep(20 * time.Millisecond)
				if k == 5 {
					ask("TEARDOWN", vfURL, "")
					close(w.more)
				}
			}
		case 6, 7:
			act = func() {
				app := srv.apps["live"]
				room := app.Load("x")
				if room == nil {
					return
				}
				if k == 6 {
					if h := app.StartHLS("x", room); h != nil {
						h.Playlist()
						time.Sleep(20 * time.Millisecond)
						h.WaitForPlaylist(0, 0, 10*time.Millisecond)
					}
				} else if d := app.StartDASH("x", room); d != nil {
					d.Manifest()
					time.Sleep(20 * time.Millisecond)
					d.Manifest()
				}
			}
		}
		n++
		go func() {
			time.Sleep(delay)
			act()
			done <- struct{}{}
		}()
	}
	for ; n > 0; n-- {
		<-done
	}
	r.cleanup()
	for _, w := range wires {
		close(w.more)
		<-w.done
	}
	nd.Quiesce()
	nd.Reach("end")
}
