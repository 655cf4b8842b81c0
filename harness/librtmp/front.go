package librtmp

import (
	"bytes"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/sbraveyoung/GGmpeg/libhls"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfSource publishes live/x.
type vfSource struct {
	lag     int //pictures that are held back until the next one
	picture func(ms uint32, nal []byte)
	over    func()
}

func vfAvcc(nal []byte) []byte { return append(vfB32(uint32(len(nal))), nal...) }

// vfRTMPPictures are pictures of one RTMP sender.
func vfRTMPPictures(p *nd.Peer) func(uint32, []byte) {
	p.Say(vfMsg(9, 0, append([]byte{0x17, 0, 0, 0, 0}, vfTestRecord...), 128))
	return func(ms uint32, nal []byte) {
		p.Say(vfSplitMsg(9, ms, append([]byte{0x17, 1, 0, 0, 0}, vfAvcc(nal)...), 128))
	}
}

func vfRTSPAsk(p *nd.Peer, method string, cseq int, headers, body string) {
	p.Say(vfRTSPText(method, vfURL, cseq, headers, body))
	b, over := p.Take()
	nd.Assert(!over && bytes.HasPrefix(b, []byte("RTSP/1.0 200 ")), method)
}

func (h *vfHost) source(kind int, up *nd.Upstream) *vfSource {
	s := &vfSource{}
	switch kind {
	case 0:
		p := vfOnAir(h.rtmp, "live", "x")
		s.picture, s.over = vfRTMPPictures(p), p.HangUp
	case 1:
		p := nd.NewPeer(nd.Dial(h.rtsp))
		sdp := "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=Z0IAHpU=,aM44gA==\r\na=control:streamid=0\r\n"
		vfRTSPAsk(p, "ANNOUNCE", 1, "Content-Type: application/sdp\r\n", vfSDPHead+sdp)
		p.Say(vfRTSPText("SETUP", vfURL+"/streamid=0", 2, "Transport: RTP/AVP/TCP;unicast;interleaved=0-1;mode=record\r\n", ""))
		b, _ := p.Take()
		nd.Assert(bytes.HasPrefix(b, []byte("RTSP/1.0 200 ")), "SETUP")
		i := bytes.Index(b, []byte("Session:"))
		nd.Assert(i >= 0, "Session")
		id := strings.TrimSpace(strings.SplitN(strings.SplitN(string(b[i+8:]), "\r\n", 2)[0], ";", 2)[0])
		vfRTSPAsk(p, "RECORD", 3, "Session: "+id+"\r\n", "")
		seq := uint16(0)
		s.picture = func(ms uint32, nal []byte) {
			p.Say(vfDollar(0, vfRTP(true, 96, seq, ms*90, nal)))
			seq++
		}
		s.over = p.HangUp
	case 2:
		c := vfSRTDial(h.srt)
		c.tables()
		s.lag = 1
		s.picture = func(ms uint32, nal []byte) {
			es := append([]byte{0, 0, 0, 1}, 0x67, 0x42, 0, 0x1e, 0x95, 0, 0, 0, 1, 0x68, 0xce, 0x38, 0x80, 0, 0, 0, 1)
			c.pes(0x100, vfPES(0xe0, uint64(ms)*90, 0, false, 0, append(es, nal...)))
		}
		s.over = c.shutdown
	default:
		u := vfAccept(up)
		nd.Assert(u != nil, "pulled")
		as, _ := u.heard(1536)
		nd.Assert(len(as) == 1, "connect")
		u.answer("_result", as[0].txn, vfStatusObj("status", "NetConnection.Connect.Success"))
		as, _ = u.heard(0)
		nd.Assert(len(as) == 1, "createStream")
		u.answer("_result", as[0].txn, []byte{5}, vfAmfNum(0x3f))
		as, _ = u.heard(0)
		nd.Assert(len(as) == 1 && as[0].name == "play", "play")
		s.picture, s.over = vfRTMPPictures(u.Peer), u.HangUp
	}
	return s
}

// vfPictures are the units of the pictures in an FLV stream, after the headers.
func vfPictures(b []byte) (times []uint32, nals [][]byte) {
	nd.Assert(len(b) >= 13 && string(b[:3]) == "FLV", "FLV")
	for b = b[13:]; len(b) > 0; {
		nd.Assert(len(b) >= 15, "a whole tag")
		n := int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		nd.Assert(len(b) >= 15+n, "a whole tag")
		if b[0] == 9 && n > 9 && b[12] == 1 {
			times = append(times, uint32(b[7])<<24|uint32(b[4])<<16|uint32(b[5])<<8|uint32(b[6]))
			nals = append(nals, b[20:11+n])
		}
		b = b[15+n:]
	}
	return
}

func vfGot(port int, path string, status int, label string) []byte {
	st, body, over := nd.Get(port, path).Take()
	nd.Assert(over && st == status, label)
	return body
}

// vfSegments fetches what a playlist lists.
func (h *vfHost) segments(dir string, playlist []byte) int {
	n := 0
	for _, l := range strings.Split(string(playlist), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' {
			continue
		}
		n++
		body := vfGot(h.hls, "/live/x/"+l, 200, "a listed segment is served")
		nd.Assert(len(body) > 0 && len(body)%188 == 0, "whole packets")
		nd.Assert(nd.Eq(body, nd.Read(filepath.Join(dir, l))), "as segmented")
	}
	return n
}

// Every way of viewing, for every way of publishing.
//
//vf:prop C34
//vf:opt steps=60000000
//vf:bounds one stream of three key pictures of any content, 2.5 s apart, published over RTMP, RTSP or SRT or pulled from a server, to viewers over HTTP-FLV, HLS (segmented at once, or for the first of two viewers that come at a time) and DASH; then its end, and one more such stream of the name
func VfFront() {
	kind := nd.Pick("source", 0, 3)
	delay := nd.Pick("segmented for the first viewer", 0, 1) == 1
	h := vfHostUp("live", "other").withHls().withRtsp()
	h.srv.WithDASH()
	dir := nd.TempDir()
	h.srv.SetHlsDir("live", dir)
	if delay {
		h.srv.SetHlsMode("live", libhls.DELAY)
	}
	var up *nd.Upstream
	switch kind {
	case 2:
		s, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		nd.Assert(err == nil, "a free port")
		h.srt = s.LocalAddr().(*net.UDPAddr).Port
		s.Close()
		h.srv.WithSRT(vfPortOf(h.srt), "live", "x")
	case 3:
		port := nd.FreePort()
		up = nd.Listen(port)
		h.srv.WithRTMPPull("rtmp://127.0.0.1:"+strconv.Itoa(port)+"/app/foo", "live", "x")
	}
	h.up()
	gone := func() {
		vfGot(h.flv, "/live/x.flv", 404, "HTTP-FLV of no stream")
		vfGot(h.hls, "/live/x/index.m3u8", 404, "HLS of no stream")
		vfGot(h.hls, "/live/x/index.mpd", 404, "DASH of no stream")
	}
	if kind != 3 {
		gone()
	}
	for round := 0; round < 2; round++ {
		if round == 1 {
			kind = 0 //what comes next may come over RTMP
			if up != nil {
				break //but a pull is tried again
			}
		}
		src := h.source(kind, up)
		var nals [][]byte
		picture := func(ms uint32) {
			nal := append([]byte{0x65}, nd.Bytes("picture", 3)...)
			nd.Assume(nd.And(nal[1] > 3, nal[2] > 3, nal[3] > 3)) //no start code
			nals = append(nals, nal)
			src.picture(ms, nal)
		}
		if src.lag > 0 {
			picture(0)
			nals = nals[:0]
		}
		picture(100)
		vfGot(h.flv, "/live/y.flv", 404, "another stream")
		vfGot(h.flv, "/other/x.flv", 404, "another app")
		vfGot(h.flv, "/live", 400, "no stream")
		vfGot(h.hls, "/other/x/index.m3u8", 404, "another app")
		vfGot(h.hls, "/live/y/index.m3u8", 404, "another stream")
		vfGot(h.hls, "/live/x", 400, "no file")
		view := nd.Get(h.flv, "/live/x.flv")
		var first, second *nd.Response
		if delay {
			first, second = nd.Get(h.hls, "/live/x/index.m3u8"), nd.Get(h.hls, "/live/x/index.m3u8")
		}
		nd.Quiesce()
		picture(2600)
		picture(5100)
		if src.lag > 0 {
			src.picture(7600, []byte{0x65, 9, 9, 9})
		}
		playlist := vfGot(h.hls, "/live/x/index.m3u8", 200, "playlist")
		n := h.segments(dir, playlist)
		nd.Assert(n >= 2, "what is complete is listed")
		if delay {
			for _, r := range []*nd.Response{first, second} {
				st, body, over := r.Take()
				nd.Assert(over && st == 200 && h.segments(dir, body) >= 1, "who asks first gets the first segment")
			}
		}
		mpd := string(vfGot(h.hls, "/live/x/index.mpd", 200, "manifest"))
		nd.Assert(strings.Contains(mpd, "x-init.mp4") && strings.Contains(mpd, "x-$Number$.m4s"), "names its segments")
		init := vfGot(h.hls, "/live/x/x-init.mp4", 200, "init segment")
		nd.Assert(bytes.Contains(init, []byte("ftyp")) && nd.Eq(init, nd.Read(filepath.Join(dir, "x-init.mp4"))), "init segment")
		for i := 0; i < 2; i++ {
			body := vfGot(h.hls, "/live/x/x-"+strconv.Itoa(i)+".m4s", 200, "media segment")
			nd.Assert(len(body) > 8 && nd.Eq(body[len(body)-8:], vfAvcc(nals[i])), "the picture is in it")
		}
		st, body, over := view.Take()
		nd.Assert(st == 200 && !over, "HTTP-FLV goes on")
		times, pics := vfPictures(body)
		if src.lag > 0 {
			nd.Assert(len(pics) >= 4, "pictures")
			times, pics = times[len(times)-3:], pics[len(pics)-3:]
		}
		nd.Assert(len(pics) == 3, "every picture")
		for i := range pics {
			nd.Assert(nd.Eq(pics[i], nals[i]), "picture")
			nd.Assert(i == 0 || times[i]-times[i-1] == 2500, "time between pictures")
		}
		src.over()
		_, _, over = view.Take()
		nd.Assert(over, "HTTP-FLV ends with its stream")
		gone()
		left, _ := os.ReadDir(dir)
		nd.Assert(len(left) == 0, "nothing is left behind")
		nd.Reach("seen")
	}
	nd.Reach("end")
}

// Viewers that come all at once, and as the stream ends.
//
//vf:prop C34
//vf:opt steps=60000000
//vf:bounds two viewers ask for the first playlist of a stream, or a playlist and a DASH manifest, at the time it ends or goes on, one (thorough two) preemptions anywhere; then another such stream; segments kept where they cannot be written
func VfFrontRush() {
	h := vfHostUp("live").withHls()
	dir := nd.TempDir()
	broken := nd.Pick("no place for segments", 0, 1) == 1
	if broken {
		dir = filepath.Join(dir, "file")
		nd.Assert(os.WriteFile(dir, []byte("x"), 0o644) == nil, "written")
	}
	h.srv.WithDASH()
	h.srv.SetHlsDir("live", dir)
	h.srv.SetHlsMode("live", libhls.DELAY)
	h.up()
	src := h.source(0, nil)
	src.picture(0, []byte{0x65, 1, 2, 3})
	ends := nd.Pick("the stream ends", 0, 1) == 1
	other := []string{"index.m3u8", "index.mpd"}[nd.Pick("manifest", 0, 1)]
	if !broken {
		nd.Preempt(nd.Bound(1, 2))
	}
	a, b := nd.Get(h.hls, "/live/x/index.m3u8"), nd.Get(h.hls, "/live/x/"+other)
	if ends {
		src.over()
	}
	nd.Quiesce()
	nd.Preempt(0)
	if !ends {
		src.picture(2500, []byte{0x65, 4, 5, 6})
		src.picture(5000, []byte{0x65, 7, 8, 9})
	}
	for i, r := range []*nd.Response{a, b} {
		st, body, over := r.Take()
		nd.Assert(over, "answered")
		switch {
		case ends || broken || i == 1 && other == "index.mpd":
			nd.Assert(st == 404 || len(body) > 0, "an answer")
		default:
			nd.Assert(st == 200 && len(body) > 0, "served")
		}
	}
	if broken {
		vfGot(h.hls, "/live/x/index.m3u8", 404, "no playlist")
		nd.Reach("no place")
		return
	}
	if !ends {
		nd.Assert(h.segments(dir, vfGot(h.hls, "/live/x/index.m3u8", 200, "playlist")) >= 1, "segments")
		src.over()
	}
	vfGot(h.hls, "/live/x/index.m3u8", 404, "gone")
	left, _ := os.ReadDir(dir)
	nd.Assert(len(left) == 0, "nothing is left behind")
	src = h.source(0, nil)
	src.picture(0, []byte{0x65, 1, 2, 3})
	c := nd.Get(h.hls, "/live/x/index.m3u8")
	nd.Quiesce()
	src.picture(2500, []byte{0x65, 4, 5, 6})
	src.picture(5000, []byte{0x65, 7, 8, 9})
	st, body, over := c.Take()
	nd.Assert(over && st == 200 && h.segments(dir, body) >= 1, "the next stream is served")
	vfGot(h.hls, "/live/x/index.mpd", 200, "manifest")
	nd.Reach("end")
}
