package librtmp

import (
	"bytes"
	"io"
	"sync"

	"github.com/SmartBrave/Athena/easyio"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfTag is a frame or header as it is published.
type vfTag struct {
	typ  byte
	time uint32
	body []byte
	key  bool
}

func (t *vfTag) publish(r *RTMP, c *vfConn) {
	c.in = append(c.in, vfSplitMsg(t.typ, t.time, t.body, 128)...)
	nd.Assert(ParseMessage(r) == nil, "published")
}

// vfTime draws a time, a long one only where it is asked for: each one
// that may need the extended form doubles the cases.
func vfTime(label string, long bool) uint32 {
	t := nd.U32(label)
	if !long && nd.Bound(1, 0) > 0 {
		nd.Assume(t < 0xffffff)
	}
	return t
}

// vfFrameTag draws a frame with any time.
func vfFrameTag(label string, long bool) *vfTag {
	t := &vfTag{time: vfTime(label+" time", long), typ: 9}
	switch nd.Pick(label, 0, 2) {
	case 0:
		t.key = true
		t.body = append([]byte{0x17, 1, 0, 0, nd.U8("cts")}, nd.Bytes(label+" data", 1)...)
	case 1:
		t.body = append([]byte{0x27, 1, 0, 0, nd.U8("cts")}, nd.Bytes(label+" data", 2)...)
	default:
		t.typ = 8
		t.body = append([]byte{0xaf, 1}, nd.Bytes(label+" data", 1)...)
	}
	return t
}

func vfHeaders() []*vfTag {
	h := []*vfTag{
		{typ: 18, body: append([]byte{2, 0, 1}, 'm', 5)},
		{typ: 9, time: vfTime("video header time", false), body: append([]byte{0x17, 0, 0, 0, 0}, nd.Bytes("avcC", 2)...)},
		{typ: 8, time: vfTime("audio header time", false), body: []byte{0xaf, 0, 0x12, nd.U8("asc") & 0x78}},
	}
	return h
}

// vfStreamSeen tells what a player joining before frames[at] is to see:
// everything from the last key frame on.
func vfStreamSeen(frames []*vfTag, at int) []*vfTag {
	from := 0
	for i := 0; i < at; i++ {
		if frames[i].key {
			from = i
		}
	}
	return frames[from:]
}

// vfCheckJoin holds what arrived against the headers and frames.
func vfCheckJoin(got, heads, frames []*vfTag) {
	nd.Assert(len(got) == len(heads)+len(frames), "headers and everything from the last key frame on, once")
	for i, w := range append(append([]*vfTag{}, heads...), frames...) {
		g := got[i]
		nd.Assert(g.typ == w.typ, "newest headers, then the stream in order")
		nd.Assert(g.time == w.time, "times")
		if w.typ == 18 {
			//written anew (C08): the name, then the values
			nd.Assert(len(g.body) > 3 && g.body[0] == 2 && g.body[1] == 0, "metadata")
			continue
		}
		nd.Assert(nd.Eq(g.body, w.body), "whole")
		nd.Reach("tag")
	}
}

func vfFlvTags(out []byte) (tags []*vfTag) {
	nd.Assert(len(out) >= 13 && string(out[:4]) == "FLV\x01", "FLV header")
	nd.Assert(out[4] == 5 && string(out[5:13]) == "\x00\x00\x00\x09\x00\x00\x00\x00", "FLV header")
	for b := out[13:]; len(b) > 0; {
		nd.Assert(len(b) >= 15, "whole tags")
		n := int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		nd.Assert(len(b) >= 15+n, "whole tags")
		nd.Assert(nd.Eq(b[8:11], []byte{0, 0, 0}), "stream id")
		nd.Assert(nd.Eq(b[11+n:15+n], vfB32(uint32(11+n))), "previous tag size")
		tags = append(tags, &vfTag{typ: b[0], time: uint32(b[7])<<24 | uint32(b[4])<<16 | uint32(b[5])<<8 | uint32(b[6]), body: b[11 : 11+n]})
		b = b[15+n:]
	}
	return tags
}

// vfStage publishes what precedes a join.
func vfStage() (srv *server, r *RTMP, c *vfConn, heads, frames []*vfTag, at int) {
	srv = NewServer(":0", "live")
	r, c = vfSession(srv, "live")
	nd.Assert(c.do(r, "publish", "x") == nil, "publishing")
	all := vfHeaders()
	missing := nd.Pick("missing", 0, 3)
	for i, h := range all {
		if i+1 != missing {
			h.publish(r, c)
			heads = append(heads, h)
		} else {
			nd.Reach("a header is missing")
		}
	}
	n := nd.Bound(3, 4)
	if missing > 0 {
		n--
	}
	at = nd.Pick("join", 0, n)
	renew := 0
	if missing == 0 || nd.Bound(0, 1) > 0 {
		renew = nd.Pick("new header", 0, 2) //none, before or after the join
	}
	if renew > 0 && nd.Bound(1, 0) > 0 {
		n--
	}
	nd.Assume(renew == 0 || at > 0 && at < n)
	for i := 0; i < n; i++ {
		if renew > 0 && i == at {
			//a publisher may say its headers anew
			k := nd.Pick("kind", 1, 2)
			t := &vfTag{typ: byte(10 - k), time: vfTime("new time", false)}
			if k == 1 {
				t.body = append([]byte{0x17, 0, 0, 0, 0}, nd.Bytes("new avcC", 2)...)
			} else {
				t.body = []byte{0xaf, 0, 0x11, nd.U8("new asc") & 0x78}
			}
			var h []*vfTag
			for _, old := range all {
				if old.typ == t.typ {
					h = append(h, t)
				} else if missing == 0 || old != all[missing-1] {
					h = append(h, old)
				}
			}
			frames = append(frames, t)
			if renew == 1 {
				heads = h
				at++
			}
			renew = 0
			nd.Reach("new header")
		}
		frames = append(frames, vfFrameTag("frame", i == n-1))
	}
	for _, f := range frames[:at] {
		f.publish(r, c)
	}
	c.out = nil
	return
}

// A viewer over HTTP.
//
//vf:prop C29
//vf:bounds three (thorough four) frames, each key, inter or audio, with every data and time (below 2^24 in quick but for the last frame), metadata or either header missing, a viewer joining before, between or after them, either header renewed just before or after that or not
func VfJoinFLV() {
	srv, r, c, heads, frames, at := vfStage()
	w := &vfConn{}
	done := make(chan struct{})
	go func() {
		srv.apps["live"].Load("x").FLVJoin(easyio.NewEasyWriter(w))
		close(done)
	}()
	nd.Quiesce()
	for _, f := range frames[at:] {
		f.publish(r, c)
		nd.Quiesce()
	}
	nd.Assert(ParseMessage(r) == io.EOF, "the publisher leaves")
	r.cleanup()
	<-done
	vfCheckJoin(vfFlvTags(w.out), heads, vfStreamSeen(frames, at))
	nd.Reach("end")
}

// A player over RTMP.
//
//vf:prop C29
//vf:bounds as for a viewer over HTTP
func VfJoinRTMP() {
	srv, r, c, heads, frames, at := vfStage()
	p, pc := vfSession(srv, "live")
	nd.Assert(pc.do(p, "play", "x") == nil, "playing")
	nd.Quiesce()
	for _, f := range frames[at:] {
		f.publish(r, c)
		nd.Quiesce()
	}
	nd.Assert(ParseMessage(r) == io.EOF, "the publisher leaves")
	r.cleanup()
	nd.Quiesce()
	var got []*vfTag
	for b := pc.out; len(b) > 0; {
		var t vfTag
		_, t.typ, t.time, t.body, b = vfRead(b, 4096)
		if t.typ == 8 || t.typ == 9 || t.typ == 18 {
			got = append(got, &t)
		}
	}
	vfCheckJoin(got, heads, vfStreamSeen(frames, at))
	nd.Reach("end")
}

// A viewer that is slow, or just at its turn, when a GOP begins.
//
//vf:prop C29
//vf:bounds a stream of key and inter frames, three of them published without waiting for the viewer that has seen none to two before; one (thorough two) preemptions at any synchronisation point
func VfJoinRace() {
	before := nd.Pick("before", 0, 2)
	n := before + 3
	var kinds []int
	for i := 0; i < n; i++ {
		kinds = append(kinds, nd.Pick("kind", 1, 2))
	}
	one := func() {
		srv := NewServer(":0", "live")
		r, c := vfSession(srv, "live")
		nd.Assert(c.do(r, "publish", "x") == nil, "publishing")
		for _, h := range vfHeaders0() {
			h.publish(r, c)
		}
		w := &vfConn{}
		done := make(chan struct{})
		room := srv.apps["live"].Load("x")
		go func() {
			room.FLVJoin(easyio.NewEasyWriter(w))
			close(done)
		}()
		nd.Quiesce()
		for i, k := range kinds {
			t := &vfTag{typ: 9, time: uint32(1 + i)}
			t.body = []byte{byte(k)<<4 | 7, 1, 0, 0, 0, 7}
			if i == before {
				nd.Preempt(nd.Bound(1, 2))
			}
			t.publish(r, c)
			if i < before {
				nd.Quiesce()
			}
		}
		nd.Preempt(0)
		nd.Quiesce()
		//then the stream goes on as usual
		for i := 0; i < 2; i++ {
			t := &vfTag{typ: 9, time: uint32(1 + n + i), body: []byte{0x27, 1, 0, 0, 0, 7}}
			t.publish(r, c)
			nd.Quiesce()
		}
		r.cleanup()
		<-done
		got := vfFlvTags(w.out)
		nd.Assert(len(got) >= 3, "headers")
		last := 0
		for _, t := range got[3:] {
			nd.Assert(int(t.time) > last, "nothing twice or out of order")
			key := t.typ == 9 && t.body[0] == 0x17
			nd.Assert(int(t.time) == last+1 || key, "nothing is left out but whole tails of GOPs")
			last = int(t.time)
		}
		nd.Assert(last == n+2, "up to the end")
	}
	if nd.Symbolic() {
		one()
	} else {
		var wg sync.WaitGroup
		for i := 0; i < 200; i++ {
			wg.Add(1)
			go func() {
				one()
				wg.Done()
			}()
		}
		wg.Wait()
	}
	nd.Reach("end")
}

func vfHeaders0() []*vfTag {
	return []*vfTag{
		{typ: 18, body: append([]byte{2, 0, 1}, 'm', 5)},
		{typ: 9, body: []byte{0x17, 0, 0, 0, 0, 1}},
		{typ: 8, body: []byte{0xaf, 0, 0x12, 0x10}},
	}
}

// A viewer that is there before the stream has begun, or early.
//
//vf:prop C29
//vf:bounds three (thorough four) tags, each metadata, either header, a key, inter or audio frame, with any content; a viewer over RTMP or HTTP that joins before, between or after them; then a key frame or none, and the end
func VfJoinEarly() {
	srv := NewServer(":0", "live")
	r, c := vfSession(srv, "live")
	nd.Assert(c.do(r, "publish", "x") == nil, "publishing")
	n := nd.Bound(3, 4)
	at := nd.Pick("join", 0, n)
	flv := nd.Bool("flv")
	w := &vfConn{}
	p, pc := vfSession(srv, "live")
	done := make(chan struct{})
	var frames []*vfTag
	joined := 0
	newest := map[byte]*vfTag{}
	isHead := func(t *vfTag) bool { return t.typ == 18 || t.body[1] == 0 }
	due := map[*vfTag]*vfTag{} //the header in force
	join := func() {
		joined = len(frames)
		if flv {
			go func() {
				srv.apps["live"].Load("x").FLVJoin(easyio.NewEasyWriter(w))
				close(done)
			}()
		} else {
			nd.Assert(pc.do(p, "play", "x") == nil, "playing")
			close(done)
		}
		nd.Quiesce()
	}
	for i := 0; i <= n; i++ {
		if i == at {
			join()
		}
		kind := 3
		if i < n {
			kind = nd.Pick("kind", 0, 5)
		} else if nd.Bool("no key frame") {
			break
		}
		t := &vfTag{typ: 9, time: uint32(i)}
		x := nd.U8("content")
		switch kind {
		case 0:
			t.typ, t.body = 18, []byte{2, 0, 1, 'm', 5}
		case 1:
			t.body = []byte{0x17, 0, 0, 0, 0, x, 1}
		case 2:
			t.typ, t.body = 8, []byte{0xaf, 0, 0x12, x & 0x78}
		case 3:
			t.key, t.body = true, []byte{0x17, 1, 0, 0, 0, x}
		case 4:
			t.body = []byte{0x27, 1, 0, 0, 0, x}
		case 5:
			t.typ, t.body = 8, []byte{0xaf, 1, x}
		}
		t.publish(r, c)
		nd.Quiesce()
		if isHead(t) {
			newest[t.typ] = t
			continue
		}
		due[t] = newest[t.typ]
		frames = append(frames, t)
	}
	nd.Assert(ParseMessage(r) == io.EOF, "the publisher leaves")
	r.cleanup()
	<-done
	nd.Quiesce()
	var got []*vfTag
	if flv {
		got = vfFlvTags(w.out)
	} else {
		over := false
		for b := pc.out; len(b) > 0; {
			var t vfTag
			_, t.typ, t.time, t.body, b = vfRead(b, 4096)
			if t.typ == 8 || t.typ == 9 || t.typ == 18 {
				got = append(got, &t)
			}
			over = over || t.typ == 20 && bytes.Contains(t.body, []byte("NetStream.Play.UnpublishNotify"))
		}
		nd.Assert(over, "the player learns the end")
	}
	//every frame from the last key frame before the join on, and the
	//headers they need before them
	want := vfStreamSeen(frames, joined)
	live := len(want) - (len(frames) - joined)
	last := map[byte]*vfTag{}
	k := 0
	for _, g := range got {
		if isHead(g) {
			last[g.typ] = g
			continue
		}
		nd.Assert(k < len(want), "no frame twice")
		f := want[k]
		nd.Assert(g.typ == f.typ && g.time == f.time && nd.Eq(g.body, f.body), "whole and in order")
		if h := due[f]; h != nil {
			nd.Assert(last[f.typ] != nil, "a header before the frames")
			if k >= live {
				nd.Assert(nd.Eq(last[f.typ].body, h.body), "the header in force")
				nd.Reach("live")
			}
		}
		k++
	}
	nd.Assert(k == len(want), "every frame")
	if len(want) > 0 {
		nd.Assert(len(last) == len(newest), "every header")
		for typ, h := range newest {
			nd.Assert(last[typ].time == h.time, "the newest header")
		}
	}
	nd.Reach("end")
}
