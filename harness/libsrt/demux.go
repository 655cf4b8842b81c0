package libsrt

import nd "github.com/sbraveyoung/GGmpeg/verifnd"

// vfFeed feeds a PES as packets.
func vfFeedPES(d *Demuxer, pid uint16, pes []byte) {
	start := true
	cc := byte(0)
	for len(pes) > 0 {
		n := vfMin(184, len(pes))
		d.Feed(vfTS(pid, start, cc, pes[:n]))
		pes = pes[n:]
		start = false
		cc++
	}
}

// The tables say which packets are which stream.
//
//vf:prop C26
//vf:bounds every distinct PID of the PMT and of both streams; one program, with or without a network PID before it; the streams in either order, with descriptors or without, another stream among them, other packets between; the tables repeated or the PIDs changed by a later PMT
func VfTables() {
	pmt, video, audio, other := nd.U16("pmt")&0x1fff, nd.U16("video")&0x1fff, nd.U16("audio")&0x1fff, nd.U16("other")&0x1fff
	nd.Assume(nd.And(nd.And(pmt > 0x1f, pmt < 0x1fff), nd.And(video > 0x1f, video < 0x1fff)))
	nd.Assume(nd.And(nd.And(audio > 0x1f, audio < 0x1fff), other > 0))
	nd.Assume(nd.And(nd.And(pmt != video, pmt != audio), video != audio))
	nd.Assume(nd.And(nd.And(other != video, other != audio), other != pmt))
	d := NewDemuxer()
	var aus []AccessUnit
	var frames []AudioFrame
	d.OnVideo = func(a AccessUnit) { aus = append(aus, a) }
	d.OnAudio = func(a AudioFrame) { frames = append(frames, a) }
	var pat []byte
	if nd.Bool("network") {
		pat = append(pat, 0, 0, 0xe0, 0x10)
	}
	prog := nd.U16("program")
	nd.Assume(prog != 0)
	pat = append(pat, byte(prog>>8), byte(prog), 0xe0|byte(pmt>>8), byte(pmt))
	ptr := nd.Pick("pointer", 0, 1) * 3
	d.Feed(vfTS(0, true, 0, vfSection(ptr, 0, 1, pat)))
	info := nd.Pick("program info", 0, 1) * 3
	desc := nd.Pick("descriptors", 0, 1) * 6
	order := nd.Pick("order", 0, 2)
	table := func(video, audio uint16) []byte {
		var m []byte
		m = append(m, 0xe0|byte(video>>8), byte(video), 0xf0, byte(info))
		m = append(m, make([]byte, info)...)
		stream := func(typ byte, pid uint16, desc int) {
			m = append(m, typ, 0xe0|byte(pid>>8), byte(pid), 0xf0, byte(desc))
			m = append(m, make([]byte, desc)...)
		}
		if order == 1 {
			stream(0x0f, audio, desc)
		}
		stream(0x1b, video, 0)
		if order == 2 {
			stream(0x06, other, 4)
		}
		if order != 1 {
			stream(0x0f, audio, desc)
		}
		return vfTS(pmt, true, 0, vfSection(ptr, 2, prog, m))
	}
	//before the tables nothing is known
	d.Feed(vfTS(video, true, 0, vfPES(0xe0, 7, 7, false, 0, []byte{0, 0, 1, 0x41, 9})))
	d.Feed(table(video, audio))
	if nd.Bool("again") {
		if nd.Bool("changed") {
			video, audio = audio, video
		}
		d.Feed(vfTS(0, true, 1, vfSection(ptr, 0, 1, pat)))
		d.Feed(table(video, audio))
	}
	v1 := append([]byte{0, 0, 0, 1, 0x65}, nd.Bytes("video", 2)...)
	a1 := nd.Bytes("audio", 9)
	pts := uint64(nd.U32("pts"))
	vfFeedPES(d, video, vfPES(0xe0, pts, pts, false, 0, v1))
	d.Feed(vfTS(other, nd.Bool("other start"), 0, []byte{0, 0, 1, 0xe0, 0, 0, 0x80, 0, 0, 1, 2, 3}))
	vfFeedPES(d, audio, vfPES(0xc0, pts+5, 0, false, 0, a1))
	d.Feed(vfTS(0x1fff, false, 0, nil))
	vfFeedPES(d, video, vfPES(0xe0, 0, 0, false, 0, []byte{0, 0, 1, 0x41, 9}))
	vfFeedPES(d, audio, vfPES(0xc0, 0, 0, false, 0, []byte{1}))
	nd.Assert(len(aus) == 1 && nd.Eq(aus[0].NAL, v1), "the access unit, from its stream's packets only")
	nd.Assert(aus[0].PTS == pts && aus[0].DTS == pts && aus[0].Key, "its times")
	nd.Assert(len(frames) == 1 && nd.Eq(frames[0].Data, a1) && frames[0].PTS == pts+5, "the audio frame")
	nd.Reach("end")
}

// Units split over packets.
//
//vf:prop C26
//vf:bounds three (thorough four) units, video or audio, of 11 bytes, of 170 (a packet and no room left or a little more than that) or of 400 (three packets), any 33-bit times, with and without decoding times and header stuffing, in datagrams of one or seven packets, packets without payload among the latter, the audio's packets in the middle of a picture or after it; an access unit of two NAL units of any types after 3 or 4-byte start codes
func VfUnits() {
	d := NewDemuxer()
	type unit struct {
		video    bool
		pts, dts uint64
		key      bool
		data     []byte
	}
	var got, want []unit
	d.OnVideo = func(a AccessUnit) { got = append(got, unit{true, a.PTS, a.DTS, a.Key, a.NAL}) }
	d.OnAudio = func(a AudioFrame) { got = append(got, unit{false, a.PTS, a.PTS, false, a.Data}) }
	d.Feed(vfTS(0, true, 0, vfSection(0, 0, 1, []byte{0, 1, 0xf0, 0x00})))
	d.Feed(vfTS(0x1000, true, 0, vfSection(0, 2, 1, []byte{0xe1, 0, 0xf0, 0, 0x1b, 0xe1, 0, 0xf0, 0, 0x0f, 0xe1, 1, 0xf0, 0})))
	var queue []byte
	group := 1
	if nd.Bool("grouped") {
		group = 7
	}
	send := func(p []byte) {
		queue = append(queue, p...)
		if group > 1 && len(queue) == 2*188 {
			//a packet that only has an adaptation field, such as for a PCR
			only := vfTS(0x100, false, 0, nil)
			only[3] = 0x20
			queue = append(queue, only...)
		}
		if len(queue) >= group*188 {
			d.Feed(queue)
			queue = nil
		}
	}
	packets := func(pid uint16, pes []byte) (out [][]byte) {
		for i := 0; len(pes) > 0; i++ {
			n := vfMin(184, len(pes))
			out = append(out, vfTS(pid, i == 0, byte(i), pes[:n]))
			pes = pes[n:]
		}
		return
	}
	var held [][]byte //the rest of a picture
	n := nd.Bound(3, 4)
	inside := nd.Bool("audio inside")
	for i := 0; i <= n; i++ {
		u := unit{video: true}
		//the last ones only complete the others
		if i < n {
			u.video = nd.Bool("video")
		}
		size := 8
		if i < 2 {
			size = []int{8, 170, 400}[nd.Pick("size", 0, 2)]
		}
		u.pts = uint64(nd.U32("pts"))<<1 | uint64(nd.U8("pts low"))&1
		u.dts = u.pts
		both := false
		if u.video {
			if i != 1 {
				both = true

				u.dts = uint64(nd.U32("dts"))<<1 | uint64(nd.U8("dts low"))&1
			}
			h1, h2 := byte(0x09), byte(0x41)
			if i == 0 {
				h1 = nd.U8("nal")
			}
			if i < n {
				h2 = nd.U8("nal")
			}
			nd.Assume(nd.And(h1&31 != 0, h2&31 != 0))
			u.data = []byte{0, 0, 0, 1, h1, 7, 0, 0, 1, h2}
			u.key = nd.Or(h1&31 == 5, h2&31 == 5)
		} else {
			u.data = []byte{0xff}
		}
		u.data = append(u.data, nd.U8("byte")|1)
		for len(u.data) < size {
			u.data = append(u.data, byte(len(u.data))|1)
		}
		if u.video {
			for _, p := range held {
				send(p)
			}
			ps := packets(0x100, vfPES(0xe0, u.pts, u.dts, both, 0, u.data))
			k := len(ps)
			if inside && k > 1 {
				k = 1
			}
			for _, p := range ps[:k] {
				send(p)
			}
			held = ps[k:]
		} else {
			for _, p := range packets(0x101, vfPES(0xc0, u.pts, 0, false, i%2*4, u.data)) {
				send(p)
			}
		}
		want = append(want, u)
	}
	d.Feed(queue)
	d.Feed(vfTS(0x101, true, 0, vfPES(0xc0, 0, 0, false, 0, []byte{1})))
	//the two streams are each in order; the last picture is still open
	for _, video := range []bool{true, false} {
		k := 0
		for i, w := range want {
			if w.video != video || i == n {
				continue
			}
			for k < len(got) && got[k].video != video {
				k++
			}
			nd.Assert(k < len(got), "every unit is delivered")
			g := got[k]
			nd.Assert(g.pts == w.pts && g.dts == w.dts, "with its times")
			nd.Assert(len(g.data) == len(w.data) && nd.Eq(g.data, w.data), "byte for byte")
			nd.Assert(g.key == w.key, "a key frame is one with an IDR picture")
			k++
		}
		for ; k < len(got); k++ {
			nd.Assert(got[k].video != video, "nothing more")
		}
	}
	nd.Reach("end")
}

// Key frames.
//
//vf:prop C26
//vf:bounds an access unit of one to three (thorough four) NAL units of any types and of one to three bytes, each after a 3 or 4-byte start code
func VfKeyFrame() {
	d := NewDemuxer()
	units, key := 0, false
	d.OnVideo = func(a AccessUnit) { units++; key = a.Key }
	d.Feed(vfTS(0, true, 0, vfSection(0, 0, 1, []byte{0, 1, 0xf0, 0x00})))
	d.Feed(vfTS(0x1000, true, 0, vfSection(0, 2, 1, []byte{0xe1, 0, 0xf0, 0, 0x1b, 0xe1, 0, 0xf0, 0})))
	var es []byte
	want := false
	for n := nd.Pick("units", 1, nd.Bound(3, 4)); n > 0; n-- {
		es = append(es, []byte{0, 0, 0, 1}[nd.Pick("code", 0, 1):]...)
		h := nd.U8("nal")
		nd.Assume(h&31 != 0)
		es = append(es, h)
		more := nd.Pick("length", 0, 2)
		if n == 1 && more == 0 {
			more = 1
		}
		for ; more > 0; more-- {
			es = append(es, nd.U8("byte")|2)
		}
		want = nd.Or(want, h&31 == 5)
	}
	vfFeedPES(d, 0x100, vfPES(0xe0, 1, 1, false, 0, es))
	vfFeedPES(d, 0x100, vfPES(0xe0, 2, 2, false, 0, []byte{0, 0, 1, 0x41, 9}))
	nd.Assert(units == 1 && key == want, "a key frame is one with an IDR picture")
	nd.Reach("end")
}

// Joining in the middle and damaged headers.
//
//vf:prop C26
//vf:bounds up to two packets without a start before a unit, and a unit with any damaged PES start code followed by the rest of it
func VfMiddle() {
	d := NewDemuxer()
	units := 0
	var last []byte
	d.OnVideo = func(a AccessUnit) { units++; last = a.NAL }
	d.OnAudio = func(a AudioFrame) { units++; last = a.Data }
	d.Feed(vfTS(0, true, 0, vfSection(0, 0, 1, []byte{0, 1, 0xf0, 0x00})))
	d.Feed(vfTS(0x1000, true, 0, vfSection(0, 2, 1, []byte{0xe1, 0, 0xf0, 0, 0x1b, 0xe1, 0, 0xf0, 0, 0x0f, 0xe1, 1, 0xf0, 0})))
	pid, id := uint16(0x100), byte(0xe0)
	if nd.Bool("audio") {
		pid, id = 0x101, 0xc0
	}
	for i := nd.Pick("rests", 0, 2); i > 0; i-- {
		d.Feed(vfTS(pid, false, 0, nd.Bytes("rest", 3)))
	}
	good := append([]byte{0, 0, 1, 0x41}, nd.U8("byte")|1)
	d.Feed(vfTS(pid, true, 0, vfPES(id, 1, 1, false, 0, good)))
	if nd.Bool("damaged") {
		bad := vfPES(id, 1, 1, false, 0, []byte{0, 0, 1, 0x65, 9})
		copy(bad, nd.Bytes("start code", 3))
		nd.Assume(nd.Or(nd.Or(bad[0] != 0, bad[1] != 0), bad[2] != 1))
		d.Feed(vfTS(pid, true, 1, bad))
		nd.Assert(units == 1 && nd.Eq(last, good), "the unit before it")
		d.Feed(vfTS(pid, false, 2, []byte{5, 5, 5}))
		d.Feed(vfTS(pid, true, 3, vfPES(id, 1, 1, false, 0, []byte{1})))
		nd.Assert(units == 1, "no unit without a start")
		nd.Reach("damaged")
	} else {
		d.Feed(vfTS(pid, true, 3, vfPES(id, 1, 1, false, 0, []byte{1})))
		nd.Assert(units == 1 && nd.Eq(last, good), "exactly the unit")
		nd.Reach("joined")
	}
}

// Anything fed.
//
//vf:prop C26
//vf:bounds after well-formed tables, a packet to any of the four PIDs with any flags and either a payload of any 0..16 (thorough 24) bytes or any adaptation field length; any 0..3 bytes; any first byte
//vf:opt steps=2000000
func VfHostileTS() {
	d := NewDemuxer()
	d.OnVideo = func(a AccessUnit) {}
	d.OnAudio = func(a AudioFrame) {}
	d.Feed(vfTS(0, true, 0, vfSection(0, 0, 1, []byte{0, 1, 0xf0, 0x00})))
	d.Feed(vfTS(0x1000, true, 0, vfSection(0, 2, 1, []byte{0xe1, 0, 0xf0, 0, 0x1b, 0xe1, 0, 0xf0, 0, 0x0f, 0xe1, 1, 0xf0, 0})))
	pid := []uint16{0, 0x1000, 0x100, 0x101}[nd.Pick("pid", 0, 3)]
	var p []byte
	switch nd.Pick("what", 0, 3) {
	case 0:
		p = vfTS(pid, nd.Bool("start"), 0, nd.Bytes("payload", nd.Pick("length", 0, nd.Bound(16, 24))))
		nd.Reach("payload")
	case 1:
		p = vfTS(pid, true, 0, nil)
		p[3], p[4] = nd.U8("control"), nd.U8("adaptation length")
		nd.Reach("adaptation")
	case 2:
		p = nd.Bytes("short", nd.Pick("length", 0, 3))
	case 3:
		p = vfTS(pid, true, 0, []byte{0, 1, 2})
		p[0] = nd.U8("sync")
	}
	d.Feed(p)
	d.Feed(vfTS(pid, true, 0, []byte{0}))
	nd.Reach("end")
}
