package librtmp

import (
	"net"

	"github.com/sbraveyoung/GGmpeg/libflv"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

func vfSRTStart(srv *server, name string) int {
	s, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	nd.Assert(err == nil, "a free port")
	_, port, _ := net.SplitHostPort(s.LocalAddr().String())
	n := s.LocalAddr().(*net.UDPAddr).Port
	s.Close()
	srv.WithSRT("127.0.0.1:"+port, "live", name)
	go srv.Handler()
	nd.Quiesce()
	return n
}

// vf33 is a 33-bit clock.
func vf33(label string) uint64 {
	b := nd.Bytes(label, 5)
	return uint64(b[0]&1)<<32 | uint64(b[1])<<24 | uint64(b[2])<<16 | uint64(b[3])<<8 | uint64(b[4])
}

var vfRates = []uint64{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

// vfADTS is a frame of AAC LC.
func vfADTS(rate, channels byte, crc bool, raw []byte) []byte {
	n := 7 + len(raw)
	head := []byte{0xff, 0xf1, 0x40 | rate<<2 | channels>>2, channels << 6, 0, 0x1f, 0xfc}
	if crc {
		n += 2
		head[1] = 0xf0
		head = append(head, 0xab, 0xcd)
	}
	head[3] |= byte(n >> 11)
	head[4] = byte(n >> 3)
	head[5] |= byte(n << 5)
	return append(head, raw...)
}

// vfSRTWant is a frame or a header due.
type vfSRTWant struct {
	header, key bool
	time, cts   uint32
	body        []byte
}

// vfSRTCheck compares one kind of the tags seen.
func vfSRTCheck(tags []libflv.Tag, video bool, want []vfSRTWant) {
	k := 0
	for _, t := range tags {
		v, ok := t.(*libflv.VideoTag)
		if ok != video {
			continue
		}
		nd.Assert(k < len(want), "nothing more is seen")
		w := want[k]
		k++
		b := t.Marshal()
		time := t.GetTagInfo().TimeStamp
		if video {
			nd.Assert(len(b) >= 5 && v.CodecID == 7, "AVC")
			if w.header {
				nd.Assert(b[0] == 0x17 && b[1] == 0, "sequence header")
			} else {
				first := byte(0x27)
				if w.key {
					first = 0x17
				}
				nd.Assert(b[0] == first && b[1] == 1, "picture, key or not")
				nd.Assert(time == w.time, "decoding time")
				cts := uint32(b[2])<<16 | uint32(b[3])<<8 | uint32(b[4])
				nd.Assert(cts == w.cts, "composition time")
			}
			b = b[5:]
		} else {
			nd.Assert(len(b) >= 2 && b[0]>>4 == 10, "AAC")
			if w.header {
				nd.Assert(b[1] == 0, "sequence header")
			} else {
				nd.Assert(b[1] == 1 && time == w.time, "raw frame, its time")
			}
			b = b[2:]
		}
		nd.Assert(len(b) == len(w.body) && nd.Eq(b, w.body), "content")
	}
	nd.Assert(k == len(want), "everything is seen")
}

func vfDCRof(sps, pps []byte) []byte {
	b := append([]byte{1, sps[1], sps[2], sps[3], 0xff, 0xe1, 0, byte(len(sps))}, sps...)
	b = append(b, 1, 0, byte(len(pps)))
	return append(b, pps...)
}

// A stream published over SRT.
//
//vf:prop C31
//vf:bounds two sessions one after the other, of three (thorough four) units and of two of one kind: key pictures with the same or other parameter sets, other pictures, with an SEI or not, or one or two AAC frames with or without CRC of either of two configurations; any content and 33-bit times
func VfSRTPublish() {
	srv := NewServer(":0", "live")
	port := vfSRTStart(srv, "x")
	nd.Assert(srv.apps["live"].Load("x") == nil, "no stream without a caller")
	total := nd.Bound(3, 4)
	for session := 0; session < 2; session++ {
		c := vfSRTDial(port)
		c.tables()
		room := srv.apps["live"].Load("x")
		nd.Assert(room != nil, "the stream exists")
		seen := vfWatch(room)
		var vw, aw []vfSRTWant
		var sps, pps []byte
		lastRate := byte(255)
		kind := 0
		for i := 0; i < total; i++ {
			if session == 0 || i == 0 {
				kind = nd.Pick("unit", 0, 2)
			}
			pts := vf33("pts")
			if kind < 2 {
				var es, body []byte
				put := func(nal []byte, code int) {
					es = append(es, []byte{0, 0, 0, 1}[4-code:]...)
					es = append(es, nal...)
					if t := nal[0] & 31; t != 7 && t != 8 && t != 9 {
						body = append(body, 0, 0, 0, byte(len(nal)))
						body = append(body, nal...)
					}
				}
				typ := byte(0x41)
				if kind == 0 {
					typ = 0x65
					v := byte(i) & 1 // each second key picture may bring others
					s := []byte{0x67, 0x42, 0xc0, 0x1e, nd.U8("sps")&0x0f | 0x10<<v}
					p := []byte{0x68, 0xce + v}
					if sps != nil && i == 1 && nd.Bool("same sets") {
						s, p = sps, pps
					}
					put(s, 4)
					put(p, 4)
					if sps == nil || s[4] != sps[4] || p[1] != pps[1] {
						vw = append(vw, vfSRTWant{header: true, body: vfDCRof(s, p)})
					}
					sps, pps = s, p
				} else if sps == nil {
					//a caller joined between key pictures
					nd.Reach("early")
				}
				if i == 0 {
					put([]byte{0x06, 5, nd.U8("sei") | 1}, 3)
				}
				put([]byte{typ, nd.U8("slice"), nd.U8("slice") | 1}, 3)
				dts := pts
				both := i == 1
				cts := uint32(0)
				if both {
					delta := uint64(nd.U8("ahead")) * 90
					pts = (dts + delta) & (1<<33 - 1)
					cts = uint32(delta / 90)
				}
				vw = append(vw, vfSRTWant{key: kind == 0, time: uint32(dts / 90), cts: cts, body: body})
				c.pes(0x100, vfPES(0xe0, pts, dts, both, 0, es))
			} else {
				rate := byte(4)
				if i == 2 && nd.Pick("other configuration", 0, 1) == 1 {
					rate = 3
				}
				var es []byte
				if rate != lastRate {
					aw = append(aw, vfSRTWant{header: true, body: []byte{2<<3 | rate>>1, rate<<7 | 2<<3}})
					lastRate = rate
				}
				n := 1 + i%2
				for k := 0; k < n; k++ {
					raw := nd.Bytes("frame", 2)
					es = append(es, vfADTS(rate, 2, i == 2, raw)...)
					aw = append(aw, vfSRTWant{time: uint32((pts + uint64(k)*1024*90000/vfRates[rate]) / 90), body: raw})
				}
				c.pes(0x101, vfPES(0xc0, pts, pts, false, 0, es))
			}
		}
		//One unit is left when the session ends. (With both, a subscriber
		//might fall behind.)
		if nd.Bool("video left") {
			c.pes(0x101, vfPES(0xc0, 0, 0, false, 0, nil))
		} else {
			c.pes(0x100, vfPES(0xe0, 0, 0, false, 0, nil))
		}
		c.shutdown()
		tags, over := seen.take()
		vfSRTCheck(tags, true, vw)
		vfSRTCheck(tags, false, aw)
		nd.Assert(over, "the end of the session ends the stream")
		nd.Assert(srv.apps["live"].Load("x") == nil, "and frees its name")
		c.c.Close()
		total = 2
	}
	nd.Reach("end")
}

// The name of a stream published over SRT.
//
//vf:prop C31
//vf:bounds a caller and an RTMP publisher of one name, either first, perhaps a stranger at the endpoint who shuts down without having connected; the caller ends, then the other begins
func VfSRTName() {
	srv := NewServer(":0", "live")
	port := vfSRTStart(srv, "x")
	pic := func(c *vfSRT, n int) {
		for i := 0; i < n; i++ {
			c.pes(0x100, vfPES(0xe0, 900, 900, false, 0, []byte{0, 0, 1, 0x41, nd.U8("slice") | 1}))
		}
	}
	if nd.Bool("caller first") {
		c := vfSRTDial(port)
		c.tables()
		room := srv.apps["live"].Load("x")
		nd.Assert(room != nil, "the stream exists")
		seen := vfWatch(room)
		r, rc := vfSession(srv, "live")
		rc.do(r, "publish", "x")
		nd.Assert(srv.apps["live"].Load("x") == room, "a second publisher does not take the stream over")
		nd.Assert(vfStatus(rc.out) != "NetStream.Publish.Start", "and is told so")
		if d := nd.Pick("stranger", 0, 3); d > 0 {
			//comes and goes at the same endpoint without being connected
			s, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
			nd.Assert(err == nil, "socket")
			x := &vfSRT{c: s, seq: 7}
			if d > 1 {
				_, x.our = x.hello(1, 0)
			}
			if d > 2 {
				x.ts(make([]byte, 188))
			}
			x.shutdown()
			nd.Reach("stranger")
		}
		pic(c, 3)
		tags, over := seen.take()
		nd.Assert(len(tags) == 2 && !over, "the stream goes on")
		c.shutdown()
		tags, over = seen.take()
		nd.Assert(len(tags) == 1 && over, "to its end")
		r, rc = vfSession(srv, "live")
		rc.do(r, "publish", "x")
		nd.Assert(vfStatus(rc.out) == "NetStream.Publish.Start", "then the name is free")
		nd.Reach("caller first")
		return
	}
	r, rc := vfSession(srv, "live")
	rc.do(r, "publish", "x")
	room := srv.apps["live"].Load("x")
	nd.Assert(room != nil, "the stream exists")
	seen := vfWatch(room)
	c := vfSRTDial(port)
	c.tables()
	pic(c, 3)
	c.shutdown()
	nd.Assert(srv.apps["live"].Load("x") == room, "a caller does not take the stream over")
	tags, over := seen.take()
	nd.Assert(len(tags) == 0 && !over, "or disturb it")
	nd.Reach("publisher first")
}

// Damaged elementary streams.
//
//vf:prop C31
//vf:bounds an access unit or audio packet of any 0..8 (thorough 12) bytes after a start code or a sync word, then a good one of either kind
func VfSRTHostile() {
	srv := NewServer(":0", "live")
	port := vfSRTStart(srv, "x")
	c := vfSRTDial(port)
	c.tables()
	room := srv.apps["live"].Load("x")
	nd.Assert(room != nil, "the stream exists")
	seen := vfWatch(room)
	any := nd.Bytes("bytes", nd.Pick("length", 0, nd.Bound(8, 12)))
	if nd.Bool("audio") {
		c.pes(0x101, vfPES(0xc0, 900, 900, false, 0, append([]byte{0xff, 0xf1}, any...)))
		nd.Reach("audio")
	} else {
		c.pes(0x100, vfPES(0xe0, 900, 900, false, 0, append([]byte{0, 0, 1}, any...)))
		nd.Reach("video")
	}
	c.pes(0x100, vfPES(0xe0, 9000, 9000, false, 0, []byte{0, 0, 1, 0x41, 7}))
	c.pes(0x101, vfPES(0xc0, 9000, 9000, false, 0, vfADTS(4, 2, false, []byte{1, 2})))
	c.pes(0x100, vfPES(0xe0, 9900, 9900, false, 0, []byte{0, 0, 1, 0x41, 7}))
	c.pes(0x101, vfPES(0xc0, 9900, 9900, false, 0, vfADTS(4, 2, false, []byte{1, 2})))
	tags, over := seen.take()
	nd.Assert(!over && len(tags) >= 2, "the stream goes on")
	v, a := 0, 0
	for _, t := range tags {
		if t.GetTagInfo().TimeStamp != 100 {
			continue
		}
		b := t.Marshal()
		if _, ok := t.(*libflv.VideoTag); ok {
			nd.Assert(nd.Eq(b, []byte{0x27, 1, 0, 0, 0, 0, 0, 0, 2, 0x41, 7}), "the next picture")
			v++
		} else if b[1] == 1 {
			nd.Assert(len(b) == 4 && b[2] == 1 && b[3] == 2, "the next frame")
			a++
		}
	}
	nd.Assert(v == 1 && a == 1, "with what follows")
	nd.Reach("end")
}

// Odd but valid elementary streams.
//
//vf:prop C31
//vf:bounds after a key picture, a second picture with either or both parameter sets changed, sent alone or together; or one or two NAL units of five types and of one or two bytes, after 3 or 4-byte start codes, before the slice; or an AAC frame of 1 to 4,100 bytes and another of 6, of any rate or 1 to 7 channels
func VfSRTShapes() {
	srv := NewServer(":0", "live")
	port := vfSRTStart(srv, "x")
	c := vfSRTDial(port)
	c.tables()
	room := srv.apps["live"].Load("x")
	nd.Assert(room != nil, "the stream exists")
	seen := vfWatch(room)
	var es, body []byte
	put := func(nal []byte, code int) {
		es = append(es, []byte{0, 0, 0, 1}[4-code:]...)
		es = append(es, nal...)
		if nal[0]&31 != 7 && nal[0]&31 != 8 {
			body = append(body, 0, 0, 0, byte(len(nal)))
			body = append(body, nal...)
		}
	}
	sps, pps := []byte{0x67, 0x42, 0xc0, 0x1e, 0x95}, []byte{0x68, 0xce}
	put(sps, 4)
	put(pps, 3)
	put([]byte{0x65, 1, nd.U8("slice") | 1}, 3)
	vw := []vfSRTWant{{header: true, body: vfDCRof(sps, pps)}, {key: true, time: 10, body: body}}
	var aw []vfSRTWant
	c.pes(0x100, vfPES(0xe0, 900, 900, false, 0, es))
	es, body = nil, nil
	switch nd.Pick("what", 0, 2) {
	case 0:
		change := nd.Pick("changed", 1, 3)
		both := nd.Bool("both sent")
		if change&1 != 0 {
			sps = []byte{0x67, 0x4d, 0x40, 0x1f, 0x96}
		}
		if change&2 != 0 {
			pps = []byte{0x68, 0xee, 0x3c}
		}
		if both || change&1 != 0 {
			put(sps, 4)
		}
		if both || change&2 != 0 {
			put(pps, 4)
		}
		put([]byte{0x65, 2, nd.U8("slice") | 1}, 3)
		vw = append(vw, vfSRTWant{header: true, body: vfDCRof(sps, pps)}, vfSRTWant{key: true, time: 20, body: body})
		c.pes(0x100, vfPES(0xe0, 1800, 1800, false, 0, es))
		nd.Reach("sets")
	case 1:
		key := false
		for n := nd.Pick("units", 1, 2); n > 0; n-- {
			t := []byte{1, 5, 6, 10, 12}[nd.Pick("type", 0, 4)]
			nal := []byte{0x20 | t}
			if nd.Bool("two bytes") {
				nal = append(nal, nd.U8("byte")|1)
			}
			key = key || t == 5
			put(nal, 3+nd.Pick("code", 0, 1))
		}
		put([]byte{0x41, 2, nd.U8("slice") | 1}, 3)
		vw = append(vw, vfSRTWant{key: key, time: 20, body: body})
		c.pes(0x100, vfPES(0xe0, 1800, 1800, false, 0, es))
		nd.Reach("units")
	case 2:
		//completes the picture: a subscriber might not keep up with all at once
		c.pes(0x100, vfPES(0xe0, 0, 0, false, 0, nil))
		size := []int{1, 300, 2041, 4100}[nd.Pick("size", 0, 3)]
		rate, ch := byte(11), byte(2)
		switch size {
		case 1:
			rate = byte(nd.Pick("rate", 0, 12))
		case 300:
			ch = byte(nd.Pick("channels", 1, 7))
		}
		raw := make([]byte, size)
		for i := range raw {
			raw[i] = byte(i*7 + i>>8)
		}
		raw[size-1] = nd.U8("last")
		small := nd.Bytes("frame", 6)
		c.pes(0x101, vfPES(0xc0, 1800, 1800, false, 0, append(vfADTS(rate, ch, false, raw), vfADTS(rate, ch, true, small)...)))
		aw = append(aw, vfSRTWant{header: true, body: []byte{2<<3 | rate>>1, rate<<7 | ch<<3}}, vfSRTWant{time: 20, body: raw}, vfSRTWant{time: uint32((1800 + 1024*90000/vfRates[rate]) / 90), body: small})
		nd.Reach("audio")
	}
	c.shutdown()
	tags, over := seen.take()
	nd.Assert(over, "the end of the session ends the stream")
	vfSRTCheck(tags, true, vw)
	vfSRTCheck(tags, false, aw)
}
