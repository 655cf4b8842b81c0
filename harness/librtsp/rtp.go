package librtsp

import nd "github.com/sbraveyoung/GGmpeg/verifnd"

// vfFragments checks the payloads one NAL unit is sent as against RFC 6184
// (hl 1) or RFC 7798 (hl 2) and returns the unit they stand for.
func vfFragments(nal []byte, ps [][]byte, mtu, hl int) {
	total := 0
	for _, p := range ps {
		nd.Assert(len(p) > 0 && len(p) <= mtu, "payload fits")
	}
	if len(nal) <= mtu {
		nd.Assert(len(ps) == 1 && nd.Eq(ps[0], nal), "sent whole")
		nd.Reach("single")
		return
	}
	nd.Assert(len(ps) >= 2, "fragmented")
	var got []byte
	for i, p := range ps {
		nd.Assert(len(p) > hl+1, "fragment carries data")
		fu := p[hl]
		nd.Assert(fu&0x80 != 0 == (i == 0), "start bit")
		nd.Assert(fu&0x40 != 0 == (i == len(ps)-1), "end bit")
		if hl == 1 {
			nd.Assert(p[0] == nal[0]&0xe0|28 && fu&0x3f == nal[0]&0x1f, "FU-A headers")
		} else {
			nd.Assert(p[0] == nal[0]&0x81|49<<1 && p[1] == nal[1] && fu&0x3f == nal[0]>>1&0x3f, "FU headers")
		}
		got = append(got, p[hl+1:]...)
		total += len(p)
	}
	nd.Assert(nd.Eq(got, nal[hl:]), "every byte once, in order")
	nd.Reach("fragmented")
}

func vfNal(label string, min, max int) []byte {
	n := nd.Pick(label+" len", min, max)
	b := nd.Bytes(label, n)
	t := b[0] & 0x1f
	nd.Assume(nd.And(t >= 1, t <= 23))
	return b
}

// One H.264 unit.
//
//vf:prop C18
//vf:bounds every NAL unit of 1..14 (thorough 24) bytes, limits of 3..8 (thorough 12) bytes, and the default limit at its boundary (1399..1402, 2796..2798 bytes)
func VfH264Pack() {
	mtu := nd.Pick("mtu", 3, nd.Bound(8, 12))
	nal := vfNal("nal", 1, nd.Bound(14, 24))
	vfFragments(nal, PackNAL(append([]byte(nil), nal...), mtu), mtu, 1)
	if mtu == 3 {
		n := []int{1399, 1400, 1401, 1402, 2796, 2797, 2798}[nd.Pick("long", 0, 6)]
		big := append(append([]byte{}, nal...), make([]byte, n-len(nal))...)
		big[n-1] = 7
		vfFragments(big, PackNAL(big, nd.Pick("default", -1, 0)), DefaultMTU, 1)
	}
	nd.Assert(len(PackNAL(nil, mtu)) == 0, "nothing from nothing")
}

// One H.265 unit.
//
//vf:prop C18
//vf:bounds every NAL unit of 2..14 (thorough 24) bytes, limits of 4..9 (thorough 12) bytes, and the default limit at its boundary
func VfHevcPack() {
	mtu := nd.Pick("mtu", 4, nd.Bound(9, 12))
	nal := nd.Bytes("nal", nd.Pick("len", 2, nd.Bound(14, 24)))
	vfFragments(nal, PackHEVCNAL(append([]byte(nil), nal...), mtu), mtu, 2)
	if mtu == 4 {
		n := []int{1399, 1400, 1401, 1402, 1403, 2795, 2796, 2797}[nd.Pick("long", 0, 7)]
		big := append(append([]byte{}, nal...), make([]byte, n-len(nal))...)
		big[n-1] = 7
		vfFragments(big, PackHEVCNAL(big, nd.Pick("default", -1, 0)), DefaultMTU, 2)
	}
	nd.Assert(len(PackHEVCNAL(nal[:1], mtu)) == 0 && len(PackHEVCNAL(nil, mtu)) == 0, "nothing from nothing")
}

// Access units through packets and back.
//
//vf:prop C18
//vf:bounds 1..2 access units of 1..2 (thorough 3) H.264 units of 1..7 arbitrary bytes, limit 4 bytes; every sequence number, source, payload type and timestamp
func VfH264RoundTrip() {
	l := &vfLink{p: vfPacker()}
	ra := &H264Reassembler{}
	for a, n := 0, nd.Pick("aus", 1, 2); a < n; a++ {
		l.ts = nd.U32("ts")
		var nals [][]byte
		for i, k := 0, nd.Pick("nals", 1, nd.Bound(2, 3)); i < k; i++ {
			nals = append(nals, vfNal("nal", 1, 7))
		}
		for i, nal := range nals {
			ps := PackNAL(nal, 4)
			for j, p := range ps {
				last := i == len(nals)-1 && j == len(ps)-1
				pkt, _ := l.send(last, p)
				got, ts := ra.Push(pkt)
				if !last {
					nd.Assert(got == nil, "access unit not complete yet")
					continue
				}
				nd.Assert(len(got) == len(nals) && ts == l.ts, "access unit with its time")
				for x := range got {
					nd.Assert(nd.Eq(got[x], nals[x]), "same NAL unit")
				}
				nd.Reach("complete")
			}
		}
	}
}

// Whatever mix of packet kinds a publisher uses, and any packet lost.
//
//vf:prop C18
//vf:bounds 2..3 groups, each a single unit, an aggregate of 1..2, or a unit in 2..3 fragments with arbitrary splits, of arbitrary bytes; none or any one packet but the last lost; the rest of the packet after the units is a stray length
func VfH264Mixed() {
	l := &vfLink{p: vfPacker(), drop: map[int]bool{}}
	l.ts = nd.U32("ts")
	lost := nd.Pick("lost", -1, 4)
	ra := &H264Reassembler{}
	var want [][]byte
	groups := nd.Pick("groups", 2, nd.Bound(2, 3))
	if lost >= 0 {
		l.drop[lost] = true
	}
	var got [][]byte
	done := false
	push := func(marker bool, payload []byte) bool {
		if marker {
			l.drop[l.n] = false
		}
		pkt, ok := l.send(marker, payload)
		if !ok {
			nd.Reach("lost")
			return false
		}
		nals, ts := ra.Push(pkt)
		nd.Assert(marker || nals == nil, "only at the marker")
		if nals != nil {
			nd.Assert(ts == l.ts, "time")
			got = nals
			done = true
		}
		return true
	}
	for g := 0; g < groups; g++ {
		last := g == groups-1
		switch nd.Pick("kind", 0, 2) {
		case 0:
			nal := vfNal("nal", 1, 2)
			if push(last, nal) {
				want = append(want, nal)
			}
		case 1:
			p := []byte{24 | nd.U8("nri")&0x60}
			var in [][]byte
			for i, k := 0, nd.Pick("in", 1, 2); i < k; i++ {
				nal := vfNal("nal", 1, 2)
				in = append(in, nal)
				p = append(append(p, 0, byte(len(nal))), nal...)
			}
			switch nd.Pick("rest", 0, 2) {
			case 1:
				p = append(p, 0)
			case 2:
				p = append(p, 0, 9, 1)
			}
			if push(last, p) {
				want = append(want, in...)
			}
		case 2:
			nal := vfNal("nal", 4, 4)
			ok := true
			k := nd.Pick("parts", 2, 3)
			body := nal[1:]
			for i := 0; i < k; i++ {
				n := 1
				if i == k-1 {
					n = len(body)
				}
				h := nal[0] & 0x1f
				if i == 0 {
					h |= 0x80
				}
				if i == k-1 {
					h |= 0x40
				}
				p := append([]byte{nal[0]&0xe0 | 28, h}, body[:n]...)
				body = body[n:]
				if !push(last && i == k-1, p) {
					ok = false
				}
			}
			if ok {
				want = append(want, nal)
			}
		}
	}
	if len(want) > 0 {
		nd.Assert(done, "access unit delivered")
	}
	nd.Assert(len(got) == len(want), "exactly the complete units")
	for i := range want {
		nd.Assert(nd.Eq(got[i], want[i]), "same NAL unit")
	}
	if len(got) > 2 {
		nd.Reach("mixed")
	}
}

// Headers with everything optional.
//
//vf:prop C18
//vf:bounds 0..15 sources, an extension of 0..2 words or none, padding of 1..4 bytes or none, a payload of 0..4 bytes; every cut of the whole packet
func VfParseRTP() {
	b := []byte{0x80, nd.U8("mpt")}
	rest := nd.Bytes("rest", 10)
	b = append(b, rest...)
	cc := nd.Pick("cc", 0, 15)
	b[0] |= byte(cc)
	b = append(b, nd.Bytes("csrc", 4*cc)...)
	if nd.Bool("ext") {
		b[0] |= 0x10
		k := nd.Pick("words", 0, 2)
		b = append(b, nd.U8("profile"), nd.U8("profile"), 0, byte(k))
		b = append(b, nd.Bytes("extension", 4*k)...)
	}
	head := len(b)
	payload := nd.Bytes("payload", nd.Pick("n", 0, 4))
	b = append(b, payload...)
	if nd.Bool("pad") {
		b[0] |= 0x20
		k := nd.Pick("padding", 1, 4)
		b = append(append(b, nd.Bytes("pad", k-1)...), byte(k))
	}
	p, err := ParseRTP(append([]byte(nil), b...))
	nd.Assert(err == nil, "parsed")
	nd.Assert(p.Marker == (b[1]&0x80 != 0) && p.PayloadType == b[1]&0x7f, "marker and type")
	nd.Assert(p.SequenceNum == uint16(rest[0])<<8|uint16(rest[1]), "sequence number")
	nd.Assert(p.Timestamp == uint32(rest[2])<<24|uint32(rest[3])<<16|uint32(rest[4])<<8|uint32(rest[5]), "timestamp")
	nd.Assert(p.SSRC == uint32(rest[6])<<24|uint32(rest[7])<<16|uint32(rest[8])<<8|uint32(rest[9]), "source")
	nd.Assert(nd.Eq(p.Payload, payload), "payload without padding and extension")
	if cc < 2 {
		cut := nd.Pick("cut", 0, head-1)
		if b[0]&0x20 == 0 {
			_, err = ParseRTP(append([]byte(nil), b[:cut]...))
			nd.Assert(err != nil, "truncated header refused")
		}
	}
	nd.Reach("parsed")
}

// No packet is fatal.
//
//vf:prop C18
//vf:bounds one packet of 0..17 (thorough 20) arbitrary bytes, or 2 (thorough 3) plain packets of 1..3 arbitrary payload bytes
func VfTotal() {
	ra := &H264Reassembler{}
	n := nd.Pick("packets", 1, nd.Bound(2, 3))
	for i := 0; i < n; i++ {
		var b []byte
		if n > 1 {
			b = append(append([]byte{0x80}, nd.Bytes("header", 3)...), make([]byte, 8)...)
			b = append(b, nd.Bytes("payload", nd.Pick("len", 1, 3))...)
		} else {
			b = nd.Bytes("packet", nd.Pick("len", 0, nd.Bound(17, 20)))
		}
		p, err := ParseRTP(b)
		if err != nil {
			nd.Reach("refused")
			continue
		}
		nd.Assert(len(p.Payload) <= len(b)-12, "payload within the packet")
		nals, _ := ra.Push(p)
		for _, x := range nals {
			nd.Assert(len(x) <= 16*n, "no more than was sent")
		}
		AACAUExtract(p.Payload)
		nd.Reach("taken")
	}
}

// AAC access units, one per packet from here, any number from publishers.
//
//vf:prop C18
//vf:bounds frames of 1..4 arbitrary bytes or 300, 8190, 8191 bytes; payloads of 1..3 units; ADTS with and without CRC; payloads cut short
func VfAAC() {
	f := nd.Bytes("frame", nd.Pick("len", 1, 4))
	if len(f) == 4 {
		f = append(f, make([]byte, []int{0, 296, 8186, 8187}[nd.Pick("long", 0, 3)])...)
	}
	p := PackAACFrame(f)
	nd.Assert(len(p) == 4+len(f) && p[0] == 0 && p[1] == 16 && int(p[2])<<8|int(p[3]) == len(f)<<3 && nd.Eq(p[4:], f), "one access unit with its size")
	out := AACAUExtract(p)
	nd.Assert(len(out) == 1 && nd.Eq(out[0], f), "same frame")
	nd.Assert(len(PackAACFrame(nil)) == 0, "nothing from nothing")
	if len(f) > 4 {
		return
	}
	k := nd.Pick("units", 1, 3)
	h, body := []byte{0, byte(16 * k)}, []byte(nil)
	var fs [][]byte
	for i := 0; i < k; i++ {
		x := nd.Bytes("unit", nd.Pick("n", 1, 3))
		fs = append(fs, x)
		h = append(h, 0, byte(len(x))<<3|byte(nd.Ite(i > 0, 1, 0)))
		body = append(body, x...)
	}
	cut := nd.Pick("cut", 0, 1)
	out = AACAUExtract(append(h, body[:len(body)-cut]...))
	nd.Assert(len(out) == k-cut, "every complete unit")
	for i := range out {
		nd.Assert(nd.Eq(out[i], fs[i]), "unit in order")
	}
	hd := []byte{0xff, 0xf1, 0x50, 0x80, 1, 0x3f, 0xfc}
	if nd.Bool("crc") {
		hd[1] = 0xf0
		hd = append(hd, nd.U8("crc"), nd.U8("crc"))
	}
	nd.Assert(nd.Eq(AdtsToRaw(append(hd, f...)), f), "ADTS header removed")
	raw := append([]byte{0x21}, append(f, 1, 2, 3, 4, 5, 6)...)
	nd.Assert(nd.Eq(AdtsToRaw(raw), raw), "raw frames untouched")
	nd.Reach("aac")
}

// Framing on the control connection, Opus, AVCC, key frames.
//
//vf:prop C18
//vf:bounds payloads of 0..4 arbitrary bytes, or 256 and 65535; 0..3 units of 0..3 bytes
func VfFraming() {
	p := nd.Bytes("payload", nd.Pick("len", 0, 4))
	if len(p) == 4 {
		p = append(p, make([]byte, []int{0, 252, 65531}[nd.Pick("long", 0, 2)])...)
	}
	ch := nd.U8("channel")
	f := InterleaveFrame(ch, p)
	nd.Assert(len(f) == 4+len(p) && f[0] == '$' && f[1] == ch && int(f[2])<<8|int(f[3]) == len(p) && nd.Eq(f[4:], p), "interleaved frame")
	nd.Assert(nd.Eq(PackOpusFrame(p), p), "Opus packet")
	if len(p) == 4 {
		return
	}
	var nals [][]byte
	var want []byte
	key, hkey := false, false
	for i, k := 0, nd.Pick("nals", 0, 3); i < k; i++ {
		x := nd.Bytes("nal", nd.Pick("n", 0, 3))
		nals = append(nals, x)
		want = append(append(want, 0, 0, 0, byte(len(x))), x...)
		if len(x) > 0 {
			key = nd.Or(key, x[0]&0x1f == 5)
			t := x[0] >> 1 & 0x3f
			hkey = nd.Or(hkey, nd.And(t >= 16, t <= 23))
		}
	}
	nd.Assert(nd.Eq(AVCCFromNALs(nals), want), "length-prefixed units")
	nd.Assert(ContainsKeyframe(nals) == key, "IDR picture")
	nd.Assert(HEVCContainsKeyframe(nals) == hkey, "HEVC random access picture")
	nd.Reach("framed")
}
