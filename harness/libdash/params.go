package libdash

import nd "github.com/sbraveyoung/GGmpeg/verifnd"

// vfBits writes bit fields and Exp-Golomb codes.
type vfBits struct {
	b []byte
	n int
}

func (w *vfBits) put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(v>>uint(i)&1) << uint(7-w.n%8)
		w.n++
	}
}

// ue writes an arbitrary value of the given code length class (2k+1 bits).
func (w *vfBits) ue(label string, k int) uint32 {
	v := uint64(1)<<uint(k) | nd.U64(label)&(1<<uint(k)-1)
	w.put(0, k)
	w.put(v, k+1)
	return uint32(v - 1)
}

func (w *vfBits) set(v uint32) {
	k := 0
	for (v+1)>>uint(k+1) != 0 {
		k++
	}
	w.put(0, k)
	w.put(uint64(v+1), k+1)
}

// vfEscape inserts emulation prevention bytes.
func vfEscape(b []byte) (out []byte) {
	z := 0
	for _, x := range b {
		if z == 2 && x <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, x)
		if x == 0 {
			z++
		} else {
			z = 0
		}
	}
	return
}

func vfAvcRecord(spss [][]byte, pps []byte) []byte {
	r := []byte{1, 0x64, 0, 0x1f, 0xff, 0xe0 | byte(len(spss))}
	for _, s := range spss {
		r = append(append(r, byte(len(s)>>8), byte(len(s))), s...)
	}
	return append(append(r, 1, byte(len(pps)>>8), byte(len(pps))), pps...)
}

func vfDims(init []byte) (w, h int) {
	b := vfBox(vfBox(vfBox(init, "moov"), "trak"), "tkhd")
	return int(vfU32(b[88:]) >> 16), int(vfU32(b[92:]) >> 16)
}

// The picture size and parameter sets of an AVC decoder configuration end up
// in the init segment.
//
//vf:prop C16
//vf:bounds every SPS of baseline/main/high-family profiles without scaling lists; every code length of width and height up to 16384, order count type 0..2 with up to 2 cycle entries, 1..2 SPS, with emulation prevention
func VfAvcDims() {
	w := &vfBits{}
	prof := []uint64{66, 100, 244, 77}[nd.Pick("profile", 0, nd.Bound(2, 3))]
	w.put(0x67, 8)
	w.put(prof, 8)
	w.put(uint64(nd.U8("constraints")), 8)
	w.put(0x1f, 8)
	w.set(uint32(nd.Pick("id", 0, nd.Bound(0, 1))))
	variant := nd.Pick("variant", 0, 3)
	deep := nd.Bound(0, 1) == 1
	if prof >= 100 {
		chroma := uint32(1)
		if variant == 3 {
			chroma = 3
		}
		w.set(chroma)
		if chroma == 3 {
			w.put(uint64(nd.U8("plane")), 1)
		}
		w.ue("luma depth", variant%3)
		w.ue("chroma depth", variant%2)
		w.put(uint64(nd.U8("bypass")), 1)
		w.put(0, 1)
	}
	w.ue("frame num", variant)
	kw := nd.Pick("wbits", 0, 9)
	poc := (kw + variant) % 3
	if deep {
		poc = nd.Pick("poc", 0, 2)
	}
	w.set(uint32(poc))
	switch poc {
	case 0:
		w.ue("poc lsb", 3-variant)
	case 1:
		w.put(1, 1)
		w.ue("offset", variant)
		w.ue("offset", 5)
		n := variant % 3
		if deep {
			n = nd.Pick("cycle", 0, 2)
		}
		w.set(uint32(n))
		for i := 0; i < n; i++ {
			w.ue("cycle offset", 2*i)
		}
	}
	w.ue("refs", variant%2)
	w.put(uint64(nd.U8("gaps")), 1)
	kh := (kw + 5*variant) % 10
	mbw := int(w.ue("w", kw)) + 1
	mbh := int(w.ue("h", kh)) + 1
	frames := nd.U8("frame only") & 1
	w.put(uint64(frames), 1)
	w.put(0x55, 7)
	height := mbh * 16 * (2 - int(frames))
	nd.Assume(nd.And(mbw*16 < 1<<16, height < 1<<16))
	sps := vfEscape(w.b)
	spss := [][]byte{sps}
	if variant == 2 {
		spss = append(spss, []byte{0x67, 66, 0, 10, 0xff, 0xe1})
	}
	r := vfStart(vfHeader(false, vfAvcRecord(spss, vfPps)))
	init := r.d.InitSegment()
	gw, gh := vfDims(init)
	nd.Assert(gw == mbw*16, "width")
	nd.Assert(gh == height, "height")
	f := string(init)
	_ = f
	found := false
	want := append(append([]byte{byte(len(sps) >> 8), byte(len(sps))}, sps...), 1, 0, byte(len(vfPps)))
	want = append(want, vfPps...)
	//the configuration is the tail of the sample description
	stsd := vfBox(vfBox(vfBox(vfBox(vfBox(vfBox(init, "moov"), "trak"), "mdia"), "minf"), "stbl"), "stsd")
	c := vfBox(vfBox(stsd[8:], "avc1")[78:], "avcC")
	found = len(c) == 6+len(want) && nd.Eq(c[6:], want)
	nd.Assert(found, "first SPS and the PPS")
	r.end()
	nd.Reach("dims")
}

// HEVC likewise, the record itself travels unchanged.
//
//vf:prop C16
//vf:bounds every HEVC SPS prefix with 0..2 extra sub-layers (each with or without profile and level), every code length of width and height up to 65535, chroma format 1 or 3, VPS in front or not, with emulation prevention
func VfHevcDims() {
	w := &vfBits{}
	w.put(0x4201, 16)
	w.put(uint64(nd.U8("vps")), 4)
	sub := nd.Pick("sublayers", 0, 2)
	w.put(uint64(sub), 3)
	w.put(1, 1)
	w.put(0x01, 8)
	for i := 0; i < 10; i++ {
		w.put(uint64([]byte{0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0}[i]), 8)
	}
	w.put(120, 8)
	var prof, lev [2]bool
	if sub > 0 {
		for i := 0; i < 8; i++ {
			if i < sub {
				prof[i], lev[i] = nd.Bool("profile"), nd.Bool("level")
				w.put(uint64(nd.Ite(prof[i], 1, 0)), 1)
				w.put(uint64(nd.Ite(lev[i], 1, 0)), 1)
			} else {
				w.put(0, 2)
			}
		}
		for i := 0; i < sub; i++ {
			if prof[i] {
				w.put(0xa5a5a5a5a5a5, 44)
				w.put(0x123456789ab, 44)
			}
			if lev[i] {
				w.put(93, 8)
			}
		}
	}
	kw := nd.Pick("wbits", 0, 15)
	w.set(uint32(kw % 2))
	if kw%3 == 0 {
		w.set(3)
		w.put(uint64(nd.U8("plane")), 1)
	} else {
		w.set(1)
	}
	pw := w.ue("w", kw)
	ph := w.ue("h", (kw+7)%16)
	w.put(0x5, 3)
	nd.Assume(nd.And(pw < 1<<16, ph < 1<<16))
	sps := vfEscape(w.b)
	rec := make([]byte, 23)
	rec[0], rec[1], rec[12], rec[22] = 1, 1, 120, 1
	if nd.Bool("vps first") {
		rec[22] = 2
		rec = append(rec, 0x20, 0, 2, 0, 3, 0x40, 1, 12, 0, 1, 9)
	}
	rec = append(rec, 0x21, 0, 1, byte(len(sps)>>8), byte(len(sps)))
	rec = append(rec, sps...)
	r := vfStart(vfHeader(true, rec))
	gw, gh := vfDims(r.d.InitSegment())
	nd.Assert(gw == int(pw), "width")
	nd.Assert(gh == int(ph), "height")
	stsd := vfBox(vfBox(vfBox(vfBox(vfBox(vfBox(r.d.InitSegment(), "moov"), "trak"), "mdia"), "minf"), "stbl"), "stsd")
	nd.Assert(nd.Eq(vfBox(vfBox(stsd[8:], "hev1")[78:], "hvcC"), rec), "record unchanged")
	r.end()
	nd.Reach("dims")
}

// Damaged configuration records neither panic nor loop, and leave either a
// complete init segment or none.
//
//vf:prop C16
//vf:bounds every AVC record of 0..14 (thorough 16) bytes, and ones whose SPS ends in 2 (thorough 4) arbitrary bytes behind every valid prefix length
func VfAvcTotal() {
	var rec []byte
	if nd.Bool("raw") {
		rec = nd.Bytes("rec", nd.Pick("n", 0, nd.Bound(14, 16)))
		if len(rec) > 7 {
			//a single SPS that may claim to end behind the record
			nd.Assume(nd.And(rec[5]&0x1f <= 2, rec[6] == 0, rec[7] < 16))
		}
	} else {
		sps := append(append([]byte{}, vfSps[:nd.Pick("prefix", 1, len(vfSps))]...), nd.Bytes("tail", nd.Bound(2, 4))...)
		rec = vfAvcRecord([][]byte{sps}, vfPps)
	}
	nd.Steps(200000)
	_, _, _, _, err := parseAVCDCR(append([]byte(nil), rec...))
	if err != nil {
		nd.Reach("refused")
	} else {
		nd.Reach("accepted")
	}
}

//vf:prop C16
//vf:bounds every HEVC record of 0..23 bytes, and ones with up to 2 arrays of a short arbitrary NAL unit
func VfHevcTotal() {
	var rec []byte
	switch nd.Pick("shape", 0, 1) {
	case 0:
		rec = nd.Bytes("rec", nd.Pick("n", 0, 23))
	case 1:
		rec = make([]byte, 22)
		rec = append(rec, nd.U8("arrays"))
		rec = append(rec, nd.U8("type"), 0, nd.U8("count"), 0, 20)
		m := nd.Pick("m", 0, nd.Bound(4, 6))
		rec = append(rec, make([]byte, 20-m)...)
		rec = append(rec, nd.Bytes("body", m)...)
		if nd.Bool("cut") {
			rec = rec[:len(rec)-1]
		}
	}
	nd.Steps(200000)
	r := vfStart(vfHeader(true, rec))
	if init := r.d.InitSegment(); init != nil {
		vfDims(init)
		stsd := vfBox(vfBox(vfBox(vfBox(vfBox(vfBox(init, "moov"), "trak"), "mdia"), "minf"), "stbl"), "stsd")
		nd.Assert(nd.Eq(vfBox(vfBox(stsd[8:], "hev1")[78:], "hvcC"), rec), "record unchanged")
		nd.Reach("accepted")
	}
	r.end()
}
