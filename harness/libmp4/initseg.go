package libmp4

import nd "github.com/sbraveyoung/GGmpeg/verifnd"

// vfInit checks everything around the codec configuration and returns it.
func vfInit(f []byte, track, scale uint32, w, h uint16, entry, config string) []byte {
	vfTypes(f, "ftyp", "moov")
	ft := vfKid(f, "ftyp")
	nd.Assert(len(ft) >= 8 && len(ft)%4 == 0 && string(ft[:4]) == "iso6", "brand")
	moov := vfKid(f, "moov")
	vfTypes(moov, "mvhd", "trak", "mvex")
	mvhd := vfKid(moov, "mvhd")
	nd.Assert(len(mvhd) == 112 && mvhd[0] == 1 && vfU32(mvhd[20:]) == scale && vfU32(mvhd[32:]) == 0x10000, "movie header")
	trak := vfKid(moov, "trak")
	vfTypes(trak, "tkhd", "mdia")
	tkhd := vfKid(trak, "tkhd")
	nd.Assert(len(tkhd) == 96 && tkhd[0] == 1 && tkhd[3]&1 == 1 && vfU32(tkhd[20:]) == track, "enabled track")
	nd.Assert(vfU32(tkhd[88:]) == uint32(w)<<16 && vfU32(tkhd[92:]) == uint32(h)<<16, "track dimensions")
	for _, m := range [][]byte{mvhd[48:84], tkhd[52:88]} {
		nd.Assert(vfU32(m) == 0x10000 && vfU32(m[16:]) == 0x10000 && vfU32(m[32:]) == 0x40000000, "unity matrix")
	}
	mdia := vfKid(trak, "mdia")
	vfTypes(mdia, "mdhd", "hdlr", "minf")
	mdhd := vfKid(mdia, "mdhd")
	nd.Assert(len(mdhd) == 36 && mdhd[0] == 1 && vfU32(mdhd[20:]) == scale, "media time scale")
	hdlr := vfKid(mdia, "hdlr")
	nd.Assert(string(hdlr[8:12]) == "vide" && hdlr[len(hdlr)-1] == 0, "video handler")
	minf := vfKid(mdia, "minf")
	vfTypes(minf, "vmhd", "dinf", "stbl")
	nd.Assert(len(vfKid(minf, "vmhd")) == 12, "video media header")
	dref := vfKid(vfKid(minf, "dinf"), "dref")
	nd.Assert(vfU32(dref[4:]) == 1 && vfU32(vfKid(dref[8:], "url ")) == 1, "data in the same file")
	stbl := vfKid(minf, "stbl")
	vfTypes(stbl, "stsd", "stts", "stsc", "stsz", "stco")
	for _, t := range []string{"stts", "stsc", "stco"} {
		nd.Assert(len(vfKid(stbl, t)) == 8 && vfZero(vfKid(stbl, t)), "empty table")
	}
	nd.Assert(len(vfKid(stbl, "stsz")) == 12 && vfZero(vfKid(stbl, "stsz")), "empty table")
	stsd := vfKid(stbl, "stsd")
	nd.Assert(vfU32(stsd) == 0 && vfU32(stsd[4:]) == 1, "one sample description")
	e := vfKid(stsd[8:], entry)
	nd.Assert(vfU16(e[6:]) == 1 && vfU16(e[24:]) == int(w) && vfU16(e[26:]) == int(h) && vfU16(e[40:]) == 1 && vfU16(e[74:]) == 0x18, "visual sample entry")
	vfTypes(e[78:], config)
	trex := vfKid(vfKid(moov, "mvex"), "trex")
	nd.Assert(len(trex) == 24 && vfU32(trex[4:]) == track && vfU32(trex[8:]) == 1, "track extension defaults")
	return vfKid(e[78:], config)
}

//vf:prop C16
//vf:bounds every track id, time scale and dimensions; parameter sets of 4..7 and 0..3 arbitrary bytes or 256 and 300 bytes
func VfAvcInit() {
	sps, pps := nd.Bytes("sps", nd.Pick("spslen", 4, 7)), nd.Bytes("pps", nd.Pick("ppslen", 0, 3))
	if nd.Bool("long") {
		sps = append(sps, make([]byte, 256-len(sps))...)
		pps = append(pps, make([]byte, 300-len(pps))...)
	}
	p := InitSegmentParams{TrackID: nd.U32("track"), Timescale: nd.U32("scale"), Width: nd.U16("w"), Height: nd.U16("h"), SPS: sps, PPS: pps}
	c := vfInit(BuildInitSegment(p), p.TrackID, p.Timescale, p.Width, p.Height, "avc1", "avcC")
	nd.Assert(len(c) == 11+len(sps)+len(pps), "configuration size")
	nd.Assert(c[0] == 1 && c[1] == sps[1] && c[2] == sps[2] && c[3] == sps[3], "profile and level of the SPS")
	nd.Assert(c[4] == 0xff && c[5] == 0xe1, "four-byte NAL lengths, one SPS")
	nd.Assert(vfU16(c[6:]) == len(sps) && nd.Eq(c[8:8+len(sps)], sps), "SPS")
	c = c[8+len(sps):]
	nd.Assert(c[0] == 1 && vfU16(c[1:]) == len(pps) && nd.Eq(c[3:], pps), "PPS")
	nd.Reach("avc")
}

//vf:prop C16
//vf:bounds every track id, time scale and dimensions; configuration records of 0..6 arbitrary bytes or 300 bytes
func VfHevcInit() {
	rec := nd.Bytes("rec", nd.Pick("len", 0, 6))
	if nd.Bool("long") {
		rec = append(rec, make([]byte, 300-len(rec))...)
	}
	p := HEVCInitParams{TrackID: nd.U32("track"), Timescale: nd.U32("scale"), Width: nd.U16("w"), Height: nd.U16("h"), HVCCRecord: rec}
	c := vfInit(BuildHEVCInitSegment(p), p.TrackID, p.Timescale, p.Width, p.Height, "hev1", "hvcC")
	nd.Assert(nd.Eq(c, rec), "record unchanged")
	nd.Reach("hevc")
}

// Undersized parameter sets still give a box structure.
//
//vf:prop C16
//vf:bounds parameter sets of 0..3 arbitrary bytes
func VfShortSps() {
	p := InitSegmentParams{TrackID: 1, Timescale: 1000, SPS: nd.Bytes("sps", nd.Pick("spslen", 0, 3)), PPS: nd.Bytes("pps", nd.Pick("ppslen", 0, 3))}
	vfTypes(BuildInitSegment(p), "ftyp", "moov")
	nd.Reach("short")
}
