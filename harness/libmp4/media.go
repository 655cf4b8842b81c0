package libmp4

import nd "github.com/sbraveyoung/GGmpeg/verifnd"

// One fragment.
//
//vf:prop C15
//vf:bounds 1..3 (thorough 4) samples of 0..3 arbitrary bytes, or a first one of 300 or 70000 bytes; every duration, 32-bit composition offset, key flag, track id, sequence number and 64-bit base time
func VfMediaSegment() {
	p := MediaSegmentParams{TrackID: nd.U32("track"), SequenceNumber: nd.U32("seq"), BaseDecodeTime: nd.U64("base")}
	k := nd.Pick("samples", 1, nd.Bound(3, 4))
	for i := 0; i < k; i++ {
		d := nd.Bytes("data", nd.Pick("len", 0, 3))
		if i == 0 && len(d) == 3 {
			switch nd.Pick("long", 0, 2) {
			case 1:
				d = append(d, make([]byte, 297)...)
			case 2:
				d = append(d, make([]byte, 69997)...)
			}
		}
		p.Samples = append(p.Samples, Sample{Duration: nd.U32("dur"), Size: uint32(len(d)), IsKey: nd.Bool("key"), CompositionTimeOffset: nd.I32("cts"), Data: d})
	}
	f := BuildMediaSegment(p)
	vfTypes(f, "moof", "mdat")
	bs := vfBoxes(f)
	moof, mdat := bs[0].body, bs[1]
	vfTypes(moof, "mfhd", "traf")
	mfhd, traf := vfKid(moof, "mfhd"), vfKid(moof, "traf")
	nd.Assert(len(mfhd) == 8 && vfU32(mfhd) == 0 && vfU32(mfhd[4:]) == p.SequenceNumber, "sequence number")
	vfTypes(traf, "tfhd", "tfdt", "trun")
	tfhd, tfdt, trun := vfKid(traf, "tfhd"), vfKid(traf, "tfdt"), vfKid(traf, "trun")
	nd.Assert(len(tfhd) == 8 && vfU32(tfhd) == 0x020000 && vfU32(tfhd[4:]) == p.TrackID, "track header, base is moof")
	nd.Assert(len(tfdt) == 12 && vfU32(tfdt) == 1<<24 && vfU64(tfdt[4:]) == p.BaseDecodeTime, "base decode time")
	nd.Assert(vfU32(trun) == 1<<24|0xf01, "signed offsets, per-sample fields present")
	nd.Assert(vfU32(trun[4:]) == uint32(k) && len(trun) == 12+16*k, "sample count")
	off := int(vfU32(trun[8:]))
	nd.Assert(off == mdat.off, "data offset points at the media data")
	for i, s := range p.Samples {
		e := trun[12+16*i:]
		nd.Assert(vfU32(e) == s.Duration, "duration")
		n := int(vfU32(e[4:]))
		nd.Assert(n == len(s.Data) && nd.Eq(f[off:off+n], s.Data), "sample bytes")
		off += n
		fl := vfU32(e[8:])
		if s.IsKey {
			nd.Assert(fl == 0x02000000, "sync sample")
		} else {
			nd.Assert(fl == 0x01010000, "non-sync sample")
		}
		nd.Assert(int32(vfU32(e[12:])) == s.CompositionTimeOffset, "composition offset")
	}
	nd.Assert(off == len(f), "nothing behind the last sample")
	nd.Reach("fragment")
}

// No samples, no fragment; the segment type box.
//
//vf:prop C15
//vf:bounds the empty fragment
func VfNoSamples() {
	nd.Assert(len(BuildMediaSegment(MediaSegmentParams{TrackID: 1, BaseDecodeTime: nd.U64("base")})) == 0, "nothing")
	s := vfKid(BuildSegmentType(), "styp")
	nd.Assert(string(s) == "msdh\x00\x00\x00\x00msdhmsix", "segment type")
	nd.Reach("empty")
}
