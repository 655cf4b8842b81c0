package libmpeg

import (
	"github.com/SmartBrave/Athena/easyio"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// PTS and DTS survive marshalling and parsing, modulo 2^33.
//
//vf:prop C11
//vf:bounds every 64-bit PTS and DTS, stream ids 0xC0..0xEF, frames of 1..3 bytes
func VfPesTimes() {
	pts, dts := nd.U64("pts"), nd.U64("dts")
	same := nd.Bool("same")
	if same {
		dts = pts
	} else {
		nd.Assume(vfMask33(pts) != vfMask33(dts))
	}
	id := nd.U8("id")
	nd.Assume(nd.And(id >= 0xc0, id < 0xf0))
	data := nd.Bytes("data", nd.Pick("n", 1, 3))
	pes := vfPES(id, 0x1b, data, pts, dts)
	buf, w := vfBuf()
	n := pes.Remain()
	wr, fin, err := pes.Marshal(w, n)
	nd.Assert(err == nil && fin && wr == n && buf.Len() == n, "marshalled in one go")
	b := buf.Bytes()
	nd.Assert(nd.Eq(b, append(vfPesHeader(id, len(data), pts, dts), data...)), "header carries the timestamps with their markers")
	q := NewPES()
	nd.Assert(q.Parse(vfReader(b)) == nil, "parsed")
	nd.Assert(q.StreamID == id && q.PacketStartCodePrefix == 1 && int(q.PESPacketLength) == n-6, "header fields")
	nd.Assert(q.PTS == vfMask33(pts), "PTS modulo 2^33")
	if same {
		nd.Assert(q.PTS_DTSFlag == 2, "PTS only")
		nd.Reach("pts only")
	} else {
		nd.Assert(q.PTS_DTSFlag == 3 && q.DTS == vfMask33(dts), "DTS modulo 2^33")
		nd.Reach("pts and dts")
	}
}

// The adaptation field's flags and PCR survive; stuffing is consumed.
//
//vf:prop C11
//vf:bounds every PCR base and flag setting the muxer uses, field lengths 0..12 and 182
func VfAdaptation() {
	l := nd.Pick("len", 0, 13)
	if l == 13 {
		l = 182
	}
	base := nd.U64("pcr")
	nd.Assume(base < 1<<33)
	af := &AdaptationField{AdaptationFieldLength: uint8(l)}
	if l > 0 {
		af.DiscontinuityIndicator = nd.U8("disc") & 1
		af.RandomAccessIndicator = nd.U8("rai") & 1
		af.ElementaryStreamPriority = nd.U8("prio") & 1
		if l >= 7 && nd.Bool("pcr?") {
			af.PCRFlag = 1
			af.ProgramClockReferenceBase = base
			nd.Reach("pcr")
		}
	}
	buf, w := vfBuf()
	n, err := af.Marshal(w)
	nd.Assert(err == nil && int(n) == l+1 && buf.Len() == l+1, "exactly the announced bytes")
	r := vfReader(append(append([]byte(nil), buf.Bytes()...), 0xa5))
	q := NewAdaptationField()
	nd.Assert(q.Parse(r) == nil, "parsed")
	nd.Assert(q.AdaptationFieldLength == af.AdaptationFieldLength && q.DiscontinuityIndicator == af.DiscontinuityIndicator &&
		q.RandomAccessIndicator == af.RandomAccessIndicator && q.ElementaryStreamPriority == af.ElementaryStreamPriority, "flags")
	nd.Assert(q.PCRFlag == af.PCRFlag && q.ProgramClockReferenceBase == af.ProgramClockReferenceBase && q.ProgramClockReferenceExtension == 0, "PCR")
	nd.Assert(q.OPCRFlag == 0 && q.SplicingPointFlag == 0 && q.TransportPrivateDataFlag == 0 && q.AdaptationFieldExtensionFlag == 0, "no other fields")
	rest, err := r.ReadN(1)
	nd.Assert(err == nil && rest[0] == 0xa5, "the byte behind the field is next")
	nd.Reach("adaptation field")
}

// A packet that was written is read back: PID, counter, PCR, timestamps.
//
//vf:prop C11
//vf:bounds single-packet video frames of 1..160 by 53 bytes, key or not, every 33-bit PTS/DTS and counter
func VfTsReadBack() {
	n := 1 + 53*nd.Pick("n", 0, 3)
	pts, dts := nd.U64("pts"), nd.U64("dts")
	nd.Assume(nd.And(pts < 1<<33, nd.And(dts < 1<<33, pts != dts)))
	key := nd.Bool("key")
	if key && n > 150 {
		n = 150
	}
	c := nd.U8("cc")
	nd.Assume(c < 16)
	data := make([]byte, n)
	data[0] = nd.U8("d")
	buf, w := vfBuf()
	vfMux(vfPES(0xe0, 0x1b, data, pts, dts), VIDEO_PID, map[uint16]uint8{VIDEO_PID: c}, key, dts, w)
	nd.Assert(buf.Len() == 188, "one packet")
	q := NewPES()
	ts := &TS{}
	r := vfReader(buf.Bytes())
	nd.Assert(ts.DeMux(map[uint16]PSI{VIDEO_PID: q}, r) == nil, "demuxed")
	nd.Assert(ts.PID == VIDEO_PID && ts.PayloadUnitStartIndicator == 1 && ts.ContinuityCounter == c, "packet header")
	nd.Assert(q.StreamID == 0xe0 && q.PTS == pts && q.DTS == dts, "timestamps")
	if key {
		nd.Assert(ts.AdaptationField != nil && ts.AdaptationField.PCRFlag == 1 && ts.AdaptationField.ProgramClockReferenceBase == dts && ts.AdaptationField.RandomAccessIndicator == 1, "PCR")
		nd.Reach("key")
	}
	rest, err := r.ReadAll()
	nd.Assert(err == nil && nd.Eq(rest, data), "frame bytes follow the header")
	nd.Reach("read back")
}

// Reading damaged PES headers, adaptation fields and packets never panics.
//
//vf:prop C11
//vf:bounds every byte string of 0..20 (thorough 0..32) bytes
func VfPesTotal() {
	nd.AllocBound(1 << 20)
	_ = NewPES().Parse(vfReader(nd.Bytes("b", nd.Pick("n", 0, nd.Bound(20, 32)))))
	nd.Reach("pes")
}

//vf:prop C11
//vf:bounds every byte string of 0..16 (thorough 0..28) bytes
func VfAfTotal() {
	nd.AllocBound(1 << 20)
	_ = NewAdaptationField().Parse(vfReader(nd.Bytes("b", nd.Pick("n", 0, nd.Bound(16, 28)))))
	nd.Reach("adaptation field")
}

//vf:prop C11
//vf:bounds every packet of a sync byte and 0..14 (thorough 0..20) more bytes, for PES, section and unknown PIDs (section contents: see C12)
func VfDemuxTotal() {
	nd.AllocBound(1 << 20)
	b := append([]byte{0x47}, nd.Bytes("b", nd.Pick("n", 0, nd.Bound(14, 20)))...)
	tab := map[uint16]PSI{PMT_PID: vfSection{}, VIDEO_PID: NewPES()}
	_ = (&TS{}).DeMux(tab, vfReader(b))
	nd.Reach("packet")
}

type vfSection struct{}

func (vfSection) Parse(r easyio.EasyReader) error {
	_, err := r.ReadN(1)
	return err
}
func (vfSection) Marshal(w easyio.EasyWriter, n int) (int, bool, error) { return 0, true, nil }
func (vfSection) Remain() int                                            { return 0 }
