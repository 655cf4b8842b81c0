package librtsp

import nd "github.com/sbraveyoung/GGmpeg/verifnd"

// vfLossy marks the packet numbers that do not arrive.
type vfLink struct {
	p    *RTPPacker
	ts   uint32
	drop map[int]bool
	n    int
}

// vfCross packs a payload, checks the packet and parses it again.
func (l *vfLink) send(marker bool, payload []byte) (*RTPPacket, bool) {
	seq := l.p.Seq()
	b := l.p.Pack(marker, l.ts, payload)
	nd.Assert(l.p.Seq() == seq+1, "sequence number counts up")
	nd.Assert(len(b) == 12+len(payload) && b[0] == 0x80, "plain header")
	nd.Assert(b[1] == uint8(nd.Ite(marker, 0x80, 0))|l.p.PayloadType&0x7f, "marker and payload type")
	nd.Assert(uint16(b[2])<<8|uint16(b[3]) == seq, "sequence number")
	nd.Assert(uint32(b[4])<<24|uint32(b[5])<<16|uint32(b[6])<<8|uint32(b[7]) == l.ts, "timestamp")
	nd.Assert(uint32(b[8])<<24|uint32(b[9])<<16|uint32(b[10])<<8|uint32(b[11]) == l.p.SSRC, "source")
	nd.Assert(nd.Eq(b[12:], payload), "payload")
	r, err := ParseRTP(b)
	nd.Assert(err == nil, "parsed")
	nd.Assert(r.Marker == marker && r.PayloadType == l.p.PayloadType&0x7f && r.SequenceNum == seq && r.Timestamp == l.ts && r.SSRC == l.p.SSRC && nd.Eq(r.Payload, payload), "same packet")
	l.n++
	return r, !l.drop[l.n-1]
}

func vfPacker() *RTPPacker {
	p := NewRTPPacker(nd.U8("pt"), nd.U32("ssrc"))
	p.SetSeq(nd.U16("seq"))
	return p
}
