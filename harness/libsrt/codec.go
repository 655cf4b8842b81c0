package libsrt

import nd "github.com/sbraveyoung/GGmpeg/verifnd"

// Packet headers.
//
//vf:prop C23
//vf:bounds every field of data and control headers
func VfHeaders() {
	b := make([]byte, 18)
	if nd.Bool("data") {
		seq, msg, ts, dst := nd.U32("seq"), nd.U32("message"), nd.U32("time"), nd.U32("socket")
		MarshalDataHeader(b, seq, msg, ts, dst)
		nd.Assert(b[0] < 0x80 && vfU32(b) == seq&0x7fffffff && vfU32(b[4:]) == msg && vfU32(b[8:]) == ts && vfU32(b[12:]) == dst, "data header layout")
		nd.Assert(b[16] == 0 && b[17] == 0, "nothing else written")
		h, rest, err := ParseHeader(b)
		nd.Assert(err == nil && len(rest) == 2, "parses back")
		nd.Assert(h.Kind == KindData && h.SeqNumber == seq&0x7fffffff && h.MessageInfo == msg && h.Timestamp == ts && h.DestSocketID == dst, "data header")
		nd.Reach("data")
	} else {
		typ, sub, info, ts, dst := nd.U16("type"), nd.U16("subtype"), nd.U32("info"), nd.U32("time"), nd.U32("socket")
		MarshalControlHeader(b, ControlType(typ), sub, info, ts, dst)
		nd.Assert(vfU32(b) == 0x80000000|uint32(typ&0x7fff)<<16|uint32(sub) && vfU32(b[4:]) == info && vfU32(b[8:]) == ts && vfU32(b[12:]) == dst, "control header layout")
		nd.Assert(b[16] == 0 && b[17] == 0, "nothing else written")
		h, rest, err := ParseHeader(b)
		nd.Assert(err == nil && len(rest) == 2, "parses back")
		nd.Assert(h.Kind == KindControl && h.ControlType == ControlType(typ&0x7fff) && h.SubType == sub && h.TypeInfo == info && h.Timestamp == ts && h.DestSocketID == dst, "control header")
		nd.Reach("control")
	}
}

// Anything received.
//
//vf:prop C23
//vf:bounds every packet of 0..20 bytes; headers into 0..15 bytes
func VfPackets() {
	p := nd.Bytes("packet", nd.Pick("length", 0, 20))
	h, rest, err := ParseHeader(p)
	nd.Assert((err != nil) == (len(p) < 16), "short packets are refused, others are not")
	if err == nil {
		nd.Assert(nd.Eq(rest, p[16:]), "the body follows the header")
		nd.Assert((h.Kind == KindControl) == (p[0] >= 0x80), "kind")
		if h.Kind == KindData {
			nd.Assert(h.SeqNumber == vfU32(p) && h.MessageInfo == vfU32(p[4:]), "data fields")
		} else {
			nd.Assert(uint16(h.ControlType) == uint16(p[0]&0x7f)<<8|uint16(p[1]) && h.SubType == uint16(p[2])<<8|uint16(p[3]) && h.TypeInfo == vfU32(p[4:]), "control fields")
		}
		nd.Assert(h.Timestamp == vfU32(p[8:]) && h.DestSocketID == vfU32(p[12:]), "common fields")
	}
	if len(p) < 16 {
		short := make([]byte, len(p))
		MarshalDataHeader(short, 1, 2, 3, 4)
		MarshalControlHeader(short, 1, 2, 3, 4, 5)
		nd.Reach("short")
	}
}

// Handshake and ACK bodies.
//
//vf:prop C23
//vf:bounds every handshake body of 46..50 bytes
func VfHandshakeBody() {
	p := nd.Bytes("body", nd.Pick("length", 46, 50))
	h, err := ParseHandshake(p)
	nd.Assert((err != nil) == (len(p) < 48), "short bodies are refused, others are not")
	if err == nil {
		nd.Assert(h.Version == vfU32(p) && vfU32(p[4:]) == uint32(h.EncryptionField)<<16|uint32(h.ExtensionField), "version and flags")
		nd.Assert(h.InitialSequence == vfU32(p[8:]) && h.MaxPacketSize == vfU32(p[12:]) && h.MaxFlowWindow == vfU32(p[16:]), "sequence and sizes")
		nd.Assert(uint32(h.HandshakeType) == vfU32(p[20:]) && h.SrtSocketID == vfU32(p[24:]) && h.SyncCookie == vfU32(p[28:]), "type, socket, cookie")
		nd.Assert(nd.Eq(h.PeerIP[:], p[32:48]), "address")
		nd.Assert(nd.Eq(h.Marshal(), p[:48]), "marshals back")
	}
	nd.Reach("end")
}

// ACK bodies.
//
//vf:prop C23
//vf:bounds every field
func VfAckBody() {
	a := ACKBody{nd.U32("seq"), nd.U32("rtt"), nd.U32("variance"), nd.U32("buffer"), nd.U32("rate"), nd.U32("capacity"), nd.U32("bytes")}
	b := a.Marshal()
	nd.Assert(len(b) == 28, "seven fields")
	for i, v := range []uint32{a.LastAckedSeq, a.RTT, a.RTTVariance, a.AvailableBuffer, a.ReceivingRate, a.LinkCapacity, a.ReceivingBytes} {
		nd.Assert(vfU32(b[4*i:]) == v, "in order")
	}
	nd.Reach("end")
}

// Loss lists and sequence arithmetic.
//
//vf:prop C23
//vf:bounds up to three ranges of any 31-bit numbers
func VfLossList() {
	n := nd.Pick("ranges", 0, 3)
	var in []LossRange
	words := 0
	for i := 0; i < n; i++ {
		r := LossRange{nd.U32("from"), nd.U32("to")}
		nd.Assume(r.From < 1<<31 && r.To < 1<<31)
		in = append(in, r)
		words += 2
		if r.From == r.To {
			words--
		}
	}
	b := MarshalNAK(in)
	nd.Assert(len(b) == 4*words, "one word for a single number, two for a range")
	off := 0
	for _, r := range in {
		if r.From == r.To {
			nd.Assert(vfU32(b[off:]) == r.From, "single")
			off += 4
		} else {
			nd.Assert(vfU32(b[off:]) == r.From|0x80000000 && vfU32(b[off+4:]) == r.To, "range")
			off += 8
		}
	}
	out := ParseNAK(b)
	nd.Assert(len(out) == n, "parses back")
	for i := range out {
		nd.Assert(out[i] == in[i], "the same ranges")
	}
	nd.Reach("end")
}

// Any loss list.
//
//vf:prop C23
//vf:bounds every body of 0..13 (thorough 0..21) bytes
func VfLossBody() {
	p := nd.Bytes("body", nd.Pick("length", 0, nd.Bound(13, 21)))
	k := 0
	got := ParseNAK(p)
	for off := 0; off+4 <= len(p); off += 4 {
		w := vfU32(p[off:])
		if w < 1<<31 {
			nd.Assert(k < len(got) && got[k] == LossRange{w, w}, "single number")
		} else {
			if off+8 > len(p) {
				break
			}
			nd.Assert(k < len(got) && got[k].From == w&0x7fffffff && got[k].To&0x7fffffff == vfU32(p[off+4:])&0x7fffffff, "range")
			off += 4
		}
		k++
	}
	nd.Assert(k == len(got), "nothing else")
	nd.Reach("end")
}

// Sequence arithmetic.
//
//vf:prop C23
//vf:bounds every pair of 31-bit numbers
func VfSeqDiff() {
	x, y := nd.U32("a"), nd.U32("b")
	nd.Assume(x < 1<<31 && y < 1<<31)
	d := SeqDiff(x, y)
	nd.Assert((y+uint32(d))&0x7fffffff == x, "the distance leads from one to the other")
	nd.Assert(d >= -(1<<30) && d <= 1<<30, "the short way round")
	nd.Assert(d == 1<<30 || d == -(1<<30) || SeqDiff(y, x) == -d, "the same way back")
	nd.Reach("end")
}
