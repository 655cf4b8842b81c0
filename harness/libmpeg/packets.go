package libmpeg

import (
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

func vfPayload(n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + i>>8)
	}
	copy(d, nd.Bytes("head", 2))
	if n > 4 {
		copy(d[n-2:], nd.Bytes("tail", 2))
	}
	return d
}

// A frame of every size becomes whole, well-formed packets that carry
// exactly its PES header and data.
//
//vf:prop C10
//vf:bounds frames of 1..390 (thorough 1..760) bytes on the audio or video PID, key or not, with and without a separate DTS, every first continuity counter, every 33-bit timestamp
func VfTsFrame() {
	n := nd.Pick("n", 1, nd.Bound(390, 760))
	data := vfPayload(n)
	orig := append([]byte(nil), data...)
	dts := nd.U64("dts")
	nd.Assume(dts < 1<<33)
	pts := dts
	key := false
	pid, id := uint16(VIDEO_PID), uint8(0xe0)
	switch nd.Pick("kind", 0, 3) {
	case 0:
		pid, id = AUDIO_PID, 0xc0
	case 1:
		key = true
	case 2:
		pts = nd.U64("pts")
		nd.Assume(nd.And(pts < 1<<33, pts != dts))
	case 3:
		key = true
		pts = nd.U64("pts")
		nd.Assume(nd.And(pts < 1<<33, pts != dts))
	}
	c := nd.U8("cc")
	nd.Assume(c < 16)
	cc := map[uint16]uint8{pid: c}
	buf, w := vfBuf()
	vfMux(vfPES(id, 0x1b, data, pts, dts), pid, cc, key, dts, w)
	pay := vfTs(buf.Bytes(), pid, c, key, dts)
	h := vfPesHeader(id, n, pts, dts)
	nd.Assert(nd.Eq(pay, append(h, orig...)), "payload is the PES header and the frame")
	nd.Assert(cc[pid]&15 == (c+uint8(buf.Len()/188))&15, "counter continues")
	if key {
		nd.Reach("key frame")
	} else {
		nd.Reach("frame")
	}
}

// Same around the sizes where the PES length field overflows.
//
//vf:prop C10
//vf:bounds video frames of 65517..65533 bytes and of 70000 bytes
//vf:opt steps=40000000
func VfTsLarge() {
	n := nd.Pick("n", 0, 6)
	n = [7]int{65517, 65521, 65522, 65523, 65527, 65528, 70000}[n]
	data := vfPayload(n)
	dts := nd.U64("dts")
	nd.Assume(dts < 1<<33)
	pts := dts
	if nd.Pick("split", 0, 1) == 1 {
		pts = nd.U64("pts")
		nd.Assume(nd.And(pts < 1<<33, pts != dts))
	}
	cc := map[uint16]uint8{}
	buf, w := vfBuf()
	vfMux(vfPES(0xe0, 0x1b, data, pts, dts), VIDEO_PID, cc, true, dts, w)
	pay := vfTs(buf.Bytes(), VIDEO_PID, 0, true, dts)
	h := vfPesHeader(0xe0, n, pts, dts)
	nd.Assert(len(pay) == len(h)+n, "payload length")
	nd.Assert(nd.Eq(pay[:len(h)], h) && nd.Eq(pay[len(h):], data), "payload")
	nd.Reach("large")
}

// Consecutive frames on two PIDs share one writer and one PES object per
// PID, as the segmenter does; counters run on independently.
//
//vf:prop C10
//vf:bounds sequences of 3 (thorough 4) frames, audio or video in any order, sizes 1, 160..190 by 6, 370; every first counter
func VfTsSequence() {
	ca, cv := nd.U8("ca"), nd.U8("cv")
	nd.Assume(nd.And(ca < 16, cv < 16))
	cc := map[uint16]uint8{AUDIO_PID: ca, VIDEO_PID: cv}
	v := vfPES(0xe0, 0x1b, nil, 0, 0)
	a := vfPES(0xc0, 0x0f, nil, 0, 0)
	sizes := [8]int{1, 160, 165, 170, 171, 172, 190, 370}
	for i, k := 0, nd.Bound(3, 4); i < k; i++ {
		n := sizes[nd.Pick("n", 0, 7)]
		data := vfPayload(n)
		pes, pid, c := v, uint16(VIDEO_PID), &cv
		if nd.Bool("audio") {
			pes, pid, c = a, AUDIO_PID, &ca
		}
		pes.PTS = uint64(nd.U32("ts"))
		pes.DTS = pes.PTS
		pes.Data = data
		buf, w := vfBuf()
		key := pid == VIDEO_PID && i == 0
		vfMux(pes, pid, cc, key, pes.DTS, w)
		pay := vfTs(buf.Bytes(), pid, *c, key, pes.DTS)
		nd.Assert(nd.Eq(pay, append(vfPesHeader(pes.StreamID, n, pes.PTS, pes.DTS), data...)), "payload")
		*c += uint8(buf.Len() / 188)
	}
	nd.Reach("sequence")
}
