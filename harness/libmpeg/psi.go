package libmpeg

import (
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfCrc is the MPEG-2 CRC of ISO 13818-1 annex A, bit by bit.
func vfCrc(b []byte) uint32 {
	c := uint32(0xffffffff)
	for _, x := range b {
		c ^= uint32(x) << 24
		for i := 0; i < 8; i++ {
			m := -(c >> 31) & 0x04c11db7
			c = c<<1 ^ m
		}
	}
	return c
}

// The table CRC equals the MPEG-2 CRC.
//
//vf:prop C12
//vf:bounds every byte string of 0..6 (thorough 0..24) bytes
func VfCrc32() {
	b := nd.Bytes("b", nd.Pick("n", 0, nd.Bound(6, 24)))
	nd.Assert(CRC32(b) == vfCrc(b), "MPEG-2 CRC-32")
	nd.Reach("crc")
}

// PAT: marshalled sections are well formed and parse back.
//
//vf:prop C12
//vf:bounds every transport stream id, version, current flag, 1..2 programs with arbitrary distinct PIDs and non-zero program numbers, every map order
func VfPatRoundTrip() {
	nd.PermuteMaps(true)
	k := nd.Pick("programs", 1, 2)
	tsid, ver, cur := nd.U16("tsid"), nd.U8("ver"), nd.U8("cur")
	nd.Assume(nd.And(ver < 32, cur < 2))
	pat := &PAT{SectionSyntaxIndicator: 1, SectionLength: uint16(9 + 4*k), TransportStreamID: tsid, VersionNumber: ver, CurrentNextIndicator: cur, PMTs: map[uint16]*PMT{}}
	var pids, nums [2]uint16
	for i := 0; i < k; i++ {
		pids[i], nums[i] = nd.U16("pid"), nd.U16("num")
		nd.Assume(nd.And(pids[i] < 1<<13, nums[i] != 0))
		if i == 1 {
			nd.Assume(pids[0] != pids[1])
		}
		pat.PMTs[pids[i]] = NewPMT(nums[i])
	}
	nd.Assert(pat.Remain() == 12+4*k, "announced size")
	buf, w := vfBuf()
	n, fin, err := pat.Marshal(w, 183)
	b := buf.Bytes()
	nd.Assert(err == nil && fin && n == 12+4*k && len(b) == n, "section written")
	nd.Assert(b[0] == 0 && b[1] == 0xb0 && int(b[2]) == n-3, "table id and section length")
	nd.Assert(uint16(b[3])<<8|uint16(b[4]) == tsid && b[5] == 0xc0|ver<<1|cur && b[6] == 0 && b[7] == 0, "fields")
	nd.Assert(uint32(b[n-4])<<24|uint32(b[n-3])<<16|uint32(b[n-2])<<8|uint32(b[n-1]) == vfCrc(b[:n-4]), "CRC")
	q := NewPAT()
	nd.Assert(q.Parse(vfReader(b)) == nil, "parsed")
	nd.Assert(q.TransportStreamID == tsid && q.VersionNumber == ver && q.CurrentNextIndicator == cur && len(q.PMTs) == k, "fields back")
	for i := 0; i < k; i++ {
		p, ok := q.PMTs[pids[i]]
		nd.Assert(ok && p.ProgramNumber == nums[i], "program back")
	}
	nd.Reach("pat")
}

// PMT: likewise.
//
//vf:prop C12
//vf:bounds every program number, version, PCR PID, 1..2 (thorough 3) streams with arbitrary distinct PIDs and stream types, every map order
func VfPmtRoundTrip() {
	nd.PermuteMaps(true)
	k := nd.Pick("streams", 1, nd.Bound(2, 3))
	num, ver, cur, pcr := nd.U16("num"), nd.U8("ver"), nd.U8("cur"), nd.U16("pcr")
	nd.Assume(nd.And(ver < 32, nd.And(cur < 2, pcr < 1<<13)))
	pmt := &PMT{TableID: 2, SectionSyntaxIndicator: 1, SectionLength: uint16(13 + 5*k), ProgramNumber: num, VersionNumber: ver, CurrentNextIndicator: cur, PCR_PID: pcr, Streams: map[uint16]*PES{}}
	var pids [3]uint16
	var typs [3]uint8
	for i := 0; i < k; i++ {
		pids[i], typs[i] = nd.U16("pid"), nd.U8("type")
		nd.Assume(nd.And(pids[i] < 1<<13, typs[i] != 0))
		for j := 0; j < i; j++ {
			nd.Assume(pids[i] != pids[j])
		}
		pmt.Streams[pids[i]] = &PES{StreamID: 0xe0, StreamType: typs[i]}
	}
	nd.Assert(pmt.Remain() == 16+5*k, "announced size")
	buf, w := vfBuf()
	n, fin, err := pmt.Marshal(w, 183)
	b := buf.Bytes()
	nd.Assert(err == nil && fin && n == 16+5*k && len(b) == n, "section written")
	nd.Assert(b[0] == 2 && b[1] == 0xb0 && int(b[2]) == n-3, "table id and section length")
	nd.Assert(uint16(b[3])<<8|uint16(b[4]) == num && b[5] == 0xc0|ver<<1|cur && b[6] == 0 && b[7] == 0, "fields")
	nd.Assert(uint16(b[8]&0x1f)<<8|uint16(b[9]) == pcr && b[10]&0x0f == 0 && b[11] == 0, "PCR PID, no descriptors")
	nd.Assert(uint32(b[n-4])<<24|uint32(b[n-3])<<16|uint32(b[n-2])<<8|uint32(b[n-1]) == vfCrc(b[:n-4]), "CRC")
	q := NewPMT(0)
	nd.Assert(q.Parse(vfReader(b)) == nil, "parsed")
	nd.Assert(q.ProgramNumber == num && q.VersionNumber == ver && q.CurrentNextIndicator == cur && q.PCR_PID == pcr && len(q.Streams) == k, "fields back")
	for i := 0; i < k; i++ {
		s, ok := q.Streams[pids[i]]
		nd.Assert(ok && s.StreamType == typs[i], "stream back")
	}
	nd.Reach("pmt")
}

// Sections with descriptors of any size parse by the standard.
//
//vf:prop C12
//vf:bounds program descriptors of 0, 3, 255..258 and 600 bytes, a stream descriptor of 0..6, 130 or 260 bytes on the first of two streams (PIDs arbitrary, possibly equal)
func VfPmtDescriptors() {
	pl := [7]int{0, 3, 255, 256, 257, 258, 600}[nd.Pick("pinfo", 0, 6)]
	el := [6]int{0, 1, 5, 6, 130, 260}[nd.Pick("esinfo", 0, 5)]
	p1, p2, t1, t2 := nd.U16("p1"), nd.U16("p2"), nd.U8("t1"), nd.U8("t2")
	nd.Assume(nd.And(p1 < 1<<13, p2 < 1<<13))
	sl := 9 + pl + 5 + el + 5 + 4
	b := []byte{2, 0xb0 | byte(sl>>8), byte(sl), 0, 7, 0xc1, 0, 0, 0xe1, 0, 0xf0 | byte(pl>>8), byte(pl)}
	b = append(b, make([]byte, pl)...)
	b = append(b, t1, 0xe0|byte(p1>>8), byte(p1), 0xf0|byte(el>>8), byte(el))
	b = append(b, make([]byte, el)...)
	b = append(b, t2, 0xe0|byte(p2>>8), byte(p2), 0xf0, 0)
	c := vfCrc(b)
	b = append(b, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
	q := NewPMT(0)
	nd.Assert(q.Parse(vfReader(b)) == nil, "well-formed section accepted")
	nd.Assert(q.ProgramNumber == 7 && int(q.SectionLength) == sl && int(q.ProgramInfoLength) == pl && q.PCR_PID == 0x100, "fields")
	s2, ok := q.Streams[p2]
	nd.Assert(ok && s2.StreamType == t2, "second stream")
	if p1 != p2 {
		s1, ok := q.Streams[p1]
		nd.Assert(ok && s1.StreamType == t1 && len(q.Streams) == 2, "first stream")
		nd.Reach("two streams")
	}
	nd.Reach("descriptors")
}

// A damaged section is refused.
//
//vf:prop C12
//vf:bounds PAT with one program and PMT with one stream, contents arbitrary, any one byte behind the length field altered to any other value
func VfPsiDamaged() {
	buf, w := vfBuf()
	var psi PSI
	var q PSI
	if nd.Bool("pat") {
		psi, q = &PAT{SectionSyntaxIndicator: 1, SectionLength: 13, TransportStreamID: nd.U16("id"), PMTs: map[uint16]*PMT{0x1001: NewPMT(nd.U16("num"))}}, NewPAT()
	} else {
		psi, q = &PMT{TableID: 2, SectionSyntaxIndicator: 1, SectionLength: 18, ProgramNumber: nd.U16("id"), PCR_PID: 0x100, Streams: map[uint16]*PES{0x100: {StreamType: nd.U8("t")}}}, NewPMT(0)
	}
	n, _, err := psi.Marshal(w, 183)
	nd.Assert(err == nil, "written")
	b := buf.Bytes()
	at := nd.Pick("at", 3, n-1)
	d := nd.U8("delta")
	nd.Assume(d != 0)
	b[at] ^= d
	nd.Assert(q.Parse(vfReader(b)) != nil, "damaged section refused")
	nd.Reach("damaged")
}

// Arbitrary bytes as a section never panic and never allocate beyond the
// largest section.
//
//vf:prop C12
//vf:bounds every byte string of 0..17 (thorough 0..26) bytes whose length fields claim at most four bytes more than are there, or 0x3fd, 0x3fe or 0xfff bytes
func VfPsiTotal() {
	n := nd.Pick("n", 0, nd.Bound(17, 26))
	b := nd.Bytes("b", n)
	nd.AllocBound(4096)
	claim := func(at int) {
		if n > at+1 {
			l := uint16(b[at]&15)<<8 | uint16(b[at+1])
			nd.Assume(nd.Or(int(l) <= n+4, nd.Or(nd.Or(l == 0x3fd, l == 0x3fe), l == 0xfff)))
		}
	}
	claim(1)
	if nd.Bool("pat") {
		_ = NewPAT().Parse(vfReader(b))
	} else {
		claim(10)
		_ = NewPMT(0).Parse(vfReader(b))
	}
	nd.Reach("done")
}

// Section packets: one 188-byte packet with a pointer field and 0xff fill.
//
//vf:prop C12
//vf:bounds PAT and PMT packets, every continuity counter
func VfPsiPacket() {
	c := nd.U8("cc")
	nd.Assume(c < 16)
	var psi PSI
	pid := uint16(PAT_PID)
	size := 16
	if nd.Bool("pat") {
		psi = &PAT{SectionSyntaxIndicator: 1, SectionLength: 13, TransportStreamID: 1, PMTs: map[uint16]*PMT{PMT_PID: NewPMT(1)}}
	} else {
		pid, size = PMT_PID, 26
		psi = &PMT{TableID: 2, SectionSyntaxIndicator: 1, SectionLength: 23, ProgramNumber: 1, PCR_PID: VIDEO_PID, Streams: map[uint16]*PES{VIDEO_PID: {StreamType: 0x1b}, AUDIO_PID: {StreamType: 0x0f}}}
	}
	cc := map[uint16]uint8{pid: c}
	buf, w := vfBuf()
	fin, err := NewTs(pid, cc, true).Mux(psi, false, 0, w)
	nd.Assert(err == nil && fin, "written")
	b := buf.Bytes()
	nd.Assert(len(b) == 188 && b[0] == 0x47 && b[1] == 0x40|byte(pid>>8) && b[2] == byte(pid) && b[3] == 0x10|c, "packet header")
	nd.Assert(b[4] == 0, "pointer field")
	sec := &struct{ n int }{}
	sec.n = 3 + int(b[7])
	nd.Assert(sec.n == size, "section length")
	nd.Assert(vfCrc(b[5:5+size]) == 0, "CRC over the whole section is zero")
	for _, x := range b[5+size:] {
		nd.Assert(x == 0xff, "fill")
	}
	nd.Assert(cc[pid] == (c+1)&15, "counter advanced")
	pat, pmt := NewPAT(), NewPMT(0)
	nd.Assert((&TS{}).DeMux(map[uint16]PSI{PAT_PID: pat, PMT_PID: pmt}, vfReader(b)) == nil, "read back")
	if pid == PAT_PID {
		p, ok := pat.PMTs[PMT_PID]
		nd.Assert(ok && p.ProgramNumber == 1 && len(pat.PMTs) == 1, "the program")
	} else {
		v, a := pmt.Streams[VIDEO_PID], pmt.Streams[AUDIO_PID]
		nd.Assert(v != nil && a != nil && v.StreamType == 0x1b && a.StreamType == 0x0f && len(pmt.Streams) == 2, "the streams")
	}
	nd.Reach("section packet")
}
