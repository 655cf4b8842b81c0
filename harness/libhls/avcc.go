package libhls

import nd "github.com/sbraveyoung/GGmpeg/verifnd"

// HEVC access units: length prefixes become start codes, nothing else changes.
//
//vf:prop C09
//vf:bounds access units of 1..4 NAL units of 1..3 arbitrary bytes, or one of 256..65537 bytes
func VfHevcAnnexB() {
	var au, want []byte
	for i, k := 0, nd.Pick("nals", 1, 4); i < k; i++ {
		n := nd.Pick("len", 1, 3)
		if i == 0 && nd.Bool("long") {
			n = []int{256, 65536, 65537}[n-1]
		}
		nal := make([]byte, n)
		copy(nal, nd.Bytes("nal", 3))
		au = append(au, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		au = append(au, nal...)
		want = append(append(want, 0, 0, 0, 1), nal...)
	}
	nd.Assert(nd.Eq(avccToAnnexB(au), want), "each NAL unit behind a start code, in order")
	nd.Reach("converted")
}

// Damaged access units never panic.
//
//vf:prop C09
//vf:bounds every byte string of 0..11 bytes
func VfHevcTotal() {
	b := nd.Bytes("b", nd.Pick("n", 0, 11))
	nd.Assert(len(avccToAnnexB(b)) <= len(b), "output no longer than the input")
	nd.Reach("done")
}
