package librtsp

import nd "github.com/sbraveyoung/GGmpeg/verifnd"

// Splitting a length-prefixed access unit yields its NAL units.
//
//vf:prop C09
//vf:bounds access units of 0..4 NAL units of 1..3 arbitrary bytes, or one of 256..65537 bytes; then every byte string of 0..10 bytes appended as damage
func VfSplitAVCC() {
	var au []byte
	var want [][]byte
	for i, k := 0, nd.Pick("nals", 0, 4); i < k; i++ {
		n := nd.Pick("len", 1, 3)
		if i == 0 && nd.Bool("long") {
			n = []int{256, 65536, 65537}[n-1]
		}
		nal := make([]byte, n)
		copy(nal, nd.Bytes("nal", 3))
		au = append(au, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		au = append(au, nal...)
		want = append(want, nal)
	}
	got := SplitAVCC(au)
	nd.Assert(len(got) == len(want), "as many NAL units as in the access unit")
	for i := range want {
		nd.Assert(nd.Eq(got[i], want[i]), "NAL unit unchanged")
	}
	nd.Reach("split")
}

// Damaged access units never panic and never yield bytes outside them.
//
//vf:prop C09
//vf:bounds every byte string of 0..11 bytes
func VfSplitTotal() {
	b := nd.Bytes("b", nd.Pick("n", 0, 11))
	total := 0
	for _, nal := range SplitAVCC(b) {
		nd.Assert(len(nal) > 0, "NAL units are not empty")
		total += 4 + len(nal)
	}
	nd.Assert(total <= len(b), "NAL units lie within the input")
	nd.Reach("split")
}
