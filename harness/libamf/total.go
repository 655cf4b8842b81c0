package libamf

import nd "github.com/sbraveyoung/GGmpeg/verifnd"

// Decoding arbitrary bytes never panics and never allocates out of
// proportion to the input.
//
//vf:prop C04
//vf:bounds every byte string of length 0..3 (thorough 0..4)
//vf:opt alloc=4096
func VfAmfDecodeTotal() {
	b := nd.Bytes("b", nd.Pick("n", 0, nd.Bound(3, 4)))
	nd.AllocBound(1 << 26)
	_, _ = vfDecode(b)
	nd.Reach("decoded")
}

// Same, longer inputs; the byte values that are only payload-less markers
// (4, 6, 13, 14) are left out because 5 and 9 behave alike.
//
//vf:prop C04
//vf:bounds every byte string of length 4..5 (thorough 4..7) over the 252 byte values other than 4,6,13,14
//vf:opt alloc=4096
func VfAmfDecodeTotalLong() {
	n := nd.Pick("n", 4, nd.Bound(5, 7))
	b := nd.Bytes("b", n)
	for _, x := range b {
		nd.Assume(nd.And(nd.And(x != 4, x != 6), nd.And(x != 13, x != 14)))
	}
	nd.AllocBound(1 << 26)
	_, _ = vfDecode(b)
	nd.Reach("decoded")
}

// Recursion is bounded however deeply a peer nests its values.
//
//vf:prop C04
//vf:bounds 4000 nested containers (object, ECMA array, strict array, typed object by choice) before an arbitrary marker byte
//vf:opt steps=30000000
func VfAmfDepth() {
	var unit []byte
	switch nd.Pick("container", 0, 3) {
	case 0:
		unit = []byte{3, 0, 1, 'a'}
	case 1:
		unit = []byte{8, 0, 0, 0, 1, 0, 1, 'a'}
	case 2:
		unit = []byte{10, 0, 0, 0, 1}
	case 3:
		unit = []byte{16, 0, 1, 'c', 0, 1, 'a'}
	}
	b := make([]byte, 0, 4000*len(unit)+1)
	for i := 0; i < 4000; i++ {
		b = append(b, unit...)
	}
	b = append(b, nd.U8("m"))
	nd.DepthBound(3000)
	_, _ = vfDecode(b)
	nd.Reach("survived")
}
