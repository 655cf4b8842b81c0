package libmp4

import nd "github.com/sbraveyoung/GGmpeg/verifnd"

type vfBox struct {
	typ  string
	body []byte
	off  int //of the body within the parsed bytes
}

func vfU16(b []byte) int    { return int(b[0])<<8 | int(b[1]) }
func vfU32(b []byte) uint32 { return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]) }
func vfU64(b []byte) uint64 { return uint64(vfU32(b))<<32 | uint64(vfU32(b[4:])) }

// vfBoxes splits b into boxes that tile it exactly.
func vfBoxes(b []byte) (out []vfBox) {
	for off := 0; off < len(b); {
		nd.Assert(off+8 <= len(b), "box header fits")
		n := int(vfU32(b[off:]))
		nd.Assert(n >= 8 && n <= len(b)-off, "box size fits its container")
		out = append(out, vfBox{string(b[off+4 : off+8]), b[off+8 : off+n], off + 8})
		off += n
	}
	return
}

// vfKid is the only child box of that type.
func vfKid(b []byte, typ string) []byte {
	var r []byte
	n := 0
	for _, x := range vfBoxes(b) {
		if x.typ == typ {
			r = x.body
			n++
		}
	}
	nd.Assert(n == 1, "exactly one "+typ)
	return r
}

func vfTypes(b []byte, want ...string) {
	bs := vfBoxes(b)
	nd.Assert(len(bs) == len(want), "box count")
	for i, x := range bs {
		nd.Assert(x.typ == want[i], "box "+want[i])
	}
}

func vfZero(b []byte) bool {
	z := byte(0)
	for _, x := range b {
		z |= x
	}
	return z == 0
}
