package libavc

import (
	"bytes"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

var vfAud = []byte{0, 0, 0, 1, 9, 0xf0}

// Every access unit becomes AUD + its NAL units in order, with parameter
// sets once in front of the first IDR slice.
//
//vf:prop C09
//vf:bounds access units of 1..3 (thorough 4) NAL units of types slice, IDR, SEI, SPS, PPS, AUD in any order that has parameter sets before an IDR slice, 1..2 arbitrary bytes each; parser configured by 0..2 records
func VfAnnexB() {
	p := vfParser()
	var conf []byte
	for i, n := 0, nd.Pick("records", 0, 2); i < n; i++ {
		rec, sets := vfRecord(1, 1, 1)
		nd.Assert(p.ParseSpecificInfo(rec) == nil, "record accepted")
		conf = sets
	}
	types := [6]byte{1, 5, 6, 7, 8, 9}
	var au, want, inband []byte
	want = append(want, vfAud...)
	k := nd.Pick("nals", 1, nd.Bound(3, 4))
	idr := false
	for i := 0; i < k; i++ {
		typ := types[nd.Pick("type", 0, 5)]
		n := nd.Pick("len", 1, 2)
		nal := vfNal(typ, n)
		au = vfPut(au, nal)
		switch typ {
		case 7, 8:
			if idr || i == k-1 {
				return
			}
			inband = append(append(inband, 0, 0, 0, 1), nal...)
		case 9:
		case 5:
			if !idr {
				if inband != nil {
					want = append(want, inband...)
				} else {
					want = append(want, conf...)
				}
			}
			idr = true
			fallthrough
		default:
			want = append(append(want, 0, 0, 0, 1), nal...)
		}
	}
	if inband != nil && !idr {
		return
	}
	orig := append([]byte(nil), au...)
	out := &bytes.Buffer{}
	nd.Assert(p.GetAnnexbH264(au, out) == nil, "converted")
	nd.Assert(nd.Eq(out.Bytes(), want), "AUD, parameter sets before the first IDR, NAL units in order")
	nd.Assert(nd.Eq(au, orig), "input untouched")
	out2 := &bytes.Buffer{}
	nd.Assert(p.GetAnnexbH264(au, out2) == nil && nd.Eq(out2.Bytes(), want), "the next access unit is not affected")
	if idr && inband != nil {
		nd.Reach("idr with in-band sets")
	} else if idr {
		nd.Reach("idr")
	} else {
		nd.Reach("no idr")
	}
}

// Long NAL units keep every byte.
//
//vf:prop C09
//vf:bounds one slice of 254..257, 65535..65537 or 2^20+1 bytes followed by a 2-byte slice
func VfAnnexBLong() {
	var n int
	switch nd.Pick("class", 0, 2) {
	case 0:
		n = nd.Pick("n", 254, 257)
	case 1:
		n = nd.Pick("n", 65535, 65537)
	case 2:
		n = 1<<20 + 1
	}
	a := make([]byte, n)
	e := nd.Bytes("e", 3)
	a[0], a[1], a[n-1] = 0x41, e[0], e[1]
	b := []byte{0x01, e[2]}
	var au []byte
	au = vfPut(vfPut(au, a), b)
	out := &bytes.Buffer{}
	nd.Assert(vfParser().GetAnnexbH264(au, out) == nil, "converted")
	got := out.Bytes()
	nd.Assert(len(got) == 6+4+n+4+2, "length")
	nd.Assert(nd.Eq(got[:16], append(append([]byte(nil), vfAud...), 0, 0, 0, 1, a[0], a[1], a[2], a[3], a[4], a[5])), "head")
	nd.Assert(nd.Eq(got[n+9:], []byte{a[n-1], 0, 0, 0, 1, b[0], b[1]}), "tail")
	nd.Reach("long")
}

// Any bytes are converted or refused; nothing panics. What was converted is
// consistent with the length prefixes.
//
//vf:prop C09
//vf:bounds every byte string of 0..12 (thorough 0..18) bytes whose 4-byte lengths are below 2^10
func VfAnnexBTotal() {
	n := nd.Pick("n", 0, nd.Bound(12, 18))
	b := nd.Bytes("b", n)
	p := vfParser()
	nd.AllocBound(1 << 20)
	out := &bytes.Buffer{}
	err := p.GetAnnexbH264(b, out)
	// spec: walk
	ok := n >= 4
	for off := 0; ok && off < n; {
		if off+4 > n {
			ok = false
			break
		}
		sz := uint64(b[off])<<24 | uint64(b[off+1])<<16 | uint64(b[off+2])<<8 | uint64(b[off+3])
		if sz == 0 || sz > uint64(n-off-4) {
			ok = false
			break
		}
		off += 4 + nd.Concrete(int(sz))
	}
	nd.Assert((err == nil) == ok, "exactly the well-formed access units are converted")
	if ok {
		nd.Reach("well formed")
	} else {
		nd.Reach("malformed")
	}
}

// The configuration record's parameter sets are kept exactly, the latest
// record wins, damaged records are refused and change nothing.
//
//vf:prop C09
//vf:bounds records with 1..2 SPS and 1..2 PPS of 1..2 arbitrary bytes, 0..4 trailing bytes, arbitrary profile and reserved bits; every truncation; followed by a second record
func VfConfigRecord() {
	rec, sets := vfRecord(2, 2, 2)
	p := vfParser()
	cut := nd.Pick("cut", 0, len(rec))
	if cut < len(rec) {
		first, keep := vfRecord(1, 1, 1)
		nd.Assert(p.ParseSpecificInfo(first) == nil, "first record accepted")
		nd.Assert(p.ParseSpecificInfo(rec[:cut]) != nil, "truncated record refused")
		nd.Assert(nd.Eq(p.SpecificInfo, keep), "previous parameter sets kept")
		nd.Reach("truncated")
		return
	}
	full := append(rec, nd.Bytes("trail", 4*nd.Pick("trail?", 0, 1))...)
	nd.Assert(p.ParseSpecificInfo(full) == nil, "record accepted")
	nd.Assert(nd.Eq(p.SpecificInfo, sets), "exactly the record's parameter sets")
	rec2, sets2 := vfRecord(1, 1, 2)
	nd.Assert(p.ParseSpecificInfo(rec2) == nil, "second record accepted")
	nd.Assert(nd.Eq(p.SpecificInfo, sets2), "second record replaces the first")
	nd.Reach("replaced")
}

// Arbitrary bytes as a configuration record never panic.
//
//vf:prop C09
//vf:bounds every byte string of 0..16 (thorough 0..22) bytes
func VfConfigTotal() {
	b := nd.Bytes("b", nd.Pick("n", 0, nd.Bound(16, 22)))
	p := vfParser()
	if p.ParseSpecificInfo(b) == nil {
		nd.Assert(len(p.SpecificInfo) >= 10, "an accepted record has parameter sets")
		nd.Reach("accepted")
	} else {
		nd.Reach("refused")
	}
}
