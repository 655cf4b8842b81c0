package libavc

import (
	"bytes"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

func vfParser() *Parser {
	return &Parser{Pps: bytes.NewBuffer(make([]byte, MaxSpsPpsLen))}
}

func vfNal(typ byte, n int) []byte {
	b := nd.Bytes("nal", n)
	b[0] = b[0]&0x60 | typ
	return b
}

// vfRecord draws a configuration record and the parameter sets it carries,
// in order, each behind a start code.
func vfRecord(maxSps, maxPps, maxLen int) (rec, sets []byte) {
	h := nd.Bytes("hdr", 4)
	h[0] = 1
	ns, np := nd.Pick("nsps", 1, maxSps), nd.Pick("npps", 1, maxPps)
	res := nd.U8("reserved")
	rec = append(rec, h...)
	rec = append(rec, res|3, res<<5|byte(ns))
	for i := 0; i < ns; i++ {
		s := vfNal(7, nd.Pick("spslen", 1, maxLen))
		rec = append(rec, byte(len(s)>>8), byte(len(s)))
		rec = append(rec, s...)
		sets = append(append(sets, 0, 0, 0, 1), s...)
	}
	rec = append(rec, byte(np))
	for i := 0; i < np; i++ {
		s := vfNal(8, nd.Pick("ppslen", 1, maxLen))
		rec = append(rec, byte(len(s)>>8), byte(len(s)))
		rec = append(rec, s...)
		sets = append(append(sets, 0, 0, 0, 1), s...)
	}
	return rec, sets
}

func vfPut(au, nal []byte) []byte {
	n := len(nal)
	au = append(au, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	return append(au, nal...)
}
