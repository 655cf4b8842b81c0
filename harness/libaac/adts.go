package libaac

import nd "github.com/sbraveyoung/GGmpeg/verifnd"

// An ADTS header built from an AudioSpecificConfig carries the same profile,
// rate and channel layout, and frame_length == payload+7.
//
//vf:prop C08
//vf:bounds every 2-byte AudioSpecificConfig with object type 1..4, rate index 0..12, channel configuration 1..7; payload length 0..40 and 2030..2060, 8150..8184 bytes (thorough: every length 0..8184)
func VfAdtsHeader() {
	asc := nd.Bytes("asc", 2)
	obj := asc[0] >> 3
	rate := (asc[0]&7)<<1 | asc[1]>>7
	ch := (asc[1] >> 3) & 0x0f
	nd.Assume(nd.And(obj >= 1, obj <= 4, rate <= 12, ch >= 1, ch <= 7))
	n := nd.Range("len", 0, 8184)
	if nd.Bound(0, 1) == 0 {
		nd.Assume(nd.Or(n <= 40, nd.And(n >= 2030, n <= 2060), n >= 8150))
	}
	n = nd.Concrete(n)
	var h AACHeader
	err := h.Parse(asc)
	nd.Assert(err == nil, "valid AudioSpecificConfig accepted")
	a := h.Adts(make([]byte, n))
	nd.Assert(len(a) == 7, "7-byte ADTS header")
	nd.Assert(a[0] == 0xff && a[1]&0xf6 == 0xf0, "sync word and layer 0")
	nd.Assert(a[1]&1 == 1, "protection_absent set: no CRC is written")
	nd.Assert(a[2]>>6 == obj-1, "profile survives")
	nd.Assert((a[2]>>2)&0x0f == rate, "sampling frequency index survives")
	nd.Assert((a[2]&1)<<2|a[3]>>6 == ch, "channel configuration survives")
	fl := int(a[3]&3)<<11 | int(a[4])<<3 | int(a[5]>>5)
	nd.Assert(fl == n+7, "frame_length is header+payload")
	nd.Assert(a[6]&3 == 0, "one raw data block")
	nd.Reach("header checked")
}

// Any bytes at all may arrive as an AudioSpecificConfig.
//
//vf:prop C08
//vf:bounds AudioSpecificConfig of 0..4 arbitrary bytes
func VfAscTotal() {
	n := nd.Pick("n", 0, 4)
	var h AACHeader
	err := h.Parse(nd.Bytes("asc", n))
	if n < 2 {
		nd.Assert(err != nil, "short AudioSpecificConfig rejected")
		nd.Reach("short")
		return
	}
	_ = h.Adts(make([]byte, 5))
	nd.Reach("long enough")
}
