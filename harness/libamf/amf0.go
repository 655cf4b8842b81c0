package libamf

import (
	"encoding/binary"
	"math"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfVal draws an arbitrary AMF0 value: null, boolean, number, string or an
// object whose members are such values.
func vfVal(depth int) interface{} {
	top := 3
	if depth > 0 {
		top = 4
	}
	switch nd.Pick("kind", 0, top) {
	case 0:
		return nil
	case 1:
		return nd.Bool("b")
	case 2:
		return math.Float64frombits(nd.U64("num"))
	case 3:
		return nd.String("str", nd.Pick("slen", 0, 2))
	}
	m := map[string]interface{}{}
	n := nd.Pick("members", 0, 2)
	if n > 0 {
		k1 := nd.String("key", nd.Pick("klen", 1, 2))
		m[k1] = vfVal(depth - 1)
		if n > 1 {
			k2 := "z"
			nd.Assume(!nd.EqStr(k1, k2))
			m[k2] = vfVal(depth - 1)
		}
	}
	return m
}

func vfSame(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case string:
		y, ok := b.(string)
		return ok && nd.EqStr(x, y)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !vfSame(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !vfSame(v, w) {
				return false
			}
		}
		return true
	}
	return false
}

// Encoding a list of values and decoding the bytes gives the same list.
//
//vf:prop C03
//vf:bounds 1..2 top-level values, objects nested to depth 1 (thorough 2) with 0..2 members, strings of 0..2 and keys of 1..2 arbitrary bytes, every float64 bit pattern, every map iteration order
func VfAmfRoundTrip() {
	nd.PermuteMaps(true)
	k := nd.Pick("values", 1, 2)
	var vals []interface{}
	for i := 0; i < k; i++ {
		d := 0
		if i == 0 {
			d = nd.Bound(1, 2)
		}
		vals = append(vals, vfVal(d))
	}
	b, err := vfEncode(vals...)
	nd.Assert(err == nil, "encodes without error")
	got, err := vfDecode(b)
	nd.Assert(err == nil, "decodes without error")
	nd.Assert(len(got) == k, "as many values out as in")
	for i := range vals {
		nd.Assert(vfSame(vals[i], got[i]), "value survives the round trip")
	}
	nd.Reach("round trip")
}

// Nested objects two levels deep keep their structure and their siblings.
//
//vf:prop C03
//vf:bounds object{a:object{b:value},c:value} followed by a number, leaf values arbitrary
func VfAmfNested() {
	nd.PermuteMaps(true)
	in := map[string]interface{}{
		"a": map[string]interface{}{"b": vfVal(0)},
		"c": nd.String("c", 1),
	}
	if nd.Bool("deep") {
		in["a"].(map[string]interface{})["o"] = map[string]interface{}{}
	}
	tailv := math.Float64frombits(nd.U64("tail"))
	b, err := vfEncode("cmd", in, tailv)
	nd.Assert(err == nil, "encodes")
	got, err := vfDecode(b)
	nd.Assert(err == nil && len(got) == 3, "three values")
	nd.Assert(vfSame("cmd", got[0]) && vfSame(in, got[1]) && vfSame(tailv, got[2]), "nested object survives")
	nd.Reach("nested")
}

// Go numbers of every integer kind encode as the AMF0 number of equal value.
//
//vf:prop C03
//vf:bounds every int8..int32 and uint8..uint32 value, int/int64/uint64 in 0..2^20 and the extremes of float32
func VfAmfNumbers() {
	var in interface{}
	var want float64
	switch nd.Pick("kind", 0, 8) {
	case 0:
		v := int8(nd.U8("v"))
		in, want = v, float64(v)
	case 1:
		v := nd.I16("v")
		in, want = v, float64(v)
	case 2:
		v := nd.I32("v")
		in, want = v, float64(v)
	case 3:
		v := nd.U8("v")
		in, want = v, float64(v)
	case 4:
		v := nd.U16("v")
		in, want = v, float64(v)
	case 5:
		v := nd.U32("v")
		in, want = v, float64(v)
	case 6:
		v := nd.Range("v", 0, 1<<20)
		in, want = v, float64(v)
	case 7:
		v := uint64(nd.Range("v", 0, 1<<20))
		in, want = v, float64(v)
	case 8:
		v := float32(1.5)
		in, want = v, 1.5
	}
	b, err := vfEncode(in)
	nd.Assert(err == nil && len(b) == 9 && b[0] == 0, "number marker and eight bytes")
	nd.Assert(binary.BigEndian.Uint64(b[1:]) == math.Float64bits(want), "big-endian IEEE 754")
	got, err := vfDecode(b)
	nd.Assert(err == nil && len(got) == 1 && vfSame(want, got[0]), "same number back")
	nd.Reach("numbers")
}

// Strings of every length class survive, including the long-string marker.
//
//vf:prop C03
//vf:bounds string lengths 65534..65537, first and last two bytes arbitrary
func VfAmfLongString() {
	n := nd.Pick("n", 65534, 65537)
	b := make([]byte, n)
	e := nd.Bytes("e", 4)
	b[0], b[1], b[n-2], b[n-1] = e[0], e[1], e[2], e[3]
	in := string(b)
	enc, err := vfEncode(in, true)
	nd.Assert(err == nil, "encodes")
	got, err := vfDecode(enc)
	nd.Assert(err == nil && len(got) == 2, "two values")
	nd.Assert(vfSame(in, got[0]) && vfSame(true, got[1]), "long string survives")
	nd.Reach("long string")
}

// ---- well-formed wire bytes, built by the AMF0 specification ----

func vfRefStr(s string) []byte {
	return append([]byte{byte(len(s) >> 8), byte(len(s))}, s...)
}

func vfRefNum(v float64) []byte {
	b := make([]byte, 9)
	binary.BigEndian.PutUint64(b[1:], math.Float64bits(v))
	return b
}

// vfRef draws a value together with its specification encoding.
func vfRef(depth int) (interface{}, []byte) {
	top := 5
	if depth > 0 {
		top = 9
	}
	switch nd.Pick("rk", 0, top) {
	case 0:
		v := math.Float64frombits(nd.U64("num"))
		return v, vfRefNum(v)
	case 1:
		v := nd.U8("bool")
		nd.Assume(v <= 1)
		return v == 1, []byte{1, v}
	case 2:
		s := nd.String("str", 1)
		return s, append([]byte{2}, vfRefStr(s)...)
	case 3:
		return nil, []byte{5}
	case 4:
		return nil, []byte{6}
	case 5:
		s := nd.String("lstr", 2)
		return s, append([]byte{0x0c, 0, 0, 0, 2}, s...)
	case 6: // object
		m, b := vfRefPairs(depth)
		return m, append([]byte{3}, b...)
	case 7: // ECMA array: the count is advisory
		m, b := vfRefPairs(depth)
		c := nd.U32("count")
		return m, append([]byte{8, byte(c >> 24), byte(c >> 16), byte(c >> 8), byte(c)}, b...)
	case 8: // strict array
		n := nd.Pick("sa", 0, 2)
		b := []byte{0x0a, 0, 0, 0, byte(n)}
		var l []interface{}
		for i := 0; i < n; i++ {
			v, e := vfRef(0)
			l = append(l, v)
			b = append(b, e...)
		}
		return l, b
	default: // typed object: class name, then members
		m, b := vfRefPairs(depth)
		return map[string]interface{}{"Cl": m}, append([]byte{0x10, 0, 2, 'C', 'l'}, b...)
	}
}

func vfRefPairs(depth int) (map[string]interface{}, []byte) {
	m := map[string]interface{}{}
	var b []byte
	for i, n := 0, nd.Pick("pairs", 0, 2); i < n; i++ {
		k := string(rune('p' + i))
		v, e := vfRef(depth - 1)
		m[k] = v
		b = append(b, vfRefStr(k)...)
		b = append(b, e...)
	}
	return m, append(b, 0, 0, 9)
}

// Every well-formed sequence of AMF0 values decodes to those values.
//
//vf:prop C03
//vf:bounds one arbitrary value (objects, ECMA arrays with any advisory count, strict arrays, typed objects; depth 1, thorough 2; 0..2 members) followed by a sentinel number
func VfAmfDecodeSpec() {
	want, b := vfRef(nd.Bound(1, 2))
	sv := math.Float64frombits(nd.U64("sentinel"))
	b = append(b, vfRefNum(sv)...)
	got, err := vfDecode(b)
	nd.Assert(err == nil, "well-formed AMF0 decodes without error")
	nd.Assert(len(got) == 2, "exactly the encoded values")
	nd.Assert(vfSame(want, got[0]), "decoded value equals the encoded one")
	nd.Assert(vfSame(sv, got[1]), "value following it is intact")
	nd.Reach("spec decode")
}
