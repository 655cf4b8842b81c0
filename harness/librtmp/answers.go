package librtmp

import (
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfReply is one message of the server.
type vfReply struct {
	typ  byte
	time uint32
	body []byte
}

// vfReplies takes the server's messages apart; the chunk size it announces
// counts from there on.
func vfReplies(out []byte, size *int) (all []vfReply) {
	for len(out) > 0 {
		var m vfReply
		_, m.typ, m.time, m.body, out = vfRead(out, *size)
		if m.typ == 1 {
			nd.Assert(len(m.body) == 4, "a chunk size has four bytes")
			*size = int(m.body[0])<<24 | int(m.body[1])<<16 | int(m.body[2])<<8 | int(m.body[3])
		}
		all = append(all, m)
	}
	return all
}

// vfObj is an AMF object, read by the book.
type vfObj map[string]interface{}

func vfAmfRead(b []byte) (v interface{}, rest []byte) {
	str := func() string {
		n := int(b[0])<<8 | int(b[1])
		s := string(b[2 : 2+n])
		b = b[2+n:]
		return s
	}
	t := b[0]
	b = b[1:]
	switch t {
	case 0:
		var u uint64
		for _, x := range b[:8] {
			u = u<<8 | uint64(x)
		}
		return u, b[8:]
	case 1:
		return b[0] != 0, b[1:]
	case 2:
		s := str()
		return s, b
	case 3:
		o := vfObj{}
		for b[0] != 0 || b[1] != 0 || b[2] != 9 {
			k := str()
			o[k], b = vfAmfRead(b)
		}
		return o, b[3:]
	case 5:
		return nil, b
	}
	nd.Fail("a value of a known type")
	return nil, nil
}

// vfAnswer is a command of the server.
type vfAnswer struct {
	name  string
	txn   uint64
	vals  []interface{}
	level string
	code  string
}

func vfAnswers(all []vfReply) (as []vfAnswer) {
	for _, m := range all {
		if m.typ != 20 {
			continue
		}
		var a vfAnswer
		var v interface{}
		b := m.body
		v, b = vfAmfRead(b)
		a.name, _ = v.(string)
		v, b = vfAmfRead(b)
		a.txn, _ = v.(uint64)
		for len(b) > 0 {
			v, b = vfAmfRead(b)
			a.vals = append(a.vals, v)
			if o, ok := v.(vfObj); ok {
				if s, ok := o["level"].(string); ok {
					a.level = s
				}
				if s, ok := o["code"].(string); ok {
					a.code = s
				}
			}
		}
		as = append(as, a)
	}
	return as
}

func vfTxn(name string, txn uint64, arg ...[]byte) []byte {
	b := append(vfAmfStr(name), 0)
	for i := 56; i >= 0; i -= 8 {
		b = append(b, byte(txn>>uint(i)))
	}
	for _, a := range arg {
		b = append(b, a...)
	}
	return b
}
