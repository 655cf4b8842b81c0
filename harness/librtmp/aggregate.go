package librtmp

import (
	"github.com/sbraveyoung/GGmpeg/libflv"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

type vfSub struct {
	typ  byte
	time uint32
	body []byte
}

func vfSubs(n int) (subs []vfSub, payload []byte) {
	for i := 0; i < n; i++ {
		s := vfSub{typ: 8, time: nd.U32("sub time")}
		if nd.Bool("foreign") {
			s.typ = nd.U8("type")
			nd.Assume(nd.And(s.typ != 8, s.typ != 9, s.typ != 15, s.typ != 18))
		}
		s.body = vfBody("sub body", nd.Pick("sub length", 2, 3))
		subs = append(subs, s)
		k := len(s.body)
		payload = append(payload, s.typ, 0, 0, byte(k),
			byte(s.time>>16), byte(s.time>>8), byte(s.time), byte(s.time>>24), 0, 0, 0)
		payload = append(payload, s.body...)
		payload = append(payload, vfB32(uint32(k+11))...)
	}
	return subs, payload
}

// An aggregate is its sub-messages, at the aggregate's time.
//
//vf:prop C05
//vf:bounds one to three sub-messages of 2-3 bytes, each audio or of any type that is not media, every time of the aggregate and of each sub-message, aggregates split into chunks of 16, 64 or 128 bytes
func VfAggregate() {
	_, r, c, v := vfPublisher()
	time := nd.U32("time")
	subs, payload := vfSubs(nd.Pick("subs", 1, nd.Bound(3, 4)))
	size := []int{128, 16}[nd.Pick("chunk size", 0, 1)]
	if size != 128 {
		vfChunkSize(c, r, size)
	}
	c.in = append(c.in, vfSplitMsg(22, time, payload, size)...)
	nd.Assert(ParseMessage(r) == nil, "taken")
	for _, s := range subs {
		if s.typ != 8 {
			nd.Reach("skipped")
			continue
		}
		vfSame(vfNext(v), time+(s.time-subs[0].time), s.body, "sub-message")
		nd.Reach("sub-message")
	}
	//nothing else: the next thing seen is the next message
	mark := []byte{0x2f, 1, 2, 3}
	c.in = append(c.in, vfSplitMsg(8, 0, mark, size)...)
	nd.Assert(ParseMessage(r) == nil, "next taken")
	vfSame(vfNext(v), 0, mark, "nothing else")
}

// An aggregate that lies about a length is refused; what precedes the lie
// may be seen, nothing after it.
//
//vf:prop C05
//vf:bounds two sub-messages of which the second or the first announces any length beyond the end, or the payload is cut anywhere
func VfAggregateCut() {
	_, r, c, v := vfPublisher()
	subs, payload := vfSubs(2)
	second := 11 + len(subs[0].body) + 4
	where := nd.Pick("where", 0, 2)
	n := len(payload)
	bad := false
	switch where {
	case 0, 1:
		at := where * second
		l := nd.U32("length")
		nd.Assume(l < 1<<24)
		nd.Assume(int(l) > n-at-11)
		payload[at+1], payload[at+2], payload[at+3] = byte(l>>16), byte(l>>8), byte(l)
		bad = true
	default:
		n = nd.Pick("cut", 1, len(payload)-1)
		payload = payload[:n]
		//cut within a body
		bad = n >= 11 && n < 11+len(subs[0].body) || n >= second+11 && n < second+11+len(subs[1].body)
	}
	c.in = append(c.in, vfMsg(22, 7, payload, 128)...)
	err := ParseMessage(r)
	if bad {
		nd.Assert(err != nil, "a lie about a length is an error")
		nd.Reach("refused")
	}
	k := 0
	for i, s := range subs {
		whole := i*second+11+len(s.body) <= n && !(bad && where <= i)
		if whole && s.typ == 8 {
			k++
		}
	}
	for i := 0; i < k; i++ {
		vfNext(v)
	}
	mark := []byte{0x2f, 1, 2, 3}
	c.in = append([]byte{}, vfMsg(8, 0, mark, 128)...)
	c.pos = 0
	nd.Assert(ParseMessage(r) == nil, "next taken")
	vfSame(vfNext(v), 0, mark, "nothing else")
	nd.Reach("end")
}

// Video in an aggregate.
//
//vf:prop C05
//vf:bounds an audio and an inter-frame video sub-message in either order, every time, composition time and payload of 3 bytes
func VfAggregateVideo() {
	_, r, c, v := vfPublisher()
	time := nd.U32("time")
	var ts [2]uint32
	first := nd.Pick("video first", 0, 1)
	cts := uint32(nd.Range("cts", 0, 0x7fffff))
	audio := vfBody("audio", 3)
	video := append([]byte{0x27, 1, byte(cts >> 16), byte(cts >> 8), byte(cts)}, nd.Bytes("video", 3)...)
	var payload []byte
	for i := range ts {
		ts[i] = nd.U32("sub time")
		typ, body := byte(9), video
		if i != first {
			typ, body = 8, audio
		}
		payload = append(payload, typ, 0, 0, byte(len(body)), byte(ts[i]>>16), byte(ts[i]>>8), byte(ts[i]), byte(ts[i]>>24), 0, 0, 0)
		payload = append(payload, body...)
		payload = append(payload, vfB32(uint32(len(body)+11))...)
	}
	c.in = append(c.in, vfSplitMsg(22, time, payload, 128)...)
	nd.Assert(ParseMessage(r) == nil, "taken")
	for i := range ts {
		at := time + (ts[i] - ts[0])
		t := vfNext(v)
		if i != first {
			vfSame(t, at, audio, "audio")
			continue
		}
		f, ok := t.(*libflv.VideoTag)
		nd.Assert(ok, "video")
		nd.Assert(f.GetTagInfo().TimeStamp == at, "video time")
		nd.Assert(nd.Eq(f.Marshal(), video), "video body")
		nd.Reach("video")
	}
}
