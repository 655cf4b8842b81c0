package libsrt

import nd "github.com/sbraveyoung/GGmpeg/verifnd"

// Loss, duplication and reordering.
//
//vf:prop C24
//vf:bounds every initial sequence number; three (thorough four) data packets of any two bytes (the first perhaps of 1,456), each -1..3 from the one due next or the very first again
func VfDataPackets() {
	s := vfListen()
	c := s.caller(nd.U32("socket id"))
	cookie, our := c.induct()
	init := nd.U32("initial number")
	nd.Assume(init < 1<<31)
	nd.Assert(c.conclude(cookie, our, init), "connected")
	due := init
	var acks uint32
	for i := 0; i < nd.Bound(3, 4); i++ {
		d := uint32(nd.Pick("distance", -1, 3))
		seq := (due + d) & 0x7fffffff
		body := nd.Bytes("payload", 2)
		if i == 0 && nd.Bool("as long as can be") {
			body = append(body, make([]byte, 1454)...)
			for i := 2; i < len(body)-1; i++ {
				body[i] = byte(i * 5)
			}
			body[len(body)-1] = nd.U8("last")
		}
		out := c.say(seq, 0, 0, our, body)
		got := s.take()
		if int32(d) < 0 {
			nd.Assert(len(got) == 0 && len(out) == 0, "what was passed already is not delivered again")
			continue
		}
		nd.Assert(len(got) == 1 && nd.Eq(got[0], body), "delivered at once, unaltered")
		if d > 0 {
			nd.Assert(len(out) > 0 && out[0].first == 0x80030000, "a gap is reported")
			last := (seq - 1) & 0x7fffffff
			b := out[0].body
			if last == due {
				nd.Assert(len(b) == 4 && vfU32(b) == due, "the missing number")
			} else {
				nd.Assert(len(b) == 8 && vfU32(b) == due|0x80000000 && vfU32(b[4:]) == last, "the missing numbers")
			}
			out = out[1:]
		}
		due = (seq + 1) & 0x7fffffff
		nd.Assert(len(out) == 1 && out[0].first == 0x80020000, "acknowledged")
		nd.Assert(len(out[0].body) >= 4 && vfU32(out[0].body) == due, "up to the next number due")
		nd.Assert(acks == 0 || out[0].info == acks+1, "acknowledgements are numbered")
		acks = out[0].info
	}
	nd.Reach("end")
	s.l.Close()
}

// Sessions of two callers.
//
//vf:prop C24
//vf:bounds two callers, a handshake of one and then three (thorough four) packets of either: induction, conclusion with the right or any other cookie, data, keep-alive, shutdown, a handshake with a new socket id, or anything of up to 20 bytes; then data of each that is connected, and the same again
func VfSessions() {
	s := vfListen()
	type peer struct {
		c      *vfCaller
		known  bool //has a cookie
		cookie uint32
		our    uint32
		up     bool
		due    uint32
	}
	ps := [2]*peer{{c: s.caller(0x1111)}, {c: s.caller(0x2222)}}
	induct := func(p *peer) {
		cookie, our := p.c.induct()
		nd.Assert(!p.known || our == p.our, "one socket a session")
		for _, q := range ps {
			nd.Assert(q == p || !q.known || q.our != our, "a socket of its own")
		}
		//the caller may take the cookie of the first answer
		if !p.known {
			p.cookie = cookie
		}
		p.known, p.our = true, our
	}
	conclude := func(p *peer) {
		ok := p.c.conclude(p.cookie, p.our, 100)
		nd.Assert(ok, "connected")
		if !p.up {
			p.up, p.due = true, 100
		}
	}
	if nd.Bool("begin") {
		induct(ps[0])
		conclude(ps[0])
	}
	for i := 0; i < nd.Bound(3, 4); i++ {
		p := ps[nd.Pick("who", 0, 1)]
		switch nd.Pick("what", 0, 7) {
		case 0:
			induct(p)
		case 1:
			if p.known {
				conclude(p)
				nd.Reach("conclusion")
			}
		case 2:
			//a conclusion with another cookie
			k := uint32(0)
			if nd.Bool("some cookie") {
				k = nd.U32("cookie")
				if p.known {
					nd.Assume(k != 0)
					k ^= p.cookie
				}
			}
			out := p.c.say(0x80000000, 0, 0, p.our, vfHello(-1, p.c.id, k, 7))
			for _, r := range out {
				nd.Assert(len(r.body) < 24 || int32(vfU32(r.body[20:])) != -1, "no connection without the cookie")
			}
		case 3:
			b := nd.Bytes("payload", 1)
			out := p.c.say(p.due, 0, 0, p.our, b)
			got := s.take()
			if p.up {
				nd.Assert(len(out) == 1 && out[0].first == 0x80020000 && vfU32(out[0].body) == p.due+1, "acknowledged, nothing is missing")
				nd.Assert(len(got) == 1 && nd.Eq(got[0], b), "data of a connected caller is delivered")
				p.due++
				nd.Reach("data")
			} else {
				nd.Assert(len(got) == 0, "data of others is not")
			}
		case 4:
			out := p.c.say(0x80010000, 0, 0, p.our, nil)
			if p.up {
				nd.Assert(len(out) == 1 && out[0].first == 0x80010000, "kept alive")
			}
		case 5:
			p.c.say(0x80050000, 0, 0, p.our, nil)
			*p = peer{c: p.c}
		case 7:
			//the caller begins anew, from the same address
			p.c.id += 0x1000
			p.known = false
			cookie, our := p.c.induct()
			p.known, p.cookie, p.our = true, cookie, our
			p.due = 40
			p.up = p.c.conclude(cookie, our, p.due)
			nd.Assert(p.up, "connected")
			nd.Reach("anew")
		case 6:
			b := nd.Bytes("anything", nd.Pick("length", 0, 4)*5)
			if len(b) >= 16 {
				//but no data, handshake or shutdown
				nd.Assume(nd.And(b[0] >= 0x80, nd.Or(b[0] != 0x80, nd.And(b[1] != 0, b[1] != 5))))
			}
			p.c.c.Write(b)
			nd.Quiesce()
			p.c.say(0x800f0000, 0, 0, 0, nil)
		}
		nd.Assert(len(s.take()) == 0, "nothing else is delivered")
	}
	for _, p := range ps {
		if p.up {
			b := nd.Bytes("payload", 1)
			out := p.c.say(p.due, 0, 0, p.our, b)
			got := s.take()
			nd.Assert(len(got) == 1 && nd.Eq(got[0], b), "who is connected goes on")
			nd.Assert(len(out) == 1 && out[0].first == 0x80020000 && vfU32(out[0].body) == p.due+1, "and misses nothing")
			p.c.say(p.due, 0, 0, p.our, b)
			nd.Assert(len(s.take()) == 0, "what comes twice is dropped")
		}
	}
	s.l.Close()
	<-s.done
	nd.Reach("end")
}
