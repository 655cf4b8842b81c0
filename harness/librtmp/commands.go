package librtmp

import (
	"math"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

func vfIsResult(a vfAnswer, txn uint64, what string) {
	nd.Assert(a.name == "_result", what+" is answered with its result")
	nd.Assert(a.txn == txn, what+" is answered under its own number")
}

func vfIsStatus(a vfAnswer, level, code string) {
	nd.Assert(a.name == "onStatus", code+" is a status")
	nd.Assert(len(a.vals) >= 2 && a.vals[0] == nil, code+" comes behind a null")
	nd.Assert(a.level == level && a.code == code, code+" with its level")
}

// Every command of a client and its answer.
//
//vf:prop C32
//vf:bounds connect to a known or an unknown app, then two (thorough three) of 19 commands and control messages in any order, with any transaction numbers 0..255, name of a letter that may or may not be one another connection publishes, any ping
func VfCommands() {
	srv := NewServer(":0", "live")
	other, oc := vfSession(srv, "live")
	nd.Assert(oc.do(other, "publish", "x") == nil, "published")
	room := srv.apps["live"].Load("x")

	c := &vfConn{}
	r := NewRTMP(c, "peer", srv)
	size := 128
	number := func() uint64 { return math.Float64bits(float64(nd.U8("transaction"))) }
	null := []byte{5}
	ask := func(typ byte, body []byte) ([]vfReply, []vfAnswer, error) {
		c.in = append(c.in, vfMsg(typ, 0, body, 128)...)
		c.out = nil
		err := ParseMessage(r)
		all := vfReplies(c.out, &size)
		return all, vfAnswers(all), err
	}

	txn := number()
	app := []string{"live", "vod"}[nd.Pick("app", 0, 1)]
	all, as, err := ask(20, vfTxn("connect", txn, append(append([]byte{3, 0, 3, 'a', 'p', 'p'}, vfAmfStr(app)...), 0, 0, 9)))
	if app != "live" {
		for _, a := range as {
			nd.Assert(a.name != "_result" && a.code != "NetConnection.Connect.Success", "an app that is not there is not connected to")
		}
		if err == nil {
			_, as, _ = ask(20, vfTxn("publish", txn, null, vfAmfStr("y"), vfAmfStr("live")))
			for _, a := range as {
				nd.Assert(a.code != "NetStream.Publish.Start", "nothing is published where nothing is connected")
			}
		}
		nd.Reach("unknown app")
		return
	}
	nd.Assert(err == nil, "connected")
	nd.Assert(len(as) == 1, "connect is answered once")
	vfIsResult(as[0], txn, "connect")
	nd.Assert(as[0].level == "status" && as[0].code == "NetConnection.Connect.Success", "the answer tells success")
	var window, bandwidth, begin, chunk bool
	for _, m := range all {
		switch m.typ {
		case 5:
			window = len(m.body) == 4 && (m.body[0]|m.body[1]|m.body[2]|m.body[3]) != 0
		case 6:
			bandwidth = len(m.body) == 5 && m.body[4] <= 2
		case 4:
			begin = len(m.body) == 6 && m.body[0] == 0 && m.body[1] == 0
		case 1:
			chunk = true
		case 20:
			nd.Assert(window && bandwidth && begin && chunk, "window, bandwidth, chunk size and the beginning of the stream come before the result")
		}
	}

	mine := ""
	over := func() {
		if mine != "" {
			nd.Assert(srv.apps["live"].Load(mine) == nil, "a stream that is closed is over")
			mine = ""
			nd.Reach("closed")
		}
	}
	for step := 0; step < nd.Bound(2, 3); step++ {
		op := nd.Pick("op", 0, 18)
		txn := number()
		one := func(name string, args ...[]byte) vfAnswer {
			all, as, err := ask(20, vfTxn(name, txn, append([][]byte{null}, args...)...))
			nd.Assert(err == nil, name+" goes on")
			nd.Assert(len(as) == 1 && len(all) == 1, name+" is answered once")
			return as[0]
		}
		none := func(typ byte, body []byte) {
			all, _, err := ask(typ, body)
			nd.Assert(err == nil, "the session goes on")
			nd.Assert(len(all) == 0, "not answered")
		}
		switch op {
		case 0:
			vfIsResult(one("releaseStream", vfAmfStr("x")), txn, "releaseStream")
		case 1:
			vfIsResult(one("FCPublish", vfAmfStr("x")), txn, "FCPublish")
		case 2:
			a := one("createStream")
			vfIsResult(a, txn, "createStream")
			nd.Assert(len(a.vals) == 2 && a.vals[0] == nil, "createStream gives a stream behind a null")
			_, ok := a.vals[1].(uint64)
			nd.Assert(ok, "a stream is a number")
		case 3: //publish
			name := nd.String("name", 1)
			nd.Assume(nd.And(name[0] >= 'v', name[0] <= 'z'))
			a := one("publish", vfAmfStr(name), vfAmfStr("live"))
			if nd.EqStr(name, "x") || (mine != "" && nd.EqStr(name, mine)) {
				vfIsStatus(a, "error", "NetStream.Publish.BadName")
				nd.Reach("refused")
			} else {
				vfIsStatus(a, "status", "NetStream.Publish.Start")
				nd.Assert(srv.apps["live"].Load(name) != nil, "and there it is")
				if mine != "" {
					nd.Assert(srv.apps["live"].Load(mine) == nil, "one stream at a time")
				}
				mine = name
				nd.Reach("published")
			}
		case 4: //play
			name := nd.String("name", 1)
			nd.Assume(nd.And(name[0] >= 'v', name[0] <= 'z'))
			_, as, err := ask(20, vfTxn("play", txn, null, vfAmfStr(name)))
			nd.Assert(err == nil, "play goes on")
			if nd.EqStr(name, "x") || (mine != "" && nd.EqStr(name, mine)) {
				start := false
				for _, a := range as {
					vfIsStatus(a, "status", a.code)
					start = start || a.code == "NetStream.Play.Start"
				}
				nd.Assert(start, "play starts")
				nd.Reach("played")
				return //whatever else is written is the stream's
			}
			nd.Assert(len(as) == 1, "a play of nothing is answered once")
			vfIsStatus(as[0], "error", "NetStream.Play.StreamNotFound")
			nd.Reach("not found")
		case 5:
			vfIsStatus(one("pause", []byte{1, 1}, vfAmfNum(0x3f)), "status", "NetStream.Pause.Notify")
		case 6:
			vfIsStatus(one("pause", []byte{1, 0}, vfAmfNum(0x3f)), "status", "NetStream.Unpause.Notify")
		case 7:
			vfIsStatus(one("seek", vfAmfNum(0x3f)), "status", "NetStream.Seek.Notify")
		case 8:
			vfIsResult(one("receiveAudio", []byte{1, byte(nd.Pick("flag", 0, 1))}), txn, "receiveAudio")
		case 9:
			vfIsResult(one("receiveVideo", []byte{1, byte(nd.Pick("flag", 0, 1))}), txn, "receiveVideo")
		case 10:
			name := "x" //another's
			if mine != "" && nd.Pick("own", 0, 1) == 1 {
				name = mine
			}
			vfIsStatus(one("FCUnpublish", vfAmfStr(name)), "status", "NetStream.Unpublish.Success")
			if name != "x" {
				over()
			}
		case 11:
			vfIsStatus(one("deleteStream", vfAmfNum(0x3f)), "status", "NetStream.Unpublish.Success")
			over()
		case 12:
			vfIsStatus(one("closeStream"), "status", "NetStream.Unpublish.Success")
			over()
		case 13: //a command nobody knows
			none(20, vfTxn(nd.String("command", 3), txn, null))
		case 14: //an answer to nothing
			none(20, vfTxn([]string{"_result", "_error", "onStatus"}[nd.Pick("answer", 0, 2)], txn, null, null))
		case 15: //ping
			stamp := nd.Bytes("ping", 4)
			all, _, err := ask(4, append([]byte{0, 6}, stamp...))
			nd.Assert(err == nil && len(all) == 1, "a ping is answered once")
			nd.Assert(all[0].typ == 4 && len(all[0].body) == 6, "with a control message")
			nd.Assert(all[0].body[0] == 0 && all[0].body[1] == 7 && nd.Eq(all[0].body[2:], stamp), "that gives its time back")
			nd.Reach("ping")
		case 16: //other control messages
			e := nd.U16("event")
			nd.Assume(e != 6)
			none(4, append([]byte{byte(e >> 8), byte(e)}, nd.Bytes("event data", 4)...))
		case 17:
			none(3, nd.Bytes("acknowledged", 4))
		case 18:
			none(6, nd.Bytes("bandwidth", 5))
		}
		nd.Assert(srv.apps["live"].Load("x") == room, "another's stream is not touched")
		if mine != "" {
			nd.Assert(srv.apps["live"].Load(mine) != nil, "a stream goes on until it is closed")
		}
	}
	nd.Reach("end")
}

// A session goes on, or its connection is closed.
//
//vf:prop C32
//vf:opt steps=20000000
//vf:bounds a publisher that sends one message of any of 256 types and up to 2 (thorough 3) bytes of anything, or connects to an app that is not there, or a client that shakes hands with another version
func VfSessionEnd() {
	h := vfHostUp("live")
	h.up()
	how := nd.Pick("how", 0, 2)
	if how == 2 {
		p := nd.NewPeer(nd.Dial(h.rtmp))
		c := make([]byte, 1+1536)
		c[0] = nd.U8("version")
		nd.Assume(c[0] != 3)
		p.Say(c)
		b, over := p.Take()
		nd.Assert(over && len(b) == 0, "another version is turned away")
		nd.Reach("version")
		return
	}
	p := vfOnAir(h.rtmp, "live", "x")
	room := h.srv.apps["live"].Load("x")
	nd.Assert(room != nil, "on air")
	w := vfWatch(room)
	if how == 0 {
		typ := nd.U8("type")
		body := nd.Bytes("body", nd.Pick("bytes", 0, nd.Bound(2, 3)))
		p.Say(vfMsg(typ, 0, body, 128))
	} else {
		p.Say(vfMsg(20, 0, vfConnect("vod"), 128))
	}
	p.Take()
	p.Say(vfMsg(4, 0, []byte{0, 6, 1, 2, 3, 4}, 128))
	b, over := p.Take()
	if over {
		nd.Assert(h.srv.apps["live"].Load("x") == nil, "the name is free")
		_, over = w.take()
		nd.Assert(over, "viewers learn the end")
		nd.Reach("closed")
	} else {
		nd.Assert(len(b) > 0, "who is not turned away is answered")
		nd.Reach("goes on")
	}
}
