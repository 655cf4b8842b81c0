package librtmp

import (
	"crypto/rand"
	"math"
	"strconv"
	"time"

	"github.com/sbraveyoung/GGmpeg/libflv"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// A stream pulled from another server.
//
//vf:prop C33
//vf:opt steps=40000000
//vf:bounds one upstream that refuses at connect, at createStream or at play, hangs up at any of these points, falls silent before one, or serves a stream, with a pause of 15 s in it or none, of headers and two (thorough three) frames of any content and time below 2^24 ms, then hangs up or says the stream is gone; then the same again; any stream id up to 255
func VfPull() {
	h := vfHostUp("live")
	port := nd.FreePort()
	u := nd.Listen(port)
	url := "rtmp://127.0.0.1:" + strconv.Itoa(port) + "/app/foo"
	h.srv.WithRTMPPull(url, "live", "mirror")
	h.up()
	null := []byte{5}
	app := h.srv.apps["live"]
	rounds := 2
	for round := 0; round < rounds; round++ {
		up := vfAccept(u)
		nd.Assert(up != nil, "the upstream is asked (again)")
		end := func(how string) {
			nd.Quiesce()
			nd.Assert(app.Load("mirror") == nil, "the name is free: "+how)
			_, over := up.Take()
			nd.Assert(over, "the connection is given up: "+how)
			nd.Reach(how)
			time.Sleep(1500 * time.Millisecond)
		}
		how := 7
		if round == 0 {
			how = nd.Pick("upstream", 0, 10)
		}
		if how == 8 {
			time.Sleep(15500 * time.Millisecond)
			end("silent at connect")
			continue
		}
		as, over := up.heard(1536)
		nd.Assert(!over && len(as) == 1 && as[0].name == "connect", "connects, and waits")
		nd.Assert(as[0].txn != 0 && len(as[0].vals) >= 1, "a connect has a number")
		o, _ := as[0].vals[0].(vfObj)
		nd.Assert(o["app"] == "app", "connects to the app of the address")
		nd.Assert(o["tcUrl"] == "rtmp://127.0.0.1:"+strconv.Itoa(port)+"/app", "names the address")
		switch how {
		case 0:
			up.answer("_error", as[0].txn, null, vfStatusObj("error", "NetConnection.Connect.Rejected"))
			more, _ := up.heard(0)
			nd.Assert(len(more) == 0, "nothing is asked of who refuses")
			end("refused at connect")
			continue
		case 1:
			up.HangUp()
			end("gone at connect")
			continue
		}
		up.Say(vfMsg(5, 0, vfB32(2500000), 128))
		up.Say(vfMsg(4, 0, []byte{0, 0, 0, 0, 0, 0}, 128))
		more, _ := up.heard(0)
		nd.Assert(len(more) == 0, "waits for the result")
		up.answer("_result", as[0].txn, vfStatusObj("status", "NetConnection.Connect.Success"))
		as, over = up.heard(0)
		nd.Assert(!over && len(as) == 1 && as[0].name == "createStream", "makes a stream, and waits")
		nd.Assert(as[0].txn != 0, "a createStream has a number")
		if how == 9 {
			time.Sleep(15500 * time.Millisecond)
			end("silent at createStream")
			continue
		}
		id := nd.U8("stream id")
		nd.Assume(id > 0)
		switch how {
		case 2:
			up.answer("_error", as[0].txn, null, vfStatusObj("error", "NetConnection.Call.Failed"))
			more, _ := up.heard(0)
			nd.Assert(len(more) == 0, "nothing is asked of who refuses")
			end("refused at createStream")
			continue
		case 3:
			up.HangUp()
			end("gone at createStream")
			continue
		}
		num := math.Float64bits(float64(id))
		stream := make([]byte, 9)
		for i := 0; i < 8; i++ {
			stream[1+i] = byte(num >> uint(56-8*i))
		}
		up.answer("_result", as[0].txn, null, stream)
		b, over := up.Take()
		nd.Assert(!over && len(b) > 12, "plays")
		nd.Assert(nd.And(b[8] == id, b[9] == 0, b[10] == 0, b[11] == 0), "plays on the stream it was given")
		as = vfAnswers(vfReplies(b, &up.size))
		nd.Assert(len(as) == 1 && as[0].name == "play", "plays")
		nd.Assert(len(as[0].vals) >= 2 && as[0].vals[0] == nil && as[0].vals[1] == "foo", "plays the stream of the address")
		switch how {
		case 4:
			up.answer("onStatus", 0, null, vfStatusObj("error", "NetStream.Play.StreamNotFound"))
			end("refused at play")
			continue
		case 5:
			up.HangUp()
			end("gone at play")
			continue
		}
		up.answer("onStatus", 0, null, vfStatusObj("status", "NetStream.Play.Reset"))
		up.answer("onStatus", 0, null, vfStatusObj("status", "NetStream.Play.Start"))
		room := app.Load("mirror")
		nd.Assert(room != nil, "the stream has its name here")
		w := vfWatch(room)
		up.Say(vfMsg(9, 0, append([]byte{0x17, 0, 0, 0, 0}, vfTestRecord...), 128))
		up.Say(vfMsg(8, 0, []byte{0xaf, 0, 0x12, 0x10}, 128))
		if how == 10 {
			//an answer is due in time, the stream is not
			time.Sleep(15500 * time.Millisecond)
			nd.Reach("a pause")
		}
		type sent struct {
			time uint32
			body []byte
		}
		var all []sent
		for i := 0; i < nd.Bound(2, 3); i++ {
			s := sent{time: nd.U32("time")}
			nd.Assume(s.time < 0xffffff)
			typ := byte(8)
			switch {
			case i == 0:
				typ = 9
				s.body = append([]byte{0x17, 1, 0, 0, 0}, nd.Bytes("key", 3)...)
			case nd.Pick("audio", 0, 1) == 1:
				s.body = append([]byte{0xaf, 1}, nd.Bytes("sound", 3)...)
			default:
				typ = 9
				s.body = append([]byte{0x27, 1}, nd.Bytes("picture", 6)...)
			}
			up.Say(vfSplitMsg(typ, s.time, s.body, 128))
			all = append(all, s)
		}
		tags, over := w.take()
		nd.Assert(!over && len(tags) == 2+len(all), "two headers, then every frame")
		for i, s := range all {
			nd.Assert(tags[2+i].GetTagInfo().TimeStamp == s.time, "time")
			nd.Assert(nd.Eq(tags[2+i].Marshal(), s.body), "every byte")
		}
		_ = libflv.AUDIO_TAG
		if how == 6 {
			up.answer("onStatus", 0, null, vfStatusObj("status", "NetStream.Play.UnpublishNotify"))
			nd.Quiesce()
			nd.Assert(app.Load("mirror") == nil, "the stream is over when the upstream says so")
		} else {
			up.HangUp()
		}
		_, over = w.take()
		nd.Assert(over, "viewers learn the end")
		if round == 0 {
			end("over")
		}
		nd.Reach("watched")
	}
	nd.Reach("end")
}

// vfEven is no source of surprise.
type vfEven struct{}

func (vfEven) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 7
	}
	return len(b), nil
}

// A server that pulls from another, to which a player is connected as well.
//
//vf:prop C33
//vf:opt steps=60000000
//vf:bounds a stream of one key picture and one (thorough two) further frames of any content and time below 2^24 ms, its end, and one more such stream, pulled by another server and played from either
func VfChain() {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = vfEven{}
	h, m := vfHostUp("live"), vfHostUp("copy")
	m.srv.WithRTMPPull("rtmp://"+vfPortOf(h.rtmp)+"/live/x", "copy", "y")
	h.up()
	src := vfOnAir(h.rtmp, "live", "x")
	m.up()
	for round := 0; round < 2; round++ {
		src.Say(vfMsg(9, 0, append([]byte{0x17, 0, 0, 0, 0}, vfTestRecord...), 128))
		src.Say(vfMsg(8, 0, []byte{0xaf, 0, 0x12, 0x10}, 128))
		var players [2]*nd.Peer
		var sizes [2]int
		for i, p := range []struct {
			port      int
			app, name string
		}{{h.rtmp, "live", "x"}, {m.rtmp, "copy", "y"}} {
			players[i], sizes[i] = vfShake(p.port), 128
			players[i].Say(vfMsg(20, 0, vfConnect(p.app), 128))
			players[i].Say(vfMsg(20, 0, vfCommand("play", p.name), 128))
		}
		type sent struct {
			typ  byte
			time uint32
			body []byte
		}
		all := []sent{{9, 0, append([]byte{0x17, 0, 0, 0, 0}, vfTestRecord...)}, {8, 0, []byte{0xaf, 0, 0x12, 0x10}}}
		for i := 0; i < nd.Bound(2, 3); i++ {
			s := sent{typ: 9, time: nd.U32("time")}
			nd.Assume(s.time < 0xffffff)
			switch {
			case i == 0:
				s.body = append([]byte{0x17, 1, 0, 0, 0}, nd.Bytes("key", 3)...)
			case nd.Pick("audio", 0, 1) == 1:
				s.typ = 8
				s.body = append([]byte{0xaf, 1}, nd.Bytes("sound", 3)...)
			default:
				s.body = append([]byte{0x27, 1}, nd.Bytes("picture", 6)...)
			}
			src.Say(vfSplitMsg(s.typ, s.time, s.body, 128))
			all = append(all, s)
		}
		look := func(i int) (media []vfReply, as []vfAnswer) {
			b, over := players[i].Take()
			nd.Assert(!over, "the connection stays")
			rs := vfReplies(b, &sizes[i])
			for _, r := range rs {
				if r.typ == 8 || r.typ == 9 {
					media = append(media, r)
				}
			}
			return media, vfAnswers(rs)
		}
		for i := range players {
			media, as := look(i)
			nd.Assert(len(as) >= 2 && as[len(as)-1].code != "NetStream.Play.UnpublishNotify", "the stream goes on")
			nd.Assert(len(media) == len(all), "two headers, then every frame")
			for j, w := range all {
				nd.Assert(media[j].typ == w.typ, "kind")
				nd.Assert(media[j].time == w.time, "time")
				nd.Assert(nd.Eq(media[j].body, w.body), "every byte")
			}
		}
		src.HangUp()
		nd.Quiesce()
		nd.Assert(h.srv.apps["live"].Load("x") == nil && m.srv.apps["copy"].Load("y") == nil, "the names are free on either")
		for i := range players {
			media, as := look(i)
			nd.Assert(len(media) == 0 && len(as) == 1, "the end, and nothing else")
			nd.Assert(as[0].name == "onStatus" && as[0].level == "status" && as[0].code == "NetStream.Play.UnpublishNotify", "a player is told the end")
			players[i].HangUp()
		}
		nd.Reach("seen")
		if round == 0 {
			src = vfOnAir(h.rtmp, "live", "x")
			for i := 0; i < 20 && m.srv.apps["copy"].Load("y") == nil; i++ {
				time.Sleep(500 * time.Millisecond) //the pull is tried again
			}
			nd.Quiesce()
			nd.Assert(m.srv.apps["copy"].Load("y") != nil, "pulled again")
		}
	}
	nd.Reach("end")
}
