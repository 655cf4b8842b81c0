package librtmp

import (
	"github.com/SmartBrave/Athena/broadcast"
	"github.com/sbraveyoung/GGmpeg/libflv"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfStream is one publication as its viewer sees it.
type vfStream struct {
	app    string
	name   string
	owner  int
	room   *Room
	viewer *broadcast.BroadcastReader
	media  [][]byte
}

func (s *vfStream) over() {
	for i := 0; i < 3; i++ {
		p, _ := s.viewer.Read()
		nd.Assert((p != nil) == (len(s.media) > 0), "headers come first")
	}
	for _, m := range s.media {
		for {
			p, alive := s.viewer.Read()
			nd.Assert(alive, "what was published is seen")
			a, ok := p.(*libflv.AudioTag)
			if !ok || a.Marshal()[0] == 0xaf {
				continue //a header said again
			}
			nd.Assert(nd.Eq(a.Marshal(), m), "what was published is seen, nothing else")
			break
		}
	}
	_, alive := s.viewer.Read()
	nd.Assert(!alive, "the viewer learns the end, and sees nothing else before")
}

// Publishers and players of two names.
//
//vf:prop C27
//vf:bounds two connections, a publish and then two (thorough: any four) steps, each a publish, a play, media, a second connect or a hang-up of either, stream names of one letter each that may or may not be equal
func VfOwnership() {
	srv := NewServer(":0", "live", "vod")
	var cs [2]*vfWire
	app := [2]string{"live", "live"}
	for i := range cs {
		cs[i] = vfDial(srv)
		cs[i].say(vfMsg(20, 0, vfConnect("live"), 128))
	}
	name := [2]string{"x", nd.String("name", 1)}
	nd.Assume(nd.And(name[1][0] >= 'a', name[1][0] <= 'z'))
	same := nd.EqStr(name[0], name[1])
	var live []*vfStream
	end := func(i int) {
		for k, s := range live {
			if s.owner == i {
				live = append(live[:k:k], live[k+1:]...)
				s.over()
				nd.Reach("over")
				return
			}
		}
	}
	last := -1
	for step := 0; step < nd.Bound(3, 4); step++ {
		i := 0
		if step > 0 {
			i = nd.Pick("who", 0, 1) //the first one is called 0
		}
		c := cs[i]
		if c == nil {
			return
		}
		c.out = nil
		op := 0
		if step > 0 || nd.Bound(0, 1) > 0 {
			op = nd.Pick("op", 0, 4)
		}
		nd.Assume(op != last || op < 2)
		last = op
		switch op {
		case 0: //publish
			//the letters decide whether this is free
			k := i
			if op == 0 && nd.Bool("other name") {
				k = 1 - i
			}
			var holder *vfStream
			for _, s := range live {
				if s.app == app[i] && (s.name == name[k] || same) {
					holder = s
				}
			}
			c.say(vfMsg(20, 0, vfCommand("publish", name[k]), 128))
			got := srv.apps[app[i]].Load(name[k])
			if holder != nil {
				nd.Assert(got == holder.room, "the first publisher keeps the name")
				nd.Assert(vfStatus(c.out) == "NetStream.Publish.BadName", "the second is told")
				nd.Reach("refused")
				break
			}
			nd.Assert(got != nil && vfStatus(c.out) == "NetStream.Publish.Start", "published")
			s := &vfStream{app: app[i], name: name[k], owner: i, room: got, viewer: broadcast.NewBroadcastReader(got.GOP)}
			end(i)
			live = append(live, s)
		case 1: //media, from a publisher, a player or neither
			t := nd.U32("byte")
			m := []byte{0x2f, byte(i), byte(t)}
			c.say(vfMsg(18, 0, []byte{2, 0, 1, 'm', 5}, 128))
			c.say(vfMsg(9, 0, []byte{0x17, 0, 0, 0, 0, 1}, 128))
			c.say(vfMsg(8, 0, []byte{0xaf, 0, 0x12, 0x10}, 128))
			c.say(vfMsg(8, 0, m, 128))
			for _, s := range live {
				if s.owner == i {
					s.media = append(s.media, m)
					nd.Reach("seen")
				}
			}
		case 2: //play
			c.say(vfMsg(20, 0, vfCommand("play", name[0]), 128))
			want := "NetStream.Play.StreamNotFound"
			for _, s := range live {
				if s.app == app[i] && (s.name == name[0] || same) {
					want = "NetStream.Play.Start"
				}
			}
			st := vfStatus(c.out)
			nd.Assert(st == want, "play answered")
		case 3: //hang up
			c.hangUp()
			cs[i] = nil
			end(i)
		case 4: //connect again, elsewhere
			c.say(vfMsg(20, 0, vfConnect("vod"), 128))
			end(i)
			app[i] = "vod"
		}
		for _, a := range []string{"live", "vod"} {
			for k := range name {
				var want *Room
				for _, s := range live {
					if s.app == a && (s.name == name[k] || same) {
						want = s.room
					}
				}
				nd.Assert(srv.apps[a].Load(name[k]) == want, "exactly the published names are there")
			}
		}
	}
	for i, c := range cs {
		if c != nil {
			c.hangUp()
			end(i)
		}
	}
	nd.Reach("end")
}

// Two publishers at the same instant.
//
//vf:prop C27
//vf:bounds two connections publishing one name at the same time, up to 2 (thorough 3) preemptions at any synchronisation point
func VfSameInstant() {
	rounds := 1
	if !nd.Symbolic() {
		rounds = 400
	}
	for ; rounds > 0; rounds-- {
		srv := NewServer(":0", "live")
		var r [2]*RTMP
		var c [2]*vfConn
		for i := range r {
			r[i], c[i] = vfSession(srv, "live")
			c[i].out = nil
			c[i].command(false, vfCommand("publish", "x"))
		}
		done := make(chan error, 2)
		start := make(chan struct{})
		for i := range r {
			go func(i int) {
				<-start
				done <- ParseMessage(r[i])
			}(i)
		}
		nd.Preempt(nd.Bound(2, 3))
		close(start)
		nd.Assert(<-done == nil, "answered")
		nd.Assert(<-done == nil, "answered")
		nd.Preempt(0)
		won := -1
		for i := range c {
			if vfStatus(c[i].out) == "NetStream.Publish.Start" {
				nd.Assert(won < 0, "one winner")
				won = i
			}
		}
		nd.Assert(won >= 0, "one winner")
		nd.Assert(srv.apps["live"].Load("x").Publisher == r[won], "the winner holds the name")
		if won == 1 {
			nd.Reach("second first")
		}
	}
	nd.Reach("decided")
}
