package librtmp

import (
	"strconv"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfHost is a whole server, reached over its ports only.
type vfHost struct {
	srv            *server
	rtmp, flv, hls int
	rtsp, srt      int
	hlsOn, rtspOn  bool
}

func vfPortOf(p int) string { return "127.0.0.1:" + strconv.Itoa(p) }

// vfHostUp prepares a server with RTMP and HTTP-FLV; start it with up.
func vfHostUp(apps ...string) *vfHost {
	h := &vfHost{rtmp: nd.FreePort(), flv: nd.FreePort()}
	h.srv = NewServer(vfPortOf(h.rtmp), apps...).WithHTTPFlv(vfPortOf(h.flv))
	return h
}

func (h *vfHost) withHls() *vfHost {
	h.hls = nd.FreePort()
	h.srv.WithHls(vfPortOf(h.hls))
	return h
}

func (h *vfHost) withRtsp() *vfHost {
	h.rtsp = nd.FreePort()
	h.srv.WithRTSP(vfPortOf(h.rtsp))
	return h
}

func (h *vfHost) up() {
	go func() { _ = h.srv.Handler() }()
	nd.Quiesce()
}

// vfShake is a client of an RTMP server that has shaken hands.
func vfShake(port int) *nd.Peer {
	p := nd.NewPeer(nd.Dial(port))
	c := make([]byte, 1+1536+1536)
	c[0] = 3
	p.Say(c)
	b, over := p.Take()
	nd.Assert(len(b) == 1+1536+1536 && !over, "shaken hands")
	return p
}

// vfOnAir publishes over RTMP.
func vfOnAir(port int, app, name string) *nd.Peer {
	p := vfShake(port)
	p.Say(vfMsg(20, 0, vfConnect(app), 128))
	p.Say(vfMsg(20, 0, vfCommand("publish", name), 128))
	b, over := p.Take()
	nd.Assert(!over, "session goes on")
	size := 128
	as := vfAnswers(vfReplies(b, &size))
	nd.Assert(len(as) == 2 && as[1].code == "NetStream.Publish.Start", "on air")
	return p
}

var vfTestRecord = []byte{1, 0x42, 0, 0x1e, 0xff, 0xe1, 0, 5, 0x67, 0x42, 0, 0x1e, 0x95, 1, 0, 4, 0x68, 0xce, 0x38, 0x80}

// vfUp is the upstream's side of one pull.
type vfUp struct {
	*nd.Peer
	size int
}

// vfAccept takes the next pull and shakes hands with it.
func vfAccept(u *nd.Upstream) *vfUp {
	p := u.Next()
	if p == nil {
		return nil
	}
	b, over := p.Take()
	nd.Assert(!over && len(b) == 1+1536 && b[0] == 3, "C0 and C1")
	s := append([]byte{3}, make([]byte, 1536)...)
	p.Say(append(s, b[1:]...))
	up := &vfUp{Peer: p, size: 128}
	return up
}

// heard are the commands that came since.
func (u *vfUp) heard(skip int) ([]vfAnswer, bool) {
	b, over := u.Take()
	nd.Assert(len(b) >= skip, "C2 complete")
	return vfAnswers(vfReplies(b[skip:], &u.size)), over
}

func (u *vfUp) answer(name string, txn uint64, vals ...[]byte) {
	u.Say(vfMsg(20, 0, vfTxn(name, txn, vals...), 128))
}

func vfStatusObj(level, code string) []byte {
	b := append([]byte{3, 0, 5, 'l', 'e', 'v', 'e', 'l'}, vfAmfStr(level)...)
	b = append(b, 0, 4, 'c', 'o', 'd', 'e')
	b = append(b, vfAmfStr(code)...)
	return append(b, 0, 0, 9)
}

