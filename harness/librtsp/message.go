package librtsp

import (
	"bufio"
	"io"
	"strings"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfChunks delivers bytes in pieces as a connection does.
type vfChunks struct {
	b    []byte
	size int
}

func (c *vfChunks) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := c.size
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.b) {
		n = len(c.b)
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

// vfWord is any text without blanks, line ends and colons.
func vfWord(label string, min, max int) string {
	s := nd.String(label, nd.Pick(label+" len", min, max))
	for i := 0; i < len(s); i++ {
		nd.Assume(nd.And(s[i] > ' ', s[i] != ':', s[i] < 0x7f))
	}
	return s
}

// Requests on a connection, one after the other.
//
//vf:prop C21
//vf:bounds 1..2 requests; method of 1..2, address of 1..2, header values of 0..2 (plus separator) arbitrary printable characters; header names in either letter case and with blanks around the value; bodies of 0..3 arbitrary bytes or 300; lines ending in CRLF or LF; bytes arriving 1, 7 or 4096 at a time (7 for two requests)
func VfRequests() {
	type req struct {
		method, url, seq, val string
		body                  []byte
	}
	var rs []req
	var wire []byte
	eol := []string{"\r\n", "\n"}[nd.Pick("eol", 0, 1)]
	for i, n := 0, nd.Pick("requests", 1, 2); i < n; i++ {
		q := req{method: vfWord("method", 1, 2), url: vfWord("url", 2-i, 2), val: vfWord("value", 0, 2)}
		q.seq = []string{"1", "4294967295"}[i]
		if len(q.val) == 2 {
			q.val = q.val[:1] + ": " + q.val[1:]
		}
		q.body = nd.Bytes("body", []int{0, 1, 3}[nd.Pick("body len", 0, 2)])
		if len(q.body) == 3 && i == 0 {
			q.body = append(q.body, make([]byte, 297)...)
		}
		rs = append(rs, q)
		style := (len(q.url) + len(q.val) + i) % 3
		name := []string{"CSeq", "cseq", "CSEQ"}[style]
		cl := []string{"Content-Length", "content-length", "CONTENT-LENGTH"}[style]
		sp := []string{" ", "", "   "}[style]
		s := q.method + " " + q.url + " RTSP/1.0" + eol + name + ":" + sp + q.seq + eol
		s += "X-Value:" + sp + q.val + sp + eol
		if len(q.body) > 0 || style == 0 {
			s += cl + ":" + sp + map[int]string{0: "0", 1: "1", 3: "3", 300: "300"}[len(q.body)] + eol
		}
		wire = append(append(wire, s+eol...), q.body...)
	}
	pieces := 1
	if len(rs) == 1 {
		pieces = nd.Pick("pieces", 0, 2)
	}
	r := bufio.NewReader(&vfChunks{wire, []int{1, 7, 4096}[pieces]})
	for _, q := range rs {
		g, err := ReadRequest(r)
		nd.Assert(err == nil, "read")
		nd.Assert(nd.EqStr(g.Method, q.method) && nd.EqStr(g.URL, q.url) && g.Version == "RTSP/1.0", "request line")
		nd.Assert(g.Headers.Get("cseq") == q.seq && g.Headers.Get("CSeq") == q.seq, "header in any letter case")
		nd.Assert(nd.EqStr(g.Headers.Get("x-value"), q.val), "header value")
		nd.Assert(nd.Eq(g.Body, q.body), "body")
		nd.Reach("request")
	}
	_, err := ReadRequest(r)
	nd.Assert(err == io.EOF, "end of the connection")
}

func vfAscii(s string) {
	for i := 0; i < len(s); i++ {
		nd.Assume(s[i] < 0x80)
	}
}

// Damaged input ends in an error, without asking for memory it has no use for.
//
//vf:prop C21
//vf:bounds every input of 0..4 (thorough 6) ASCII bytes; every Content-Length of 0..2 (thorough 3) ASCII bytes, -1, and ones up to beyond 64 bits, with 2 bytes of body; requests cut anywhere
//vf:opt alloc=4194304
func VfRequestTotal() {
	var in string
	switch nd.Pick("kind", 0, 2) {
	case 0:
		in = nd.String("in", nd.Pick("len", 0, nd.Bound(4, 6)))
		vfAscii(in)
	case 1:
		v := nd.String("length", nd.Pick("digits", 0, nd.Bound(2, 3)))
		vfAscii(v)
		if nd.Bool("huge") {
			v = []string{"9999999999999999999", "9223372036854775807", "-1", "4294967296", "1099511627776"}[nd.Pick("which", 0, 4)]
		}
		in = "A b RTSP/1.0\r\nContent-Length:" + v + "\r\n\r\nxy"
	case 2:
		in = "A b RTSP/1.0\r\nContent-Length: 4\r\nA: b\r\n\r\nwxyz"
		in = in[:nd.Pick("cut", 0, len(in)-1)]
		_, err := ReadRequest(bufio.NewReader(strings.NewReader(in)))
		nd.Assert(err != nil, "incomplete request")
		nd.Reach("cut")
		return
	}
	nd.AllocBound(4 << 20)
	g, err := ReadRequest(bufio.NewReader(strings.NewReader(in)))
	nd.Assert((g == nil) == (err != nil), "request or error")
	if err == nil {
		nd.Assert(len(g.Body) <= len(in), "no more body than there is")
		nd.Reach("taken")
	} else {
		nd.Reach("refused")
	}
}

// Responses.
//
//vf:prop C21
//vf:bounds status 100..999, reasons and 0..2 header values of 0..2 arbitrary printable characters, bodies of 0..3 arbitrary bytes or 300, length given or not; every order of the headers
func VfResponse() {
	nd.PermuteMaps(true)
	st := int(nd.U16("status"))
	nd.Assume(nd.And(st >= 100, st <= 999))
	reason := vfWord("reason", 0, 2)
	resp := &Response{StatusCode: st, Reason: reason, Headers: Headers{}}
	vals := map[string]string{}
	for i, n := 0, nd.Pick("headers", 0, 2); i < n; i++ {
		k := []string{"CSeq", "session", "CONTENT-base"}[i]
		v := vfWord("value", 0, 2)
		resp.Headers.Set(k, v)
		vals[[]string{"CSeq", "Session", "Content-Base"}[i]] = v
	}
	if nd.Bool("nil") && len(vals) == 0 {
		resp.Headers = nil
	}
	resp.Body = nd.Bytes("body", nd.Pick("body", 0, 3))
	if len(resp.Body) == 3 {
		resp.Body = append(resp.Body, make([]byte, 297)...)
	}
	b := string(resp.Bytes())
	i := strings.Index(b, "\r\n\r\n")
	nd.Assert(i > 0, "head ends")
	nd.Assert(nd.Eq([]byte(b[i+4:]), resp.Body), "body follows")
	ls := strings.Split(b[:i], "\r\n")
	l := ls[0]
	nd.Assert(len(l) == 13+len(reason) && l[:9] == "RTSP/1.0 " && l[12] == ' ' && nd.EqStr(l[13:], reason), "status line")
	nd.Assert(int(l[9]-'0')*100+int(l[10]-'0')*10+int(l[11]-'0') == st, "status")
	if len(resp.Body) > 0 {
		vals["Content-Length"] = map[int]string{1: "1", 2: "2", 300: "300"}[len(resp.Body)]
	}
	seen := map[string]bool{}
	for _, l := range ls[1:] {
		j := strings.Index(l, ": ")
		nd.Assert(j > 0, "header line")
		name := l[:j]
		for alias, x := range map[string]string{"Cseq": "CSeq"} {
			if name == alias {
				name = x
			}
		}
		v, ok := vals[name]
		nd.Assert(ok && !seen[name], "header once")
		seen[name] = true
		nd.Assert(nd.EqStr(l[j+2:], v), "header value")
	}
	nd.Assert(len(seen) == len(vals), "every header")
	nd.Reach("response")
}
