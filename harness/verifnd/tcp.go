package verifnd

import (
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"
)

// A model of TCP and of HTTP service on the loopback interface: the engine
// runs these bodies in place of the functions named beside them. Bytes arrive
// whole and in order; the other side's end is seen after them. HTTP is not
// spoken on the connections: a served handler is called with the request.
// Natively (in replays) the real network is used.

type tcpSock struct {
	id     int
	port   int
	peer   int
	in     chan []byte
	buf    []byte
	other  *tcpSock
	closed chan struct{}
	gone   bool
	until  time.Time
}

type tcpDoor struct {
	port   int
	queue  chan *tcpSock
	closed chan struct{}
	gone   bool
}

var (
	tcpDoors    = map[int]*tcpDoor{} //by port
	tcpDoorIDs  = map[int]*tcpDoor{}
	tcpNext     = 40000
	tcpHandlers = map[int]http.Handler{}
	errTCPRef   = errors.New("connection refused")
	errTCPPipe  = errors.New("broken pipe")
)

// engine intrinsics
func tcpMake(id int) *net.TCPConn         { return nil }
func tcpMakeDoor(id int) *net.TCPListener { return nil }

func tcpPort(address string) int {
	i := strings.LastIndexByte(address, ':')
	if i < 0 {
		return -1
	}
	n, err := strconv.Atoi(address[i+1:])
	if err != nil || n < 0 || n > 65535 {
		return -1
	}
	return n
}

func tcpAddr(port int) *net.TCPAddr { return &net.TCPAddr{IP: net.IP{127, 0, 0, 1}, Port: port} }

func tcpResolve(network, address string) (*net.TCPAddr, error) { // net.ResolveTCPAddr
	p := tcpPort(address)
	if p < 0 {
		return nil, errors.New("missing port in address")
	}
	return tcpAddr(p), nil
}

func tcpListen(network string, a *net.TCPAddr) (*net.TCPListener, error) { // net.ListenTCP
	port := a.Port
	if port == 0 {
		tcpNext++
		port = tcpNext
	}
	if d := tcpDoors[port]; d != nil && !d.gone {
		return nil, errors.New("address already in use")
	}
	d := &tcpDoor{port: port, queue: make(chan *tcpSock, 64), closed: make(chan struct{})}
	id := 100000 + len(tcpDoorIDs)
	tcpDoors[port] = d
	tcpDoorIDs[id] = d
	return tcpMakeDoor(id), nil
}

func tcpListenAny(network, address string) (net.Listener, error) { // net.Listen
	a, err := tcpResolve(network, address)
	if err != nil {
		return nil, err
	}
	return tcpListen(network, a)
}

func tcpAcceptTCP(l interface{}) (*net.TCPConn, error) { // (*net.TCPListener).AcceptTCP
	d := tcpDoorIDs[udpKey(l)]
	if d == nil || d.gone {
		return nil, errUDP
	}
	select {
	case s := <-d.queue:
		return tcpMake(s.id), nil
	case <-d.closed:
		return nil, errUDP
	}
}

func tcpAccept(l interface{}) (net.Conn, error) { // (*net.TCPListener).Accept
	c, err := tcpAcceptTCP(l)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func tcpDoorClose(l interface{}) error { // (*net.TCPListener).Close
	d := tcpDoorIDs[udpKey(l)]
	if d == nil || d.gone {
		return errUDP
	}
	d.gone = true
	close(d.closed)
	return nil
}

func tcpDoorAddr(l interface{}) net.Addr { // (*net.TCPListener).Addr
	return tcpAddr(tcpDoorIDs[udpKey(l)].port)
}

func tcpSocket(port, peer int) *tcpSock {
	s := &tcpSock{id: 200000 + len(tcpConns), port: port, peer: peer, in: make(chan []byte, 1024), closed: make(chan struct{})}
	tcpConns[s.id] = s
	return s
}

func tcpDial(network, address string) (net.Conn, error) { // net.Dial
	p := tcpPort(address)
	d := tcpDoors[p]
	if d == nil || d.gone {
		return nil, errTCPRef
	}
	tcpNext++
	a, b := tcpSocket(tcpNext, p), tcpSocket(p, tcpNext)
	a.other, b.other = b, a
	d.queue <- b
	return tcpMake(a.id), nil
}

func tcpDialTimeout(network, address string, t time.Duration) (net.Conn, error) { // net.DialTimeout
	return tcpDial(network, address)
}

// errTCPLate is what a connection says when its deadline has passed.
type errTCPLate struct{}

func (errTCPLate) Error() string   { return "i/o timeout" }
func (errTCPLate) Timeout() bool   { return true }
func (errTCPLate) Temporary() bool { return true }

func (s *tcpSock) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	for len(s.buf) == 0 {
		if s.gone {
			return 0, errUDP
		}
		select {
		case s.buf = <-s.in:
			continue
		default:
		}
		if s.other.gone {
			return 0, io.EOF
		}
		var late <-chan time.Time
		if !s.until.IsZero() {
			d := s.until.Sub(time.Now())
			if d <= 0 {
				return 0, errTCPLate{}
			}
			late = time.After(d)
		}
		select {
		case s.buf = <-s.in:
		case <-s.closed:
		case <-s.other.closed:
		case <-late:
		}
	}
	n := copy(b, s.buf)
	s.buf = s.buf[n:]
	return n, nil
}

func (s *tcpSock) Write(b []byte) (int, error) {
	if s.gone {
		return 0, errUDP
	}
	if s.other.gone {
		return 0, errTCPPipe
	}
	if len(b) == 0 {
		return 0, nil
	}
	select {
	case s.other.in <- append([]byte(nil), b...):
	case <-s.other.closed:
		return 0, errTCPPipe
	case <-s.closed:
		return 0, errUDP
	}
	return len(b), nil
}

func (s *tcpSock) Close() error {
	if s.gone {
		return errUDP
	}
	s.gone = true
	close(s.closed)
	return nil
}

func (s *tcpSock) LocalAddr() net.Addr                { return tcpAddr(s.port) }
func (s *tcpSock) RemoteAddr() net.Addr               { return tcpAddr(s.peer) }
func (s *tcpSock) SetDeadline(t time.Time) error      { s.until = t; return nil }
func (s *tcpSock) SetReadDeadline(t time.Time) error  { s.until = t; return nil }
func (s *tcpSock) SetWriteDeadline(t time.Time) error { return nil }

func httpServe(l net.Listener, h http.Handler) error { // net/http.Serve
	d := tcpDoorIDs[udpKey(l)]
	if d == nil {
		return errUDP
	}
	tcpHandlers[d.port] = h
	<-d.closed
	return errUDP
}

func httpServerServe(s *http.Server, l net.Listener) error { // (*net/http.Server).Serve
	return httpServe(l, s.Handler)
}

func httpListenAndServe(address string, h http.Handler) error { // net/http.ListenAndServe
	l, err := tcpListenAny("tcp", address)
	if err != nil {
		return err
	}
	return httpServe(l, h)
}

func httpServerListenAndServe(s *http.Server) error { // (*net/http.Server).ListenAndServe
	return httpListenAndServe(s.Addr, s.Handler)
}

func httpServeFile(w http.ResponseWriter, r *http.Request, name string) { // net/http.ServeFile
	for _, e := range strings.FieldsFunc(r.URL.Path, func(r rune) bool { return r == '/' || r == '\\' }) {
		if e == ".." {
			http.Error(w, "invalid URL path", http.StatusBadRequest)
			return
		}
	}
	if strings.HasSuffix(r.URL.Path, "/index.html") {
		w.Header().Set("Location", "./")
		w.WriteHeader(http.StatusMovedPermanently)
		return
	}
	b, err := os.ReadFile(name)
	if err != nil {
		http.Error(w, "404 page not found", http.StatusNotFound)
		return
	}
	w.WriteHeader(http.StatusOK)
	_, _ = w.Write(b)
}

// FreePort is a port nobody listens on.
func FreePort() int {
	if Symbolic() {
		tcpNext++
		return tcpNext
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		die("no port: "+err.Error(), 4)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// Dial connects to a server on this host, which may still be starting.
func Dial(port int) net.Conn {
	for i := 0; i < 50; i++ {
		c, err := net.Dial("tcp", "127.0.0.1:"+strconv.Itoa(port))
		if err == nil {
			return c
		}
		Quiesce()
	}
	die("no server on port "+strconv.Itoa(port), 4)
	return nil
}

// Peer is one end of a connection that collects what the other end says.
type Peer struct {
	c    net.Conn
	mu   sync.Mutex
	got  []byte
	over bool
}

func NewPeer(c net.Conn) *Peer {
	p := &Peer{c: c}
	go func() {
		b := make([]byte, 65536)
		for {
			n, err := p.c.Read(b)
			p.mu.Lock()
			p.got = append(p.got, b[:n]...)
			p.over = p.over || err != nil
			p.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	return p
}

// Say writes and lets the others act on it.
func (p *Peer) Say(b []byte) {
	_, _ = p.c.Write(b)
	Quiesce()
}

// Take returns what was heard since the last time, and whether the other end
// has hung up.
func (p *Peer) Take() ([]byte, bool) {
	Quiesce()
	p.mu.Lock()
	defer p.mu.Unlock()
	b := p.got
	p.got = nil
	return b, p.over
}

func (p *Peer) HangUp() {
	_ = p.c.Close()
	Quiesce()
}

// Upstream is a server of this host: the connections made to it.
type Upstream struct {
	l net.Listener
	q chan net.Conn
}

func Listen(port int) *Upstream {
	l, err := net.Listen("tcp", "127.0.0.1:"+strconv.Itoa(port))
	if err != nil {
		die("cannot listen: "+err.Error(), 4)
	}
	u := &Upstream{l: l, q: make(chan net.Conn, 16)}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			u.q <- c
		}
	}()
	return u
}

// Next is the next connection, nil if there is none.
func (u *Upstream) Next() *Peer {
	Quiesce()
	select {
	case c := <-u.q:
		return NewPeer(c)
	default:
		return nil
	}
}

func (u *Upstream) Close() { _ = u.l.Close(); Quiesce() }

// Response is what a web server has answered so far.
type Response struct {
	mu     sync.Mutex
	status int
	header http.Header
	body   []byte
	over   bool
}

func (r *Response) Header() http.Header { return r.header }

func (r *Response) WriteHeader(status int) {
	r.mu.Lock()
	if r.status == 0 {
		r.status = status
	}
	r.mu.Unlock()
}

func (r *Response) Write(b []byte) (int, error) {
	r.WriteHeader(http.StatusOK)
	r.mu.Lock()
	r.body = append(r.body, b...)
	r.mu.Unlock()
	return len(b), nil
}

func (r *Response) Flush() {}

// Take returns the state of the answer and the bytes since the last time.
func (r *Response) Take() (status int, body []byte, over bool) {
	Quiesce()
	r.mu.Lock()
	defer r.mu.Unlock()
	body = r.body
	r.body = nil
	return r.status, body, r.over
}

func (r *Response) Get(key string) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.header.Get(key)
}

// Get asks the web server on the port for a path (and query).
func Get(port int, path string) *Response {
	r := &Response{header: http.Header{}}
	if Symbolic() {
		Quiesce()
		h := tcpHandlers[port]
		if h == nil {
			die("no web server", 4)
		}
		u, err := url.ParseRequestURI(path)
		if err != nil {
			r.status, r.over = 400, true
			return r
		}
		req := &http.Request{Method: "GET", URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{}, Host: "127.0.0.1", RequestURI: path, RemoteAddr: "127.0.0.1:9"}
		go func() {
			h.ServeHTTP(r, req)
			r.WriteHeader(http.StatusOK)
			r.mu.Lock()
			r.over = true
			r.mu.Unlock()
		}()
		return r
	}
	Dial(port).Close()
	go func() {
		tr := &http.Transport{DisableCompression: true, DisableKeepAlives: true}
		req, err := http.NewRequest("GET", "http://127.0.0.1:"+strconv.Itoa(port)+path, nil)
		if err != nil {
			r.WriteHeader(400)
		} else if res, err := tr.RoundTrip(req); err == nil {
			r.mu.Lock()
			r.status, r.header = res.StatusCode, res.Header
			r.mu.Unlock()
			b := make([]byte, 65536)
			for {
				n, err := res.Body.Read(b)
				r.mu.Lock()
				r.body = append(r.body, b[:n]...)
				r.mu.Unlock()
				if err != nil {
					break
				}
			}
		}
		r.mu.Lock()
		r.over = true
		r.mu.Unlock()
	}()
	return r
}
