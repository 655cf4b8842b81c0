package librtmp

import (
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfRand is the source of the random bytes of the other side: any bytes,
// except that those which choose a digest's place add up to a drawn value.
type vfRand struct{ n, sum int }

func (r *vfRand) Read(b []byte) (int, error) {
	r.n++
	copy(b, nd.Bytes("random", len(b)))
	//s1[8:] is what is drawn: the digest's place is said by four bytes at
	//the start of either block
	for _, at := range []int{0, 764} {
		if at+4 <= len(b) {
			vfMark(b[at:], r.sum)
		}
	}
	return len(b), nil
}

// vfMark writes four bytes that add up to sum.
func vfMark(b []byte, sum int) {
	odd := sum&1 == 1
	for i := 0; i < 4; i++ {
		k := sum
		if k > 255 {
			k = 255
		}
		if odd {
			b[3-i] = byte(k)
		} else {
			b[i] = byte(k)
		}
		sum -= k
	}
}

func vfMac(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// vfAdobe are the keys the digests are made with.
var vfAdobe = []byte{0xf0, 0xee, 0xc2, 0x4a, 0x80, 0x68, 0xbe, 0xe8, 0x2e, 0x00, 0xd0, 0xd1, 0x02, 0x9e, 0x7e, 0x57, 0x6e, 0xec, 0x5d, 0x2d, 0x29, 0x80, 0x6f, 0xab, 0x93, 0xb8, 0xe6, 0x36, 0xcf, 0xeb, 0x31, 0xae}

const (
	vfPlayerKey = "Genuine Adobe Flash Player 001"
	vfServerKey = "Genuine Adobe Flash Media Server 001"
)

// vfDigest is the digest in a C1 or S1 whose block starts at the place,
// and what it should be.
func vfDigest(b []byte, block int, key string) (at int, want []byte) {
	at = block + 4 + (int(b[block])+int(b[block+1])+int(b[block+2])+int(b[block+3]))%728
	return at, vfMac([]byte(key), b[:at], b[at+32:])
}

func vfSums(label string) int {
	return []int{0, 1, 727, 728, 1020, 361, 544, 100, 699, 1000}[nd.Pick(label, 0, nd.Bound(4, 9))]
}

// A handshake without digests.
//
//vf:prop C06
//vf:bounds every C1 (the eight bytes that would say where digests are: 5, thorough 10, values) and C2, every version byte
//vf:opt steps=40000000
func VfPlainHandshake() {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = &vfRand{}
	c := &vfConn{}
	ver := nd.U8("version")
	c1 := nd.Bytes("c1", 1536)
	sum := vfSums("sum")
	vfMark(c1[8:], sum)
	vfMark(c1[772:], sum)
	for _, block := range []int{8, 772} {
		at, want := vfDigest(c1, block, vfPlayerKey)
		nd.Assume(!nd.Eq(c1[at:at+32], want))
	}
	c2 := nd.Bytes("c2", 1536)
	c.in = append(append([]byte{ver}, c1...), c2...)
	cut := nd.Pick("cut", 0, 4)
	c.in = c.in[:[]int{len(c.in), 0, 1, 1536, len(c.in) - 1}[cut]]
	err := HandshakeServer(NewRTMP(c, "peer", NewServer(":0", "live")))
	if cut == 1 {
		nd.Assert(err != nil && len(c.out) == 0, "nothing said, nothing answered")
		return
	}
	if ver != 3 {
		nd.Assert(err != nil && len(c.out) == 0, "other versions refused")
		nd.Reach("other version")
		return
	}
	if cut == 2 || cut == 3 {
		nd.Assert(err != nil, "a C1 cut short is an error")
		nd.Reach("c1 cut")
		return
	}
	nd.Assert((err == nil) == (cut == 0), "done exactly when C2 arrived")
	nd.Assert(len(c.out) == 1+1536+1536, "S0, S1, S2")
	nd.Assert(c.out[0] == 3, "version 3")
	s1, s2 := c.out[1:1537], c.out[1537:]
	nd.Assert(nd.Eq(s1[4:8], []byte{0, 0, 0, 0}), "S1 zero field")
	nd.Assert(nd.Eq(s2[:4], c1[:4]), "S2 echoes the time of C1")
	nd.Assert(nd.Eq(s2[8:], c1[8:]), "S2 echoes the random bytes of C1")
	nd.Reach("shaken")
}

// A handshake with digests.
//
//vf:prop C06
//vf:bounds every C1 with a right digest in either scheme (places: 5, thorough 10, values for either side), every C2
//vf:opt steps=40000000
func VfDigestHandshake() {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	c1 := nd.Bytes("c1", 1536)
	c1[0] = 0
	scheme := nd.Pick("scheme", 0, 1)
	block := []int{8, 772}[scheme]
	sum := vfSums("sum")
	vfMark(c1[8:], sum)
	vfMark(c1[772:], sum)
	rand.Reader = &vfRand{sum: vfSums("own sum")}
	at, want := vfDigest(c1, block, vfPlayerKey)
	copy(c1[at:], want)
	other, bad := vfDigest(c1, 780-block, vfPlayerKey)
	nd.Assume(!nd.Eq(c1[other:other+32], bad))
	c := &vfConn{in: append(append([]byte{3}, c1...), nd.Bytes("c2", 1536)...)}
	err := HandshakeServer(NewRTMP(c, "peer", NewServer(":0", "live")))
	nd.Assert(err == nil, "done")
	nd.Assert(len(c.out) == 1+1536+1536 && c.out[0] == 3, "S0, S1, S2")
	s1, s2 := c.out[1:1537], c.out[1537:]
	nd.Assert(!nd.Eq(s1[4:8], []byte{0, 0, 0, 0}), "S1 says the server's version")
	sat, swant := vfDigest(s1, block, vfServerKey)
	nd.Assert(nd.Eq(s1[sat:sat+32], swant), "S1 carries the server's digest where the client's scheme has it")
	key := vfMac(append([]byte(vfServerKey), vfAdobe...), want)
	nd.Assert(nd.Eq(s2[1504:], vfMac(key, s2[:1504])), "S2 is signed with the client's digest")
	nd.Reach("scheme 1")
}

// The handshake of a pull client.
//
//vf:prop C06
//vf:bounds every S0, S1 and S2, cut short at 3 places
//vf:opt steps=40000000
func VfClientHandshake() {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = &vfRand{}
	ver := nd.U8("version")
	s1 := nd.Bytes("s1", 1536)
	c := &vfConn{in: append(append([]byte{ver}, s1...), nd.Bytes("s2", 1536)...)}
	cut := nd.Pick("cut", 0, 3)
	c.in = c.in[:[]int{len(c.in), 0, 1536, len(c.in) - 1}[cut]]
	err := HandshakeClient(NewRTMP(c, "peer", NewServer(":0", "live")))
	nd.Assert(len(c.out) >= 1537 && c.out[0] == 3, "C0 and C1")
	nd.Assert(nd.Eq(c.out[5:9], []byte{0, 0, 0, 0}), "C1 zero field")
	if cut != 0 || ver != 3 {
		nd.Assert(err != nil, "incomplete or another version: refused")
		nd.Assert(len(c.out) == 1537, "no C2")
		nd.Reach("refused")
		return
	}
	nd.Assert(err == nil && len(c.out) == 1537+1536, "done")
	c2 := c.out[1537:]
	nd.Assert(nd.Eq(c2[:4], s1[:4]), "C2 echoes the time of S1")
	nd.Assert(nd.Eq(c2[8:], s1[8:]), "C2 echoes the random bytes of S1")
	nd.Reach("done")
}
