package librtmp

import (
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// Acknowledgements of a connection that has carried any number of bytes.
//
//vf:prop C30
//vf:bounds as above after any number of bytes modulo 2^32, all acknowledged
func VfAcknowledgeLater() {
	c := &vfConn{}
	r := NewRTMP(c, "peer", NewServer(":0", "live"))
	n := nd.U32("bytes so far")
	r.bytesReceived, r.lastAcked = n, n
	vfWindow(r, c, n, n)
}
