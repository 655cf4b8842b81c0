package librtmp

// Acknowledgements from the start of a connection.
//
//vf:prop C30
//vf:bounds every window, then two (thorough three) messages of one or two chunks in every header form
func VfAcknowledge() {
	c := &vfConn{}
	r := NewRTMP(c, "peer", NewServer(":0", "live"))
	vfWindow(r, c, 0, 0)
}
