package librtmp

import "strconv"

// Text of RTSP and packets of RTP, for the harnesses.

func vfRTSPText(method, url string, cseq int, headers, body string) []byte {
	t := method + " " + url + " RTSP/1.0\r\nCSeq: " + strconv.Itoa(cseq) + "\r\n" + headers
	if body != "" {
		t += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n"
	}
	return []byte(t + "\r\n" + body)
}

func vfRTP(marker bool, pt byte, seq uint16, ts uint32, payload []byte) []byte {
	b := []byte{0x80, pt, byte(seq >> 8), byte(seq)}
	if marker {
		b[1] |= 0x80
	}
	b = append(b, vfB32(ts)...)
	b = append(b, 1, 2, 3, 4)
	return append(b, payload...)
}

func vfDollar(ch int, p []byte) []byte {
	return append([]byte{'$', byte(ch), byte(len(p) >> 8), byte(len(p))}, p...)
}

const (
	vfSDPVideo = "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=Z0LAHg==,aM4=\r\na=control:streamid=0\r\n"
	vfSDPAudio = "m=audio 0 RTP/AVP 97\r\na=rtpmap:97 mpeg4-generic/44100/2\r\na=fmtp:97 streamtype=5;mode=AAC-hbr;config=1210;sizelength=13;indexlength=3;indexdeltalength=3\r\na=control:streamid=1\r\n"
	vfSDPMono  = "m=audio 0 RTP/AVP 97\r\na=rtpmap:97 mpeg4-generic/48000/1\r\na=fmtp:97 streamtype=5;mode=AAC-hbr;config=1188;sizelength=13;indexlength=3;indexdeltalength=3\r\na=control:streamid=1\r\n"
	vfSDPHead  = "v=0\r\no=- 0 0 IN IP4 127.0.0.1\r\ns=x\r\nc=IN IP4 0.0.0.0\r\nt=0 0\r\n"
	vfURL      = "rtsp://host:554/live/x"
)

var vfDCR = []byte{1, 0x42, 0xc0, 0x1e, 0xff, 0xe1, 0, 4, 0x67, 0x42, 0xc0, 0x1e, 1, 0, 2, 0x68, 0xce}

