package librtsp

import (
	"strings"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

func vfB64(c byte) byte {
	return byte(nd.Ite(nd.And(c >= 'A', c <= 'Z'), uint64(c-'A'), nd.Ite(nd.And(c >= 'a', c <= 'z'), uint64(c-'a'+26),
		nd.Ite(nd.And(c >= '0', c <= '9'), uint64(c-'0'+52), nd.Ite(c == '+', 62, nd.Ite(c == '/', 63, 255))))))
}

// vfDecode is base64 with padding.
func vfDecode(s string) (out []byte) {
	nd.Assert(len(s)%4 == 0, "padded")
	for i := 0; i < len(s); i += 4 {
		n := 3
		if s[i+3] == '=' {
			n = 2
			if s[i+2] == '=' {
				n = 1
			}
		}
		v := uint32(0)
		for j := 0; j < 4; j++ {
			v <<= 6
			if j <= n {
				d := vfB64(s[i+j])
				nd.Assert(d < 64, "base64 digit")
				v |= uint32(d)
			}
		}
		out = append(out, []byte{byte(v >> 16), byte(v >> 8), byte(v)}[:n]...)
	}
	return
}

func vfHex(c byte) byte {
	return byte(nd.Ite(nd.And(c >= '0', c <= '9'), uint64(c-'0'), nd.Ite(nd.And(c >= 'A', c <= 'F'), uint64(c-'A'+10), 255)))
}

// vfLines checks the line structure and gives session part and media parts.
func vfLines(b []byte) (parts [][]string) {
	s := string(b)
	nd.Assert(strings.HasSuffix(s, "\r\n"), "lines end properly")
	parts = [][]string{nil}
	for _, l := range strings.Split(s[:len(s)-2], "\r\n") {
		nd.Assert(len(l) > 2 && l[1] == '=' && !strings.Contains(l, "\n"), "line")
		if l[0] == 'm' {
			parts = append(parts, nil)
		}
		parts[len(parts)-1] = append(parts[len(parts)-1], l)
	}
	return
}

func vfHas(ls []string, l string) bool {
	for _, x := range ls {
		if x == l {
			return true
		}
	}
	return false
}

// vfParam is the value of a format parameter.
func vfParam(ls []string, pt, name string) string {
	for _, l := range ls {
		if !strings.HasPrefix(l, "a=fmtp:"+pt+" ") {
			continue
		}
		for _, kv := range strings.Split(l[len("a=fmtp:")+len(pt)+1:], ";") {
			if strings.HasPrefix(kv, name+"=") {
				return kv[len(name)+1:]
			}
		}
	}
	return ""
}

// vfSdp builds arbitrary parameters.
func vfSdp() SDPParams {
	p := SDPParams{StreamID: "cam", HasVideo: nd.Bool("video"), HasAudio: nd.Bool("audio")}
	if p.HasVideo {
		p.IsHEVC = nd.Bool("hevc")
		n := nd.Pick("sps", 4, 6)
		p.SPS = nd.Bytes("sps", n)
		p.PPS = nd.Bytes("pps", 7-n)
		if p.IsHEVC {
			p.VPS = nd.Bytes("vps", n-3)
		}
	}
	if p.HasAudio {
		p.IsOpus = nd.Bool("opus")
		p.AudioChans = nd.Pick("chans", 1, 2)
		p.AudioRate = []int{5500, 11025, 22050, 44100, 48000, 96000}[nd.Pick("rate", 0, 5)]
		if !p.IsOpus {
			p.AudioConfig = nd.Bytes("config", nd.Pick("configlen", 2, nd.Bound(3, 5)))
		}
	}
	return p
}

// What DESCRIBE says is what the stream is.
//
//vf:prop C20
//vf:bounds every SPS of 4..6 bytes, PPS of 1..3 bytes, VPS of 1..3 bytes, audio configuration of 2..3 (thorough 5) bytes; the usual rates, one or two channels; all combinations of AVC, HEVC, AAC, Opus and none
func VfBuildSDP() {
	p := vfSdp()
	b := BuildSDP(p)
	parts := vfLines(b)
	nd.Assert(parts[0][0] == "v=0" && vfHas(parts[0], "s=cam") && vfHas(parts[0], "t=0 0") && vfHas(parts[0], "a=control:*"), "session part")
	parts = parts[1:]
	if p.HasVideo {
		nd.Assert(len(parts) > 0, "video announced")
		v := parts[0]
		parts = parts[1:]
		nd.Assert(v[0] == "m=video 0 RTP/AVP 96" && vfHas(v, "a=control:trackID=0"), "video track")
		if p.IsHEVC {
			nd.Assert(vfHas(v, "a=rtpmap:96 H265/90000"), "codec and clock")
			nd.Assert(nd.Eq(vfDecode(vfParam(v, "96", "sprop-vps")), p.VPS), "VPS")
			nd.Assert(nd.Eq(vfDecode(vfParam(v, "96", "sprop-sps")), p.SPS), "SPS")
			nd.Assert(nd.Eq(vfDecode(vfParam(v, "96", "sprop-pps")), p.PPS), "PPS")
			nd.Reach("hevc")
		} else {
			nd.Assert(vfHas(v, "a=rtpmap:96 H264/90000"), "codec and clock")
			nd.Assert(vfParam(v, "96", "packetization-mode") == "1", "fragments are used")
			sets := strings.Split(vfParam(v, "96", "sprop-parameter-sets"), ",")
			nd.Assert(len(sets) == 2 && nd.Eq(vfDecode(sets[0]), p.SPS) && nd.Eq(vfDecode(sets[1]), p.PPS), "parameter sets")
			id := vfParam(v, "96", "profile-level-id")
			nd.Assert(len(id) == 6, "profile and level")
			for i := 0; i < 3; i++ {
				nd.Assert(vfHex(id[2*i])<<4|vfHex(id[2*i+1]) == p.SPS[1+i], "profile and level of the SPS")
			}
		}
	}
	if p.HasAudio {
		nd.Assert(len(parts) > 0, "audio announced")
		a := parts[0]
		parts = parts[1:]
		nd.Assert(a[0] == "m=audio 0 RTP/AVP 97" && vfHas(a, "a=control:trackID=1"), "audio track")
		ch := []string{"1", "2"}[p.AudioChans-1]
		if p.IsOpus {
			nd.Assert(vfHas(a, "a=rtpmap:97 opus/48000/"+ch), "codec and clock")
		} else {
			rate := map[int]string{5500: "5500", 11025: "11025", 22050: "22050", 44100: "44100", 48000: "48000", 96000: "96000"}[p.AudioRate]
			nd.Assert(vfHas(a, "a=rtpmap:97 mpeg4-generic/"+rate+"/"+ch), "codec and clock")
			nd.Assert(vfParam(a, "97", "mode") == "AAC-hbr" && vfParam(a, "97", "sizelength") == "13" && vfParam(a, "97", "indexlength") == "3" && vfParam(a, "97", "indexdeltalength") == "3", "mode")
			c := vfParam(a, "97", "config")
			nd.Assert(len(c) == 2*len(p.AudioConfig), "configuration")
			for i := range p.AudioConfig {
				nd.Assert(vfHex(c[2*i])<<4|vfHex(c[2*i+1]) == p.AudioConfig[i], "configuration")
			}
			nd.Reach("aac")
		}
	}
	nd.Assert(len(parts) == 0, "nothing else")
}

// What an H.264/AAC description says is understood.
//
//vf:prop C20
//vf:bounds as above, without HEVC and Opus
func VfSDPRoundTrip() {
	p := vfSdp()
	nd.Assume(nd.And(!p.IsHEVC, !p.IsOpus))
	s, err := ParseSDP(BuildSDP(p))
	if !p.HasVideo && !p.HasAudio {
		nd.Assert(err != nil, "nothing to receive")
		return
	}
	nd.Assert(err == nil && s.HasVideo == p.HasVideo && s.HasAudio == p.HasAudio, "tracks")
	if p.HasVideo {
		nd.Assert(s.VideoPayloadType == 96 && s.VideoControl == "trackID=0", "video track")
		nd.Assert(nd.Eq(s.SPS, p.SPS) && nd.Eq(s.PPS, p.PPS), "parameter sets")
	}
	if p.HasAudio {
		nd.Assert(s.AudioPayloadType == 97 && s.AudioControl == "trackID=1", "audio track")
		nd.Assert(nd.Eq(s.AudioConfig, p.AudioConfig) && s.AudioRate == p.AudioRate && s.AudioChans == p.AudioChans, "audio configuration")
	}
	nd.Reach("same")
}

// Descriptions as other senders write them.
//
//vf:prop C20
//vf:bounds track order, payload types 0..127 by digits, line ends CRLF or LF, spaces behind parameters, parameter order and letter case, extra attributes and media, attributes before the parameters; arbitrary 1..3-byte parameter sets and configurations in both hex cases
func VfParseSDP() {
	eol := []string{"\r\n", "\n"}[nd.Pick("eol", 0, 1)]
	style := nd.Pick("style", 0, 2)
	hex := []string{"0123456789abcdef", "0123456789ABCDEF"}[style&1]
	b64 := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	enc := func(b []byte) (s string) {
		for len(b) > 0 {
			x := append(append([]byte{}, b...), 0, 0)
			v := uint32(x[0])<<16 | uint32(x[1])<<8 | uint32(x[2])
			q := string([]byte{b64[v>>18&63], b64[v>>12&63], b64[v>>6&63], b64[v&63]})
			switch len(b) {
			case 1:
				q, b = q[:2]+"==", nil
			case 2:
				q, b = q[:3]+"=", nil
			default:
				b = b[3:]
			}
			s += q
		}
		return
	}
	sps, pps := nd.Bytes("sps", nd.Pick("sps", 1, 3)), nd.Bytes("pps", nd.Pick("pps", 1, 3))
	cfg := nd.Bytes("config", 2)
	d := nd.U8("pt")
	nd.Assume(d <= 9)
	pt := string([]byte{'9', '0' + d})
	if style == 2 {
		d &= 1
		pt = string([]byte{'1', '0' + d, '0'})
	}
	sp := []string{"", " ", ""}[style]
	video := []string{"m=video 0 RTP/AVP " + pt, "b=AS:200", "a=rtpmap:" + pt + " H264/90000",
		"a=fmtp:" + pt + " packetization-mode=1;" + sp + "sprop-parameter-sets=" + enc(sps) + "," + enc(pps) + ";" + sp + "profile-level-id=42C01F", "a=control:streamid=7"}
	if style == 1 {
		video[3] = "a=fmtp:" + pt + " Sprop-Parameter-Sets=" + enc(sps) + "," + enc(pps)
		video[3], video[4] = video[4], video[3]
	}
	ch := nd.Pick("chans", 0, 2)
	rm := "a=rtpmap:97 mpeg4-generic/48000"
	if ch > 0 {
		rm += "/" + []string{"1", "2"}[ch-1]
	}
	h := ""
	for _, x := range cfg {
		h += string([]byte{hex[x>>4], hex[x&15]})
	}
	audio := []string{"m=audio 5000 RTP/AVP 97", "a=control:rtsp://h/live/cam/streamid=9", rm, "a=fmtp:97 mode=AAC-hbr;" + sp + "config=" + h + ";sizelength=13"}
	other := []string{"m=application 0 RTP/AVP 107", "a=control:streamid=3", "a=fmtp:107 config=ffff;sprop-parameter-sets=AAAA,AAAA", "a=rtpmap:107 x/1/1"}
	ls := []string{"v=0", "o=- 0 0 IN IP4 127.0.0.1", "s=No Name", "a=control:*", "a=tool:x", ""}
	switch nd.Pick("order", 0, 2) {
	case 0:
		ls = append(append(append(ls, video...), audio...), other...)
	case 1:
		ls = append(append(append(ls, audio...), other...), video...)
	case 2:
		ls = append(append(append(ls, other...), video...), audio...)
	}
	s, err := ParseSDP([]byte(strings.Join(ls, eol)))
	nd.Assert(err == nil && s.HasVideo && s.HasAudio, "both tracks")
	nd.Assert(s.VideoControl == "streamid=7" && s.AudioControl == "rtsp://h/live/cam/streamid=9", "control addresses")
	want := 90 + d
	if style == 2 {
		want = 100 + 10*d
	}
	nd.Assert(s.VideoPayloadType == want && s.AudioPayloadType == 97, "payload types")
	nd.Assert(nd.Eq(s.SPS, sps) && nd.Eq(s.PPS, pps), "parameter sets")
	if ch == 0 {
		ch = 1
	}
	nd.Assert(nd.Eq(s.AudioConfig, cfg) && s.AudioRate == 48000 && s.AudioChans == ch, "audio configuration")
	nd.Reach("understood")
}

// No description is fatal.
//
//vf:prop C20
//vf:bounds an attribute line of 8 kinds with 0..3 (thorough 5) arbitrary ASCII bytes in each of its places, behind any media line, and every body of 0..3 (thorough 5) bytes
func VfSDPTotal() {
	t := nd.Bytes("text", nd.Pick("len", 0, nd.Bound(3, 5)))
	for _, c := range t {
		nd.Assume(c < 0x80)
	}
	s := string(t)
	switch nd.Pick("kind", 0, 8) {
	case 0:
	case 1:
		s = "m=" + s
	case 2:
		s = "m=video 0 RTP/AVP 96\na=fmtp:96 sprop-parameter-sets=" + s
	case 3:
		s = "m=video 0 RTP/AVP 96\na=fmtp:" + s
	case 4:
		s = "m=audio 0 RTP/AVP 97\na=rtpmap:" + s
	case 5:
		s = "m=audio 0 RTP/AVP 97\na=rtpmap:97 x/" + s
	case 6:
		s = "m=audio 0 RTP/AVP 97\na=fmtp:97 config=" + s
	case 7:
		s = "m=audio 0 RTP/AVP " + s
	case 8:
		s = "m=audio 0 RTP/AVP 97\na=" + s
	}
	p, err := ParseSDP([]byte(s))
	nd.Assert((p == nil) == (err != nil), "description or error")
	if err == nil {
		nd.Assert(p.HasVideo || p.HasAudio, "some track")
		nd.Reach("taken")
	} else {
		nd.Reach("refused")
	}
}
