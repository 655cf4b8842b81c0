package libmpeg

import (
	"bytes"

	"github.com/SmartBrave/Athena/easyio"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

func vfMask33(v uint64) uint64 { return v & (1<<33 - 1) }

// vfMux packetises pes the way the segmenter does.
func vfMux(pes *PES, pid uint16, cc map[uint16]uint8, key bool, dts uint64, w easyio.EasyWriter) {
	pes.Index, pes.HeaderIndex = 0, 0
	first := true
	for i := 0; ; i++ {
		nd.Assert(i < 400, "packetising ends")
		finish, err := NewTs(pid, cc, first).Mux(pes, key && first, dts, w)
		nd.Assert(err == nil, "packet written without error")
		first = false
		if finish {
			return
		}
	}
}

func vfPES(id, typ uint8, data []byte, pts, dts uint64) *PES {
	return &PES{PacketStartCodePrefix: 1, StreamID: id, StreamType: typ, PTS: pts, DTS: dts, PTS_DTSFlag: 2, PESHeaderDataLength: 5, Data: data}
}

// vfTs checks 188-byte packets of one PES on one PID by ISO 13818-1 and
// returns their payload. cc is the expected first continuity counter.
func vfTs(b []byte, pid uint16, cc uint8, key bool, pcr uint64) []byte {
	nd.Assert(len(b) > 0 && len(b)%188 == 0, "whole packets")
	var pay []byte
	for i := 0; i < len(b); i += 188 {
		p := b[i : i+188]
		nd.Assert(p[0] == 0x47, "sync byte")
		nd.Assert(p[1]&0x80 == 0, "no transport error")
		nd.Assert((p[1]&0x40 != 0) == (i == 0), "unit start on the first packet only")
		nd.Assert(uint16(p[1]&0x1f)<<8|uint16(p[2]) == pid, "pid")
		nd.Assert(p[3]&0xc0 == 0, "not scrambled")
		nd.Assert(p[3]&0x0f == (cc+uint8(i/188))&15, "continuity counter")
		afc := nd.Concrete(int(p[3] >> 4 & 3))
		nd.Assert(afc == 1 || afc == 3, "carries payload")
		off := 4
		rai := false
		if afc == 3 {
			l := nd.Concrete(int(p[4]))
			nd.Assert(l <= 182, "adaptation field leaves payload")
			off = 5 + l
			if l > 0 {
				f := p[5]
				q := 6
				rai = f&0x40 != 0
				nd.Assert(f&0xaf == 0, "only random access and PCR flags")
				nd.Assert((f&0x10 != 0) == rai, "PCR comes with random access")
				if f&0x10 != 0 {
					nd.Assert(l >= 7, "room for the PCR")
					base := uint64(p[6])<<25 | uint64(p[7])<<17 | uint64(p[8])<<9 | uint64(p[9])<<1 | uint64(p[10])>>7
					nd.Assert(base == vfMask33(pcr), "PCR base")
					nd.Assert(p[10]&1 == 0 && p[11] == 0, "PCR extension")
					q = 12
				}
				for ; q < off; q++ {
					nd.Assert(p[q] == 0xff, "stuffing")
				}
			}
		}
		nd.Assert(rai == (key && i == 0), "random access indicator on the first packet of a key frame")
		pay = append(pay, p[off:]...)
	}
	return pay
}

// vfPesHeader returns the specification's header for the stream.
func vfPesHeader(id uint8, n int, pts, dts uint64) []byte {
	ts := func(tag byte, t uint64) []byte {
		return []byte{tag<<4 | byte(t>>30&7)<<1 | 1, byte(t >> 22), byte(t>>15)<<1 | 1, byte(t >> 7), byte(t)<<1 | 1}
	}
	h := []byte{0, 0, 1, id, 0, 0, 0x80, 0x80, 5}
	if pts == dts {
		h = append(h, ts(2, pts)...)
	} else {
		h[7], h[8] = 0xc0, 10
		h = append(h, ts(3, pts)...)
		h = append(h, ts(1, dts)...)
	}
	l := len(h) - 6 + n
	if l > 0xffff {
		l = 0
	}
	h[4], h[5] = byte(l>>8), byte(l)
	return h
}

func vfBuf() (*bytes.Buffer, easyio.EasyWriter) {
	b := &bytes.Buffer{}
	return b, easyio.NewEasyWriter(b)
}

func vfReader(b []byte) easyio.EasyReader { return easyio.NewEasyReader(bytes.NewReader(b)) }
