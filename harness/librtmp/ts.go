package librtmp

// A reference MPEG-TS multiplexer (ISO/IEC 13818-1), for the SRT harnesses.

// vfTS is one packet; a shorter payload is stuffed with an adaptation field.
func vfTS(pid uint16, start bool, cc byte, payload []byte) []byte {
	out := []byte{0x47, byte(pid >> 8), byte(pid), 0x10 | cc&15}
	if start {
		out[1] |= 0x40
	}
	if pad := 184 - len(payload); pad > 0 {
		out[3] |= 0x20
		out = append(out, byte(pad-1))
		for i := 1; i < pad; i++ {
			if i == 1 {
				out = append(out, 0)
			} else {
				out = append(out, 0xff)
			}
		}
	}
	return append(out, payload...)
}

// vfSection wraps a table into packets' payload: pointer, header, CRC, stuffing.
func vfSection(pointer int, table byte, ext uint16, body []byte) []byte {
	out := []byte{byte(pointer)}
	for i := 0; i < pointer; i++ {
		out = append(out, 0xff)
	}
	n := 5 + len(body) + 4
	out = append(out, table, 0xb0|byte(n>>8), byte(n), byte(ext>>8), byte(ext), 0xc1, 0, 0)
	out = append(out, body...)
	out = append(out, 0xde, 0xad, 0xbe, 0xef) //the CRC is not looked at
	for len(out) < 184 {
		out = append(out, 0xff)
	}
	return out
}

// vfStamp is a 33-bit time of a PES header.
func vfStamp(mark byte, v uint64) []byte {
	return []byte{mark<<4 | byte(v>>30)<<1&0xe | 1, byte(v >> 22), byte(v>>15)<<1 | 1, byte(v >> 7), byte(v)<<1 | 1}
}

// vfPES is a PES packet; dts is left out when it equals pts.
func vfPES(id byte, pts, dts uint64, both bool, stuffing int, body []byte) []byte {
	out := []byte{0, 0, 1, id, 0, 0, 0x80, 0x80, byte(5 + stuffing)}
	if id != 0xe0 {
		n := 8 + stuffing + len(body)
		out[4], out[5] = byte(n>>8), byte(n)
	}
	if both {
		out[7] = 0xc0
		out[8] += 5
		out = append(out, vfStamp(3, pts)...)
		out = append(out, vfStamp(1, dts)...)
	} else {
		out = append(out, vfStamp(2, pts)...)
	}
	for i := 0; i < stuffing; i++ {
		out = append(out, 0xff)
	}
	return append(out, body...)
}

func vfMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
