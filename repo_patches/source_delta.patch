From 5ae02dff6c1b3b028cd97a2876eda625e3941251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 01/61] fix: libaac: write the top channel-configuration bit of
 ADTS headers

---
 libaac/aac.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libaac/aac.go b/libaac/aac.go
index 5823ceb..fd60566 100644
--- a/libaac/aac.go
+++ b/libaac/aac.go
@@ -31,8 +31,8 @@ func (ah *AACHeader) Adts(data []byte) (header []byte) {
 	return []byte{
 		0xff,
 		0xf1,
-		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2),
-		((ah.Channel << 2) << 4) | uint8((frameLen<<3)>>14),
+		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2) | ((ah.Channel >> 2) & 0x01),
+		((ah.Channel & 0x03) << 6) | uint8((frameLen<<3)>>14),
 		uint8((frameLen << 5) >> 8),
 		uint8(((frameLen<<13)>>13)<<5) | ((0x7c << 1) >> 3),
 		0xfc,
-- 
2.43.0


From 88a3189d2fa9aa917d43fca345dc5f2937aa9cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 02/61] fix: libamf: consume the object end marker and treat
 the ECMA array count as advisory

---
 libamf/amf0.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index d58787c..01ef9ec 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -171,7 +171,7 @@ func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err erro
 		if err != nil {
 			return res, err
 		}
-		if p.key == "" {
+		if p.end {
 			break
 		}
 		res[p.key] = p.value
@@ -192,6 +192,7 @@ func decodeTypedObjectamf0(r easyio.EasyReader) (className string, res map[strin
 type pair struct {
 	key   string
 	value interface{}
+	end   bool //empty key followed by ObjectEndMarker
 }
 
 func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
@@ -200,14 +201,15 @@ func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
 	if err != nil {
 		return p, err
 	}
-	if p.key == "" {
-		return p, nil
-	}
 
-	_, p.value, err = decodeamf0(r)
+	var marker Marker
+	marker, p.value, err = decodeamf0(r)
 	if err != nil {
 		return p, err
 	}
+	//ObjectEndMarker terminates the container wherever a value is expected;
+	//the regular form is an empty key followed by it.
+	p.end = marker == ObjectEndMarker
 	return p, nil
 }
 
@@ -224,14 +226,14 @@ func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err e
 	}
 
 	res = make(map[string]interface{})
-	var i uint32
+	//the count is advisory, the pairs end with 00 00 09 like an object's
 	var p *pair
-	for i = 0; i <= length; i++ { //length: 00 00 09
+	for {
 		p, err = readPairamf0(r)
 		if err != nil {
 			return res, err
 		}
-		if p.key == "" {
+		if p.end {
 			break
 		}
 		res[p.key] = p.value
-- 
2.43.0


From 8a52446e6adb09588bbb262ddfcbc3c2c62cc6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 03/61] fix: libamf: bound nesting depth and allocation while
 decoding

---
 libamf/amf0.go | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index 01ef9ec..0b0b407 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -35,6 +35,9 @@ const (
 	InvalidMarker
 )
 
+//maxDepth bounds how deeply containers may nest in a decoded value.
+const maxDepth = 128
+
 type amf0 struct{}
 
 var AMF0 amf0
@@ -44,7 +47,7 @@ func (amf0) Decode(r easyio.EasyReader) (res []interface{}, err error) {
 	var i interface{}
 	var marker Marker
 	for {
-		marker, i, err = decodeamf0(r)
+		marker, i, err = decodeamf0(r, 0)
 		if err == io.EOF {
 			break
 		}
@@ -70,7 +73,11 @@ func (amf0) Decode(r easyio.EasyReader) (res []interface{}, err error) {
 	return res, nil
 }
 
-func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
+func decodeamf0(r easyio.EasyReader, depth int) (marker Marker, i interface{}, err error) {
+	if depth > maxDepth {
+		return InvalidMarker, nil, errors.New("amf0 value nested too deeply")
+	}
+
 	var b []byte
 	b, err = r.ReadN(1)
 	if err != nil {
@@ -86,7 +93,7 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case StringMarker:
 		i, err = decodeStringamf0(r)
 	case ObjectMarker: //complex types
-		i, err = decodeObjectamf0(r)
+		i, err = decodeObjectamf0(r, depth)
 	case MovieclipMarker: //not supported, do nothing
 	case NULLMarker:
 		i, err = nil, nil
@@ -94,10 +101,10 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case ReferenceMarker:
 		i, err = decodeReferenceamf0(r)
 	case EcmaArrayMarker: //complex types
-		i, err = decodeEcmaArrayamf0(r)
+		i, err = decodeEcmaArrayamf0(r, depth)
 	case ObjectEndMarker: //no futher information is encoded, do nothing
 	case StrictArrayMarker:
-		i, err = decodeStrictArrayamf0(r)
+		i, err = decodeStrictArrayamf0(r, depth)
 	case DateMarker:
 		i, err = decodeDateamf0(r)
 	case LongStringMarker:
@@ -109,7 +116,7 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case TypedObjectMarker: //complex types
 		//XXX: get className, then?
 		var className string
-		className, i, err = decodeTypedObjectamf0(r)
+		className, i, err = decodeTypedObjectamf0(r, depth)
 		i = map[string]interface{}{
 			className: i,
 		}
@@ -156,18 +163,23 @@ func decodeLongStringamf0(r easyio.EasyReader) (str string, err error) {
 
 //TODO: utf-8 support
 func readByteamf0(r easyio.EasyReader, length uint32) (b []byte, err error) {
-	b, err = r.ReadN(uint32(length))
+	//length comes from the peer: grow with the bytes actually present instead
+	//of allocating it up front.
+	b, err = io.ReadAll(io.LimitReader(r, int64(length)))
 	if err != nil {
 		return nil, err
 	}
+	if uint32(len(b)) < length {
+		return nil, io.EOF
+	}
 	return b, nil
 }
 
-func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
+func decodeObjectamf0(r easyio.EasyReader, depth int) (res map[string]interface{}, err error) {
 	var p *pair
 	res = make(map[string]interface{})
 	for {
-		p, err = readPairamf0(r)
+		p, err = readPairamf0(r, depth)
 		if err != nil {
 			return res, err
 		}
@@ -179,13 +191,13 @@ func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err erro
 	return res, nil
 }
 
-func decodeTypedObjectamf0(r easyio.EasyReader) (className string, res map[string]interface{}, err error) {
+func decodeTypedObjectamf0(r easyio.EasyReader, depth int) (className string, res map[string]interface{}, err error) {
 	className, err = decodeStringamf0(r)
 	if err != nil {
 		return className, res, err
 	}
 
-	res, err = decodeObjectamf0(r)
+	res, err = decodeObjectamf0(r, depth)
 	return className, res, err
 }
 
@@ -195,7 +207,7 @@ type pair struct {
 	end   bool //empty key followed by ObjectEndMarker
 }
 
-func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
+func readPairamf0(r easyio.EasyReader, depth int) (p *pair, err error) {
 	p = &pair{}
 	p.key, err = decodeStringamf0(r)
 	if err != nil {
@@ -203,7 +215,7 @@ func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
 	}
 
 	var marker Marker
-	marker, p.value, err = decodeamf0(r)
+	marker, p.value, err = decodeamf0(r, depth+1)
 	if err != nil {
 		return p, err
 	}
@@ -218,7 +230,7 @@ func decodeReferenceamf0(r easyio.EasyReader) (index uint16, err error) {
 	return index, err
 }
 
-func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
+func decodeEcmaArrayamf0(r easyio.EasyReader, depth int) (res map[string]interface{}, err error) {
 	var length uint32
 	err = binary.Read(r, binary.BigEndian, &length)
 	if err != nil {
@@ -229,7 +241,7 @@ func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err e
 	//the count is advisory, the pairs end with 00 00 09 like an object's
 	var p *pair
 	for {
-		p, err = readPairamf0(r)
+		p, err = readPairamf0(r, depth)
 		if err != nil {
 			return res, err
 		}
@@ -241,7 +253,7 @@ func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err e
 	return res, nil
 }
 
-func decodeStrictArrayamf0(r easyio.EasyReader) (res []interface{}, err error) {
+func decodeStrictArrayamf0(r easyio.EasyReader, depth int) (res []interface{}, err error) {
 	var length uint32
 	err = binary.Read(r, binary.BigEndian, &length)
 	if err != nil {
@@ -251,7 +263,7 @@ func decodeStrictArrayamf0(r easyio.EasyReader) (res []interface{}, err error) {
 	var i uint32
 	var item interface{}
 	for i = 0; i < length; i++ {
-		_, item, err = decodeamf0(r)
+		_, item, err = decodeamf0(r, depth+1)
 		if err != nil {
 			return res, err
 		}
-- 
2.43.0


From b85e09fb5885c339685f2910cc9fd13289d47538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 04/61] fix: libflv, libhls: treat the composition time as a
 signed 24-bit value

---
 libflv/video.go | 5 +++--
 libhls/hls.go   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/libflv/video.go b/libflv/video.go
index 57888c4..d5586c8 100644
--- a/libflv/video.go
+++ b/libflv/video.go
@@ -36,7 +36,7 @@ type VideoTag struct {
 	CodecID       uint8 //4bits
 	VideoData     []byte
 	AVCPacketType uint8
-	Cts           uint32 //CompositionTime, int24
+	Cts           uint32 //CompositionTime, int24 in two's complement
 }
 
 func ParseVideoTag(tb TagBase, b []byte) (video *VideoTag, err error) {
@@ -57,7 +57,8 @@ func ParseVideoTag(tb TagBase, b []byte) (video *VideoTag, err error) {
 			return nil, errors.New("invalid video format")
 		}
 		video.AVCPacketType = b[1]
-		video.Cts = uint32(0x00)<<24 | uint32(b[2])<<16 | uint32(b[3])<<8 | uint32(b[4])
+		//int24: sign-extended, B-frame publishers send negative offsets
+		video.Cts = uint32(int32(uint32(b[2])<<24|uint32(b[3])<<16|uint32(b[4])<<8) >> 8)
 		video.VideoData = b[5:]
 	}
 
diff --git a/libhls/hls.go b/libhls/hls.go
index 74ec4ae..c059db0 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -472,7 +472,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts))*90)
 			}
 			return pes, pid, videoKey, false
 
@@ -501,7 +501,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.Data = avccToAnnexB(pv.Data())
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts))*90)
 			}
 			return pes, pid, videoKey, false
 
-- 
2.43.0


From e2910703f039f39d4b6158efd95056bb0c04f4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 05/61] fix: libhls: convert timestamps to 90 kHz without
 32-bit overflow

---
 libhls/hls.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index c059db0..2d49c78 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -406,7 +406,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			pid = libmpeg.AUDIO_PID
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.AUDIO_PID]
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
 			pes.Index = 0
@@ -448,7 +448,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.VIDEO_PID]
 			pes.StreamType = 0x1B
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
@@ -492,7 +492,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			videoKey = pv.FrameType == libflv.KEY_FRAME
 			pid = libmpeg.VIDEO_PID
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
-- 
2.43.0


From 4e9ce60aae1637e1d557399fa99d77b3db252df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:42 +0000
Subject: [PATCH 06/61] fix: libavc: keep exactly the parameter sets of the
 latest decoder configuration record

---
 libavc/avc.go | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/libavc/avc.go b/libavc/avc.go
index 017a5f5..66bd602 100644
--- a/libavc/avc.go
+++ b/libavc/avc.go
@@ -78,30 +78,47 @@ func (parser *Parser) ParseSpecificInfo(src []byte) error {
 
 	//get sps
 	seq.spsNum = src[5] & 0x1f
-	seq.spsLen = int(src[6])<<8 | int(src[7])
-
-	if len(src[8:]) < seq.spsLen || seq.spsLen <= 0 {
+	if seq.spsNum == 0 {
 		return spsDataError
 	}
-	sps = append(sps, startCode...)
-	sps = append(sps, src[8:(8+seq.spsLen)]...)
+	tmpBuf := src[6:]
+	for i := byte(0); i < seq.spsNum; i++ {
+		if len(tmpBuf) < 2 {
+			return spsDataError
+		}
+		seq.spsLen = int(tmpBuf[0])<<8 | int(tmpBuf[1])
+		if len(tmpBuf[2:]) < seq.spsLen || seq.spsLen <= 0 {
+			return spsDataError
+		}
+		sps = append(sps, startCode...)
+		sps = append(sps, tmpBuf[2:2+seq.spsLen]...)
+		tmpBuf = tmpBuf[2+seq.spsLen:]
+	}
 
 	//get pps
-	tmpBuf := src[(8 + seq.spsLen):]
 	if len(tmpBuf) < 4 {
 		return ppsHeaderError
 	}
 	seq.ppsNum = tmpBuf[0]
-	seq.ppsLen = int(0)<<16 | int(tmpBuf[1])<<8 | int(tmpBuf[2])
-	if len(tmpBuf[3:]) < seq.ppsLen || seq.ppsLen <= 0 {
+	if seq.ppsNum == 0 {
 		return ppsDataError
 	}
+	tmpBuf = tmpBuf[1:]
+	for i := byte(0); i < seq.ppsNum; i++ {
+		if len(tmpBuf) < 2 {
+			return ppsHeaderError
+		}
+		seq.ppsLen = int(tmpBuf[0])<<8 | int(tmpBuf[1])
+		if len(tmpBuf[2:]) < seq.ppsLen || seq.ppsLen <= 0 {
+			return ppsDataError
+		}
+		pps = append(pps, startCode...)
+		pps = append(pps, tmpBuf[2:2+seq.ppsLen]...)
+		tmpBuf = tmpBuf[2+seq.ppsLen:]
+	}
 
-	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
-
-	parser.SpecificInfo = append(parser.SpecificInfo, sps...)
-	parser.SpecificInfo = append(parser.SpecificInfo, pps...)
+	//a publisher may send a new record mid-stream: it replaces the old one
+	parser.SpecificInfo = append(sps, pps...)
 
 	return nil
 }
-- 
2.43.0


From cbb67b0e36e5d1aaf95c25693a60568b3eb47349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 07/61] fix: libmpeg: stuff the last packet of a PES to exactly
 188 bytes

---
 libmpeg/ts.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libmpeg/ts.go b/libmpeg/ts.go
index 82a3ce3..3b82c74 100644
--- a/libmpeg/ts.go
+++ b/libmpeg/ts.go
@@ -126,8 +126,9 @@ func (af *AdaptationField) Parse(reader easyio.EasyReader) (err error) {
 }
 
 func (af *AdaptationField) Marshal(writer easyio.EasyWriter) (n uint8, err error) {
-	if af.AdaptationFieldLength < 1 {
-		return 0, fmt.Errorf("invalid1 AdaptationFieldLength:%d", af.AdaptationFieldLength)
+	if af.AdaptationFieldLength == 0 {
+		//a single stuffing byte: the length field alone
+		return 1, writer.WriteFull([]byte{0x00})
 	}
 
 	b := make([]byte, 0, af.AdaptationFieldLength+1)
@@ -269,8 +270,9 @@ func (ts *TS) Mux(psi PSI, firstTSofKeyFrame bool, dts uint64, writer easyio.Eas
 		}
 
 		if remain := psi.Remain(); remain < int(writable-headerSize) {
+			//stuff up to the packet end: 4 bytes ts header, 1 byte adaptation length
 			ts.AdaptationFieldExist |= 0x02
-			ts.AdaptationField.AdaptationFieldLength = uint8(int(writable-headerSize) - remain - 1)
+			ts.AdaptationField.AdaptationFieldLength = uint8(int(writable) - 4 - 1 - remain)
 		}
 	}
 
-- 
2.43.0


From 8b5216422713fd66ff870d5badf5bffefd51ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:32 +0000
Subject: [PATCH 08/61] fix: libmpeg: read and write every PAT and PMT field at
 full width

---
 libmpeg/psi.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/libmpeg/psi.go b/libmpeg/psi.go
index 59dd730..9d61a5f 100644
--- a/libmpeg/psi.go
+++ b/libmpeg/psi.go
@@ -61,7 +61,7 @@ func (pat *PAT) Parse(reader easyio.EasyReader) (err error) {
 	if pat.SectionSyntaxIndicator != 0x01 {
 		return fmt.Errorf("invalid SectionSyntaxIndicator of PAT, SectionSyntaxIndicator:%d", pat.SectionSyntaxIndicator)
 	}
-	if (pat.SectionLength>>10)&0x03 != 0x00 || pat.SectionLength > 0x3fd {
+	if (pat.SectionLength>>10)&0x03 != 0x00 || pat.SectionLength > 0x3fd || pat.SectionLength < 5+4 {
 		return fmt.Errorf("invalid SectionLength of PAT, SectionLength:%d", pat.SectionLength)
 	}
 
@@ -102,7 +102,7 @@ func (pat *PAT) Marshal(writer easyio.EasyWriter, writable int) (n int, finish b
 		uint8(pat.SectionLength & 0xff),
 		uint8((pat.TransportStreamID >> 8) & 0xff),
 		uint8(pat.TransportStreamID & 0xff),
-		0xc0 | ((pat.VersionNumber << 1) & 0x37) | (pat.CurrentNextIndicator & 0x01),
+		0xc0 | ((pat.VersionNumber << 1) & 0x3e) | (pat.CurrentNextIndicator & 0x01),
 		pat.SectionNumber,
 		pat.LastSectionNumber,
 	}
@@ -166,14 +166,14 @@ func (pmt *PMT) Parse(reader easyio.EasyReader) (err error) {
 
 	pmt.TableID = b1[0]
 	pmt.SectionSyntaxIndicator = (b1[1] & 0x80) >> 7
-	pmt.SectionLength = uint16((b1[1]&0x0f)<<8) + uint16(b1[2])
+	pmt.SectionLength = uint16(b1[1]&0x0f)<<8 + uint16(b1[2])
 	pmt.ProgramNumber = uint16(b1[3])<<8 + uint16(b1[4])
 	pmt.VersionNumber = (b1[5] & 0x3e) >> 1
 	pmt.CurrentNextIndicator = b1[5] & 0x01
 	pmt.SectionNumber = b1[6]
 	pmt.LastSectionNumber = b1[7]
 	pmt.PCR_PID = uint16(b1[8]&0x1f)<<8 + uint16(b1[9])
-	pmt.ProgramInfoLength = uint16((b1[10]&0x0f)<<8 + b1[11])
+	pmt.ProgramInfoLength = uint16(b1[10]&0x0f)<<8 + uint16(b1[11])
 
 	if pmt.TableID != 0x02 {
 		return fmt.Errorf("invalid TableID of PMT, TableID:%d", pmt.TableID)
@@ -190,7 +190,7 @@ func (pmt *PMT) Parse(reader easyio.EasyReader) (err error) {
 	if pmt.LastSectionNumber != 0x00 {
 		return fmt.Errorf("invalid LastSectionNumber of PMT, LastSectionNumber:%d", pmt.LastSectionNumber)
 	}
-	if (pmt.ProgramInfoLength>>10)&0x03 != 0x00 {
+	if (pmt.ProgramInfoLength>>10)&0x03 != 0x00 || pmt.SectionLength < 9+pmt.ProgramInfoLength+4 {
 		return fmt.Errorf("invalid ProgramInfoLength of PMT, ProgramInfoLength:%d", pmt.ProgramInfoLength)
 	}
 
@@ -207,14 +207,15 @@ func (pmt *PMT) Parse(reader easyio.EasyReader) (err error) {
 	}
 	for i := 0; i+5 <= len(b3); i += 5 {
 		streamPID := uint16(b3[i+1]&0x1f)<<8 + uint16(b3[i+2])
+		esInfoLength := uint16(b3[i+3]&0x0f)<<8 + uint16(b3[i+4])
+		if (esInfoLength>>10)&0x03 != 0x00 {
+			return fmt.Errorf("invalid ESInfoLength of PMT, ESInfoLength:%d", esInfoLength)
+		}
 		if _, ok := pmt.Streams[streamPID]; !ok {
-			esInfoLength := uint16(b3[i+3]&0x0f)<<8 + uint16(b3[i+4])
-			if (esInfoLength>>10)&0x03 != 0x00 {
-				return fmt.Errorf("invalid ESInfoLength of PMT, ESInfoLength:%d", esInfoLength)
-			}
-			i += int(esInfoLength)
 			pmt.Streams[streamPID] = NewPES()
 		}
+		pmt.Streams[streamPID].StreamType = b3[i]
+		i += int(esInfoLength)
 	}
 
 	pmt.CRC32 = CRC32(append(append(b1, b2...), b3...))
-- 
2.43.0


From 5e8470e27575a8917a43ef6ee3fa090b7a43b9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:53 +0000
Subject: [PATCH 09/61] fix: libmpeg: consume the whole adaptation field when
 parsing it

---
 libmpeg/ts.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/libmpeg/ts.go b/libmpeg/ts.go
index 3b82c74..9621361 100644
--- a/libmpeg/ts.go
+++ b/libmpeg/ts.go
@@ -1,6 +1,7 @@
 package libmpeg
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 
@@ -66,10 +67,12 @@ func (af *AdaptationField) Parse(reader easyio.EasyReader) (err error) {
 		return nil
 	}
 
-	b, err = reader.ReadN(1)
+	//consume the whole field, stuffing included
+	b, err = reader.ReadN(uint32(af.AdaptationFieldLength))
 	if err != nil {
 		return INVALID_DATA_ERROR
 	}
+	reader = easyio.NewEasyReader(bytes.NewReader(b[1:]))
 
 	af.DiscontinuityIndicator = (b[0] & 0x80) >> 7
 	af.RandomAccessIndicator = (b[0] & 0x40) >> 6
@@ -80,7 +83,7 @@ func (af *AdaptationField) Parse(reader easyio.EasyReader) (err error) {
 	af.TransportPrivateDataFlag = (b[0] & 0x02) >> 1
 	af.AdaptationFieldExtensionFlag = b[0] & 0x01
 
-	var err1, err2, err3, err4, err5, err6, err7, err8 error
+	var err1, err2, err3, err4, err5, err6, err7, err8, err9 error
 	if af.PCRFlag == 1 {
 		b, err1 = reader.ReadN(6)
 		af.ProgramClockReferenceBase = (uint64(b[0]) << 25) | (uint64(b[1]) << 17) | (uint64(b[2]) << 9) | (uint64(b[3]) << 1) | (uint64(b[4]&0x80) >> 7)
@@ -101,7 +104,7 @@ func (af *AdaptationField) Parse(reader easyio.EasyReader) (err error) {
 		af.TransportPrivateData, err5 = reader.ReadN(uint32(af.TransportPrivateDataLength))
 	}
 	if af.AdaptationFieldExtensionFlag == 1 {
-		b, err5 = reader.ReadN(2)
+		b, err9 = reader.ReadN(2)
 		af.AdaptationFieldExtensionLength = b[0]
 		af.LTWFlag = (b[1] & 0x80) >> 7
 		af.PiecewiseRateFlag = (b[1] & 0x40) >> 6
@@ -114,15 +117,15 @@ func (af *AdaptationField) Parse(reader easyio.EasyReader) (err error) {
 		}
 		if af.PiecewiseRateFlag == 1 {
 			b, err7 = reader.ReadN(3)
-			af.PiecewiseRate = uint32(b[0]&0xc0)<<16 + uint32(b[1])<<8 + uint32(b[2])
+			af.PiecewiseRate = uint32(b[0]&0x3f)<<16 + uint32(b[1])<<8 + uint32(b[2])
 		}
 		if af.SeamlessSpliceFlag == 1 {
 			b, err8 = reader.ReadN(5)
 			af.SpliceType = (b[0] & 0xf0) >> 4
-			af.DTSNextAccessUnit = uint64(b[0]&0x0f)<<32 + uint64(b[1])<<24 + uint64(b[2])<<16 + uint64(b[3])<<8 + uint64(b[4])
+			af.DTSNextAccessUnit = uint64(b[0]&0x0e)<<29 | uint64(b[1])<<22 | uint64(b[2]&0xfe)<<14 | uint64(b[3])<<7 | uint64(b[4])>>1
 		}
 	}
-	return easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2, err3, err4, err5, err6, err7, err8)
+	return easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2, err3, err4, err5, err6, err7, err8, err9)
 }
 
 func (af *AdaptationField) Marshal(writer easyio.EasyWriter) (n uint8, err error) {
@@ -228,7 +231,9 @@ func (ts *TS) DeMux(pidTable map[uint16]PSI, reader easyio.EasyReader) (err erro
 
 	if ts.AdaptationFieldExist == 0x02 || ts.AdaptationFieldExist == 0x03 {
 		ts.AdaptationField = NewAdaptationField()
-		ts.AdaptationField.Parse(reader)
+		if err = ts.AdaptationField.Parse(reader); err != nil {
+			return err
+		}
 	}
 
 	if ts.PayloadUnitStartIndicator == 0x01 {
-- 
2.43.0


From 08c01d63d4d9cd9d31fd338a04b637f00c23663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 10/61] fix: libmpeg: do not read a pointer field in front of
 PES packets

---
 libmpeg/ts.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libmpeg/ts.go b/libmpeg/ts.go
index 9621361..ffc38dd 100644
--- a/libmpeg/ts.go
+++ b/libmpeg/ts.go
@@ -236,18 +236,19 @@ func (ts *TS) DeMux(pidTable map[uint16]PSI, reader easyio.EasyReader) (err erro
 		}
 	}
 
-	if ts.PayloadUnitStartIndicator == 0x01 {
+	psi, exist := pidTable[ts.PID]
+	if !exist {
+		return fmt.Errorf("invalid pid:%d", ts.PID)
+	}
+
+	//pointer_field precedes sections only, a PES packet starts right away
+	if _, isPES := psi.(*PES); !isPES && ts.PayloadUnitStartIndicator == 0x01 {
 		b, err1 := reader.ReadN(1)
 		b, err2 := reader.ReadN(uint32(b[0]))
 		if err := easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2); err != nil {
 			return INVALID_DATA_ERROR
 		}
 	}
-
-	psi, exist := pidTable[ts.PID]
-	if !exist {
-		return fmt.Errorf("invalid pid:%d", ts.PID)
-	}
 	return psi.Parse(reader)
 }
 
-- 
2.43.0


From 068e5ba60f006e7d83fa880053bcbd233a7f60e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:49 +0000
Subject: [PATCH 11/61] fix: libhls: remove the segment in progress on Stop

---
 libhls/hls.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 2d49c78..f838f44 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -264,11 +264,10 @@ func (hls *HLS) Stop() {
 	if !atomic.CompareAndSwapInt32(&hls.stopped, 0, 1) {
 		return
 	}
-	if hls.currentFile != nil {
-		_ = hls.currentFile.Close()
-		hls.currentFile = nil
-	}
+	//currentFile belongs to Start's goroutine, which closes it on its way
+	//out; only the name is shared.
 	hls.mu.Lock()
+	name := hls.currentSegName
 	hls.currentSegName = ""
 	segs := append([]segmentInfo(nil), hls.segments...)
 	hls.segments = nil
@@ -277,6 +276,9 @@ func (hls *HLS) Stop() {
 	for _, s := range segs {
 		_ = os.Remove(filepath.Join(hls.dir, s.filename))
 	}
+	if name != "" {
+		_ = os.Remove(filepath.Join(hls.dir, name))
+	}
 	//Unblock anyone waiting on WaitFirstSegment if we never produced
 	//one.
 	hls.readyOnce.Do(func() { close(hls.ready) })
@@ -702,6 +704,13 @@ func (hls *HLS) finaliseCurrent() {
 	}
 
 	hls.mu.Lock()
+	if hls.stopRequested() {
+		//Stop has already reaped everything it knew of.
+		hls.currentSegName = ""
+		hls.mu.Unlock()
+		_ = os.Remove(filepath.Join(hls.dir, name))
+		return
+	}
 	seg := segmentInfo{
 		filename: name,
 		seq:      hls.nextSeq,
-- 
2.43.0


From ef755355e70336182bbe5284f2585c0f96048e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:08 +0000
Subject: [PATCH 12/61] fix: libhls: keep LL-HLS parts sane when audio lags
 behind video

---
 libhls/hls.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index f838f44..76af35f 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -383,7 +383,8 @@ outer:
 		//to the part we're closing — the next part starts at the
 		//current write offset.
 		if hls.llEnabled && hls.currentFile != nil {
-			partDur := float64(pes.DTS-hls.partStartDTS) / 90000.0
+			//signed: buffered audio may be older than the part
+			partDur := float64(int64(pes.DTS-hls.partStartDTS)) / 90000.0
 			if partDur*float64(time.Second) >= float64(hls.partTargetDur) {
 				hls.closeCurrentPart(pes.DTS, false)
 			}
@@ -614,10 +615,8 @@ func (hls *HLS) closeCurrentPart(endDTS uint64, nextIndependent bool) {
 	if hls.currentFile == nil {
 		return
 	}
+	//may be zero when only older audio followed the last part
 	dur := float64(endDTS-hls.partStartDTS) / 90000.0
-	if dur <= 0 {
-		return
-	}
 	length := hls.currentBytes - hls.partStartOffset
 	if length <= 0 {
 		return
-- 
2.43.0


From 12af1694e523666c64cffc33e2871a1d9f070619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:12 +0000
Subject: [PATCH 13/61] fix: libhls: answer a blocking reload as soon as its
 segment is complete

---
 libhls/hls.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 76af35f..daf4dec 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -199,13 +199,10 @@ func (hls *HLS) WaitForPlaylist(wantMSN int, wantPart int, timeout time.Duration
 		if !hls.llEnabled || wantMSN < 0 {
 			break
 		}
-		latestMSN := hls.nextSeq - 1
-		latestPart := -1
-		if hls.currentSegName != "" {
-			latestMSN = hls.nextSeq
-			latestPart = len(hls.currentParts) - 1
+		if hls.stopRequested() || wantMSN < hls.nextSeq {
+			break //the whole segment is there
 		}
-		if wantMSN < latestMSN || (wantMSN == latestMSN && wantPart <= latestPart) {
+		if wantMSN == hls.nextSeq && hls.currentSegName != "" && wantPart < len(hls.currentParts) {
 			break
 		}
 		now := time.Now()
-- 
2.43.0


From e6dae5330063104089f1dedb8586b5c3b2cd9a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 14/61] fix: libhls, libdash: keep segment files of any stream
 name inside the segment directory

---
 libdash/dash.go | 6 ++++++
 libhls/hls.go   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/libdash/dash.go b/libdash/dash.go
index 8e2a9c7..fc95764 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -17,6 +17,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -173,6 +174,11 @@ func (d *DASH) Start(gopReader *broadcast.BroadcastReader) error {
 		d.readyOnce.Do(func() { close(d.ready) })
 	}()
 
+	//The publisher picks the name, keep segments inside dir.
+	if strings.ContainsRune(d.streamID, filepath.Separator) {
+		return fmt.Errorf("invalid stream name: %q", d.streamID)
+	}
+
 	for {
 		if d.stopRequested() {
 			return nil
diff --git a/libhls/hls.go b/libhls/hls.go
index daf4dec..7a46033 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -304,6 +305,11 @@ func (hls *HLS) Start(gopReader *broadcast.BroadcastReader) (err error) {
 		hls.readyOnce.Do(func() { close(hls.ready) })
 	}()
 
+	//The publisher picks the name, keep segments inside dir.
+	if strings.ContainsRune(hls.streamID, filepath.Separator) {
+		return fmt.Errorf("invalid stream name: %q", hls.streamID)
+	}
+
 outer:
 	for {
 		if hls.stopRequested() {
-- 
2.43.0


From 4357721b272d0749707e1316b875f81d52ce1153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:50 +0000
Subject: [PATCH 15/61] fix: libdash: leave no segment behind after Stop

---
 libdash/dash.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libdash/dash.go b/libdash/dash.go
index fc95764..2520625 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -158,6 +158,13 @@ func (d *DASH) Stop() {
 	d.readyOnce.Do(func() { close(d.ready) })
 }
 
+// reapInit removes an init segment written while Stop was running.
+func (d *DASH) reapInit() {
+	if d.stopRequested() && d.streamID != "" {
+		_ = os.Remove(filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID)))
+	}
+}
+
 func (d *DASH) stopRequested() bool {
 	return atomic.LoadInt32(&d.stopped) != 0
 }
@@ -288,6 +295,7 @@ func (d *DASH) handleHEVCSequenceHeader(record []byte) error {
 	d.mu.Lock()
 	d.initWritten = true
 	d.mu.Unlock()
+	d.reapInit()
 	return nil
 }
 
@@ -436,6 +444,7 @@ func (d *DASH) handleSequenceHeader(record []byte) error {
 	d.mu.Lock()
 	d.initWritten = true
 	d.mu.Unlock()
+	d.reapInit()
 	return nil
 }
 
@@ -491,6 +500,12 @@ func (d *DASH) flushCurrent() error {
 	endTime := d.currentSamples[len(d.currentSamples)-1].dts +
 		uint64(samples[len(samples)-1].Duration)
 	d.mu.Lock()
+	if d.stopRequested() {
+		//Stop has already reaped everything it knew of.
+		d.mu.Unlock()
+		_ = os.Remove(filepath.Join(d.dir, filename))
+		return nil
+	}
 	d.segments = append(d.segments, segmentInfo{
 		seq:       seq,
 		filename:  filename,
-- 
2.43.0


From d7659ca2e290896aaeb1d6e393488014d5a71bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:53 +0000
Subject: [PATCH 16/61] fix: libdash: close segments at the DTS that starts the
 next one

---
 libdash/dash.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 2520625..c632515 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -177,7 +177,7 @@ func (d *DASH) Start(gopReader *broadcast.BroadcastReader) error {
 		return fmt.Errorf("mkdir %s: %w", d.dir, err)
 	}
 	defer func() {
-		d.flushCurrent()
+		d.flushCurrent(0)
 		d.readyOnce.Do(func() { close(d.ready) })
 	}()
 
@@ -235,7 +235,7 @@ func (d *DASH) Start(gopReader *broadcast.BroadcastReader) error {
 			if len(d.currentSamples) > 0 {
 				curDur := dts - d.currentSamples[0].dts
 				if curDur*1000 >= uint64(d.targetDur/time.Millisecond)*1000 {
-					if err := d.flushCurrent(); err != nil {
+					if err := d.flushCurrent(dts); err != nil {
 						fmt.Printf("dash: flush segment: %v\n", err)
 					}
 				}
@@ -450,9 +450,10 @@ func (d *DASH) handleSequenceHeader(record []byte) error {
 
 // flushCurrent closes the in-progress segment, builds an fMP4 fragment
 // and writes it under <dir>/<streamID>-<seq>.m4s. Old segments are
-// reaped to keep windowSize on disk.
-func (d *DASH) flushCurrent() error {
-	if len(d.currentSamples) < 2 {
+// reaped to keep windowSize on disk. nextDTS is the start of the next
+// segment, 0 when there is none.
+func (d *DASH) flushCurrent(nextDTS uint64) error {
+	if n := len(d.currentSamples); n == 0 || n == 1 && nextDTS <= d.currentSamples[0].dts {
 		//Need at least one duration interval. Drop a single-sample
 		//tail rather than emit a malformed fragment.
 		d.currentSamples = d.currentSamples[:0]
@@ -468,13 +469,11 @@ func (d *DASH) flushCurrent() error {
 		var dur uint64
 		if i+1 < len(d.currentSamples) {
 			dur = d.currentSamples[i+1].dts - s.dts
+		} else if nextDTS > s.dts {
+			dur = nextDTS - s.dts
 		} else {
 			//Last sample: use previous interval as a best-guess.
-			if i > 0 {
-				dur = s.dts - d.currentSamples[i-1].dts
-			} else {
-				dur = 33 //~30fps fallback
-			}
+			dur = s.dts - d.currentSamples[i-1].dts
 		}
 		samples = append(samples, libmp4.Sample{
 			Duration:              uint32(dur),
-- 
2.43.0


From 65fd5fb14d36ccd2dec774b7b04e6ab731d6bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:25 +0000
Subject: [PATCH 17/61] fix: libdash: do not remove files outside the segment
 directory on Stop

---
 libdash/dash.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index c632515..f46ebb2 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -152,15 +152,13 @@ func (d *DASH) Stop() {
 	for _, s := range segs {
 		_ = os.Remove(filepath.Join(d.dir, s.filename))
 	}
-	if d.streamID != "" {
-		_ = os.Remove(filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID)))
-	}
+	d.reapInit()
 	d.readyOnce.Do(func() { close(d.ready) })
 }
 
-// reapInit removes an init segment written while Stop was running.
+// reapInit removes the init segment, also one written while Stop ran.
 func (d *DASH) reapInit() {
-	if d.stopRequested() && d.streamID != "" {
+	if d.stopRequested() && d.streamID != "" && !strings.ContainsRune(d.streamID, filepath.Separator) {
 		_ = os.Remove(filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID)))
 	}
 }
-- 
2.43.0


From 845e530a6b52fdc23a1adf1300c4544c7cadaa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:29 +0000
Subject: [PATCH 18/61] fix: libdash: find the PPS behind several SPS

---
 libdash/dash.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libdash/dash.go b/libdash/dash.go
index f46ebb2..58bb040 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -551,6 +551,13 @@ func parseAVCDCR(src []byte) (sps, pps []byte, width, height uint16, err error)
 	}
 	sps = append([]byte(nil), src[off:off+spsLen]...)
 	off += spsLen
+	for i := uint8(1); i < numSPS; i++ { //only the first SPS is used
+		if off+2 > len(src) {
+			err = fmt.Errorf("DCR truncated at SPS length")
+			return
+		}
+		off += 2 + int(binary.BigEndian.Uint16(src[off:off+2]))
+	}
 
 	if off >= len(src) {
 		err = fmt.Errorf("DCR truncated before PPS count")
-- 
2.43.0


From 8c3096724d2267cffed678de5aea5752a48c3a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:32 +0000
Subject: [PATCH 19/61] fix: libdash: bound the POC cycle loop of a damaged SPS

---
 libdash/dash.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libdash/dash.go b/libdash/dash.go
index 58bb040..6964dfc 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -640,6 +640,9 @@ func parseSPSDimensions(sps []byte) (width, height uint16) {
 		_ = br.readSE()
 		_ = br.readSE()
 		n := br.readUE()
+		if n > 255 { //num_ref_frames_in_pic_order_cnt_cycle
+			return 0, 0
+		}
 		for i := uint32(0); i < n; i++ {
 			_ = br.readSE()
 		}
-- 
2.43.0


From 68da92b315afd2274af9c30ae4be26b1bdcd3b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 20/61] fix: libdash: skip the sub-layer profiles of an HEVC
 SPS

---
 libdash/dash.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 6964dfc..533b3a8 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -368,7 +368,7 @@ func parseHEVCSPSDimensions(sps []byte) (w, h uint16) {
 	//Skip 2-byte NAL header.
 	br := newBitReader(rbsp[2:])
 	_, _ = br.readBits(4) //sps_video_parameter_set_id
-	maxSubLayers, _ := br.readBits(3)
+	maxSubLayersMinus1, _ := br.readBits(3)
 	_, _ = br.readBits(1) //temporal_id_nesting_flag
 
 	//profile_tier_level — 12 bytes for the general profile + per
@@ -377,16 +377,18 @@ func parseHEVCSPSDimensions(sps []byte) (w, h uint16) {
 	for i := 0; i < skipBytes; i++ {
 		_, _ = br.readBits(8)
 	}
-	if maxSubLayers > 1 {
-		flags, _ := br.readBits(2 * int(maxSubLayers-1))
-		_ = flags
-		//byte-align: the spec specifies padding.
-		for br.pos%8 != 0 {
-			_, _ = br.readBits(1)
+	if maxSubLayersMinus1 > 0 {
+		//One pair of presence flags per sub-layer, padded to 8 pairs,
+		//then 11 bytes of profile and 1 byte of level where present.
+		flags, _ := br.readBits(16)
+		for i := 0; i < int(maxSubLayersMinus1); i++ {
+			if flags&(0x8000>>uint(2*i)) != 0 {
+				br.pos += 88
+			}
+			if flags&(0x4000>>uint(2*i)) != 0 {
+				br.pos += 8
+			}
 		}
-		//Each sub-layer-present flag bit pair brings up to 11 bytes
-		//of profile/level data. Without parsing the flags we can't
-		//cleanly skip them — bail if any are set.
 	}
 
 	_ = br.readUE() //seq_parameter_set_id
-- 
2.43.0


From f222db9ff49faa9675a1d251a797e3dbc9b2e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:38 +0000
Subject: [PATCH 21/61] fix: librtmp: let SetHlsDir cover DASH segments as
 documented

---
 librtmp/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index 0189165..93fc376 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -112,12 +112,13 @@ func (s *server) SetHlsMode(appName string, mode libhls.HLS_MODE) *server {
 }
 
 // SetHlsDir configures the directory where the given app stores HLS
-// segments. If unset it defaults to "./data".
+// and DASH segments. If unset it defaults to "./data".
 func (s *server) SetHlsDir(appName string, dir string) *server {
 	if _, ok := s.apps[appName]; !ok {
 		panic("appName does not exist.")
 	}
 	s.apps[appName].hlsDir = dir
+	s.apps[appName].dashDir = dir
 	return s
 }
 
-- 
2.43.0


From 1c2668c0ac6669bc141557cf6e43065f1c254a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 22/61] fix: dash: no made-up duration when the next segment
 starts at the last sample's time

---
 libdash/dash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 533b3a8..7253af7 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -469,7 +469,7 @@ func (d *DASH) flushCurrent(nextDTS uint64) error {
 		var dur uint64
 		if i+1 < len(d.currentSamples) {
 			dur = d.currentSamples[i+1].dts - s.dts
-		} else if nextDTS > s.dts {
+		} else if nextDTS > 0 && nextDTS >= s.dts {
 			dur = nextDTS - s.dts
 		} else {
 			//Last sample: use previous interval as a best-guess.
-- 
2.43.0


From 4b3da05d0efda3ac94c5aeedfed8148d2ac261c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 23/61] fix: rtsp: refuse negative and oversized Content-Length

---
 librtsp/message.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/librtsp/message.go b/librtsp/message.go
index 0a1a222..cc6e0b2 100644
--- a/librtsp/message.go
+++ b/librtsp/message.go
@@ -24,6 +24,10 @@ import (
 // and emit on outbound responses.
 const rtspVersion = "RTSP/1.0"
 
+// maxBodySize bounds the body of an inbound request (an SDP, or a few
+// parameters).
+const maxBodySize = 1 << 20
+
 // Request is one parsed RTSP request — methods reuse Go's
 // http.Header so callers can use Get / Set / Add idiomatically.
 type Request struct {
@@ -76,6 +80,9 @@ func ReadRequest(r *bufio.Reader) (*Request, error) {
 		if err != nil {
 			return nil, fmt.Errorf("bad Content-Length: %v", err)
 		}
+		if n < 0 || n > maxBodySize {
+			return nil, fmt.Errorf("bad Content-Length: %d", n)
+		}
 		body := make([]byte, n)
 		if _, err := io.ReadFull(r, body); err != nil {
 			return nil, err
-- 
2.43.0


From 476fe4d364075217a2ec029c6cc3ebf7318a74e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 24/61] fix: rtsp: keep the F bit of fragmented NAL units

---
 librtsp/h264.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/librtsp/h264.go b/librtsp/h264.go
index aaf24d9..796fe8f 100644
--- a/librtsp/h264.go
+++ b/librtsp/h264.go
@@ -38,7 +38,6 @@ func PackNAL(nal []byte, mtu int) [][]byte {
 	//FU-A: header is 2 bytes (FU indicator + FU header), then payload
 	//bytes from the original NAL minus its 1-byte NAL header.
 	nalHeader := nal[0]
-	nri := (nalHeader & 0x60) >> 5
 	nalType := nalHeader & 0x1f
 	body := nal[1:] //skip the original NAL header
 
@@ -52,7 +51,7 @@ func PackNAL(nal []byte, mtu int) [][]byte {
 		if end > len(body) {
 			end = len(body)
 		}
-		fuIndicator := (nri << 5) | 28 //type 28 = FU-A
+		fuIndicator := (nalHeader & 0xE0) | 28 //F and NRI kept, type 28 = FU-A
 		fuHeader := nalType
 		if i == 0 {
 			fuHeader |= 0x80 //S = start
-- 
2.43.0


From ae482716ef1d4eb3c6f3dd90f4e19f622e2ab0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 25/61] fix: rtsp: drop NAL units whose fragments are not all
 there

---
 librtsp/rtp_unpack.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/librtsp/rtp_unpack.go b/librtsp/rtp_unpack.go
index 0a63d49..7c25471 100644
--- a/librtsp/rtp_unpack.go
+++ b/librtsp/rtp_unpack.go
@@ -74,6 +74,7 @@ func ParseRTP(buf []byte) (*RTPPacket, error) {
 // AU into AVCC for forwarding.
 type H264Reassembler struct {
 	fuBuf     []byte //in-progress FU-A reassembly
+	fuSeq     uint16 //sequence number the next fragment must have
 	pending   [][]byte
 	pendingTS uint32
 }
@@ -120,7 +121,12 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 			//Reconstruct the original NAL header from the FU
 			//indicator's NRI bits + the FU header's type.
 			r.fuBuf = []byte{(hdr & 0xE0) | origType}
+		} else if r.fuBuf == nil || pkt.SequenceNum != r.fuSeq {
+			//Part of the unit was lost, what is left is of no use.
+			r.fuBuf = nil
+			break
 		}
+		r.fuSeq = pkt.SequenceNum + 1
 		r.fuBuf = append(r.fuBuf, pkt.Payload[2:]...)
 		if end {
 			r.pending = append(r.pending, r.fuBuf)
-- 
2.43.0


From f8568582828f0a858cfb614f34d31dad179e7f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 26/61] fix: rtsp: strip the CRC of protected ADTS frames too

---
 librtsp/aac.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/librtsp/aac.go b/librtsp/aac.go
index c136c21..c975e22 100644
--- a/librtsp/aac.go
+++ b/librtsp/aac.go
@@ -32,7 +32,7 @@ func PackAACFrame(frame []byte) []byte {
 	return out
 }
 
-// AdtsToRaw strips the 7-byte ADTS header off an AAC frame. The HLS
+// AdtsToRaw strips the ADTS header (7 bytes, 9 with a CRC) off an AAC frame. The HLS
 // transcoder happens to splice ADTS in front of every AAC frame from
 // libaac.AACHeader.Adts; for RTP we want the raw access unit instead.
 func AdtsToRaw(frame []byte) []byte {
@@ -40,6 +40,9 @@ func AdtsToRaw(frame []byte) []byte {
 		return frame
 	}
 	if frame[0] == 0xFF && (frame[1]&0xF0) == 0xF0 {
+		if frame[1]&0x01 == 0 && len(frame) >= 9 {
+			return frame[9:] //a CRC follows the header
+		}
 		return frame[7:]
 	}
 	return frame
-- 
2.43.0


From 854d53228e3486b0a2ac3afd9380cdb2b1434c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 27/61] fix: rtsp: read interleaved frames of a publisher
 completely

---
 librtmp/rtsp_ingest.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 0869d36..db051ce 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -3,6 +3,7 @@ package librtmp
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"net"
 	"strings"
 	"sync/atomic"
@@ -197,13 +198,13 @@ func (s *rtspSession) runIngestLoop() {
 			continue
 		}
 		hdr := make([]byte, 3)
-		if _, err := s.br.Read(hdr); err != nil {
+		if _, err := io.ReadFull(s.br, hdr); err != nil {
 			return
 		}
 		ch := hdr[0]
 		ln := int(binary.BigEndian.Uint16(hdr[1:3]))
 		body := make([]byte, ln)
-		if _, err := s.br.Read(body); err != nil {
+		if _, err := io.ReadFull(s.br, body); err != nil {
 			return
 		}
 		s.handleInterleaved(ch, body)
-- 
2.43.0


From 01be313d0e285df8b4dbb2b2dd89455aaf570ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 28/61] fix: rtsp: skip interleaved frames a player sends

---
 librtmp/rtsp_ingest.go | 29 +++++++++++++++--------------
 librtmp/rtsp_server.go |  7 +++++++
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index db051ce..d06ff88 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -175,15 +175,11 @@ func (s *rtspSession) runIngestLoop() {
 	//interleaved with media. Detect "$" framing vs the start of an
 	//RTSP keyword by peek-and-dispatch.
 	for {
-		first, err := s.br.ReadByte()
+		first, err := s.br.Peek(1)
 		if err != nil {
 			return
 		}
-		if first != '$' {
-			//Push the byte back and parse as an RTSP request.
-			if err := s.br.UnreadByte(); err != nil {
-				return
-			}
+		if first[0] != '$' {
 			req, err := librtsp.ReadRequest(s.br)
 			if err != nil {
 				return
@@ -197,20 +193,25 @@ func (s *rtspSession) runIngestLoop() {
 			}
 			continue
 		}
-		hdr := make([]byte, 3)
-		if _, err := io.ReadFull(s.br, hdr); err != nil {
-			return
-		}
-		ch := hdr[0]
-		ln := int(binary.BigEndian.Uint16(hdr[1:3]))
-		body := make([]byte, ln)
-		if _, err := io.ReadFull(s.br, body); err != nil {
+		ch, body, err := s.readInterleaved()
+		if err != nil {
 			return
 		}
 		s.handleInterleaved(ch, body)
 	}
 }
 
+// readInterleaved reads one $-prefixed frame.
+func (s *rtspSession) readInterleaved() (ch uint8, body []byte, err error) {
+	var hdr [4]byte
+	if _, err = io.ReadFull(s.br, hdr[:]); err != nil {
+		return
+	}
+	body = make([]byte, binary.BigEndian.Uint16(hdr[2:4]))
+	_, err = io.ReadFull(s.br, body)
+	return hdr[1], body, err
+}
+
 // runUDPReader pumps RTP packets off a per-track UDP socket. isAudio
 // distinguishes the two depacketisation paths.
 func (s *rtspSession) runUDPReader(c *net.UDPConn, isAudio bool) {
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 53edd91..33666a4 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -85,6 +85,13 @@ func newRTSPSession(conn net.Conn, srv *server) *rtspSession {
 func (s *rtspSession) run() {
 	defer s.conn.Close()
 	for {
+		//Players send RTCP reports interleaved with their requests.
+		if first, err := s.br.Peek(1); err == nil && first[0] == '$' {
+			if _, _, err := s.readInterleaved(); err != nil {
+				return
+			}
+			continue
+		}
 		req, err := librtsp.ReadRequest(s.br)
 		if err != nil {
 			if err != io.EOF {
-- 
2.43.0


From 512bacb383702ab3f9ce7ba508c2b04073407f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 29/61] fix: rtsp: release stream and sockets whenever the
 session ends

---
 librtmp/rtsp_ingest.go | 25 +++++--------------------
 librtmp/rtsp_server.go | 18 +++++++++++++++++-
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index d06ff88..8f9b54d 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -17,6 +17,7 @@ import (
 // rtspSession when the publish flow kicks off.
 type rtspIngest struct {
 	parsed  *librtsp.ParsedSDP
+	room    *Room
 	videoCh int //RTSP interleave channel (RTP), -1 if not negotiated
 	audioCh int
 	videoRA *librtsp.H264Reassembler
@@ -70,6 +71,7 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 	s.app, s.streamID = app, room
 	s.ingest = &rtspIngest{
 		parsed:  parsed,
+		room:    rtmp.room,
 		videoCh: -1,
 		audioCh: -1,
 		videoRA: &librtsp.H264Reassembler{},
@@ -145,23 +147,6 @@ func (s *rtspSession) handleRecord(req *librtsp.Request, resp *librtsp.Response)
 // concurrently handles GET_PARAMETER / TEARDOWN / etc.
 func (s *rtspSession) runIngestLoop() {
 	defer atomic.StoreInt32(&s.recording, 0)
-	defer func() {
-		if s.publishRTMP != nil {
-			s.publishRTMP.cleanup()
-		}
-		if s.videoUDP != nil {
-			_ = s.videoUDP.Close()
-		}
-		if s.audioUDP != nil {
-			_ = s.audioUDP.Close()
-		}
-		if s.videoUDPRTCP != nil {
-			_ = s.videoUDPRTCP.Close()
-		}
-		if s.audioUDPRTCP != nil {
-			_ = s.audioUDPRTCP.Close()
-		}
-	}()
 
 	//Spawn a UDP reader per track that was set up in UDP mode.
 	if s.videoUDP != nil {
@@ -268,9 +253,9 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	}
 	vt.DataSize = uint32(len(vt.Data()))
 	if frameType == libflv.KEY_FRAME {
-		s.publishRTMP.room.GOP.Reset()
+		s.ingest.room.GOP.Reset()
 	}
-	s.publishRTMP.room.GOP.Write(vt)
+	s.ingest.room.GOP.Write(vt)
 }
 
 func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
@@ -295,7 +280,7 @@ func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
 			SoundData:     frame,
 		}
 		at.DataSize = uint32(len(at.Data()))
-		s.publishRTMP.room.GOP.Write(at)
+		s.ingest.room.GOP.Write(at)
 	}
 }
 
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 33666a4..6f0fd99 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -83,7 +83,7 @@ func newRTSPSession(conn net.Conn, srv *server) *rtspSession {
 // flush a response. Runs until either side closes the TCP connection
 // or PLAY's goroutine reports a write failure.
 func (s *rtspSession) run() {
-	defer s.conn.Close()
+	defer s.close()
 	for {
 		//Players send RTCP reports interleaved with their requests.
 		if first, err := s.br.Peek(1); err == nil && first[0] == '$' {
@@ -112,6 +112,22 @@ func (s *rtspSession) run() {
 	}
 }
 
+// close releases everything the session holds: the published stream,
+// the playback goroutine and the sockets.
+func (s *rtspSession) close() {
+	atomic.StoreInt32(&s.playing, 0)
+	atomic.StoreInt32(&s.recording, 0)
+	if s.publishRTMP != nil {
+		s.publishRTMP.cleanup()
+	}
+	for _, c := range []*net.UDPConn{s.videoUDP, s.audioUDP, s.videoUDPRTCP, s.audioUDPRTCP} {
+		if c != nil {
+			_ = c.Close()
+		}
+	}
+	_ = s.conn.Close()
+}
+
 // dispatch routes a request to the per-method handler. Each handler
 // returns a fully-formed response or nil to terminate the session.
 func (s *rtspSession) dispatch(req *librtsp.Request) *librtsp.Response {
-- 
2.43.0


From 105bacdeee60f5f79a159e943e1416eba731dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 30/61] fix: rtsp: one ANNOUNCE per session

---
 librtmp/rtsp_ingest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 8f9b54d..3467461 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -31,6 +31,11 @@ type rtspIngest struct {
 // downstream protocols (HTTP-FLV / HLS / DASH / RTSP PLAY) can mirror
 // the stream.
 func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
+	if s.ingest != nil {
+		resp.StatusCode = 455
+		resp.Reason = "Method Not Valid In This State"
+		return resp
+	}
 	app, room := parseRTSPURL(req.URL)
 	if app == "" || room == "" {
 		resp.StatusCode = 400
-- 
2.43.0


From a3b7bffc651c4f0d7cc3aa6daace3fa41964383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:59 +0000
Subject: [PATCH 31/61] fix: rtsp: do not take an HEVC configuration for an AVC
 one

---
 librtmp/rtsp_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 6f0fd99..da9b8b5 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -426,7 +426,7 @@ func (s *rtspSession) streamLoop(room *Room) {
 	//that decodes off the wire rather than the SDP fmtp gets the
 	//SPS/PPS too.
 	_, videoHdr, _ := room.snapshotHeaders()
-	if s.videoChan >= 0 && videoHdr != nil {
+	if s.videoChan >= 0 && videoHdr != nil && videoHdr.CodecID == libflv.FLV_VIDEO_AVC {
 		s.sendVideoSeqHeader(videoHdr)
 	}
 
-- 
2.43.0


From 240bf21ba2ae22b6c513ab4454984006230fe10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 32/61] fix: rtsp: send each track to its own UDP port

---
 librtmp/rtsp_server.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index da9b8b5..48e0348 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -473,7 +473,7 @@ func (s *rtspSession) sendVideoSeqHeader(tag *libflv.VideoTag) {
 	for _, nal := range [][]byte{sps, pps} {
 		for _, payload := range librtsp.PackNAL(nal, librtsp.DefaultMTU) {
 			pkt := s.videoRTP.Pack(false, 0, payload)
-			if err := s.writeInterleaved(uint8(s.videoChan), pkt); err != nil {
+			if err := s.writeRTP(false, pkt); err != nil {
 				return
 			}
 		}
@@ -508,7 +508,7 @@ func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
 		for pi, piece := range pieces {
 			marker := ni == len(nals)-1 && pi == len(pieces)-1
 			pkt := s.videoRTP.Pack(marker, pts, piece)
-			if err := s.writeInterleaved(uint8(s.videoChan), pkt); err != nil {
+			if err := s.writeRTP(false, pkt); err != nil {
 				return err
 			}
 		}
@@ -536,7 +536,7 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 		frame := librtsp.AdtsToRaw(tag.Data())
 		payload := librtsp.PackAACFrame(frame)
 		pkt := s.audioRTP.Pack(true, ts, payload)
-		return s.writeInterleaved(uint8(s.audioChan), pkt)
+		return s.writeRTP(true, pkt)
 
 	case libflv.FLV_AUDIO_OPUS:
 		if tag.AACPacketType != libflv.AAC_RAW {
@@ -546,27 +546,23 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * librtsp.OpusClockRate / 1000)
 		payload := librtsp.PackOpusFrame(tag.Data())
 		pkt := s.audioRTP.Pack(true, ts, payload)
-		return s.writeInterleaved(uint8(s.audioChan), pkt)
+		return s.writeRTP(true, pkt)
 	}
 	return nil
 }
 
-// writeInterleaved sends one RTP packet on the appropriate transport.
-// ch is the interleave channel (used in TCP mode); routing in UDP mode
-// is by even/odd channel number — the same convention SETUP responses
-// use. We resolve the right UDP socket + peer addr from the session.
-func (s *rtspSession) writeInterleaved(ch uint8, rtp []byte) error {
-	//UDP: pick the matching per-track socket. Channel 0 / 2 / … (the
-	//RTP halves) map to whichever track we set up first.
-	if int(ch) == s.videoChan && s.videoUDP != nil {
-		_, err := s.videoUDP.WriteToUDP(rtp, s.peerVideoRTP)
-		return err
+// writeRTP sends one RTP packet of a track on the transport SETUP chose
+// for it: the track's UDP socket, or its interleave channel.
+func (s *rtspSession) writeRTP(audio bool, rtp []byte) error {
+	ch, sock, peer := s.videoChan, s.videoUDP, s.peerVideoRTP
+	if audio {
+		ch, sock, peer = s.audioChan, s.audioUDP, s.peerAudioRTP
 	}
-	if int(ch) == s.audioChan && s.audioUDP != nil {
-		_, err := s.audioUDP.WriteToUDP(rtp, s.peerAudioRTP)
+	if sock != nil {
+		_, err := sock.WriteToUDP(rtp, peer)
 		return err
 	}
-	frame := librtsp.InterleaveFrame(ch, rtp)
+	frame := librtsp.InterleaveFrame(uint8(ch), rtp)
 	s.wmu.Lock()
 	defer s.wmu.Unlock()
 	_, err := s.conn.Write(frame)
-- 
2.43.0


From ccd77650ffaf872edcb9a1127cd1f1a9374507b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 33/61] fix: rtsp: refuse interleave channels that do not fit a
 byte

---
 librtmp/rtsp_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 48e0348..57aaa59 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -235,7 +235,7 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 	if useTCP {
 		var ok bool
 		rtpCh, rtcpCh, ok = parseInterleavedChannels(transport)
-		if !ok {
+		if !ok || rtpCh < 0 || rtpCh > 255 {
 			resp.StatusCode = 400
 			resp.Reason = "Bad Request"
 			return resp
-- 
2.43.0


From f8cd81a2e1e2e75b38244619e4664b3d12dd7fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 34/61] fix: librtmp: write three-byte chunk stream ids least
 significant byte first

---
 librtmp/chunk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index c5e66c1..cd0c204 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -234,7 +234,7 @@ func (chunk *Chunk) Send(rtmp *RTMP) (err error) {
 	} else {
 		b = append(b, uint8(chunk.Fmt<<6)|uint8(0x01))
 		b = append(b, uint8(0), uint8(0))
-		binary.BigEndian.PutUint16(b[len(b)-2:], uint16(chunk.CsID-64))
+		binary.LittleEndian.PutUint16(b[len(b)-2:], uint16(chunk.CsID-64))
 	}
 
 	//For FMT0 we carry an absolute timestamp; for FMT1/FMT2 a delta.
-- 
2.43.0


From 35d826143517ca8217774d24b0641aef223ee7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 35/61] fix: librtmp: assemble messages per chunk stream

---
 librtmp/chunk.go           |  4 ++++
 librtmp/control_message.go |  2 +-
 librtmp/message.go         | 11 +++++++++--
 librtmp/rtmp.go            |  1 +
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index cd0c204..d8def72 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -175,6 +175,10 @@ func ParseChunk(rtmp *RTMP, message Message) (cp *Chunk, err error) {
 		return nil, err
 	}
 
+	if message == nil {
+		//continuation of the message in progress on this chunk stream
+		message = rtmp.partial[basicHeader.CsID]
+	}
 	messageHeader, err := parseChunkMessageHeader(rtmp, basicHeader, message == nil)
 	if err != nil {
 		return nil, err
diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index a1dd3a2..25725ae 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -279,7 +279,7 @@ func (am *AbortMessage) Parse() (err error) {
 func (am *AbortMessage) Do() error {
 	//Drop any partial message on the indicated chunk stream so the next
 	//chunk on that CSID starts a fresh message.
-	delete(am.rtmp.lastChunk, am.ChunkStreamID)
+	delete(am.rtmp.partial, am.ChunkStreamID)
 	return nil
 }
 
diff --git a/librtmp/message.go b/librtmp/message.go
index f9d56a3..3a1b9b9 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -115,13 +115,15 @@ func ParseMessage(rtmp *RTMP) (err error) {
 	var chunk *Chunk
 	var message Message
 
-	//read message payload from many chunks
+	//read message payload from many chunks, which may be interleaved with
+	//chunks of other chunk streams
 	for {
-		chunk, err = ParseChunk(rtmp, message)
+		chunk, err = ParseChunk(rtmp, nil)
 		if err != nil {
 			return err
 		}
 
+		message = rtmp.partial[chunk.CsID]
 		if message == nil {
 			mb := MessageBase{
 				rtmp:            rtmp,
@@ -185,8 +187,13 @@ func ParseMessage(rtmp *RTMP) (err error) {
 
 		message.Append(chunk)
 		if message.Done() {
+			delete(rtmp.partial, chunk.CsID)
 			break
 		}
+		if rtmp.partial == nil {
+			rtmp.partial = make(map[uint32]Message)
+		}
+		rtmp.partial[chunk.CsID] = message
 	}
 
 	//Track inbound bytes so we can send Window Acknowledgement messages
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index cc9ffc9..5c94dd4 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -12,6 +12,7 @@ type RTMP struct {
 	readerConn       easyio.EasyReader
 	writerConn       easyio.EasyWriter
 	lastChunk        map[uint32]*Chunk //csid
+	partial          map[uint32]Message //csid, message some chunks of which are still to come
 	peerMaxChunkSize uint32
 	ownMaxChunkSize  int
 	peer             string
-- 
2.43.0


From cc6d89c48c3e039720b66e2f6cf24cce67e0df27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 36/61] fix: librtmp: refuse malformed commands and control
 messages

---
 librtmp/command_message.go | 11 +++++++++--
 librtmp/control_message.go | 10 ++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index d814d54..97a2b24 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -117,8 +117,15 @@ func (cm *CommandMessage) Parse() (err error) {
 		fmt.Println("index:", index, " a.type:", reflect.TypeOf(a), " a.Value:", reflect.ValueOf(a))
 	}
 
-	cm.CommandName = array[0].(string)
-	cm.TranscationID = int(array[1].(float64))
+	var ok bool
+	if cm.CommandName, ok = array[0].(string); !ok {
+		return errors.New("invalid data")
+	}
+	transcationID, ok := array[1].(float64)
+	if !ok {
+		return errors.New("invalid data")
+	}
+	cm.TranscationID = int(transcationID)
 	switch cm.CommandName {
 	case CONNECT:
 		_ = array[2]
diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index 25725ae..ad60060 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -44,6 +44,9 @@ func (wasm *WindowAcknowledgeSizeMessage) Send() (err error) {
 }
 
 func (wasm *WindowAcknowledgeSizeMessage) Parse() (err error) {
+	if len(wasm.messagePayload) < 4 {
+		return fmt.Errorf("WindowAcknowledgeSize payload too short: %d", len(wasm.messagePayload))
+	}
 	wasm.AcknowledgementWindowSize = binary.BigEndian.Uint32(wasm.messagePayload)
 	fmt.Println("windowAcknowledgeSize:", wasm.AcknowledgementWindowSize)
 	return nil
@@ -232,7 +235,14 @@ func (scsm *SetChunkSizeMessage) Send() error {
 }
 
 func (scsm *SetChunkSizeMessage) Parse() (err error) {
+	if len(scsm.messagePayload) < 4 {
+		return fmt.Errorf("SetChunkSize payload too short: %d", len(scsm.messagePayload))
+	}
 	scsm.NewChunkSize = binary.BigEndian.Uint32(scsm.messagePayload)
+	//the top bit must be zero and the size at least 1 (RTMP 1.0 §5.4.1)
+	if scsm.NewChunkSize == 0 || scsm.NewChunkSize>>31 != 0 {
+		return fmt.Errorf("invalid chunk size: %d", scsm.NewChunkSize)
+	}
 	fmt.Println("new chunk size of peer::", scsm.NewChunkSize)
 	return nil
 }
-- 
2.43.0


From 61887348ee42b263ac6b2d9d56c0ebc5f35ee9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 37/61] fix: librtmp: neither act on unparsed messages nor
 reserve announced memory

---
 librtmp/chunk.go   |  6 +++++-
 librtmp/message.go | 11 ++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index d8def72..956ba66 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -204,7 +204,11 @@ func ParseChunk(rtmp *RTMP, message Message) (cp *Chunk, err error) {
 		Payload:            b,
 	}
 
-	rtmp.lastChunk[cp.CsID] = cp
+	//later chunks only need the headers of this one
+	rtmp.lastChunk[cp.CsID] = &Chunk{
+		ChunkBasicHeader:   cp.ChunkBasicHeader,
+		ChunkMessageHeader: cp.ChunkMessageHeader,
+	}
 	return cp, nil
 }
 
diff --git a/librtmp/message.go b/librtmp/message.go
index 3a1b9b9..9168833 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/pkg/errors"
 )
 
@@ -132,7 +131,9 @@ func ParseMessage(rtmp *RTMP) (err error) {
 				messageType:     chunk.MessageType,
 				messageStreamID: chunk.MessageStreamID,
 				amf:             libamf.AMF0,
-				messagePayload:  make([]byte, 0, chunk.MessageLength),
+				//grown as chunks arrive: the announced length is the
+				//peer's word only, up to 16 MB for each chunk stream
+				messagePayload: []byte{},
 			}
 
 			switch chunk.MessageType {
@@ -208,7 +209,11 @@ func ParseMessage(rtmp *RTMP) (err error) {
 		}
 	}
 
-	return easyerrors.HandleMultiError(easyerrors.Simple(), message.Parse(), message.Do())
+	//a message that could not be parsed must not take effect
+	if err = message.Parse(); err != nil {
+		return err
+	}
+	return message.Do()
 }
 
 // DiscardMessage consumes (and drops) a message whose type we don't
-- 
2.43.0


From 0c447fb08e3e74a041e4927093e77e443030c717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 38/61] fix: librtmp: claim stream names atomically

---
 librtmp/app.go         |  8 ++++++++
 librtmp/client.go      |  6 +++---
 librtmp/rtsp_ingest.go | 12 +++++-------
 librtmp/srt_server.go  |  9 ++++-----
 4 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/librtmp/app.go b/librtmp/app.go
index b336523..53be483 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -42,6 +42,14 @@ func (app *App) Store(roomID string, room *Room) {
 	app.rooms.Store(roomID, room)
 }
 
+// Claim stores the room unless the name is already in use, and reports
+// whether it did. Two publishers asking for one name at the same time
+// cannot both get it.
+func (app *App) Claim(roomID string, room *Room) bool {
+	_, taken := app.rooms.LoadOrStore(roomID, room)
+	return !taken
+}
+
 func (app *App) Delete(roomID string) {
 	if h, ok := app.hls.LoadAndDelete(roomID); ok {
 		if hls, ok := h.(*libhls.HLS); ok {
diff --git a/librtmp/client.go b/librtmp/client.go
index 8f0f29b..82a040d 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -59,13 +59,13 @@ func (pc *PullClient) Run() error {
 		_ = conn.Close()
 		return fmt.Errorf("local app %q not configured", pc.spec.app)
 	}
-	if existing := app.Load(pc.spec.streamID); existing != nil {
+	room := NewRoom(rtmp, pc.spec.streamID)
+	if !app.Claim(pc.spec.streamID, room) {
 		_ = conn.Close()
 		return fmt.Errorf("local stream %q already publishing", pc.spec.streamID)
 	}
 	rtmp.app = pc.spec.app
-	rtmp.room = NewRoom(rtmp, pc.spec.streamID)
-	app.Store(pc.spec.streamID, rtmp.room)
+	rtmp.room = room
 	//We act as publisher into the local broadcast — when the upstream
 	//disconnects, cleanup() should tear the local room down so HLS /
 	//FLV viewers exit cleanly.
diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 3467461..6e7211a 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -48,12 +48,6 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		resp.Reason = "Not Found"
 		return resp
 	}
-	if a.Load(room) != nil {
-		resp.StatusCode = 461
-		resp.Reason = "Stream Already Publishing"
-		return resp
-	}
-
 	parsed, err := librtsp.ParseSDP(req.Body)
 	if err != nil {
 		resp.StatusCode = 400
@@ -71,7 +65,11 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		app:    app,
 	}
 	rtmp.room = NewRoom(rtmp, room)
-	a.Store(room, rtmp.room)
+	if !a.Claim(room, rtmp.room) {
+		resp.StatusCode = 461
+		resp.Reason = "Stream Already Publishing"
+		return resp
+	}
 
 	s.app, s.streamID = app, room
 	s.ingest = &rtspIngest{
diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 9f2c329..3768953 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -75,10 +75,6 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 			br.mu.Unlock()
 			return fmt.Errorf("srt: app %q missing", br.spec.app)
 		}
-		if app.Load(br.spec.streamID) != nil {
-			br.mu.Unlock()
-			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
-		}
 		//Pseudo-publisher RTMP struct so cleanup paths match.
 		ps := &RTMP{
 			peer:   "srt://" + br.spec.address,
@@ -87,8 +83,11 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 			app:    br.spec.app,
 		}
 		ps.room = NewRoom(ps, br.spec.streamID)
+		if !app.Claim(br.spec.streamID, ps.room) {
+			br.mu.Unlock()
+			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
+		}
 		br.room = ps.room
-		app.Store(br.spec.streamID, br.room)
 	}
 	br.mu.Unlock()
 	br.demux.Feed(payload)
-- 
2.43.0


From 14ac36976c8f4a8fce8cb47fe7e947dd4d772635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 39/61] fix: librtmp: let only its publisher write a stream and
 end what it leaves

---
 librtmp/audio.go           |  9 +++++----
 librtmp/command_message.go | 22 +++++++++++++++-------
 librtmp/data_message.go    |  7 ++++---
 librtmp/rtmp.go            | 10 ++++++++++
 librtmp/video.go           | 13 +++++++------
 5 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/librtmp/audio.go b/librtmp/audio.go
index 86957fc..cf5daa5 100644
--- a/librtmp/audio.go
+++ b/librtmp/audio.go
@@ -81,16 +81,17 @@ func (am *AudioMessage) Parse() (err error) {
 }
 
 func (am *AudioMessage) Do() (err error) {
-	if am.rtmp.room == nil {
+	room := am.rtmp.publishedRoom()
+	if room == nil {
 		return nil
 	}
 	if am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC && am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
-		am.rtmp.room.setAudioSequenceHeader(am.audioTag)
-		am.rtmp.room.GOP.WriteMeta(am.audioTag)
+		room.setAudioSequenceHeader(am.audioTag)
+		room.GOP.WriteMeta(am.audioTag)
 		fmt.Printf("write packet audio :%+v\n", am.audioTag)
 		return nil
 	}
 	fmt.Printf("[gop receive audio] message time(dts):%d, now:%+v\n", am.messageTime, time.Now())
-	am.rtmp.room.GOP.Write(am.audioTag)
+	room.GOP.Write(am.audioTag)
 	return nil
 }
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 97a2b24..f7a7a23 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -181,6 +181,8 @@ func (cm *CommandMessage) Do() (err error) {
 		if _, ok := cm.rtmp.server.apps[cm.CommandObject.App]; !ok {
 			return errors.Errorf("unknown app: %s", cm.CommandObject.App)
 		}
+		//a stream published so far belongs to the app connected before
+		cm.rtmp.cleanup()
 		cm.rtmp.app = cm.CommandObject.App
 		err1 = NewWindowAcknowledgeSizeMessage(cm.MessageBase, uint32(2500000)).Send()
 		cm.rtmp.ownWindowAckSize = 2500000
@@ -246,7 +248,8 @@ func (cm *CommandMessage) Do() (err error) {
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
-		if existing := app.Load(cm.PublishingName); existing != nil {
+		room := NewRoom(cm.rtmp, cm.PublishingName)
+		if !app.Claim(cm.PublishingName, room) {
 			//Refuse a second publish to the same stream — replacing the
 			//publisher mid-stream would desync every viewer.
 			return (&CommandMessageResponse{
@@ -261,9 +264,10 @@ func (cm *CommandMessage) Do() (err error) {
 				},
 			}).Send()
 		}
-		cm.rtmp.room = NewRoom(cm.rtmp, cm.PublishingName)
+		//a connection publishes at most one stream: the previous one ends
+		cm.rtmp.cleanup()
+		cm.rtmp.room = room
 		cm.rtmp.role = rolePublisher
-		app.Store(cm.PublishingName, cm.rtmp.room)
 
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
@@ -293,8 +297,8 @@ func (cm *CommandMessage) Do() (err error) {
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
-		cm.rtmp.room = app.Load(cm.PublishingName)
-		if cm.rtmp.room == nil {
+		room := app.Load(cm.PublishingName)
+		if room == nil {
 			return (&CommandMessageResponse{
 				MessageBase:     cm.MessageBase,
 				CommandName:     cm.CommandName,
@@ -307,8 +311,12 @@ func (cm *CommandMessage) Do() (err error) {
 				},
 			}).Send()
 		}
-		cm.rtmp.role = rolePlayer
-		cm.rtmp.room.RTMPJoin(cm.rtmp)
+		//playing does not end what this connection publishes itself
+		if cm.rtmp.role != rolePublisher {
+			cm.rtmp.room = room
+			cm.rtmp.role = rolePlayer
+		}
+		room.RTMPJoin(cm.rtmp)
 
 		err1 = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index 9cb28d8..d1794a6 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -64,11 +64,12 @@ func (dm *DataMessage) Parse() (err error) {
 }
 
 func (dm *DataMessage) Do() (err error) {
-	if dm.rtmp.room == nil {
+	room := dm.rtmp.publishedRoom()
+	if room == nil {
 		return nil
 	}
-	dm.rtmp.room.setMeta(dm.metaTag)
-	dm.rtmp.room.GOP.WriteMeta(dm.metaTag)
+	room.setMeta(dm.metaTag)
+	room.GOP.WriteMeta(dm.metaTag)
 	fmt.Printf("write packet data :%+v\n", dm.metaTag)
 
 	return nil
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 5c94dd4..8701d17 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -107,6 +107,16 @@ func (rtmp *RTMP) cleanup() {
 		rtmp.room.Close()
 	}
 	rtmp.room = nil
+	rtmp.role = roleUnknown
+}
+
+// publishedRoom returns the room this connection publishes, nil if it
+// does not: a player's media messages must not reach the stream it plays.
+func (rtmp *RTMP) publishedRoom() *Room {
+	if rtmp.role != rolePublisher {
+		return nil
+	}
+	return rtmp.room
 }
 
 // HandlerClient connects outbound: handshakes as client, sends
diff --git a/librtmp/video.go b/librtmp/video.go
index 5ec3ad6..28bc248 100644
--- a/librtmp/video.go
+++ b/librtmp/video.go
@@ -82,20 +82,21 @@ func (vm *VideoMessage) Parse() (err error) {
 }
 
 func (vm *VideoMessage) Do() (err error) {
-	if vm.rtmp.room == nil {
+	room := vm.rtmp.publishedRoom()
+	if room == nil {
 		return nil
 	}
 	if vm.videoTag.FrameType == libflv.KEY_FRAME {
 		if vm.videoTag.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
-			vm.rtmp.room.setVideoSequenceHeader(vm.videoTag)
-			vm.rtmp.room.GOP.WriteMeta(vm.videoTag)
+			room.setVideoSequenceHeader(vm.videoTag)
+			room.GOP.WriteMeta(vm.videoTag)
 		} else {
-			vm.rtmp.room.GOP.Reset()
-			vm.rtmp.room.GOP.Write(vm.videoTag)
+			room.GOP.Reset()
+			room.GOP.Write(vm.videoTag)
 		}
 		fmt.Printf("write packet video :%+v\n", vm.videoTag)
 	} else {
-		vm.rtmp.room.GOP.Write(vm.videoTag)
+		room.GOP.Write(vm.videoTag)
 	}
 	return nil
 }
-- 
2.43.0


From 8e2ad4e2a8193727dc7215d37d7499b0cbe774ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 40/61] fix: librtmp: count every received chunk byte for the
 acknowledgement

---
 librtmp/chunk.go   | 25 ++++++++++++++++++-------
 librtmp/message.go | 21 ++++++++++++---------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index 956ba66..09e4f01 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -22,13 +22,23 @@ const (
 // message header.
 const MAX_TIMESTAMP uint32 = 0xFFFFFF
 
+// readN reads n bytes of a chunk header. Every byte of the chunk stream
+// counts for the acknowledgement window, not only message payloads.
+func (rtmp *RTMP) readN(n uint32) (b []byte, err error) {
+	b, err = rtmp.readerConn.ReadN(n)
+	if err == nil {
+		rtmp.bytesReceived += n
+	}
+	return b, err
+}
+
 type ChunkBasicHeader struct {
 	Fmt  MessageHeaderType //2 bits
 	CsID uint32            //6, 14 or 22 bits
 }
 
 func parseChunkBasicHeader(rtmp *RTMP) (cbhp *ChunkBasicHeader, err error) {
-	b, err := rtmp.readerConn.ReadN(1)
+	b, err := rtmp.readN(1)
 	if err != nil {
 		return nil, err
 	}
@@ -39,13 +49,13 @@ func parseChunkBasicHeader(rtmp *RTMP) (cbhp *ChunkBasicHeader, err error) {
 
 	switch csid := b[0] & 0x3f; csid {
 	case 0x0:
-		b1, err := rtmp.readerConn.ReadN(1)
+		b1, err := rtmp.readN(1)
 		if err != nil {
 			return nil, err
 		}
 		cbhp.CsID = uint32(b1[0]) + 64
 	case 0x1:
-		b2, err := rtmp.readerConn.ReadN(2)
+		b2, err := rtmp.readN(2)
 		if err != nil {
 			return nil, err
 		}
@@ -79,7 +89,7 @@ func parseChunkMessageHeader(rtmp *RTMP, basicHeader *ChunkBasicHeader, firstChu
 	var rawTS uint32
 	switch basicHeader.Fmt {
 	case FMT0:
-		b11, err := rtmp.readerConn.ReadN(11)
+		b11, err := rtmp.readN(11)
 		if err != nil {
 			return nil, err
 		}
@@ -90,7 +100,7 @@ func parseChunkMessageHeader(rtmp *RTMP, basicHeader *ChunkBasicHeader, firstChu
 		cmhp.MessageType = MessageType(b11[6])
 		cmhp.MessageStreamID = binary.LittleEndian.Uint32(b11[7:])
 	case FMT1:
-		b7, err := rtmp.readerConn.ReadN(7)
+		b7, err := rtmp.readN(7)
 		if err != nil {
 			return nil, err
 		}
@@ -100,7 +110,7 @@ func parseChunkMessageHeader(rtmp *RTMP, basicHeader *ChunkBasicHeader, firstChu
 		cmhp.MessageType = MessageType(b7[6])
 		cmhp.MessageStreamID = rtmp.lastChunk[basicHeader.CsID].MessageStreamID
 	case FMT2:
-		b3, err := rtmp.readerConn.ReadN(3)
+		b3, err := rtmp.readN(3)
 		if err != nil {
 			return nil, err
 		}
@@ -130,7 +140,7 @@ func parseChunkMessageHeader(rtmp *RTMP, basicHeader *ChunkBasicHeader, firstChu
 	}
 
 	if rawTS == MAX_TIMESTAMP {
-		b4, err := rtmp.readerConn.ReadN(4)
+		b4, err := rtmp.readN(4)
 		if err != nil {
 			return nil, err
 		}
@@ -198,6 +208,7 @@ func ParseChunk(rtmp *RTMP, message Message) (cp *Chunk, err error) {
 	if err != nil {
 		return nil, err
 	}
+	rtmp.bytesReceived += chunkSize
 	cp = &Chunk{
 		ChunkBasicHeader:   *basicHeader,
 		ChunkMessageHeader: *messageHeader,
diff --git a/librtmp/message.go b/librtmp/message.go
index 9168833..9749457 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -121,6 +121,7 @@ func ParseMessage(rtmp *RTMP) (err error) {
 		if err != nil {
 			return err
 		}
+		rtmp.acknowledge()
 
 		message = rtmp.partial[chunk.CsID]
 		if message == nil {
@@ -197,9 +198,17 @@ func ParseMessage(rtmp *RTMP) (err error) {
 		rtmp.partial[chunk.CsID] = message
 	}
 
-	//Track inbound bytes so we can send Window Acknowledgement messages
-	//on schedule. The sequence number is the cumulative count received.
-	rtmp.bytesReceived += message.GetInfo().messageLength
+	//a message that could not be parsed must not take effect
+	if err = message.Parse(); err != nil {
+		return err
+	}
+	return message.Do()
+}
+
+// acknowledge tells the peer how many bytes arrived so far (modulo 2^32)
+// once its window is used up, so that it can go on sending. A message may
+// be larger than the window, so this is due after every chunk.
+func (rtmp *RTMP) acknowledge() {
 	if rtmp.peerWindowAckSize > 0 && rtmp.bytesReceived-rtmp.lastAcked >= rtmp.peerWindowAckSize {
 		ack := NewAcknowledgeMessage(MessageBase{rtmp: rtmp}, rtmp.bytesReceived)
 		if sendErr := ack.Send(); sendErr == nil {
@@ -208,12 +217,6 @@ func ParseMessage(rtmp *RTMP) (err error) {
 			fmt.Println("send acknowledgement error:", sendErr)
 		}
 	}
-
-	//a message that could not be parsed must not take effect
-	if err = message.Parse(); err != nil {
-		return err
-	}
-	return message.Do()
 }
 
 // DiscardMessage consumes (and drops) a message whose type we don't
-- 
2.43.0


From 34138f5bbb91d4ed5c7d7f413023c0d67e8b935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 41/61] fix: librtmp: write websocket frames whole and bound
 incoming ones

---
 librtmp/websocket.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/librtmp/websocket.go b/librtmp/websocket.go
index 7506a9b..a49afeb 100644
--- a/librtmp/websocket.go
+++ b/librtmp/websocket.go
@@ -11,6 +11,7 @@ import (
 	"net"
 	"net/http"
 	"strings"
+	"sync"
 )
 
 // Minimal RFC 6455 server implementation. Covers exactly what flv.js
@@ -22,6 +23,10 @@ import (
 // Fragmented frames, extensions and per-message deflate are not
 // implemented — flv.js doesn't need them.
 
+// wsMaxFrame bounds the frames a client may send. A player only sends
+// control frames; whatever else arrives is dropped.
+const wsMaxFrame = 1 << 16
+
 const wsGUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
 
 // wsOpcode names a control / data opcode from RFC 6455 §5.2.
@@ -41,6 +46,7 @@ const (
 type wsConn struct {
 	conn net.Conn
 	br   *bufio.Reader
+	wmu  sync.Mutex //pongs and media frames come from different goroutines
 }
 
 // upgradeWebSocket performs the HTTP/1.1 Upgrade handshake against
@@ -109,13 +115,9 @@ func (ws *wsConn) writeFrame(op wsOpcode, payload []byte) error {
 		header = append(header, ln[:]...)
 	}
 
-	if _, err := ws.conn.Write(header); err != nil {
-		return err
-	}
-	if len(payload) == 0 {
-		return nil
-	}
-	_, err := ws.conn.Write(payload)
+	ws.wmu.Lock()
+	defer ws.wmu.Unlock()
+	_, err := ws.conn.Write(append(header, payload...))
 	return err
 }
 
@@ -148,6 +150,10 @@ func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 		plen = binary.BigEndian.Uint64(ext)
 	}
 
+	if plen > wsMaxFrame || op >= wsOpClose && plen > 125 {
+		return 0, nil, fmt.Errorf("frame of %d bytes too large", plen)
+	}
+
 	var maskKey [4]byte
 	if masked {
 		if _, err := io.ReadFull(ws.br, maskKey[:]); err != nil {
-- 
2.43.0


From 8f845a67ea088cd29342761e520c448508934476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 42/61] fix: librtmp: let streams lacking a header flow and
 changed headers through

---
 librtmp/audio.go        |  5 +--
 librtmp/data_message.go |  3 +-
 librtmp/room.go         | 89 +++++++++++++++++++++++++++++++++++++++--
 librtmp/rtsp_ingest.go  | 13 ++----
 librtmp/srt_server.go   | 13 ++----
 librtmp/video.go        |  8 ++--
 6 files changed, 100 insertions(+), 31 deletions(-)

diff --git a/librtmp/audio.go b/librtmp/audio.go
index cf5daa5..aa76a86 100644
--- a/librtmp/audio.go
+++ b/librtmp/audio.go
@@ -86,12 +86,11 @@ func (am *AudioMessage) Do() (err error) {
 		return nil
 	}
 	if am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC && am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
-		room.setAudioSequenceHeader(am.audioTag)
-		room.GOP.WriteMeta(am.audioTag)
+		room.writeHeader(am.audioTag)
 		fmt.Printf("write packet audio :%+v\n", am.audioTag)
 		return nil
 	}
 	fmt.Printf("[gop receive audio] message time(dts):%d, now:%+v\n", am.messageTime, time.Now())
-	room.GOP.Write(am.audioTag)
+	room.writeFrame(am.audioTag, false)
 	return nil
 }
diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index d1794a6..556ac9a 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -68,8 +68,7 @@ func (dm *DataMessage) Do() (err error) {
 	if room == nil {
 		return nil
 	}
-	room.setMeta(dm.metaTag)
-	room.GOP.WriteMeta(dm.metaTag)
+	room.writeHeader(dm.metaTag)
 	fmt.Printf("write packet data :%+v\n", dm.metaTag)
 
 	return nil
diff --git a/librtmp/room.go b/librtmp/room.go
index 7300191..ede5c46 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -24,15 +24,20 @@ type Room struct {
 	videoSeqHdr *libflv.VideoTag
 	audioSeqHdr *libflv.AudioTag
 	metaTag     *libflv.MetaTag
+	opened      bool //the broadcast has its leading tags
 	closed      bool
 }
 
+// leadingTags is the number of tags every subscriber gets before the
+// frames. The broadcast holds everything back until it has them all.
+const leadingTags = 3 //metadata, video and audio sequence header
+
 //NOTE: the room must be created by publisher
 func NewRoom(rtmp *RTMP, roomID string) *Room {
 	r := &Room{
 		RoomID:    roomID,
 		Publisher: rtmp,
-		GOP:       broadcast.NewBroadcast(3),
+		GOP:       broadcast.NewBroadcast(leadingTags),
 	}
 	return r
 }
@@ -55,6 +60,64 @@ func (room *Room) setMeta(tag *libflv.MetaTag) {
 	room.mu.Unlock()
 }
 
+// writeHeader remembers the metadata or a sequence header and hands it to
+// the subscribers. Together they open the broadcast; one that comes later,
+// such as a changed decoder configuration, follows in the stream.
+func (room *Room) writeHeader(tag libflv.Tag) {
+	switch t := tag.(type) {
+	case *libflv.MetaTag:
+		room.setMeta(t)
+	case *libflv.VideoTag:
+		room.setVideoSequenceHeader(t)
+	case *libflv.AudioTag:
+		room.setAudioSequenceHeader(t)
+	}
+	room.mu.RLock()
+	opened := room.opened
+	complete := room.metaTag != nil && room.videoSeqHdr != nil && room.audioSeqHdr != nil
+	room.mu.RUnlock()
+	if opened {
+		room.GOP.Write(tag)
+	} else if complete {
+		room.open()
+	}
+}
+
+// writeFrame hands a frame to the subscribers, starting a new GOP with a
+// key frame.
+func (room *Room) writeFrame(tag libflv.Tag, key bool) {
+	room.open()
+	if key {
+		room.GOP.Reset()
+	}
+	room.GOP.Write(tag)
+}
+
+// open gives the broadcast its leading tags. What the publisher did not
+// send (a stream without audio or metadata, say) is nil, which subscribers
+// skip.
+func (room *Room) open() {
+	room.mu.Lock()
+	defer room.mu.Unlock()
+	if room.opened {
+		return
+	}
+	room.opened = true
+	var tags [leadingTags]interface{}
+	if room.metaTag != nil {
+		tags[0] = room.metaTag
+	}
+	if room.videoSeqHdr != nil {
+		tags[1] = room.videoSeqHdr
+	}
+	if room.audioSeqHdr != nil {
+		tags[2] = room.audioSeqHdr
+	}
+	for _, tag := range tags {
+		room.GOP.WriteMeta(tag)
+	}
+}
+
 func (room *Room) snapshotHeaders() (meta *libflv.MetaTag, video *libflv.VideoTag, audio *libflv.AudioTag) {
 	room.mu.RLock()
 	defer room.mu.RUnlock()
@@ -71,14 +134,32 @@ func (room *Room) Close() {
 	}
 	room.closed = true
 	room.mu.Unlock()
+	//Subscribers of a stream that never began wait for these.
+	room.open()
 	//DisAlive() wakes every BroadcastReader with alive=false so the
 	//RTMP/FLV/HLS join goroutines exit cleanly.
 	room.GOP.DisAlive()
 }
 
+// join returns a reader of the frames. Its leading tags are skipped: they
+// are as old as the stream, the room has the newest ones.
+func (room *Room) join() (gopReader *broadcast.BroadcastReader, alive bool) {
+	gopReader = broadcast.NewBroadcastReader(room.GOP)
+	for i := 0; i < leadingTags; i++ {
+		if _, alive = gopReader.Read(); !alive {
+			return nil, false
+		}
+	}
+	return gopReader, true
+}
+
 //player join the room
 func (room *Room) RTMPJoin(rtmp *RTMP) {
 	go func() {
+		gopReader, alive := room.join()
+		if !alive {
+			return
+		}
 		//Backfill sequence headers so a player joining mid-GOP has the
 		//decoder configuration before the first video tag arrives.
 		meta, videoHdr, audioHdr := room.snapshotHeaders()
@@ -111,7 +192,6 @@ func (room *Room) RTMPJoin(rtmp *RTMP) {
 		}
 
 		var err error
-		gopReader := broadcast.NewBroadcastReader(room.GOP)
 		for {
 			p, alive := gopReader.Read()
 			if !alive {
@@ -151,6 +231,10 @@ func (room *Room) FLVJoin(writer easyio.EasyWriter) {
 		return
 	}
 
+	gopReader, alive := room.join()
+	if !alive {
+		return
+	}
 	//Backfill cached sequence headers for mid-GOP joiners.
 	meta, videoHdr, audioHdr := room.snapshotHeaders()
 	if meta != nil {
@@ -169,7 +253,6 @@ func (room *Room) FLVJoin(writer easyio.EasyWriter) {
 		}
 	}
 
-	gopReader := broadcast.NewBroadcastReader(room.GOP)
 	for {
 		p, alive := gopReader.Read()
 		if !alive {
diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 6e7211a..2d975e0 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -95,8 +95,7 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 			VideoData:     seqHdr,
 		}
 		vt.DataSize = uint32(len(vt.Data()))
-		rtmp.room.setVideoSequenceHeader(vt)
-		rtmp.room.GOP.WriteMeta(vt)
+		rtmp.room.writeHeader(vt)
 	}
 	if parsed.HasAudio && len(parsed.AudioConfig) >= 2 {
 		soundRate := uint8(3) //AAC always advertises 44.1 kHz in the FLV header
@@ -114,8 +113,7 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 			SoundData:     append([]byte(nil), parsed.AudioConfig...),
 		}
 		at.DataSize = uint32(len(at.Data()))
-		rtmp.room.setAudioSequenceHeader(at)
-		rtmp.room.GOP.WriteMeta(at)
+		rtmp.room.writeHeader(at)
 	}
 	return resp
 }
@@ -255,10 +253,7 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 		VideoData:     avcc,
 	}
 	vt.DataSize = uint32(len(vt.Data()))
-	if frameType == libflv.KEY_FRAME {
-		s.ingest.room.GOP.Reset()
-	}
-	s.ingest.room.GOP.Write(vt)
+	s.ingest.room.writeFrame(vt, frameType == libflv.KEY_FRAME)
 }
 
 func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
@@ -283,7 +278,7 @@ func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
 			SoundData:     frame,
 		}
 		at.DataSize = uint32(len(at.Data()))
-		s.ingest.room.GOP.Write(at)
+		s.ingest.room.writeFrame(at, false)
 	}
 }
 
diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 3768953..981b85d 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -131,8 +131,7 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 				VideoData:     seq,
 			}
 			vt.DataSize = uint32(len(vt.Data()))
-			br.room.setVideoSequenceHeader(vt)
-			br.room.GOP.WriteMeta(vt)
+			br.room.writeHeader(vt)
 			br.emittedVideoSeqHdr = true
 		}
 	}
@@ -161,10 +160,7 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 		VideoData:     avcc,
 	}
 	vt.DataSize = uint32(len(vt.Data()))
-	if au.Key {
-		br.room.GOP.Reset()
-	}
-	br.room.GOP.Write(vt)
+	br.room.writeFrame(vt, au.Key)
 }
 
 // onAudio converts an ADTS-prefixed AAC frame into one FLV audio tag.
@@ -204,8 +200,7 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 			SoundData:     asc[:],
 		}
 		seq.DataSize = uint32(len(seq.Data()))
-		br.room.setAudioSequenceHeader(seq)
-		br.room.GOP.WriteMeta(seq)
+		br.room.writeHeader(seq)
 		br.emittedAudioSeqHdr = true
 	}
 	soundType := uint8(libflv.SND_STEREO)
@@ -222,7 +217,7 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 		SoundData:     af.Data[7:], //strip 7-byte ADTS header
 	}
 	at.DataSize = uint32(len(at.Data()))
-	br.room.GOP.Write(at)
+	br.room.writeFrame(at, false)
 }
 
 // splitAnnexB walks an AnnexB-formatted byte stream and yields one
diff --git a/librtmp/video.go b/librtmp/video.go
index 28bc248..0389689 100644
--- a/librtmp/video.go
+++ b/librtmp/video.go
@@ -88,15 +88,13 @@ func (vm *VideoMessage) Do() (err error) {
 	}
 	if vm.videoTag.FrameType == libflv.KEY_FRAME {
 		if vm.videoTag.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
-			room.setVideoSequenceHeader(vm.videoTag)
-			room.GOP.WriteMeta(vm.videoTag)
+			room.writeHeader(vm.videoTag)
 		} else {
-			room.GOP.Reset()
-			room.GOP.Write(vm.videoTag)
+			room.writeFrame(vm.videoTag, true)
 		}
 		fmt.Printf("write packet video :%+v\n", vm.videoTag)
 	} else {
-		room.GOP.Write(vm.videoTag)
+		room.writeFrame(vm.videoTag, false)
 	}
 	return nil
 }
-- 
2.43.0


From d53959ee7b7839df894a8b60daf5040fb0fb7a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 43/61] fix: librtmp: do not start a GOP before there is one

---
 librtmp/room.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/librtmp/room.go b/librtmp/room.go
index ede5c46..408d17e 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -25,6 +25,7 @@ type Room struct {
 	audioSeqHdr *libflv.AudioTag
 	metaTag     *libflv.MetaTag
 	opened      bool //the broadcast has its leading tags
+	begun       bool //a tag followed them
 	closed      bool
 }
 
@@ -72,10 +73,11 @@ func (room *Room) writeHeader(tag libflv.Tag) {
 	case *libflv.AudioTag:
 		room.setAudioSequenceHeader(t)
 	}
-	room.mu.RLock()
+	room.mu.Lock()
 	opened := room.opened
+	room.begun = room.begun || opened
 	complete := room.metaTag != nil && room.videoSeqHdr != nil && room.audioSeqHdr != nil
-	room.mu.RUnlock()
+	room.mu.Unlock()
 	if opened {
 		room.GOP.Write(tag)
 	} else if complete {
@@ -87,7 +89,13 @@ func (room *Room) writeHeader(tag libflv.Tag) {
 // key frame.
 func (room *Room) writeFrame(tag libflv.Tag, key bool) {
 	room.open()
-	if key {
+	room.mu.Lock()
+	begun := room.begun
+	room.begun = true
+	room.mu.Unlock()
+	//There is no previous GOP at first: a waiting subscriber would look
+	//for it in vain.
+	if key && begun {
 		room.GOP.Reset()
 	}
 	room.GOP.Write(tag)
-- 
2.43.0


From cb5a5215a3a90d0ec4fefcc9230e45777276786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 44/61] fix: rtsp: give every AAC frame of a packet its own
 time

---
 librtmp/rtsp_ingest.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 2d975e0..6b037ad 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -256,14 +256,18 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	s.ingest.room.writeFrame(vt, frameType == libflv.KEY_FRAME)
 }
 
+// aacFrameSamples is the duration of an AAC frame in its RTP clock.
+const aacFrameSamples = 1024
+
 func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
 	frames := librtsp.AACAUExtract(pkt.Payload)
 	rate := s.ingest.parsed.AudioRate
 	if rate <= 0 {
 		rate = 44100
 	}
-	for _, frame := range frames {
-		tagTS := uint32(uint64(pkt.Timestamp) * 1000 / uint64(rate))
+	for i, frame := range frames {
+		//the packet's time is that of its first frame (RFC 3640 §3.2.1)
+		tagTS := uint32((uint64(pkt.Timestamp) + aacFrameSamples*uint64(i)) * 1000 / uint64(rate))
 		soundType := uint8(libflv.SND_STEREO)
 		if s.ingest.parsed.AudioChans == 1 {
 			soundType = libflv.SND_MONO
-- 
2.43.0


From edf7c339b2a2824f25ca7bcbd0f4e3c0e57c10c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 45/61] fix: libsrt: ignore a PMT whose pointer leads out of
 the packet

---
 libsrt/tsdemux.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 51d0ba4..2d0f949 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -136,10 +136,10 @@ func (d *Demuxer) parsePMT(payload []byte) {
 		return
 	}
 	pointer := int(payload[0])
-	body := payload[1+pointer:]
-	if len(body) < 12 {
+	if 1+pointer+12 > len(payload) {
 		return
 	}
+	body := payload[1+pointer:]
 	sectionLen := int(binary.BigEndian.Uint16(body[1:3])&0x0FFF) + 3
 	if sectionLen > len(body) {
 		sectionLen = len(body)
-- 
2.43.0


From 017d552024654a5542ea83aba982d0431fc1b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 46/61] fix: libsrt: keep sequence numbers within 31 bits, lose
 no packet at the start

---
 libsrt/listener.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libsrt/listener.go b/libsrt/listener.go
index 867c791..6521031 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -20,6 +20,10 @@ import (
 // Returning an error stops the session.
 type DataHandler func(streamID string, payload []byte) error
 
+// maxSeqNumber is the largest of the 31-bit packet sequence numbers; the
+// next one is zero.
+const maxSeqNumber = 0x7FFFFFFF
+
 // Listener owns one UDP socket and demultiplexes packets across many
 // SRT sessions keyed by (peer addr, our destSocketID). Sessions live
 // in memory until the peer Shuts down or stops sending for a while.
@@ -148,10 +152,6 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 // jitter buffer.
 func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 	sess.mu.Lock()
-	if sess.expectedSeq == 0 && sess.ackNum == 0 {
-		//First data packet — adopt its sequence as the baseline.
-		sess.expectedSeq = hdr.SeqNumber
-	}
 	diff := SeqDiff(hdr.SeqNumber, sess.expectedSeq)
 	sess.receivedSeqs++
 
@@ -165,12 +165,12 @@ func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 		//NAK so the sender can retransmit; either it arrives before we
 		//hand off media (benign) or we've already moved past it.
 		from := sess.expectedSeq
-		to := hdr.SeqNumber - 1
-		sess.expectedSeq = hdr.SeqNumber + 1
+		to := (hdr.SeqNumber - 1) & maxSeqNumber
+		sess.expectedSeq = (hdr.SeqNumber + 1) & maxSeqNumber
 		sess.mu.Unlock()
 		l.sendNAK(sess, from, to)
 	default:
-		sess.expectedSeq++
+		sess.expectedSeq = (sess.expectedSeq + 1) & maxSeqNumber
 		sess.mu.Unlock()
 	}
 	if l.onData != nil {
@@ -249,7 +249,7 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 			return
 		}
 		sess.peerSocketID = hs.SrtSocketID
-		sess.expectedSeq = hs.InitialSequence
+		sess.expectedSeq = hs.InitialSequence & maxSeqNumber
 		sess.concluded = true
 
 		reply := *hs
-- 
2.43.0


From d97094dfc9c134fdf6fb5f2135d3145402bcd823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 47/61] fix: libsrt: keep a session through repeated and
 unasked-for handshakes

---
 libsrt/listener.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/libsrt/listener.go b/libsrt/listener.go
index 6521031..d4e5e58 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -43,6 +43,7 @@ type session struct {
 	ourSocketID   uint32
 	cookie        uint32
 	concluded     bool
+	concludedCookie uint32 //cookie of the connection in progress
 	startTime     time.Time
 	lastSeen      time.Time
 	streamID      string
@@ -215,6 +216,11 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 	l.mu.Lock()
 	sess := l.sessions[key]
 	if sess == nil {
+		if hs.HandshakeType != HSTypeAgreement {
+			//No induction before it.
+			l.mu.Unlock()
+			return
+		}
 		sess = &session{
 			peerAddr:     peer,
 			ourSocketID:  l.socketID,
@@ -231,10 +237,14 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 		//Mint a cookie tied to the peer's socket id; the conclusion
 		//must echo it back. CRC32 is used as a cheap mixer; real SRT
 		//also includes a server start time and IP.
-		sess.peerSocketID = hs.SrtSocketID
-		sess.cookie = crc32.ChecksumIEEE(
-			[]byte(fmt.Sprintf("%s-%d-%d",
-				peer.IP.String(), hs.SrtSocketID, time.Now().UnixNano())))
+		//A caller that repeats its induction may answer any of our replies,
+		//so it keeps its cookie.
+		if sess.cookie == 0 || sess.peerSocketID != hs.SrtSocketID {
+			sess.peerSocketID = hs.SrtSocketID
+			sess.cookie = crc32.ChecksumIEEE(
+				[]byte(fmt.Sprintf("%s-%d-%d",
+					peer.IP.String(), hs.SrtSocketID, time.Now().UnixNano()))) | 1
+		}
 
 		reply := *hs
 		reply.HandshakeType = HSTypeAgreement
@@ -249,8 +259,13 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 			return
 		}
 		sess.peerSocketID = hs.SrtSocketID
-		sess.expectedSeq = hs.InitialSequence & maxSeqNumber
-		sess.concluded = true
+		//A repeated conclusion (our answer was lost, say) must not turn
+		//back the sequence.
+		if sess.concludedCookie != sess.cookie {
+			sess.concludedCookie = sess.cookie
+			sess.expectedSeq = hs.InitialSequence & maxSeqNumber
+			sess.concluded = true
+		}
 
 		reply := *hs
 		reply.HandshakeType = HSTypeConclusion
-- 
2.43.0


From 4cce683a6c1ce7768635cc3fd3c9656299052296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 48/61] fix: libsrt: drop the rest of units whose start is
 missing

---
 libsrt/tsdemux.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 2d0f949..7c926f5 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -48,9 +48,11 @@ type Demuxer struct {
 	pmtPID    uint16
 	videoPID  uint16
 	audioPID  uint16
+	videoOpen bool //a PES is in progress
 	videoBuf  []byte
 	videoTS   uint64 //PTS of in-progress PES (90 kHz)
 	videoDTS  uint64
+	audioOpen bool
 	audioBuf  []byte
 	audioTS   uint64
 	OnVideo   func(AccessUnit)
@@ -168,6 +170,7 @@ func (d *Demuxer) feedVideo(pusi bool, payload []byte) {
 		d.flushVideo()
 	}
 	if pusi {
+		d.videoOpen = false
 		pts, dts, body, ok := parsePESHeader(payload)
 		if !ok {
 			return
@@ -175,8 +178,12 @@ func (d *Demuxer) feedVideo(pusi bool, payload []byte) {
 		d.videoTS = pts
 		d.videoDTS = dts
 		d.videoBuf = append(d.videoBuf[:0], body...)
+		d.videoOpen = true
 		return
 	}
+	if !d.videoOpen {
+		return //the rest of a unit whose start we did not get
+	}
 	d.videoBuf = append(d.videoBuf, payload...)
 }
 
@@ -200,14 +207,19 @@ func (d *Demuxer) feedAudio(pusi bool, payload []byte) {
 		d.flushAudio()
 	}
 	if pusi {
+		d.audioOpen = false
 		pts, _, body, ok := parsePESHeader(payload)
 		if !ok {
 			return
 		}
 		d.audioTS = pts
 		d.audioBuf = append(d.audioBuf[:0], body...)
+		d.audioOpen = true
 		return
 	}
+	if !d.audioOpen {
+		return //the rest of a unit whose start we did not get
+	}
 	d.audioBuf = append(d.audioBuf, payload...)
 }
 
-- 
2.43.0


From 1be128d0bbc74a4b432f544d4bf35421975373bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 49/61] fix: librtmp: take every AAC frame out of an SRT audio
 packet

---
 librtmp/srt_server.go | 47 +++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 981b85d..2aa94d6 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -163,19 +163,40 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 	br.room.writeFrame(vt, au.Key)
 }
 
-// onAudio converts an ADTS-prefixed AAC frame into one FLV audio tag.
-// The first frame triggers the sequence-header emission derived from
-// the ADTS profile/rate/channel fields.
+// adtsRates are the sampling rates by ADTS sampling frequency index.
+var adtsRates = []uint64{96000, 88200, 64000, 48000, 44100, 32000, 24000,
+	22050, 16000, 12000, 11025, 8000, 7350}
+
+// onAudio converts the ADTS-prefixed AAC frames of one PES packet into
+// FLV audio tags. Only the first one has a time of its own, each of the
+// others is a frame's duration later.
 func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
-	if len(af.Data) < 7 {
-		return
-	}
-	if af.Data[0] != 0xFF || (af.Data[1]&0xF0) != 0xF0 {
-		return //not ADTS — punt
+	data := af.Data
+	for n := uint64(0); len(data) >= 7; n++ {
+		if data[0] != 0xFF || (data[1]&0xF0) != 0xF0 {
+			return //not ADTS — punt
+		}
+		header := 7
+		if data[1]&0x01 == 0 {
+			header = 9 //a CRC follows
+		}
+		size := int(data[3]&0x03)<<11 | int(data[4])<<3 | int(data[5])>>5
+		rate := (data[2] >> 2) & 0x0F
+		if size < header || size > len(data) || int(rate) >= len(adtsRates) {
+			return
+		}
+		br.onADTSFrame(data[:size], header, af.PTS+n*1024*90000/adtsRates[rate])
+		data = data[size:]
 	}
-	profile := (af.Data[2] >> 6) & 0x03                              //2 bits
-	sampleIndex := (af.Data[2] >> 2) & 0x0F                          //4 bits
-	channels := ((af.Data[2] & 0x01) << 2) | ((af.Data[3] >> 6) & 0x03)
+}
+
+// onADTSFrame converts one ADTS-prefixed AAC frame into one FLV audio
+// tag. The first frame triggers the sequence-header emission derived from
+// the ADTS profile/rate/channel fields.
+func (br *srtBridge) onADTSFrame(frame []byte, header int, pts uint64) {
+	profile := (frame[2] >> 6) & 0x03     //2 bits
+	sampleIndex := (frame[2] >> 2) & 0x0F //4 bits
+	channels := ((frame[2] & 0x01) << 2) | ((frame[3] >> 6) & 0x03)
 	if !br.emittedAudioSeqHdr {
 		//AAC AudioSpecificConfig per ISO/IEC 14496-3:
 		//  5 bits profile (audio object type, ADTS profile + 1)
@@ -208,13 +229,13 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 		soundType = libflv.SND_MONO
 	}
 	at := &libflv.AudioTag{
-		TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: uint32(af.PTS / 90)},
+		TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: uint32(pts / 90)},
 		SoundFormat:   libflv.FLV_AUDIO_AAC,
 		SoundRate:     3,
 		SoundSize:     libflv.SND_16_BIT,
 		SoundType:     soundType,
 		AACPacketType: libflv.AAC_RAW,
-		SoundData:     af.Data[7:], //strip 7-byte ADTS header
+		SoundData:     frame[header:], //strip the ADTS header
 	}
 	at.DataSize = uint32(len(at.Data()))
 	br.room.writeFrame(at, false)
-- 
2.43.0


From ccc3fefa4b90b5a08ad23ddd6b7143b0809a6bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 50/61] fix: librtmp: hand on changed codec parameters of an
 SRT stream

---
 librtmp/srt_server.go | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 2aa94d6..046b10a 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -1,6 +1,7 @@
 package librtmp
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"sync"
@@ -39,6 +40,7 @@ type srtBridge struct {
 	emittedAudioSeqHdr bool
 	cachedSPS          []byte
 	cachedPPS          []byte
+	cachedASC          [2]byte
 }
 
 // startSRT installs the listener; called from server.Handler() once
@@ -114,17 +116,21 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 			pictureNALs = append(pictureNALs, n)
 		}
 	}
+	//Parameter sets come with every IDR; only changed ones make a new
+	//sequence header.
+	if len(sps) >= 4 && !bytes.Equal(sps, br.cachedSPS) {
+		br.cachedSPS = sps
+		br.emittedVideoSeqHdr = false
+	}
+	if pps != nil && !bytes.Equal(pps, br.cachedPPS) {
+		br.cachedPPS = pps
+		br.emittedVideoSeqHdr = false
+	}
 	if !br.emittedVideoSeqHdr {
-		if sps != nil {
-			br.cachedSPS = sps
-		}
-		if pps != nil {
-			br.cachedPPS = pps
-		}
 		if br.cachedSPS != nil && br.cachedPPS != nil {
 			seq := buildAVCSequenceHeader(br.cachedSPS, br.cachedPPS)
 			vt := &libflv.VideoTag{
-				TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: 0},
+				TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: uint32(au.DTS / 90)},
 				FrameType:     libflv.KEY_FRAME,
 				CodecID:       libflv.FLV_VIDEO_AVC,
 				AVCPacketType: libflv.AVC_SEQUENCE_HEADER,
@@ -197,22 +203,23 @@ func (br *srtBridge) onADTSFrame(frame []byte, header int, pts uint64) {
 	profile := (frame[2] >> 6) & 0x03     //2 bits
 	sampleIndex := (frame[2] >> 2) & 0x0F //4 bits
 	channels := ((frame[2] & 0x01) << 2) | ((frame[3] >> 6) & 0x03)
-	if !br.emittedAudioSeqHdr {
-		//AAC AudioSpecificConfig per ISO/IEC 14496-3:
-		//  5 bits profile (audio object type, ADTS profile + 1)
-		//  4 bits sampling frequency index
-		//  4 bits channel config
-		//  3 bits pad
-		objType := uint8(profile) + 1
-		var asc [2]byte
-		asc[0] = (objType<<3)&0xF8 | (sampleIndex>>1)&0x07
-		asc[1] = ((sampleIndex & 0x01) << 7) | (channels&0x0F)<<3
+	//AAC AudioSpecificConfig per ISO/IEC 14496-3:
+	//  5 bits profile (audio object type, ADTS profile + 1)
+	//  4 bits sampling frequency index
+	//  4 bits channel config
+	//  3 bits pad
+	objType := uint8(profile) + 1
+	var asc [2]byte
+	asc[0] = (objType<<3)&0xF8 | (sampleIndex>>1)&0x07
+	asc[1] = ((sampleIndex & 0x01) << 7) | (channels&0x0F)<<3
+	if !br.emittedAudioSeqHdr || asc != br.cachedASC {
+		br.cachedASC = asc
 		soundType := uint8(libflv.SND_STEREO)
 		if channels == 1 {
 			soundType = libflv.SND_MONO
 		}
 		seq := &libflv.AudioTag{
-			TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: 0},
+			TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: uint32(pts / 90)},
 			SoundFormat:   libflv.FLV_AUDIO_AAC,
 			SoundRate:     3,
 			SoundSize:     libflv.SND_16_BIT,
-- 
2.43.0


From a71a3d3819bb6cd5cb8a160f48c3b5fc0edcb0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 51/61] fix: librtmp: get SRT composition times right where the
 clock wraps

---
 librtmp/srt_server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 046b10a..f8e7911 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -156,7 +156,8 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 		avcc = append(avcc, n...)
 	}
 	tagTS := uint32(au.DTS / 90) //PTS/DTS in 90 kHz; FLV in ms
-	cts := uint32((au.PTS - au.DTS) / 90)
+	//The 33-bit times wrap, the PTS before the DTS.
+	cts := uint32((int64((au.PTS-au.DTS)<<31)>>31)/90) & 0xFFFFFF
 	vt := &libflv.VideoTag{
 		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
 		FrameType:     frameType,
-- 
2.43.0


From 1092c5ad1f0da2447691d003628cdc70f383c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 52/61] fix: librtmp: end an SRT stream when its caller shuts
 down

---
 librtmp/srt_server.go | 23 +++++++++++++++++++++++
 libsrt/listener.go    |  9 +++++++++
 libsrt/tsdemux.go     | 12 ++++++++++++
 3 files changed, 44 insertions(+)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index f8e7911..981089e 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -59,6 +59,7 @@ func startSRT(srv *server, spec srtSpec) {
 		fmt.Printf("srt listen %s: %v\n", spec.address, err)
 		return
 	}
+	listener.OnEnd = br.onEnd
 	go func() {
 		if err := listener.Run(); err != nil {
 			fmt.Printf("srt run %s: %v\n", spec.address, err)
@@ -96,6 +97,28 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 	return nil
 }
 
+// onEnd ends the stream: its subscribers get what is left of it, its name
+// is free again and the next caller starts afresh.
+func (br *srtBridge) onEnd(streamID string) {
+	br.mu.Lock()
+	room := br.room
+	br.mu.Unlock()
+	if room == nil {
+		return
+	}
+	br.demux.Flush()
+	room.Publisher.cleanup()
+
+	br.demux = libsrt.NewDemuxer()
+	br.demux.OnVideo = br.onVideo
+	br.demux.OnAudio = br.onAudio
+	br.emittedVideoSeqHdr, br.emittedAudioSeqHdr = false, false
+	br.cachedSPS, br.cachedPPS = nil, nil
+	br.mu.Lock()
+	br.room = nil
+	br.mu.Unlock()
+}
+
 // onVideo converts an AnnexB-formatted access unit into FLV video
 // tag(s). On the first IDR we mine SPS/PPS, emit the AVC sequence
 // header, then continue with NALU tags.
diff --git a/libsrt/listener.go b/libsrt/listener.go
index d4e5e58..4dc567f 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -24,6 +24,9 @@ type DataHandler func(streamID string, payload []byte) error
 // next one is zero.
 const maxSeqNumber = 0x7FFFFFFF
 
+// EndHandler is invoked when a connected caller shuts its session down.
+type EndHandler func(streamID string)
+
 // Listener owns one UDP socket and demultiplexes packets across many
 // SRT sessions keyed by (peer addr, our destSocketID). Sessions live
 // in memory until the peer Shuts down or stops sending for a while.
@@ -32,6 +35,9 @@ type Listener struct {
 	streamID   string
 	onData     DataHandler
 
+	//OnEnd, if any, should be set before calling Run.
+	OnEnd EndHandler
+
 	mu       sync.Mutex
 	sessions map[string]*session
 	socketID uint32 //ours, monotonically incremented per accept
@@ -124,6 +130,9 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 				l.mu.Lock()
 				delete(l.sessions, key)
 				l.mu.Unlock()
+				if sess.concluded && l.OnEnd != nil {
+					l.OnEnd(sess.streamID)
+				}
 			}
 		case CtrlKeepAlive:
 			if sess != nil {
diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 7c926f5..6b79089 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -104,6 +104,18 @@ func (d *Demuxer) Feed(buf []byte) {
 	}
 }
 
+// Flush emits the units in progress, at the end of the stream: nothing
+// else tells that they are complete.
+func (d *Demuxer) Flush() {
+	if len(d.videoBuf) > 0 {
+		d.flushVideo()
+	}
+	if len(d.audioBuf) > 0 {
+		d.flushAudio()
+	}
+	d.videoOpen, d.audioOpen = false, false
+}
+
 // parsePAT pulls the first PMT entry from the Program Association
 // Table. We only support a single program; multi-program TS would need
 // a richer accumulator.
-- 
2.43.0


From 44ce479be0ef77357d2a3954aa8cf6724dedb6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 53/61] fix: librtmp: do not miss the key frame when a GOP
 begins

---
 libdash/dash.go            |  8 +++--
 libhls/hls.go              |  8 +++--
 librtmp/command_message.go |  5 ++-
 librtmp/room.go            | 72 +++++++++++++++++++++++++++++++++-----
 librtmp/rtsp_server.go     |  3 +-
 librtmp/server.go          |  5 ++-
 6 files changed, 81 insertions(+), 20 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 7253af7..75c082f 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -22,7 +22,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/libmp4"
 )
@@ -167,10 +166,15 @@ func (d *DASH) stopRequested() bool {
 	return atomic.LoadInt32(&d.stopped) != 0
 }
 
+// TagReader yields the tags of a stream, such as a broadcast.BroadcastReader.
+type TagReader interface {
+	Read() (p interface{}, alive bool)
+}
+
 // Start consumes FLV tags from gopReader, batches H.264 samples into
 // fragments and writes them to disk. Returns when the publisher
 // disconnects or Stop is called.
-func (d *DASH) Start(gopReader *broadcast.BroadcastReader) error {
+func (d *DASH) Start(gopReader TagReader) error {
 	if err := os.MkdirAll(d.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", d.dir, err)
 	}
diff --git a/libhls/hls.go b/libhls/hls.go
index 7a46033..8a305e3 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -11,7 +11,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libaac"
@@ -286,8 +285,13 @@ func (hls *HLS) stopRequested() bool {
 	return atomic.LoadInt32(&hls.stopped) != 0
 }
 
+// TagReader yields the tags of a stream, such as a broadcast.BroadcastReader.
+type TagReader interface {
+	Read() (p interface{}, alive bool)
+}
+
 //start to generate ts segments.
-func (hls *HLS) Start(gopReader *broadcast.BroadcastReader) (err error) {
+func (hls *HLS) Start(gopReader TagReader) (err error) {
 	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
 	}
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index f7a7a23..e8b631e 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -7,7 +7,6 @@ import (
 	"reflect"
 	"sync/atomic"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libamf"
@@ -284,12 +283,12 @@ func (cm *CommandMessage) Do() (err error) {
 		if app.hlsMode == libhls.IMMEDIATELY {
 			hls := libhls.NewHls().WithStreamID(cm.PublishingName).WithDir(app.hlsDir)
 			app.hls.Store(cm.PublishingName, hls)
-			go hls.Start(broadcast.NewBroadcastReader(cm.rtmp.room.GOP))
+			go hls.Start(cm.rtmp.room.newReader())
 		}
 		if app.dashEnabled {
 			dash := libdash.NewDASH().WithStreamID(cm.PublishingName).WithDir(app.dashDir)
 			app.StoreDASH(cm.PublishingName, dash)
-			go dash.Start(broadcast.NewBroadcastReader(cm.rtmp.room.GOP))
+			go dash.Start(cm.rtmp.room.newReader())
 		}
 
 	case PLAY:
diff --git a/librtmp/room.go b/librtmp/room.go
index 408d17e..7d45644 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -27,6 +27,7 @@ type Room struct {
 	opened      bool //the broadcast has its leading tags
 	begun       bool //a tag followed them
 	closed      bool
+	keyTag      libflv.Tag //the latest key frame
 }
 
 // leadingTags is the number of tags every subscriber gets before the
@@ -90,15 +91,17 @@ func (room *Room) writeHeader(tag libflv.Tag) {
 func (room *Room) writeFrame(tag libflv.Tag, key bool) {
 	room.open()
 	room.mu.Lock()
-	begun := room.begun
-	room.begun = true
-	room.mu.Unlock()
+	defer room.mu.Unlock()
 	//There is no previous GOP at first: a waiting subscriber would look
 	//for it in vain.
-	if key && begun {
+	if key && room.begun {
 		room.GOP.Reset()
 	}
+	room.begun = true
 	room.GOP.Write(tag)
+	if key {
+		room.keyTag = tag
+	}
 }
 
 // open gives the broadcast its leading tags. What the publisher did not
@@ -149,16 +152,69 @@ func (room *Room) Close() {
 	room.GOP.DisAlive()
 }
 
+// gopReader reads the tags of a room.
+//
+// A broadcast.BroadcastReader that runs between the broadcast's Reset and
+// the key frame's Write gets the first tag of the previous GOP, maybe once
+// more, and then misses the key frame. gopReader notices and reads the new
+// GOP from its beginning.
+type gopReader struct {
+	room  *Room
+	r     *broadcast.BroadcastReader
+	lead  int         //leading tags read
+	first interface{} //the first tag behind them
+}
+
+func (room *Room) newReader() *gopReader {
+	return &gopReader{room: room, r: broadcast.NewBroadcastReader(room.GOP)}
+}
+
+func (g *gopReader) Read() (p interface{}, alive bool) {
+	for {
+		p, alive = g.r.Read()
+		if !alive {
+			return p, alive
+		}
+		if g.lead < leadingTags {
+			g.lead++
+			return p, alive
+		}
+		if p != g.first && !g.room.isOldKey(p) {
+			break
+		}
+		g.r = broadcast.NewBroadcastReader(g.room.GOP)
+		for i := 0; i < leadingTags; i++ {
+			g.r.Read()
+		}
+	}
+	if g.first == nil {
+		g.first = p
+	}
+	return p, alive
+}
+
+// isOldKey reports whether the tag is a key frame, but not the one that
+// began the GOP in progress.
+func (room *Room) isOldKey(p interface{}) bool {
+	vt, ok := p.(*libflv.VideoTag)
+	if !ok || vt.FrameType != libflv.KEY_FRAME || vt.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
+		return false
+	}
+	room.mu.RLock()
+	defer room.mu.RUnlock()
+	return p != room.keyTag
+}
+
 // join returns a reader of the frames. Its leading tags are skipped: they
 // are as old as the stream, the room has the newest ones.
-func (room *Room) join() (gopReader *broadcast.BroadcastReader, alive bool) {
-	gopReader = broadcast.NewBroadcastReader(room.GOP)
+func (room *Room) join() (reader *gopReader, alive bool) {
+	reader = room.newReader()
 	for i := 0; i < leadingTags; i++ {
-		if _, alive = gopReader.Read(); !alive {
+		if _, alive = reader.Read(); !alive {
 			return nil, false
 		}
 	}
-	return gopReader, true
+	return reader, true
 }
 
 //player join the room
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 57aaa59..1fc690e 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -11,7 +11,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/librtsp"
 )
@@ -430,7 +429,7 @@ func (s *rtspSession) streamLoop(room *Room) {
 		s.sendVideoSeqHeader(videoHdr)
 	}
 
-	gopReader := broadcast.NewBroadcastReader(room.GOP)
+	gopReader := room.newReader()
 	for atomic.LoadInt32(&s.playing) == 1 {
 		p, alive := gopReader.Read()
 		if !alive {
diff --git a/librtmp/server.go b/librtmp/server.go
index 93fc376..44c59b0 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -13,7 +13,6 @@ import (
 	"sync"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libdash"
@@ -364,7 +363,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
 				hls = libhls.NewHls().WithStreamID(roomID).WithDir(app.hlsDir)
 				app.StoreHLS(roomID, hls)
-				go hls.Start(broadcast.NewBroadcastReader(room.GOP))
+				go hls.Start(room.newReader())
 				hls.WaitFirstSegment()
 			} else {
 				w.WriteHeader(http.StatusNotFound)
@@ -382,7 +381,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			if dash == nil && app.dashEnabled {
 				dash = libdash.NewDASH().WithStreamID(roomID).WithDir(app.dashDir)
 				app.StoreDASH(roomID, dash)
-				go dash.Start(broadcast.NewBroadcastReader(room.GOP))
+				go dash.Start(room.newReader())
 				dash.WaitFirstSegment()
 			}
 			if dash == nil {
-- 
2.43.0


From 528378374dee954b2752ec7b3ba58f73f7bdb702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 54/61] fix: rtmp pull: give up when the upstream refuses,
 falls silent or ends the stream, play on the stream it created, close the
 connection

---
 librtmp/client.go          | 18 ++++++++++------
 librtmp/command_message.go | 43 +++++++++++++++++++++++++++++++-------
 librtmp/rtmp.go            | 19 +++++++++++++----
 3 files changed, 63 insertions(+), 17 deletions(-)

diff --git a/librtmp/client.go b/librtmp/client.go
index 82a040d..25fa0f5 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -83,6 +83,9 @@ func (pc *PullClient) Run() error {
 	return nil
 }
 
+// clientTimeout is how long an upstream may take for an answer.
+const clientTimeout = 15 * time.Second
+
 // runClientCommands drives connect → createStream → play on the
 // outbound side. ParseMessage runs synchronously between sends so by
 // the time we return, the upstream has accepted the play request.
@@ -101,14 +104,14 @@ func (rtmp *RTMP) runClientCommands() error {
 	if err := rtmp.sendCommandRaw("connect", 1, connectObj, nil); err != nil {
 		return fmt.Errorf("send connect: %w", err)
 	}
-	if err := rtmp.expectResult(15 * time.Second); err != nil {
+	if err := rtmp.expectResult(clientTimeout); err != nil {
 		return fmt.Errorf("connect: %w", err)
 	}
 
 	if err := rtmp.sendCommandRaw("createStream", 2, nil, nil); err != nil {
 		return fmt.Errorf("send createStream: %w", err)
 	}
-	if err := rtmp.expectResult(15 * time.Second); err != nil {
+	if err := rtmp.expectResult(clientTimeout); err != nil {
 		return fmt.Errorf("createStream: %w", err)
 	}
 
@@ -168,8 +171,10 @@ func (rtmp *RTMP) sendCommandRaw(name string, txnID int, cmdObject map[string]in
 		if i != 0 {
 			fmtType = FMT3
 		}
-		if err := NewChunk(COMMAND_MESSAGE_AMF0, uint32(len(body)), 0,
-			fmtType, csidCommand, body[l:r]).Send(rtmp); err != nil {
+		chunk := NewChunk(COMMAND_MESSAGE_AMF0, uint32(len(body)), 0,
+			fmtType, csidCommand, body[l:r])
+		chunk.MessageStreamID = rtmp.streamID
+		if err := chunk.Send(rtmp); err != nil {
 			return err
 		}
 	}
@@ -177,11 +182,12 @@ func (rtmp *RTMP) sendCommandRaw(name string, txnID int, cmdObject map[string]in
 }
 
 // expectResult pumps ParseMessage until rtmp.resultCount advances —
-// CommandMessage.Do bumps it on every _result/_error. Returns ErrTimeout
-// if the deadline is reached without progress.
+// CommandMessage.Do bumps it on every _result. Returns an error if the
+// upstream refuses or the deadline is reached without progress.
 func (rtmp *RTMP) expectResult(timeout time.Duration) error {
 	start := atomic.LoadUint32(&rtmp.resultCount)
 	deadline := time.Now().Add(timeout)
+	_ = rtmp.conn.SetReadDeadline(deadline)
 	for {
 		if err := ParseMessage(rtmp); err != nil {
 			return err
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index e8b631e..600d6e6 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -77,6 +77,10 @@ type CommandMessage struct {
 
 	// Reader flag toggles for receiveAudio / receiveVideo.
 	BoolFlag bool
+
+	// What a peer answers: the value behind the command object of
+	// _result, _error and onStatus.
+	Info interface{}
 }
 
 func NewCommandMessage(mb MessageBase, fields ...interface{} /*commandName string, transcationID int, others*/) (cm *CommandMessage) {
@@ -168,11 +172,18 @@ func (cm *CommandMessage) Parse() (err error) {
 		if len(array) >= 4 {
 			cm.BoolFlag, _ = array[3].(bool)
 		}
+	case _RESULT, _ERROR, ON_STATUS:
+		if len(array) >= 4 {
+			cm.Info = array[3]
+		}
 	}
 	return nil
 }
 
 func (cm *CommandMessage) Do() (err error) {
+	if cm.rtmp.outbound {
+		return cm.doClient()
+	}
 
 	var err1, err2, err3, err4, err5 error
 	switch cm.CommandName {
@@ -423,19 +434,37 @@ func (cm *CommandMessage) Do() (err error) {
 			},
 		}).Send()
 
-	case _RESULT:
-		//Outbound-client path: bump the response counter so the
-		//connect/createStream sender can move on. No-op for the more
-		//common server-side case.
-		atomic.AddUint32(&cm.rtmp.resultCount, 1)
-	case _ERROR:
-		atomic.AddUint32(&cm.rtmp.resultCount, 1)
 	default:
 	}
 
 	return err
 }
 
+// doClient handles what an upstream server says to a pull. Only answers
+// mean anything there.
+func (cm *CommandMessage) doClient() (err error) {
+	info, _ := cm.Info.(map[string]interface{})
+	switch cm.CommandName {
+	case _RESULT:
+		//the stream of a createStream
+		if id, ok := cm.Info.(float64); ok {
+			cm.rtmp.streamID = uint32(id)
+		}
+		//let the sender of connect or createStream move on
+		atomic.AddUint32(&cm.rtmp.resultCount, 1)
+	case _ERROR:
+		return errors.Errorf("refused by upstream: %v", info["code"])
+	case ON_STATUS:
+		if info["level"] == "error" {
+			return errors.Errorf("refused by upstream: %v", info["code"])
+		}
+		if info["code"] == "NetStream.Play.UnpublishNotify" {
+			return errors.New("upstream stream is over")
+		}
+	}
+	return nil
+}
+
 type ConnectRespCommandObject struct {
 	FmsVer         string  `structs:"fmsVer,omitempty"`
 	Level          string  `structs:"level,omitempty"`
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 8701d17..8e6475f 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -4,11 +4,13 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"time"
 
 	"github.com/SmartBrave/Athena/easyio"
 )
 
 type RTMP struct {
+	conn             net.Conn
 	readerConn       easyio.EasyReader
 	writerConn       easyio.EasyWriter
 	lastChunk        map[uint32]*Chunk //csid
@@ -34,14 +36,17 @@ type RTMP struct {
 	bytesReceived    uint32
 	lastAcked        uint32
 
-	// Outbound (client) bookkeeping. connectApp is the app name passed
+	// Outbound (client) bookkeeping. streamID is the stream createStream
+	// gave. connectApp is the app name passed
 	// in the connect cmd object; tcURL is the canonical RTMP URL;
 	// resultCount is incremented each time a _result message is
 	// processed so expectResultUntil can pace the connect/createStream
 	// handshake.
-	connectApp   string
-	tcURL        string
-	resultCount  uint32 //atomic
+	outbound    bool
+	streamID    uint32
+	connectApp  string
+	tcURL       string
+	resultCount uint32 //atomic
 }
 
 type connRole uint8
@@ -54,6 +59,7 @@ const (
 
 func NewRTMP(conn net.Conn, peer string, server *server) (rtmp *RTMP) {
 	return &RTMP{
+		conn:             conn,
 		readerConn:       easyio.NewEasyReader(conn),
 		writerConn:       easyio.NewEasyWriter(conn),
 		lastChunk:        make(map[uint32]*Chunk),
@@ -125,8 +131,12 @@ func (rtmp *RTMP) publishedRoom() *Room {
 // before this is called) so downstream protocols (HTTP-FLV, HLS,
 // DASH, RTSP) re-stream them just like a local publish.
 func (rtmp *RTMP) HandlerClient() {
+	defer rtmp.conn.Close()
 	defer rtmp.cleanup()
+	rtmp.outbound = true
 
+	//An upstream has to answer in time until it has accepted the play.
+	_ = rtmp.conn.SetReadDeadline(time.Now().Add(clientTimeout))
 	if err := HandshakeClient(rtmp); err != nil {
 		fmt.Println("client handshake error:", err)
 		return
@@ -136,6 +146,7 @@ func (rtmp *RTMP) HandlerClient() {
 		fmt.Println("client command error:", err)
 		return
 	}
+	_ = rtmp.conn.SetReadDeadline(time.Time{})
 
 	for {
 		err := ParseMessage(rtmp)
-- 
2.43.0


From fb26dd351d8c83aba3d429f864b5770474c5429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:51 +0000
Subject: [PATCH 55/61] fix: hls, dash: release waiting viewers when the
 segment directory cannot be made

---
 libdash/dash.go | 7 ++++---
 libhls/hls.go   | 8 ++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 75c082f..faccd1a 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -175,14 +175,15 @@ type TagReader interface {
 // fragments and writes them to disk. Returns when the publisher
 // disconnects or Stop is called.
 func (d *DASH) Start(gopReader TagReader) error {
-	if err := os.MkdirAll(d.dir, 0o755); err != nil {
-		return fmt.Errorf("mkdir %s: %w", d.dir, err)
-	}
 	defer func() {
 		d.flushCurrent(0)
 		d.readyOnce.Do(func() { close(d.ready) })
 	}()
 
+	if err := os.MkdirAll(d.dir, 0o755); err != nil {
+		return fmt.Errorf("mkdir %s: %w", d.dir, err)
+	}
+
 	//The publisher picks the name, keep segments inside dir.
 	if strings.ContainsRune(d.streamID, filepath.Separator) {
 		return fmt.Errorf("invalid stream name: %q", d.streamID)
diff --git a/libhls/hls.go b/libhls/hls.go
index 8a305e3..c288baf 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -292,10 +292,6 @@ type TagReader interface {
 
 //start to generate ts segments.
 func (hls *HLS) Start(gopReader TagReader) (err error) {
-	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
-		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
-	}
-
 	//Build the PAT/PMT lazily — we don't know the video codec
 	//(H.264 vs HEVC) until the first sequence header arrives. Default
 	//to H.264 stream_type=0x1B; toPES upgrades video.StreamType to
@@ -309,6 +305,10 @@ func (hls *HLS) Start(gopReader TagReader) (err error) {
 		hls.readyOnce.Do(func() { close(hls.ready) })
 	}()
 
+	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
+		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
+	}
+
 	//The publisher picks the name, keep segments inside dir.
 	if strings.ContainsRune(hls.streamID, filepath.Separator) {
 		return fmt.Errorf("invalid stream name: %q", hls.streamID)
-- 
2.43.0


From 445c186d2d970b126ad33f132af6e1fdcae1ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 56/61] fix: segment streams from every kind of publisher,
 once, and DASH without HLS

---
 librtmp/app.go             | 50 ++++++++++++++++++++++++++++++++++++--
 librtmp/command_message.go | 13 ----------
 librtmp/server.go          | 37 +++++++++++++---------------
 3 files changed, 65 insertions(+), 35 deletions(-)

diff --git a/librtmp/app.go b/librtmp/app.go
index 53be483..89e6002 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -9,6 +9,7 @@ import (
 
 type App struct {
 	appName     string
+	mu          sync.Mutex //segmenters start and stop one at a time
 	rooms       *sync.Map //roomID, *Room
 	hlsMode     libhls.HLS_MODE
 	hlsDir      string
@@ -44,13 +45,58 @@ func (app *App) Store(roomID string, room *Room) {
 
 // Claim stores the room unless the name is already in use, and reports
 // whether it did. Two publishers asking for one name at the same time
-// cannot both get it.
+// cannot both get it. Whoever publishes, and however, the segmenters that
+// do not wait for a viewer start here.
 func (app *App) Claim(roomID string, room *Room) bool {
 	_, taken := app.rooms.LoadOrStore(roomID, room)
-	return !taken
+	if taken {
+		return false
+	}
+	if app.hlsMode == libhls.IMMEDIATELY {
+		app.StartHLS(roomID, room)
+	}
+	if app.dashEnabled {
+		app.StartDASH(roomID, room)
+	}
+	return true
+}
+
+// StartHLS returns the stream's transcoder, which is started if need be,
+// nil if the room has left the air.
+func (app *App) StartHLS(roomID string, room *Room) *libhls.HLS {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if app.Load(roomID) != room {
+		return nil
+	}
+	hls := app.LoadHLS(roomID)
+	if hls == nil {
+		hls = libhls.NewHls().WithStreamID(roomID).WithDir(app.hlsDir)
+		app.StoreHLS(roomID, hls)
+		go hls.Start(room.newReader())
+	}
+	return hls
+}
+
+// StartDASH is StartHLS for the DASH segmenter.
+func (app *App) StartDASH(roomID string, room *Room) *libdash.DASH {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if app.Load(roomID) != room {
+		return nil
+	}
+	dash := app.LoadDASH(roomID)
+	if dash == nil {
+		dash = libdash.NewDASH().WithStreamID(roomID).WithDir(app.dashDir)
+		app.StoreDASH(roomID, dash)
+		go dash.Start(room.newReader())
+	}
+	return dash
 }
 
 func (app *App) Delete(roomID string) {
+	app.mu.Lock()
+	defer app.mu.Unlock()
 	if h, ok := app.hls.LoadAndDelete(roomID); ok {
 		if hls, ok := h.(*libhls.HLS); ok {
 			hls.Stop()
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 600d6e6..0930e83 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -10,8 +10,6 @@ import (
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/sbraveyoung/GGmpeg/libdash"
-	"github.com/sbraveyoung/GGmpeg/libhls"
 	"github.com/fatih/structs"
 	"github.com/goinggo/mapstructure"
 	"github.com/pkg/errors"
@@ -291,17 +289,6 @@ func (cm *CommandMessage) Do() (err error) {
 			},
 		}).Send()
 
-		if app.hlsMode == libhls.IMMEDIATELY {
-			hls := libhls.NewHls().WithStreamID(cm.PublishingName).WithDir(app.hlsDir)
-			app.hls.Store(cm.PublishingName, hls)
-			go hls.Start(cm.rtmp.room.newReader())
-		}
-		if app.dashEnabled {
-			dash := libdash.NewDASH().WithStreamID(cm.PublishingName).WithDir(app.dashDir)
-			app.StoreDASH(cm.PublishingName, dash)
-			go dash.Start(cm.rtmp.room.newReader())
-		}
-
 	case PLAY:
 		app, ok := cm.rtmp.server.apps[cm.rtmp.app]
 		if !ok {
diff --git a/librtmp/server.go b/librtmp/server.go
index 44c59b0..f0140c8 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -355,22 +355,6 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			return
 		}
 
-		hls := app.LoadHLS(roomID)
-		if hls == nil {
-			//DELAY mode: lazy-start the transcoder on first playlist
-			//hit so no-one is paying for HLS segmentation when no viewer
-			//is attached.
-			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
-				hls = libhls.NewHls().WithStreamID(roomID).WithDir(app.hlsDir)
-				app.StoreHLS(roomID, hls)
-				go hls.Start(room.newReader())
-				hls.WaitFirstSegment()
-			} else {
-				w.WriteHeader(http.StatusNotFound)
-				return
-			}
-		}
-
 		//DASH dispatch (manifest + init + media segments). Lazy-start
 		//if WithDASH is on but no DASH instance exists yet.
 		switch {
@@ -379,10 +363,9 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			strings.HasSuffix(file, ".m4s"):
 			dash := app.LoadDASH(roomID)
 			if dash == nil && app.dashEnabled {
-				dash = libdash.NewDASH().WithStreamID(roomID).WithDir(app.dashDir)
-				app.StoreDASH(roomID, dash)
-				go dash.Start(room.newReader())
-				dash.WaitFirstSegment()
+				if dash = app.StartDASH(roomID, room); dash != nil {
+					dash.WaitFirstSegment()
+				}
 			}
 			if dash == nil {
 				w.WriteHeader(http.StatusNotFound)
@@ -392,6 +375,20 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			return
 		}
 
+		hls := app.LoadHLS(roomID)
+		if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
+			//DELAY mode: lazy-start the transcoder on first playlist
+			//hit so no-one is paying for HLS segmentation when no viewer
+			//is attached.
+			if hls = app.StartHLS(roomID, room); hls != nil {
+				hls.WaitFirstSegment()
+			}
+		}
+		if hls == nil {
+			w.WriteHeader(http.StatusNotFound)
+			return
+		}
+
 		switch {
 		case strings.HasSuffix(file, ".m3u8"):
 			//LL-HLS blocking playlist reload: clients append
-- 
2.43.0


From 5b93eaab198095193e3ef96aa5131c30a59104c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 57/61] fix: rtmp: close the connection when its session ends

---
 librtmp/rtmp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 8e6475f..66aaa76 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -72,6 +72,7 @@ func NewRTMP(conn net.Conn, peer string, server *server) (rtmp *RTMP) {
 }
 
 func (rtmp *RTMP) HandlerServer() {
+	defer rtmp.conn.Close()
 	defer rtmp.cleanup()
 
 	err := HandshakeServer(rtmp)
-- 
2.43.0


From a529adcdfa1afcb2fbe1ba8aecdf6474940f762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:57 +0000
Subject: [PATCH 58/61] fix: rtmp: tell players when the stream they play ends

---
 librtmp/room.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/librtmp/room.go b/librtmp/room.go
index 7d45644..5cb86ee 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -222,6 +222,7 @@ func (room *Room) RTMPJoin(rtmp *RTMP) {
 	go func() {
 		gopReader, alive := room.join()
 		if !alive {
+			rtmp.sendStreamOver()
 			return
 		}
 		//Backfill sequence headers so a player joining mid-GOP has the
@@ -260,7 +261,8 @@ func (room *Room) RTMPJoin(rtmp *RTMP) {
 			p, alive := gopReader.Read()
 			if !alive {
 				fmt.Println("the publisher had been exit.")
-				break
+				rtmp.sendStreamOver()
+				return
 			}
 			tag := p.(libflv.Tag)
 			fmt.Printf("read packet from gop, now:%v, tag:%+v\n", time.Now(), tag)
@@ -289,6 +291,23 @@ func (room *Room) RTMPJoin(rtmp *RTMP) {
 	}()
 }
 
+// sendStreamOver tells a player that the publisher is gone. It has no other
+// way to learn that nothing will follow.
+func (rtmp *RTMP) sendStreamOver() {
+	mb := MessageBase{rtmp: rtmp}
+	_ = NewUserControlMessage(mb, StreamEOF).Send()
+	_ = (&CommandMessageResponse{
+		MessageBase:     mb,
+		CommandName:     PLAY,
+		CommandRespName: ON_STATUS,
+		CommandObject: ConnectRespCommandObject{
+			Level:       "status",
+			Code:        "NetStream.Play.UnpublishNotify",
+			Description: "Stream is over",
+		},
+	}).Send()
+}
+
 func (room *Room) FLVJoin(writer easyio.EasyWriter) {
 	//FLV header + PreviousTagSize0 (always zero).
 	if err := writer.WriteFull([]byte{0x46, 0x4c, 0x56, 0x01, 0x05, 0x00, 0x00, 0x00, 0x09, 0x00, 0x00, 0x00, 0x00}); err != nil {
-- 
2.43.0


From 8499c0a451148dd09cdc5d552993512ae4807b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 59/61] fix: rtmp: deleteStream, closeStream and FCUnpublish
 end the stream they name

---
 librtmp/command_message.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 0930e83..79be570 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -228,6 +228,9 @@ func (cm *CommandMessage) Do() (err error) {
 		}).Send()
 
 	case FCUNPUBLISH:
+		if room := cm.rtmp.publishedRoom(); room != nil && room.RoomID == cm.PublishingName {
+			cm.rtmp.cleanup()
+		}
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
 			CommandName:     cm.CommandName,
@@ -405,10 +408,12 @@ func (cm *CommandMessage) Do() (err error) {
 		}).Send()
 
 	case DELETE_STREAM, CLOSE_STREAM:
-		//Stream close emitted by OBS when the user stops streaming.
-		//We rely on cleanup() in HandlerServer for the actual teardown;
-		//here we just reply with a status update so the client can
-		//proceed to disconnect.
+		//Stream close emitted by OBS when the user stops streaming. The
+		//stream is over; the reply lets the client proceed, to disconnect
+		//or to publish again.
+		if cm.rtmp.role == rolePublisher {
+			cm.rtmp.cleanup()
+		}
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
 			CommandName:     cm.CommandName,
-- 
2.43.0


From 72bd2f4b4c578081c45c8c5cfab8e7037e79522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:13 +0000
Subject: [PATCH 60/61] fix: librtmp: match RTSP track names as a whole

---
 librtmp/rtsp_ingest.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 6b037ad..17c285f 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -310,8 +310,8 @@ func buildAVCSequenceHeader(sps, pps []byte) []byte {
 }
 
 // trackPathMatches reports whether the SETUP URL terminates in the
-// given track-control suffix (e.g. "trackID=0" or a relative URL).
-// Tolerates leading slashes and trailing slashes.
+// given track-control suffix (e.g. "trackID=0" or a relative URL), as a
+// whole: "11" is not "1". Tolerates leading slashes and trailing slashes.
 func trackPathMatches(setupURL, control string) bool {
 	if control == "" {
 		return false
@@ -321,6 +321,7 @@ func trackPathMatches(setupURL, control string) bool {
 	if strings.Contains(control, "://") {
 		return strings.EqualFold(url, control)
 	}
+	control = "/" + strings.TrimPrefix(control, "/")
 	return strings.HasSuffix(strings.ToLower(url), strings.ToLower(control))
 }
 
-- 
2.43.0


From 69816d22e832afa17be13322fcd9e1dad2737eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:15 +0000
Subject: [PATCH 61/61] fix: librtmp: a track published over UDP has no
 interleave channel

---
 librtmp/rtsp_server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 1fc690e..1484de0 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -264,7 +264,11 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 	isAudio := false
 	if s.ingest != nil {
 		var ok bool
-		isAudio, ok = s.notifyIngestSetup(req.URL, rtpCh)
+		ingestCh := rtpCh
+		if useUDP {
+			ingestCh = -1 //no channel, another track may use the first
+		}
+		isAudio, ok = s.notifyIngestSetup(req.URL, ingestCh)
 		if !ok {
 			resp.StatusCode = 404
 			resp.Reason = "Not Found"
-- 
2.43.0

