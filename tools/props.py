# Source of properties.jsonl and MANIFEST.json (see mkmanifest.py).

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=None):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files.split(),
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "hook_needed": None,
        },
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    if note:
        d["note"] = note
    assert len(title) <= 80, (id, len(title))
    return d

PROPS = []
NOT_APPLICABLE = {}

PROPS.append(P("C03", "AMF0 values survive encoding and decoding",
    "Encoding any sequence of nulls, booleans, numbers (of any Go integer or float kind), strings (short and long form) and string-keyed maps of such values, and decoding the bytes, yields exactly the same sequence of values with nothing added, lost or reordered. Every well-formed AMF0 byte sequence of those types plus ECMA arrays (whatever their advisory count), strict arrays, typed objects and undefined decodes to the values it encodes, nested values and whatever follows a container included.",
    "inputs", "every value tree and every well-formed encoding within the size bounds, every map iteration order",
    "Tests encode a handful of flat values and only index the leading elements of a decoded list; they never nest objects, check what follows a container, or cover all bit patterns, keys and map orders.",
    "libamf/amf0.go libamf/amf.go",
    [("AMF0.Encode", "libamf/amf0.go"), ("AMF0.Decode", "libamf/amf0.go")], observe=["AMF0.Encode output bytes", "AMF0.Decode results"]))

PROPS.append(P("C04", "AMF0 decoding is total and bounded on hostile bytes",
    "Decoding any byte string as AMF0 returns values or an error: it never panics and never exhausts the stack, however values are nested. Memory allocated while decoding stays proportional to the bytes actually present, whatever lengths or counts those bytes claim.",
    "inputs", "every byte string up to the length bound, and containers nested thousands deep",
    "Tests decode well-formed captures; hostile lengths, markers and nesting come from the network and cannot be enumerated.",
    "libamf/amf0.go",
    [("decode dispatch on marker bytes", "libamf/amf0.go:decodeamf0"), ("length-prefixed reads", "libamf/amf0.go:readByteamf0")]))

PROPS.append(P("C08", "ADTS headers agree with the AudioSpecificConfig they come from",
    "For every two-byte AudioSpecificConfig that ADTS can express (object types 1 to 4, sampling-frequency index 0 to 12, channel configuration 1 to 7) and every AAC frame that fits, the seven-byte ADTS header produced for it carries the syncword, MPEG-4 id, no-CRC flag, profile, frequency index and channel configuration of that config and a frame length equal to the header plus the frame. Shorter configs are handled without a panic.",
    "inputs", "every expressible config, every frame length up to the 13-bit limit",
    "The tests check one or two configs; a wrong shift or mask in a bit field shows only for particular channel counts, rates or lengths.",
    "libaac/aac.go",
    [("bit packing of the ADTS fixed and variable header", "libaac/aac.go")]))

PROPS.append(P("C07", "FLV tags parse, marshal and frame without losing anything",
    "Every audio or video payload a publisher sends that is long enough for its codec's header is accepted, exposes exactly the header fields it carries (the composition time as a signed 24-bit number), and marshals back to the identical bytes; shorter payloads give an error, never a panic. Every tag written for an FLV viewer is a correct FLV record: tag type, body size, full 32-bit timestamp split over its low 24 bits and extension byte, zero stream id, body, and a previous-tag size of 11 plus the body, however often the tag is written. Stream metadata keeps its property values from publisher to FLV viewer in both publisher shapes.",
    "inputs", "every payload, header field, timestamp and composition time within the size bounds",
    "Tests check a few tags with small timestamps and sizes; sign, wrap and boundary faults in single bit fields need values they never use.",
    "libflv/flv.go libflv/audio.go libflv/video.go libflv/meta.go libflv/tag.go",
    [("FLVWrite", "libflv/flv.go"), ("ParseAudioTag / Marshal", "libflv/audio.go"), ("ParseVideoTag / Marshal", "libflv/video.go"), ("ParseMetaTag / Marshal", "libflv/meta.go")]))

PROPS.append(P("C09", "Length-prefixed video converts to Annex B without loss",
    "Every well-formed length-prefixed AVC access unit converts to one access unit delimiter followed by its slice and SEI NAL units, unchanged and in order, each behind a start code; in front of the first IDR slice come the parameter sets exactly once, the ones preceding it in the access unit if any, else all of those, and only those, of the latest decoder configuration record. HEVC access units convert NAL by NAL in the same way, and splitting an access unit for RTP yields its NAL units unchanged. Malformed lengths or records are refused or cut short: never a panic, never bytes from outside the input, and a refused record leaves the earlier parameter sets in force.",
    "inputs histories", "every access unit and configuration record within the size bounds, every sequence of up to three records",
    "Tests convert one hand-built access unit and only check that byte runs occur somewhere in the output; order, duplication, repeated records and damaged lengths are not exercised.",
    "libavc/avc.go librtsp/h264.go libhls/hls.go",
    [("Parser.ParseSpecificInfo / GetAnnexbH264", "libavc/avc.go"), ("SplitAVCC", "librtsp/h264.go"), ("avccToAnnexB", "libhls/hls.go")]))

PROPS.append(P("C10", "Every frame becomes whole, well-formed transport-stream packets",
    "Muxing an audio or video frame of any size terminates without error and writes whole 188-byte packets: sync byte, the stream's PID, payload-unit-start on the first packet only, a continuity counter that advances by one modulo 16 per packet of that PID across frames, and stuffing expressed as a correctly sized adaptation field. The payloads concatenate to exactly the PES header (start code, stream id, packet length or zero when it does not fit, PTS, and DTS when it differs) followed by the unchanged frame. The first packet of a key frame is flagged as random access and carries a PCR equal to the DTS.",
    "inputs histories", "every frame size within the bounds (all stuffing remainders), timestamps, counters, and sequences of frames sharing a muxer",
    "Stuffing, header and counter faults depend on the frame size modulo 184 and on the preceding history; tests mux a couple of sizes.",
    "libmpeg/ts.go libmpeg/pes.go",
    [("TS.Mux stuffing and header", "libmpeg/ts.go"), ("PES.Marshal / Remain", "libmpeg/pes.go"), ("AdaptationField.Marshal", "libmpeg/ts.go")]))

PROPS.append(P("C11", "Transport-stream timestamps and headers read back what was written",
    "The 33-bit PTS, DTS and PCR written into PES headers and adaptation fields equal the input modulo 2^33, and the package's own parser reads back from a written packet the same PID, counter, flags, timestamps and frame bytes. Adaptation fields are consumed in full whatever they contain. Parsing arbitrary bytes as PES header, adaptation field or packet never panics and never allocates unboundedly.",
    "inputs", "every 64-bit timestamp, every single-packet frame, every byte string within the bounds",
    "The timestamp bit layout has five pieces; a wrong shift in one shows only for timestamps with particular bits set, hours into a stream.",
    "libmpeg/pes.go libmpeg/ts.go",
    [("PES.Parse / Remain timestamp bits", "libmpeg/pes.go"), ("AdaptationField.Parse", "libmpeg/ts.go"), ("TS.DeMux", "libmpeg/ts.go")]))

PROPS.append(P("C12", "PAT and PMT sections are well formed, checked and parse back",
    "Marshalled PAT and PMT sections carry the right table id, section length, program, version, PCR PID and stream entries and a correct MPEG-2 CRC-32, whatever order their maps iterate in; parsing them returns the same programs and streams, including sections with descriptors. The checksum equals CRC-32/MPEG-2 for every input. A section altered in any byte behind its length field is refused, and arbitrary bytes never cause a panic or an allocation beyond a section. Section packets are 188 bytes with pointer field and fill.",
    "inputs", "every program number, PID, version and stream type, every map order, every single-byte corruption, every byte string within the bounds",
    "Tests check one table against fixed bytes; field widths and the CRC fail only for particular values.",
    "libmpeg/psi.go libmpeg/crc32.go libmpeg/ts.go",
    [("PAT.Marshal / Parse", "libmpeg/psi.go"), ("PMT.Marshal / Parse", "libmpeg/psi.go"), ("CRC32", "libmpeg/crc32.go")]))

PROPS.append(P("C13", "HLS playlists list exactly the finished segments that exist",
    "The live playlist lists exactly the last six (or fewer) finished segments in order, with the oldest one's sequence number as media sequence, each with the time between its first and last frame as EXTINF (milliseconds; the 2 s target for a segment without extent) and a target duration that is the longest of them rounded up to whole seconds, at least one; there is none before the first segment is finished. Every listed file exists and files that left the window are removed; the segment in progress when the publisher leaves is finished and listed; after Stop nothing remains. In low-latency mode the parts of every segment cover it contiguously from offset zero with their true durations, also when audio lags, the first one alone is independent, and the preload hint points behind the last part. A blocking request is answered as soon as the segment or part it names exists, on Stop, or at its time limit, and not before; so is a wait for the first segment.",
    "inputs histories schedules", "streams of up to eight or nine segments with symbolic durations, every requested segment and part, publisher departure or Stop",
    "Tests produce two segments with fixed times; window sliding, rounding, part boundaries and waiting requests depend on longer histories and particular durations.",
    "libhls/m3u8.go libhls/hls.go",
    [("buildPlaylist / buildLLPlaylist", "libhls/m3u8.go"), ("finaliseCurrent and closeCurrentPart", "libhls/hls.go"), ("WaitForPlaylist / Stop", "libhls/hls.go")],
    observe=["HLS.Playlist", "HLS.WaitForPlaylist", "files in HLS.Dir"]))

PROPS.append(P("C14", "HLS segments are self-contained and lose no frame",
    "Nothing is written before the first key frame. A new segment starts exactly at a key frame that comes at least 2 s after the start of the current one. Every segment file begins with PAT and PMT, then a key frame flagged as random access, and is decodable alone: continuous counters, only announced PIDs, the video stream type of the actual codec (AVC or HEVC). Every AVC or HEVC frame from the first key frame on is in exactly one segment, in order, with DTS = tag time and PTS = tag time plus the signed composition offset, in 90 kHz ticks modulo 2^33 for the whole 32-bit range of tag times. AAC frames follow in batches of six complete ADTS frames in order, time-stamped within 2 ms of their first frame.",
    "inputs histories", "every sequence of up to four or five frames with arbitrary non-decreasing 32-bit times and composition offsets; audio with symbolic gaps and jitter near 0, 2^26 and 2^32 ms",
    "Tests mux one fixed sequence and count segments; rotation boundaries, large timestamps, negative offsets and batching faults need particular times.",
    "libhls/hls.go libhls/align.go libhls/audio_cache.go libmpeg/ts.go",
    [("Start: rotation decision", "libhls/hls.go"), ("toPES", "libhls/hls.go"), ("align", "libhls/align.go"), ("audioCache", "libhls/audio_cache.go")],
    observe=["bytes of the segment files"]))

PROPS.append(P("C15", "A media fragment describes exactly the samples it carries",
    "A fragment is a moof followed by an mdat whose nested boxes tile exactly. It carries the given sequence number, track and full 64-bit base decode time, and per sample, in order, the exact duration, size, signed composition offset and the sync or non-sync flag. The data offset leads from the start of the moof to the first sample and the sizes then partition the media data without rest. No samples give no fragment.",
    "inputs", "every duration, offset, flag, id and base time for 1..4 samples of small or large sizes",
    "Tests look at box names of a fixed fragment; wrong offsets, sign or size errors only appear for particular counts, sizes and times and then break players.",
    "libmp4/media_segment.go libmp4/box.go",
    [("BuildMediaSegment", "libmp4/media_segment.go"), ("box builders", "libmp4/box.go")], observe=["bytes of BuildMediaSegment"]))

PROPS.append(P("C16", "Init segments match the decoder configuration they come from",
    "An init segment is ftyp and moov whose boxes nest and tile exactly, with one enabled video track with the given id, time scale and dimensions, empty sample tables and one sample description. avcC holds exactly the given SPS and PPS, the SPS's own profile bytes and four-byte NAL lengths; hvcC is the given record verbatim. The dimensions DASH announces are the luma size coded in the SPS for every valid SPS without scaling lists or cropping, whatever precedes the size fields and including emulation prevention. Damaged configuration records never panic or hang and give either a well-formed init segment or none.",
    "inputs", "every SPS of four profiles and every HEVC SPS prefix by code length; arbitrary short or truncated records",
    "Tests parse one baseline SPS; Exp-Golomb codes, emulation prevention, optional fields and damage need specific bit patterns.",
    "libmp4/init_segment.go libmp4/init_segment_hevc.go libdash/dash.go",
    [("BuildInitSegment", "libmp4/init_segment.go"), ("BuildHEVCInitSegment", "libmp4/init_segment_hevc.go"), ("parseAVCDCR and parseSPSDimensions", "libdash/dash.go"), ("parseHEVCDCRDimensions", "libdash/dash.go")],
    observe=["DASH.InitSegment", "bytes of the builders"]))

PROPS.append(P("C17", "DASH segments and manifest describe the live stream exactly",
    "Every video frame from the first key frame after the decoder configuration on is in exactly one segment, in order and unaltered, with its own composition offset. Each segment starts with a key frame, begins at that frame's time, is numbered consecutively, and a new one starts exactly at a key frame at least 2 s after the start of the current one; each frame lasts until the next one (the stream's very last frame as long as the one before, a single leftover frame is not written). The manifest appears with the first segment, lists the last six or fewer that exist as files (first number, longest duration in the window, millisecond time scale, template names, codec and size of the stream); older files are removed, and after Stop nothing remains. Waiters for the first segment are released also when none ever comes.",
    "inputs histories", "every sequence of up to four to six frames with arbitrary times; streams of eight or nine segments with one arbitrary length",
    "Tests feed one fixed stream and check names; durations, rotation boundaries and window sliding depend on particular times and longer histories.",
    "libdash/dash.go libdash/mpd.go libmp4/media_segment.go",
    [("Start: rotation decision", "libdash/dash.go"), ("flushCurrent", "libdash/dash.go"), ("buildMPD", "libdash/mpd.go")],
    observe=["files in DASH.Dir", "DASH.Manifest", "DASH.InitSegment", "DASH.WaitFirstSegment"]))

PROPS.append(P("C18", "RTP carries every access unit whole, and only whole ones",
    "Fragments of an H.264 or HEVC NAL unit never exceed the limit, carry the right type, flags and order and together hold every byte once; a unit that fits is sent as it is. Each RTP packet has version 2, the marker, payload type, timestamp and source it was given and the next sequence number modulo 2^16. Parsing inverts it, skipping contributing sources, extension and padding; a truncated header is refused. From any mix of single, aggregated and fragmented units the reassembler delivers at the marker, with its timestamp, exactly the units received completely, in order; a lost packet never yields a partial unit. AAC frames are packed and unpacked unit by unit, complete ones only, and an ADTS header, with CRC or not, is stripped. Interleaved framing gives channel and length. No packet causes a panic.",
    "inputs histories faults", "every NAL unit and limit within the bounds, every header field, every mix of two or three packet groups with any packet lost, every short packet",
    "Tests fragment one unit and reassemble one sequence; boundary sizes, sequence wrap, loss positions and header options combine into cases no sample covers.",
    "librtsp/rtp.go librtsp/rtp_unpack.go librtsp/h264.go librtsp/hevc.go librtsp/aac.go",
    [("PackNAL / PackHEVCNAL", "librtsp/h264.go"), ("RTPPacker.Pack / ParseRTP", "librtsp/rtp.go"), ("H264Reassembler.Push", "librtsp/rtp_unpack.go"), ("PackAACFrame / AACAUExtract / AdtsToRaw", "librtsp/aac.go")]))

PROPS.append(P("C20", "The session description says what the stream is, and is understood",
    "The SDP offered for a stream announces exactly its video and audio tracks with control addresses, codec and clock: for H.264 its SPS and PPS in base64, the SPS's profile and level and fragmentation mode; for HEVC its three parameter sets; for AAC rate, channels, AAC-hbr sizes and the configuration in hex; for Opus 48 kHz. Parsing gives back the tracks, payload types, control addresses, parameter sets, configuration, rate and channels, also as other senders write them: any track order, payload type, line ending, parameter order, letter case and blanks, other media and attributes ignored. Any text gives a description with some track or an error, never a panic.",
    "inputs", "every parameter set and configuration within the size bounds, all track combinations and styles, every short attribute text",
    "Tests parse two fixed descriptions; encodings, orderings and damaged text vary without limit between senders.",
    "librtsp/sdp.go librtsp/sdp_parse.go",
    [("BuildSDP", "librtsp/sdp.go"), ("ParseSDP", "librtsp/sdp_parse.go")]))

PROPS.append(P("C21", "RTSP messages are read and written exactly",
    "Requests following one another on a connection are read one by one: method, address, version, headers (names in any letter case, values trimmed, lines ending in CRLF or LF) and a body of exactly Content-Length bytes, however the bytes arrive. Incomplete or damaged input gives an error, with memory bounded whatever length is claimed: never a panic. A response is written as status line, every header once, an empty line and the body, with the Content-Length of the body when there is one.",
    "inputs", "every method, address, header value and body within the bounds, every splitting of the bytes, every short input",
    "Tests read one request; letter case, split reads, pipelined bodies and hostile lengths need their own inputs.",
    "librtsp/message.go",
    [("ReadRequest", "librtsp/message.go"), ("Response.Bytes", "librtsp/message.go")]))

PROPS.append(P("C01", "RTMP chunk streams carry every message exactly",
    "Messages arriving as chunks are taken exactly as sent: payload bytes, type and time, in the order in which they are completed, for every chunk stream id (2 to 65599) in each of its header forms, every header type (absolute times, deltas, repeated headers), plain and extended timestamps, every chunk size announced by Set Chunk Size, and any interleaving of chunks of different chunk streams; Abort discards the partial message of the stream it names and no other. Every message sent, of any size, time and chunk stream, is a sequence of chunks of at most the announced chunk size from which a conforming reader obtains the same payload, type and 32-bit time.",
    "inputs histories", "every header form, id, time, size and content within the bounds; every order of the chunks of two messages",
    "Tests parse a few hand-made chunks with small ids and times; header compression, extended times and interleaving combine into far more cases.",
    "librtmp/chunk.go librtmp/message.go librtmp/rtmp.go",
    [("ParseChunk", "librtmp/chunk.go"), ("Chunk.Send", "librtmp/chunk.go"), ("ParseMessage: reassembly", "librtmp/message.go")],
    observe=["tags a viewer receives", "bytes on the connection"]))

PROPS.append(P("C02", "No RTMP bytes crash the server or exhaust its memory",
    "Whatever bytes a peer sends after the handshake, in whatever state its session is (fresh, connected, publishing, playing), handling them ends in messages understood, or in an error that ends this one session: never a panic, never endless work, and memory in proportion to the bytes received rather than to the lengths they announce. Messages of every type with every short payload are survived, and a session that has not been refused goes on to handle a proper message after them.",
    "inputs histories", "every byte sequence up to the bounds in each state; every announced message length up to 2^24-1",
    "Hostile bytes cannot be enumerated; the tests send well-formed sessions.",
    "librtmp/chunk.go librtmp/message.go librtmp/command_message.go librtmp/control_message.go librtmp/audio.go librtmp/video.go",
    [("ParseChunk", "librtmp/chunk.go"), ("ParseMessage dispatch", "librtmp/message.go"), ("Parse and Do of each message type", "librtmp/*_message.go")]))

PROPS.append(P("C05", "Aggregate messages deliver what they contain, when it happened",
    "The audio and video sub-messages of an RTMP aggregate message reach viewers in order and unaltered, each at the aggregate's own time plus the difference between its time and that of the first sub-message, modulo 2^32; sub-messages of other types are passed over. When a sub-message claims more bytes than there are, or the payload is cut anywhere, the message is an error: the complete sub-messages before are still delivered, nothing after, and there is never a panic.",
    "inputs", "every time, type and content of up to three sub-messages, every false length and every cut",
    "Tests do not send aggregates; wrong bases, lost sub-messages and overruns depend on particular times and lengths.",
    "librtmp/aggregate_message.go",
    [("AggregateMessage.Parse / Do", "librtmp/aggregate_message.go")], observe=["tags a viewer receives"]))

PROPS.append(P("C06", "The RTMP handshake is answered as the protocol requires",
    "Against a simple C1 the server answers S0 of version 3, S1 with four zero bytes after its time, and S2 echoing C1's time and random bytes. Against a C1 with a valid digest, in either scheme, S1 carries a nonzero version and a digest that verifies under the server key at the place the client's scheme prescribes, and S2 is signed with the key derived from the client's digest. Another version, or a C1 cut short, is refused before any reply. As a client, C2 echoes S1 and another version is refused. No content makes it panic.",
    "inputs", "every C1, S1 and C2 content, digest places as listed in the bounds",
    "Tests use fixed random bytes and one scheme; offsets and comparisons matter for particular contents only.",
    "librtmp/handshake.go",
    [("HandshakeServer", "librtmp/handshake.go"), ("HandshakeClient", "librtmp/handshake.go"), ("digest search in both schemes", "librtmp/handshake.go")], observe=["bytes on the connection"]))

PROPS.append(P("C22", "WebSocket framing follows RFC 6455 in both directions",
    "Every frame written is final, unmasked, of the given opcode, with the shortest length form and exactly the payload. A frame read gives its opcode and unmasked payload, whatever its mask and length form; fragments are refused, truncated frames are errors, and a frame claiming more than the limit is refused without allocating it. An upgrade is accepted exactly when the required headers are present, with the accept key derived from the request's, and bytes received behind the request are not lost. On a media connection each ping is answered by a pong with its payload, frames written at the same time never mix, a close or the end ends it, and nothing is written after the close.",
    "inputs schedules faults", "every opcode, flag, mask, length form and content within the bounds; interleavings with up to two preemptions",
    "Tests exchange one small frame; length forms, masks, hostile lengths and concurrent writers need their own inputs and schedules.",
    "librtmp/websocket.go librtmp/server.go",
    [("wsConn.readFrame / writeFrame", "librtmp/websocket.go"), ("upgradeWebSocket", "librtmp/websocket.go")], observe=["bytes on the connection"]))

PROPS.append(P("C27", "A stream name has one publisher, and viewers see only that one",
    "At any time at most one RTMP connection publishes a name in an app: a second one, also at the very same moment, is told NetStream.Publish.BadName and publishes nothing. The name is free again once its publisher hangs up, publishes another name or connects to another app. Viewers of a name receive exactly what its publisher sends, then the end when it leaves; media sent by a connection that does not publish reaches nobody.",
    "histories schedules", "every history of a publish and two (thorough: four) further steps of two connections with names that may or may not be equal; two simultaneous publishers with up to two or three preemptions",
    "Ownership faults need a particular order of publishes, hang-ups and renewed publishes, or a race; tests publish once.",
    "librtmp/command_message.go librtmp/app.go librtmp/room.go librtmp/rtmp.go",
    [("PUBLISH and PLAY in CommandMessage.Do", "librtmp/command_message.go"), ("App.LoadOrStore", "librtmp/app.go"), ("RTMP.cleanup", "librtmp/rtmp.go")], observe=["onStatus replies", "tags a viewer receives"]))

PROPS.append(P("C28", "Addresses and names lead to the stream they name, never elsewhere",
    "An HTTP-FLV address /app/stream.flv and an HLS or DASH address /app/stream/file are understood exactly: the path is normalised, the query ignored, app, stream and file are single path segments, the file is a plain name, and everything else is refused. Whatever a stream is called, with dots and separators of any kind, its HLS and DASH files are written inside the segment directory: nothing outside it is created, overwritten or removed, not even when the stream starts or stops.",
    "inputs", "every short path of slashes, dots and name characters with or without query; names with dots and separators",
    "Tests parse two addresses; traversal hides in unusual combinations of dots and slashes.",
    "librtmp/server.go libhls/hls.go libdash/dash.go",
    [("parseFlvURL / parseHlsURL", "librtmp/server.go"), ("segment directory of a stream", "libhls/hls.go libdash/dash.go")], observe=["file tree around the segment directory", "results of the URL parsers"]))

PROPS.append(P("C29", "A viewer who joins at any time gets a decodable stream",
    "A viewer over RTMP or HTTP-FLV that joins a live stream receives the newest metadata and sequence headers that exist, then every frame from the latest key frame on, exactly once, unaltered, in order and with its own time, until the end; a stream without metadata, without audio or without video flows just the same. Headers renewed while it watches reach it in their place among the frames. A viewer that reads just when a key frame begins a new GOP misses nothing; one that falls behind skips the rest of a GOP, never a key frame alone, and sees nothing twice. Over HTTP the response is a well-formed FLV file.",
    "inputs histories", "every sequence of up to three or four key, inter and audio frames with any data and times, every joining point, any header missing or renewed; a burst of three frames with one or two preemptions",
    "Tests join before the stream starts; what a late joiner gets depends on the order of headers, key frames and its arrival.",
    "librtmp/room.go librtmp/app.go librtmp/server.go librtmp/video.go librtmp/audio.go librtmp/data_message.go",
    [("Room headers and GOP", "librtmp/room.go"), ("RTMPJoin / FLVJoin", "librtmp/room.go")], observe=["messages on the RTMP connection", "bytes of the HTTP-FLV response"]))

PROPS.append(P("C30", "Acknowledgements tell the peer exactly what was received",
    "Once a peer has announced a window acknowledgement size greater than zero, an Acknowledgement goes out after every chunk at which at least that many bytes have arrived since the last one, carrying the number of chunk-stream bytes received so far, modulo 2^32, headers included. None is sent before a window is known or when it is zero.",
    "inputs histories", "every window, two or three messages in every header form, after any number of bytes modulo 2^32",
    "Tests do not count bytes; the boundary and the wrap after 4 GB need exact values and long histories.",
    "librtmp/rtmp.go librtmp/chunk.go librtmp/control_message.go",
    [("byte counting in ParseChunk", "librtmp/chunk.go"), ("maybeSendAck", "librtmp/rtmp.go")], observe=["Acknowledgement messages on the connection"]))

PROPS.append(P("C19", "RTSP sessions publish and play streams faithfully",
    "Every RTSP request is answered with its CSeq, and refused when it cannot be done (unknown method, app, stream, track, transport or channel, or the wrong state) without disturbing this or other sessions. A publisher (ANNOUNCE, SETUP, RECORD) gets a name only if no RTSP or RTMP publisher has it; viewers see the headers of its description, then every access unit (keyed exactly if it has an IDR unit) and AAC frame it sends, whole, in order, timed in milliseconds from the RTP clock, a packet's further AAC frames 1024 samples apart; when its session ends, viewers learn the end and the name is free. A player (DESCRIBE, SETUP, PLAY) gets the parameter sets, then every unit of every frame from the latest key frame on, on the channel or UDP ports agreed for its track, numbered in order, marked at the end of the access unit, at its presentation time in the track's clock. Reports and requests between frames are understood, and no bytes crash a session.",
    "inputs histories", "every content and time of two or three frames, track combinations, transports, histories of three or four steps of three publishers, every short byte string and RTP packet",
    "Tests run one scripted session; multi-frame packets, mixed transports, ownership across protocols and hostile bytes need their own histories.",
    "librtmp/rtsp_server.go librtmp/rtsp_ingest.go librtsp/rtp.go librtsp/rtp_unpack.go",
    [("request dispatch", "librtmp/rtsp_server.go:dispatch"), ("ANNOUNCE and RECORD", "librtmp/rtsp_ingest.go"), ("streamLoop / writeRTP", "librtmp/rtsp_server.go")], observe=["bytes on the RTSP connection and UDP sockets", "tags a viewer receives"]))

PROPS.append(P("C23", "SRT packets, handshakes, ACKs and loss lists survive encoding and decoding",
    "A data or control header written and read back has the same fields (31-bit sequence number, 15-bit control type), laid out as the SRT draft says, with the rest of the buffer untouched; a packet shorter than a header is refused and every other one is read field by field. Handshake bodies of 48 bytes or more parse and marshal back byte for byte. ACKs are their seven fields in order. A loss list holds one word for a single number and two, the first with its top bit set, for a range, in both directions; a cut-off range at the end is dropped. SeqDiff is the shortest signed distance of two 31-bit numbers, also across the wrap.",
    "inputs", "every value of every field, every packet and loss list within the length bounds, every pair of sequence numbers",
    "Tests encode one example of each; masks, wraps and malformed lengths matter for particular values only.",
    "libsrt/packet.go libsrt/control.go libsrt/handshake.go",
    [("ParseHeader / MarshalDataHeader / MarshalControlHeader / SeqDiff", "libsrt/packet.go"), ("MarshalNAK / ParseNAK / ACKBody.Marshal", "libsrt/control.go"), ("ParseHandshake / Handshake.Marshal", "libsrt/handshake.go")], observe=["encoded bytes", "decoded fields"]))

PROPS.append(P("C24", "An SRT listener takes each caller's data once, in order, and reports losses",
    "A caller is connected only by a conclusion carrying the cookie its induction was answered with; repeating either handshake message changes nothing for a connection that stands, and every session has a socket id of its own. Data of connected callers is passed on once, unaltered, in increasing sequence order beginning at the caller's initial number: a gap is reported by a loss list naming exactly the missing 31-bit numbers, what arrives late or twice is dropped, and acknowledgements carry the next number due, numbered consecutively. Keep-alives are answered; shutdown ends the session; data of anyone else is ignored, and no datagram disturbs the listener.",
    "inputs histories", "every initial number and every pattern of up to three or four data packets around it; every history of up to three or four datagrams of two callers",
    "Tests shake hands once and lose packets once; wraps, retransmissions and stray handshakes need their own histories.",
    "libsrt/listener.go libsrt/packet.go libsrt/handshake.go",
    [("handleDataPacket / sendNAK / maybeSendACK", "libsrt/listener.go"), ("handleHandshake", "libsrt/listener.go")], observe=["datagrams the caller receives", "payloads passed to the data handler"]))

PROPS.append(P("C25", "SRT payloads decrypt with the key they name",
    "With encryption active, decrypting a payload that was encrypted with AES-CTR under the even or odd key and the counter block of its sequence number and the salt gives back the plaintext, whichever key the indicator names; any indicator but none, even and odd is an error, and without encryption or with no key indicated the payload is passed as it is.",
    "inputs", "every key pair, salt, sequence number, indicator and short payload",
    "The test uses one key, salt and sequence number; swapped keys or a wrong counter show only for particular combinations.",
    "libsrt/crypto.go",
    [("CryptoState.DecryptDataPayload", "libsrt/crypto.go"), ("buildIV", "libsrt/crypto.go")]))

PROPS.append(P("C26", "The MPEG-TS demultiplexer gives back exactly the units that were multiplexed",
    "From the first PAT and PMT on, the demultiplexer delivers every H.264 access unit and every AAC payload of the program's two streams, byte for byte, with its 33-bit PTS and DTS (DTS equal to PTS when absent), in order, once the next unit of that stream begins; a unit is key exactly when it contains an IDR NAL unit. Adaptation fields, stuffing, PES header stuffing, pointer fields, descriptors, the order of streams, other streams' packets in between and how packets are grouped into datagrams make no difference; a later PMT may move the streams. Packets before a unit's start or after a damaged one yield nothing. No packet content makes it panic.",
    "inputs histories", "every PID, time and NAL type; units of one to three packets in any arrangement of three or four; any short table, PES header or adaptation field",
    "Tests feed two hand-made packets; header layouts, packet boundaries and damaged tables matter in particular combinations.",
    "libsrt/tsdemux.go",
    [("Demuxer.Feed / parsePAT / parsePMT", "libsrt/tsdemux.go"), ("feedVideo / feedAudio / parsePESHeader", "libsrt/tsdemux.go")], observe=["OnVideo and OnAudio calls"]))

PROPS.append(P("C31", "A stream published over SRT reaches its viewers whole, and ends with its session",
    "When a caller on an SRT endpoint sends its transport stream, viewers of the endpoint's name get the AVC sequence header built from its SPS and PPS before the pictures that need it, and again when they change; every picture's other NAL units, length-prefixed and unaltered, keyed exactly if it has an IDR unit, at DTS/90 ms with composition time (PTS-DTS)/90, across the 33-bit wrap too; the AAC header of its ADTS configuration, again when that changes; and every ADTS frame without its header, whole frames of one packet each, a further frame of a packet 1024 samples later. Shutting the session down delivers what is left, ends the stream for its viewers and frees the name, and the next caller starts afresh. A name already published is not taken over or disturbed, nor can others publish the name meanwhile. Damaged units never stop what follows.",
    "inputs histories", "two sessions of two to four units of any content and time, SPS and PPS renewed or repeated, one or two AAC frames a packet; every short damaged unit; both orders of a conflict over the name",
    "No test runs the SRT bridge at all; multi-frame packets, renewed parameters, wraps and the end of a session need their own streams.",
    "librtmp/srt_server.go libsrt/listener.go libsrt/tsdemux.go",
    [("srtBridge.onData / onEnd", "librtmp/srt_server.go"), ("onVideo / onAudio", "librtmp/srt_server.go"), ("splitAnnexB", "librtmp/srt_server.go")], observe=["tags a viewer receives", "names in use"]))

PROPS.append(P("C32", "RTMP commands get the protocol's answers, and a session ends cleanly",
    "connect to a configured app, createStream, releaseStream, FCPublish, receiveAudio and receiveVideo are each answered once by a _result under their own transaction number, connect with NetConnection.Connect.Success after announcing window, bandwidth and chunk size; publish, play, pause, seek, FCUnpublish, deleteStream and closeStream by the onStatus of what happened: a name in use is refused with level error, and so is playing one that is not published. An app that is not configured is never connected to or published in. Deleting, closing or FCUnpublishing what the connection publishes ends that stream, and the name can be published again. Pings are answered with their own data; unknown commands, and a client's _result, _error or onStatus, change nothing and get no answer. Whatever a client sends, its session either goes on or ends altogether: connection closed, published name free, viewers told.",
    "inputs histories", "every command and control message of the lists in the bounds, in sequences of two or three after a connect; every transaction number; every short message of any type",
    "Tests drive one publish and one play; answers after refusals, repeated commands and sessions that end in an error are never looked at.",
    "librtmp/command_message.go librtmp/control_message.go librtmp/rtmp.go",
    [("CommandMessage.Do / CommandMessageResponse.Send", "librtmp/command_message.go"), ("UserControlMessage.Do", "librtmp/control_message.go"), ("HandlerServer", "librtmp/rtmp.go")], observe=["messages and end of file the client receives"]))

PROPS.append(P("C33", "A pulled stream mirrors its upstream, and gives up and retries when that fails",
    "A pull connects to the address's host, app and stream in turn: each of connect, createStream and play is sent only when the one before was accepted, play on the message stream createStream returned and for the stream the address names. What the upstream then sends, every header and frame with its time and bytes, is seen by the local stream's viewers. When the upstream refuses at any step, hangs up, is silent for 15 s before an answer, or says the stream is over, the pull closes its connection, frees the local name, ends its viewers, and tries again later, with the same results. RTMP players, another server pulling included, are told when their stream ends, so that a chain of two servers ends and resumes with its source.",
    "inputs histories fault schedules", "an upstream that fails at each step or serves two or three frames of any content and time; two rounds; a chain of two servers with players on both",
    "The test of the client covers URL splitting and one command's bytes; no test runs a pull against an upstream that fails.",
    "librtmp/client.go librtmp/rtmp.go librtmp/command_message.go librtmp/room.go",
    [("PullClient.Run / runClientCommands / expectResult", "librtmp/client.go"), ("HandlerClient", "librtmp/rtmp.go"), ("RTMPJoin", "librtmp/room.go")], observe=["messages the upstream and players receive", "tags local viewers receive", "names in use"]))

PROPS.append(P("C34", "Every way of viewing serves every stream, however it is published",
    "A stream published over RTMP, RTSP RECORD or SRT, or pulled from a server, is served over HTTP while it lasts: as FLV with every picture, unaltered and in time; as an HLS playlist and a DASH manifest once segments are complete, whose segments are served as written, the DASH ones containing the pictures. In DELAY mode segmenting starts with the first viewer: all who ask for the first playlist get it when the first segment is complete, from one segmenter. When the stream ends, FLV responses end, waiting requests are answered, no segment file remains, and every address of it is 404, as are other streams and apps; a path of the wrong shape is 400. The next stream of that name is served like the first, however requests race with the end. A segment directory that cannot be used never leaves a request unanswered.",
    "inputs schedules histories", "four ways of publishing, both segmenting modes, any picture content, two streams in a row; two simultaneous first requests racing with each other and the end of the stream under one or two preemptions",
    "Tests publish over RTMP only and start segmenters by hand; lazily started segmenters and their races with the stream's end are not tested.",
    "librtmp/server.go librtmp/app.go libhls/hls.go libdash/dash.go",
    [("handleHTTPFlv / handleHls / serveDASH", "librtmp/server.go"), ("App.Claim / App.Delete", "librtmp/app.go"), ("HLS.Start / WaitFirstSegment", "libhls/hls.go"), ("DASH.Start", "libdash/dash.go")], observe=["HTTP status and bodies", "files in the segment directory"]))

PROPS.append(P("C35", "Sessions that run at the same time share no memory unguarded",
    "While a stream is published, viewers over RTMP, HTTP-FLV and RTSP join, play and leave, segmenters start and stop, playlists, manifests and init segments are read and waited for, others try to publish the same name and publish another, headers are renewed and the publisher goes: no two goroutines ever access the same memory, one of them writing, without synchronisation between them.",
    "schedules histories", "one publisher with two of nine other activities at three times each; a segmenter with three concurrent callers at any of four times each; every pair of unordered accesses in these runs, by vector clocks",
    "The test suite is not run under the race detector, and a racing access shows itself under rare schedules only.",
    "librtmp/room.go librtmp/app.go librtmp/rtsp_server.go libhls/hls.go libdash/dash.go",
    [("Room", "librtmp/room.go"), ("App.StartHLS / StartDASH / Delete", "librtmp/app.go"), ("HLS.Playlist / WaitForPlaylist / Stop", "libhls/hls.go"), ("DASH.Manifest / InitSegment / Stop", "libdash/dash.go")], observe=["memory accesses and synchronisation of every goroutine"]))

PROPS.sort(key=lambda p: p['id'])
