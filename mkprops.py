#!/usr/bin/env python3
"""Writes properties.jsonl (one source for the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("P01","RTMP ingest reassembles every legal chunk stream exactly",
 "Whatever legal RTMP chunking a publisher uses (any chunk size and chunk-size changes, all header formats and chunk-stream-id widths, extended and wrapping timestamps, messages of several chunk streams interleaved, aborted messages, any fragmentation or delay of the TCP bytes), the audio, video and metadata the server re-streams are exactly the messages sent: same bodies, same types, same 32-bit timestamps, same order. Nothing is merged, truncated, duplicated, reordered or invented. (Not claimed, because the formats leave it open or carry nothing: a type-3 header that starts a new message directly after a type-0 one, and media messages without a body.)",
 ["inputs","schedules","fault_sequences"],
 "all legal chunkings of all message sequences, under all TCP segmentations, read sizes and delivery delays",
 "Unit tests decode a few hand-written chunks from a bytes.Buffer in one read; interleaving, mid-stream chunk-size changes, timestamp wrap and short reads are never combined.",
 ["librtmp/chunk.go","librtmp/message.go","librtmp/aggregate_message.go","librtmp/control_message.go"],
 [("chunk header state per chunk stream","librtmp/chunk.go parseChunkMessageHeader"),("message assembly loop","librtmp/message.go ParseMessage")],
 [("lastChunk","last header seen on each chunk stream, source of compressed header fields","librtmp/rtmp.go RTMP.lastChunk")],
 ["tags received by an RTMP or HTTP-FLV viewer of the stream"])

p("P02","Every live viewer gets the published stream, in order, decodable",
 "Every RTMP, HTTP-FLV and WebSocket-FLV viewer receives a subsequence of the published tags in publish order, every frame at most once and byte- and timestamp-exact (metadata and decoder configuration in force may be given again): it starts at the most recent key frame if there is one, and afterwards it may skip only by lagging more than a whole group of pictures, and then only forward to a key frame. Before any frame it has been given the metadata and decoder configuration that were in force when that frame was published. A viewer that keeps reading receives every frame published after it joined, within bounded time, whatever the order in which headers, metadata and frames are published, with H.264 or HEVC video and AAC, Opus or MP3 audio.",
 ["schedules","inputs","histories","fault_sequences"],
 "all interleavings of publish, join, header change and key-frame boundaries with any number of viewers, any viewer lag",
 "Existing tests push one fixed stream through one viewer; the races between GOP restart, join and slow readers depend on the schedule.",
 ["librtmp/room.go","librtmp/video.go","librtmp/audio.go","librtmp/data_message.go","librtmp/command_message.go","librtmp/server.go","libflv/flv.go"],
 [("GOP fan-out","librtmp/room.go Room.GOP"),("join and header backfill","librtmp/room.go RTMPJoin, FLVJoin"),("key-frame restart","librtmp/video.go VideoMessage.Do")],
 [("Room.GOP","broadcast of the current group of pictures","librtmp/room.go"),("sequence headers","latest decoder configuration","librtmp/room.go")],
 ["tags parsed from each viewer's connection"])

p("P03","One publisher per stream; nobody else's media reaches its viewers",
 "At any moment at most one publisher (RTMP, RTSP ANNOUNCE, SRT or pull) owns a given (app, stream) name: of concurrent attempts exactly one is accepted and the others are refused without disturbing the accepted one, and distinct names (also the same stream name in two apps) never mix. A viewer of a name only ever receives media sent by the connection that owned the name while it watched; viewers, refused publishers and unrelated connections cannot inject, replace or end it.",
 ["schedules","histories"],
 "all interleavings of concurrent publish, re-publish, disconnect and play on overlapping names over several protocols",
 "Tests publish once from one connection; a check-then-store race or a stale owner's cleanup needs two connections interleaved.",
 ["librtmp/command_message.go","librtmp/rtsp_ingest.go","librtmp/srt_server.go","librtmp/client.go","librtmp/app.go","librtmp/rtmp.go"],
 [("room claim","librtmp/command_message.go PUBLISH; librtmp/rtsp_ingest.go handleAnnounce; librtmp/srt_server.go onData; librtmp/client.go Run"),("role check of media messages","librtmp/audio.go, video.go, data_message.go Do")],
 [("App.rooms","live stream names","librtmp/app.go")],
 ["publish replies and the payload tags (source-stamped) seen by viewers"])

p("P04","A publisher that leaves, in any way, releases everything it held",
 "Whenever a publisher, over RTMP, RTSP or SRT, disconnects, resets, unpublishes by closing, or is dropped at any byte of its session, then within bounded time its name can be published again, every attached RTMP/HTTP-FLV/WebSocket/RTSP viewer session of it stops receiving media and its delivery ends, lookups of the name answer not-found, and the HLS and DASH files written for it are removed. (A peer that vanishes without FIN or RST cannot be noticed at once and is not covered; an RTMP or RTSP player's connection may stay open, but nothing more of that session arrives on it.) A later publisher of the same name starts clean: its viewers and playlists never show media of the earlier session. Nothing keeps running for the dead session.",
 ["crash_points","schedules","histories"],
 "all points of the session at which the publisher dies, all interleavings with joins, segmenting and re-publish",
 "Tests stop a publisher at one fixed quiet point, if at all; leaks and resurrection need a death inside segmenting or joining.",
 ["librtmp/rtmp.go","librtmp/app.go","librtmp/room.go","libhls/hls.go","libdash/dash.go","librtmp/rtsp_ingest.go"],
 [("connection cleanup","librtmp/rtmp.go cleanup"),("room removal","librtmp/app.go Delete; librtmp/room.go Close"),("segmenter stop","libhls/hls.go Stop; libdash/dash.go Stop")],
 [("App.rooms/hls/dash","objects that must disappear","librtmp/app.go")],
 ["re-publish reply, viewer streams, simulated file system contents, task count of the simulator"])

p("P05","A slow, stalled or dead viewer never disturbs anyone else",
 "However slowly a viewer of any protocol reads, and even if it stalls for ever, is partitioned away or resets at any byte, the publisher is still read at full rate and every other viewer and every HLS/DASH segmenter keeps receiving the complete stream with no added gap and no unbounded delay. The harmed viewer itself only ever sees the tail of a frame cut by its own disconnect or a forward skip to a key frame, never corrupt data.",
 ["schedules","fault_sequences"],
 "all placements of stalls, zero-window periods, partitions and resets of any subset of viewers",
 "No test has a blocked socket; back-pressure propagation depends on buffer state and timing.",
 ["librtmp/room.go","librtmp/server.go","librtmp/websocket.go","librtmp/rtsp_server.go"],
 [("per-viewer goroutine reading the shared GOP","librtmp/room.go RTMPJoin, FLVJoin; librtmp/rtsp_server.go streamLoop")],
 [],["arrival times at the healthy viewers and publisher send progress"])

p("P06","HLS: every playlist is valid and lists only complete, correct segments",
 "At every instant the served HLS playlist is a valid rolling window: media sequence numbers never go backwards or get reused, each step only appends new segments at the end and drops old ones from the front, listed durations are right (from a segment's key frame to the next segment's, also where audio runs ahead of video) and covered by the target duration. Every listed segment can be fetched complete and immutable, is a valid MPEG-TS file (whole 188-byte packets, PAT and PMT first, continuous counters per PID, correct CRCs) that starts with a key frame preceded by its parameter sets. The program clock reference may be carried on key frames only. Streams with video: concatenated in order, the segments carry exactly the published video and audio frames with their timestamps at 90 kHz, no frame lost, duplicated or reordered across segment boundaries, at any stream time; only the open tail of the stream, after the last listed segment, is not served.",
 ["schedules","inputs","histories"],
 "all interleavings of segmenter, publisher and fetchers; all frame sizes, timings, GOP lengths and stream start times",
 "The segmenter tests produce two segments from one regular stream and look at the files after it has stopped.",
 ["libhls/hls.go","libhls/m3u8.go","libhls/align.go","libhls/audio_cache.go","libmpeg/ts.go","libmpeg/pes.go","libmpeg/psi.go"],
 [("segment rotation and publication","libhls/hls.go rotate, finaliseCurrent, openSegment"),("playlist","libhls/m3u8.go buildPlaylist"),("TS packetisation","libmpeg/ts.go, pes.go, psi.go")],
 [("segments window","what the playlist lists","libhls/hls.go HLS")],
 ["HTTP GET of index.m3u8 and *.ts during and after the stream"])

p("P07","LL-HLS: parts tile segments and blocking reloads are bounded, not lost",
 "In low-latency mode the parts listed for a segment are contiguous byte ranges that start at 0, lie within the bytes already readable, contain whole TS packets, and once the segment is complete cover it exactly; a part is marked independent only if it begins with a key frame, part durations are those of the frames in them (up to the frame that closes the part) and do not exceed the announced part target beyond one frame, and the preload hint names the next byte range. A blocking reload for a future segment and part returns as soon as that part exists (or the segment is complete without it), or when the bound expires, or when the stream ends; it never returns early with a playlist lacking the part, never misses a wake-up and never outlives its bound, for any number of concurrent waiters.",
 ["schedules","inputs"],
 "all interleavings of waiters, timeouts, part closes, rotations and stop",
 "Tests check playlist text for one state; wake-up races and deadline expiry depend on the schedule and the clock.",
 ["libhls/hls.go","libhls/m3u8.go"],
 [("part closing","libhls/hls.go closeCurrentPart"),("blocking reload","libhls/hls.go WaitForPlaylist"),("LL playlist","libhls/m3u8.go buildLLPlaylist")],
 [("pending parts","parts of the open segment","libhls/hls.go HLS")],
 ["return values and simulated return times of the public segmenter API; bytes of the segment files"])

p("P08","DASH: manifests list only complete fragments that replay the stream",
 "At every instant the served MPD refers to an existing initialisation segment and only to complete, immutable media segments whose numbers, start times and durations match the files; numbers are never reused and the window only moves forward. (The default duration in the template lies between the shortest and the longest listed fragment.) Each fragment is a well-formed moof+mdat whose offsets, sizes, flags, decode times and composition offsets are consistent, starts with a sync sample, and fragment by fragment the samples are exactly the published video frames in order with no gap or overlap in decode time. The initialisation segment carries exactly the published decoder configuration. Only video is in scope, and a decoder configuration that stays the same during the stream.",
 ["schedules","inputs","histories"],
 "all interleavings of segmenter, publisher and fetchers; all frame sizes, timings, GOP lengths and stream start times",
 "The DASH test builds one fragment from a fixed stream and checks box names.",
 ["libdash/dash.go","libdash/mpd.go","libmp4/media_segment.go","libmp4/init_segment.go","libmp4/box.go"],
 [("fragment flush","libdash/dash.go flushCurrent"),("manifest","libdash/mpd.go buildMPD"),("boxes","libmp4/media_segment.go, init_segment.go")],
 [("segments window","what the MPD lists","libdash/dash.go DASH")],
 ["HTTP GET of index.mpd, init and m4s"])

p("P09","RTSP play delivers the stream as valid RTP, framing never corrupted",
 "An RTSP player (TCP-interleaved or UDP) gets RTP whose sequence numbers increase by one per packet and track, whose SSRC and payload type are stable and as described, whose timestamps are the published times in the track's clock, with the marker on exactly the last packet of each access unit; depacketised (single NAL, FU-A, AAC-hbr, Opus, also HEVC), it yields exactly the published frames in order, parameter sets and configuration matching the SDP. On the TCP connection every interleaved packet and every RTSP reply is whole and replies keep CSeq, whatever requests arrive while media flows; when the player tears the session down or disconnects, media stops and its ports are released. (Not claimed: decoder-configuration changes in mid-stream, AAC frames above 8191 bytes; parameter sets may be sent once at the start; what follows a TEARDOWN reply may be cut.)",
 ["schedules","inputs","fault_sequences"],
 "all interleavings of media delivery with requests, pauses and disconnects; all frame and NAL sizes",
 "The e2e test reads DESCRIBE/SETUP/PLAY replies of an idle stream; concurrent replies and media, and NAL sizes around the MTU, are not combined.",
 ["librtmp/rtsp_server.go","librtsp/h264.go","librtsp/hevc.go","librtsp/aac.go","librtsp/rtp.go","librtsp/sdp.go"],
 [("packetisers","librtsp/h264.go, hevc.go"),("interleaved writer","librtmp/rtsp_server.go writeInterleaved, writeResponse"),("stream loop","librtmp/rtsp_server.go streamLoop")],
 [],["bytes on the RTSP connection / UDP datagrams of the player"])

p("P10","RTSP publish re-streams exactly the access units received",
 "Media published over RTSP RECORD, TCP-interleaved (any segmentation of the byte stream, other channels and requests in between) or UDP, appears to viewers as exactly the access units sent, in order, with decoder configuration from the SDP and timestamps advancing by the RTP clock, including across RTP sequence and timestamp wrap (H.264 and AAC, one offset per track to within a millisecond; the offsets are such that audio and video keep the distance in time at which they were sent, whatever their RTP clocks start at), also in the HLS and DASH output. Under UDP loss, duplication or reordering an access unit may be missing (those whose packets and the packet before them arrived in order are not), but no viewer ever receives a corrupt one (parts of two units joined, or a unit with a hole), and delivery of later complete units continues.",
 ["inputs","schedules","fault_sequences"],
 "all TCP segmentations, all UDP loss, duplication and reordering patterns, all NAL sizes and wrap points",
 "Tests feed whole packets in order to the reassembler; short reads, loss and wrap are not exercised.",
 ["librtmp/rtsp_ingest.go","librtsp/rtp_unpack.go","librtsp/sdp_parse.go","librtsp/rtp.go"],
 [("interleaved reader","librtmp/rtsp_ingest.go runIngestLoop"),("FU-A reassembly","librtsp/rtp_unpack.go H264Reassembler")],
 [("reassembler state","partial access unit","librtsp/rtp_unpack.go")],
 ["tags received by a viewer of the published name"])

p("P11","SRT delivers each packet once, in order, with truthful ACK and NAK",
 "The SRT listener hands payloads of a session to its consumer at most once and in strictly increasing sequence order (31-bit wrap included), under any loss, duplication, reordering, delay or replay of datagrams including handshakes, keep-alives and shutdowns; every packet newer than all before it is handed over, so without loss every payload is (there is no reorder buffer: what comes later than its successors may be dropped). Every NAK names exactly missing numbers and every gap is reported at least once; every ACK acknowledges exactly the numbers up to the last one handed over, in 31 bits, with ACK numbers counting up by one, and within a short time after a packet; only live sessions are answered. A session is only created by a conclusion carrying the cookie issued to that peer; it ends with the peer's shutdown, with an error of its consumer, or when the peer has been silent for long; sessions of different peers, or of several sockets of one peer, never mix.",
 ["fault_sequences","schedules","inputs"],
 "all fault sequences on the datagram path, all initial sequence numbers and interleavings of several peers",
 "The e2e test sends a handful of in-order packets over loopback; loss, replay and wrap are not exercised.",
 ["libsrt/listener.go","libsrt/handshake.go","libsrt/control.go","libsrt/packet.go"],
 [("data path","libsrt/listener.go handleDataPacket"),("NAK and ACK","libsrt/listener.go sendNAK, maybeSendACK"),("handshake","libsrt/listener.go handleHandshake")],
 [("session.expectedSeq","next sequence number","libsrt/listener.go")],
 ["payloads given to the data handler; datagrams received by the simulated caller"])

p("P12","RTMP pull mirrors its upstream and recovers from every failure",
 "While the upstream serves the stream, the local mirror's viewers receive the upstream's tags exactly (bodies, timestamps, order), whatever chunking the upstream uses and however its bytes are fragmented. After any upstream failure (refused, reset, partition, crash, stall in the middle of handshake or commands, protocol error, rejected play) the pull closes the old connection, releases the local name, and retries after a delay that grows from one second but never beyond thirty; once the upstream is healthy again the mirror is live again within bounded time.",
 ["fault_sequences","schedules","crash_points"],
 "all sequences of upstream failures and recoveries at all points of the client session",
 "Only URL parsing helpers of the pull client have tests; reconnect and stalls need time and faults.",
 ["librtmp/client.go","librtmp/server.go","librtmp/rtmp.go","librtmp/handshake.go","librtmp/message.go"],
 [("pull loop with back-off","librtmp/server.go Handler"),("client commands","librtmp/client.go runClientCommands, expectResult"),("client handshake","librtmp/handshake.go HandshakeClient")],
 [("pulls","configured upstreams","librtmp/server.go server")],
 ["connections seen by the simulated upstream with their times; tags at viewers of the mirror"])

p("P13","No peer can crash the server or disturb other sessions",
 "No sequence of bytes, datagrams, disconnects or protocol violations from any peer on any listener (RTMP, HTTP, WebSocket, RTSP, SRT, or a pulled upstream), sent at any moment and cut or corrupted anywhere, and no number of connections (more than there are file descriptors included), makes the process exit, panic or deadlock, or allocate more than in proportion to what was received, or keeps a stream or connection for ever. Meanwhile a well-behaved publisher and its viewers keep their stream intact, and new well-behaved sessions are still served afterwards.",
 ["inputs","fault_sequences","schedules"],
 "all malformed, truncated, bit-flipped or hostile inputs at all protocol states, on all listeners, concurrent with healthy sessions",
 "Tests feed well-formed input, plus a few truncated buffers to individual parsers.",
 ["librtmp/message.go","librtmp/command_message.go","librtmp/control_message.go","librtmp/handshake.go","librtmp/websocket.go","librtsp/message.go","librtmp/rtsp_ingest.go","libsrt/tsdemux.go","libamf/amf0.go"],
 [("parse error handling","librtmp/message.go ParseMessage; librtmp/rtmp.go HandlerServer"),("length checks","librtsp/message.go, librtmp/websocket.go, libsrt/tsdemux.go")],
 [],["process liveness in the simulator, healthy sessions' tags, allocation of the run"])

p("P14","WebSocket-FLV is a valid WebSocket session under any control traffic",
 "On every WebSocket-FLV connection the server's byte stream is the correct upgrade answer followed only by whole, unmasked, well-formed frames; the concatenated binary payloads are the FLV stream and control frames never appear inside a data frame. Every ping is answered by one pong with the same payload in order, a close frame or disconnect ends delivery, and this holds for every interleaving of pings, fragmented or oversized client frames and media (a fragmented client message may end the session cleanly).",
 ["schedules","inputs","fault_sequences"],
 "all interleavings of media frames with client control frames, all segmentations and disconnect points",
 "Tests write one frame at a time on a quiet connection.",
 ["librtmp/websocket.go","librtmp/server.go"],
 [("frame writer","librtmp/websocket.go writeFrame"),("control frames","librtmp/websocket.go servePings")],
 [],["bytes received by the WebSocket client"])

p("P15","Files stay in the configured directory; disk faults stay local",
 "Whatever stream names publishers choose and whatever URLs clients request, the server creates, writes, removes and serves only HLS/DASH files of that very stream inside the app's configured directory (a name that contains a path separator has none; one with other special characters is escaped in playlists and URLs and works). Streams of one name in two apps do not meet, and once a stream has ended its files are gone. If creating, writing or removing a file fails or is short (disk full, I/O error) at any point, live RTMP/HTTP-FLV/RTSP delivery of the stream is unaffected, no other stream is affected, the process stays up, a playlist never lists a segment that was not completely written, and segmenting resumes once the disk works again.",
 ["inputs","fault_sequences","configurations"],
 "all stream names and request paths; all placements of file-system errors and short writes",
 "Tests use a temp dir, plain names and a working disk.",
 ["libhls/hls.go","libdash/dash.go","librtmp/server.go","librtmp/command_message.go"],
 [("path checks","librtmp/server.go handleHls, serveDASH"),("segment file handling","libhls/hls.go openSegment, finaliseCurrent; libdash/dash.go flushCurrent")],
 [],["operations recorded by the simulated file system; HTTP replies; live viewers"])

p("P16","RTMP sessions: handshake, replies and acknowledgements in every order",
 "For every client, however its bytes are cut and delayed, the server completes the simple or digest handshake with a valid answer and answers each command exactly once, in order, with its transaction number and the specified result (connect, createStream, publish, play; not-found and already-published as errors), and every server chunk is well formed although replies and media are sent concurrently. It acknowledges received bytes at least once per window the peer announced, with a never-decreasing count not above the bytes sent, so a publisher that waits for acknowledgements never stalls; pings are answered with their own timestamp.",
 ["schedules","inputs","histories"],
 "all segmentations and interleavings of commands with media, all announced window sizes and session lengths",
 "Tests check single messages in isolation.",
 ["librtmp/handshake.go","librtmp/command_message.go","librtmp/control_message.go","librtmp/message.go","librtmp/chunk.go"],
 [("handshake","librtmp/handshake.go HandshakeServer"),("command dispatch","librtmp/command_message.go Do"),("window acknowledgement","librtmp/message.go ParseMessage")],
 [("bytesReceived/lastAcked","inbound flow-control counters","librtmp/rtmp.go")],
 ["messages received by the simulated RTMP clients"])

p("P17","SRT ingest delivers the sender's access units, and only one sender's",
 "Every H.264 access unit and AAC frame an SRT sender transmits in MPEG-TS reaches the viewers of the stream once, in order, with the same NAL units (parameter sets become the decoder configuration in force, which follows every change; access unit delimiters and padding may go) and the same AAC data, on one common clock that keeps running past the 33-bit wrap (2 ms), however PES are cut into packets, packets into datagrams, and ADTS frames into PES, and whatever other programs, repeated packets, stuffing, descriptors and tables there are; its HLS and DASH output is that of the stream, too. Where datagrams or packets are missing, only whole undamaged units are delivered, and those whose packets all arrived in order are. A stream ends with the sender's shutdown or after some seconds of silence, and its name is free again; a name in use is refused to a second sender of any protocol; datagrams forged from other addresses change nothing.",
 ["inputs","fault_sequences","schedules"],
 "all packetisations of audio and video, all loss, duplication, reordering and delay patterns, all timestamp bases, all orders of competing publishers and endings",
 "Tests demultiplex a few hand-made packets; packetisation, loss, wrap, parameter changes, session ends and competing senders are not sampled.",
 ["librtmp/srt_server.go","libsrt/tsdemux.go","libsrt/listener.go"],
 [("transport stream demultiplexer","libsrt/tsdemux.go Feed, parsePES"),("access units to FLV tags","librtmp/srt_server.go onVideo, onAudio, timestamp"),("session to stream","librtmp/srt_server.go startSRT, Data, Closed")],
 [("srtBridge.videoHdr/audioHdr","decoder configuration in force","librtmp/srt_server.go"),("Demuxer.video/audio","PES in progress","libsrt/tsdemux.go")],
 ["tags and RTP units received by viewers of the SRT stream"])
with open(__file__.rsplit('/',1)[0]+"/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
