From 07340b21358dc7a2ad958cffcf3931f84df80b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 01/67] fix: deliver every tag, in order, to every subscriber

The shared broadcast reset its frame slice under its readers: a viewer
could crash the process (index out of range), read a frame of the old
group again, or lose the frames before a key frame and before the end of
the stream. It also delivered nothing at all until exactly three
configuration tags had been seen and dropped later ones. Replace it with
a fan-out that starts groups atomically, keeps configuration in stream
order and drains before it ends.
---
 libdash/dash.go            |   9 +-
 libhls/hls.go              |   9 +-
 librtmp/command_message.go |   5 +-
 librtmp/gop.go             | 175 +++++++++++++++++++++++++++++++++++++
 librtmp/room.go            |  66 ++------------
 librtmp/rtsp_ingest.go     |   5 +-
 librtmp/rtsp_server.go     |   3 +-
 librtmp/server.go          |   5 +-
 librtmp/srt_server.go      |   5 +-
 librtmp/video.go           |   3 +-
 10 files changed, 208 insertions(+), 77 deletions(-)
 create mode 100644 librtmp/gop.go

diff --git a/libdash/dash.go b/libdash/dash.go
index 8e2a9c7..377cb83 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -21,7 +21,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/libmp4"
 )
@@ -161,10 +160,16 @@ func (d *DASH) stopRequested() bool {
 	return atomic.LoadInt32(&d.stopped) != 0
 }
 
+// TagReader is where a segmenter reads its FLV tags from. Read blocks
+// until there is a tag; alive is false once the publisher is gone.
+type TagReader interface {
+	Read() (p interface{}, alive bool)
+}
+
 // Start consumes FLV tags from gopReader, batches H.264 samples into
 // fragments and writes them to disk. Returns when the publisher
 // disconnects or Stop is called.
-func (d *DASH) Start(gopReader *broadcast.BroadcastReader) error {
+func (d *DASH) Start(gopReader TagReader) error {
 	if err := os.MkdirAll(d.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", d.dir, err)
 	}
diff --git a/libhls/hls.go b/libhls/hls.go
index 74ec4ae..d16ccbe 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -10,7 +10,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libaac"
@@ -286,8 +285,14 @@ func (hls *HLS) stopRequested() bool {
 	return atomic.LoadInt32(&hls.stopped) != 0
 }
 
+// TagReader is where a segmenter reads its FLV tags from. Read blocks
+// until there is a tag; alive is false once the publisher is gone.
+type TagReader interface {
+	Read() (p interface{}, alive bool)
+}
+
 //start to generate ts segments.
-func (hls *HLS) Start(gopReader *broadcast.BroadcastReader) (err error) {
+func (hls *HLS) Start(gopReader TagReader) (err error) {
 	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
 	}
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index d814d54..de52718 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -7,7 +7,6 @@ import (
 	"reflect"
 	"sync/atomic"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libamf"
@@ -273,12 +272,12 @@ func (cm *CommandMessage) Do() (err error) {
 		if app.hlsMode == libhls.IMMEDIATELY {
 			hls := libhls.NewHls().WithStreamID(cm.PublishingName).WithDir(app.hlsDir)
 			app.hls.Store(cm.PublishingName, hls)
-			go hls.Start(broadcast.NewBroadcastReader(cm.rtmp.room.GOP))
+			go hls.Start(NewGOPReader(cm.rtmp.room.GOP))
 		}
 		if app.dashEnabled {
 			dash := libdash.NewDASH().WithStreamID(cm.PublishingName).WithDir(app.dashDir)
 			app.StoreDASH(cm.PublishingName, dash)
-			go dash.Start(broadcast.NewBroadcastReader(cm.rtmp.room.GOP))
+			go dash.Start(NewGOPReader(cm.rtmp.room.GOP))
 		}
 
 	case PLAY:
diff --git a/librtmp/gop.go b/librtmp/gop.go
new file mode 100644
index 0000000..221150c
--- /dev/null
+++ b/librtmp/gop.go
@@ -0,0 +1,175 @@
+package librtmp
+
+import (
+	"sync"
+
+	"github.com/sbraveyoung/GGmpeg/libflv"
+)
+
+const (
+	//How many tags of groups before the current one are kept for
+	//readers that are a little behind.
+	gopHistory = 256
+
+	//History kept for a stream that carries no key frames at all
+	//(audio-only, data-only).
+	maxKeylessTags = 1024
+)
+
+// GOP fans one publisher's tags out to any number of readers. A group
+// holds the tags from one key frame up to the next, so a new reader can
+// start decoding at once. A reader that falls too far behind finishes
+// the group it is in and resumes at the newest key frame.
+type GOP struct {
+	mu     sync.Mutex
+	cond   *sync.Cond
+	oldest *gopGroup //first group still linked to cur
+	cur    *gopGroup
+	kept   int //tags in the groups before cur
+	conf   gopConfig
+	dead   bool
+}
+
+// gopConfig is the decoder configuration in force: metadata, video and
+// audio sequence headers.
+type gopConfig [3]libflv.Tag
+
+type gopItem struct {
+	tag  libflv.Tag
+	conf int //index into gopConfig, -1 for a frame
+}
+
+type gopGroup struct {
+	conf  gopConfig //in force when the group began
+	items []gopItem
+	key   bool      //starts with a key frame
+	next  *gopGroup //nil once the group has been dropped from the history
+}
+
+func NewGOP() *GOP {
+	first := &gopGroup{}
+	g := &GOP{oldest: first, cur: first}
+	g.cond = sync.NewCond(&g.mu)
+	return g
+}
+
+// WriteMeta publishes a configuration tag: current readers get it in
+// stream order, later ones before the group they start with.
+func (g *GOP) WriteMeta(tag libflv.Tag) {
+	conf := 0
+	switch tag.(type) {
+	case *libflv.VideoTag:
+		conf = 1
+	case *libflv.AudioTag:
+		conf = 2
+	}
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	g.add(gopItem{tag: tag, conf: conf})
+	g.conf[conf] = tag
+}
+
+// Write publishes a frame that continues the current group.
+func (g *GOP) Write(tag libflv.Tag) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	if !g.cur.key && len(g.cur.items) >= maxKeylessTags {
+		g.startGroup(false)
+	}
+	g.add(gopItem{tag: tag, conf: -1})
+}
+
+// WriteKey publishes a key frame, which starts a new group.
+func (g *GOP) WriteKey(tag libflv.Tag) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	g.startGroup(true)
+	g.add(gopItem{tag: tag, conf: -1})
+}
+
+func (g *GOP) startGroup(key bool) {
+	if g.dead {
+		return
+	}
+	n := &gopGroup{conf: g.conf, key: key}
+	g.kept += len(g.cur.items)
+	g.cur.next = n
+	g.cur = n
+	for g.kept > gopHistory && g.oldest != g.cur {
+		o := g.oldest
+		g.oldest = o.next
+		g.kept -= len(o.items)
+		o.next = nil
+	}
+}
+
+func (g *GOP) add(item gopItem) {
+	if g.dead {
+		return
+	}
+	g.cur.items = append(g.cur.items, item)
+	g.cond.Broadcast()
+}
+
+// DisAlive ends the broadcast. Readers still get what was published
+// before it.
+func (g *GOP) DisAlive() {
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	g.dead = true
+	g.cond.Broadcast()
+}
+
+// GOPReader is one subscriber's position in a GOP broadcast.
+type GOPReader struct {
+	gop   *GOP
+	group *gopGroup
+	index int
+	sent  gopConfig
+}
+
+func NewGOPReader(gop *GOP) *GOPReader {
+	return &GOPReader{gop: gop}
+}
+
+// Read returns the next tag, blocking until there is one. alive is
+// false once the publisher is gone and everything has been read.
+func (r *GOPReader) Read() (p interface{}, alive bool) {
+	g := r.gop
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	if r.group == nil {
+		r.group = g.cur
+	}
+	for {
+		if r.index == 0 {
+			//Bring the reader up to date with the configuration the
+			//group starts with.
+			for i, tag := range r.group.conf {
+				if tag != nil && tag != r.sent[i] {
+					r.sent[i] = tag
+					return tag, true
+				}
+			}
+		}
+		if r.index < len(r.group.items) {
+			item := r.group.items[r.index]
+			r.index++
+			if item.conf >= 0 {
+				r.sent[item.conf] = item.tag
+			}
+			return item.tag, true
+		}
+		if r.group != g.cur {
+			if r.group = r.group.next; r.group == nil {
+				r.group = g.cur
+			}
+			r.index = 0
+			continue
+		}
+		if g.dead {
+			return nil, false
+		}
+		g.cond.Wait()
+	}
+}
diff --git a/librtmp/room.go b/librtmp/room.go
index 7300191..653023a 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -5,7 +5,6 @@ import (
 	"sync"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 )
@@ -13,13 +12,11 @@ import (
 type Room struct {
 	RoomID    string
 	Publisher *RTMP
-	GOP       *broadcast.Broadcast
+	GOP       *GOP
 
-	// Cached sequence headers. Populated by the publisher the first
-	// time it emits them and replayed to every new subscriber before
-	// GOP playback begins so mid-join viewers can initialise their
-	// decoders (an FLV viewer needs AVCDecoderConfigurationRecord +
-	// AudioSpecificConfig + onMetaData up front).
+	// Cached sequence headers, for RTSP DESCRIBE. Populated by the
+	// publisher whenever it emits them; subscribers get theirs from
+	// the GOP.
 	mu          sync.RWMutex
 	videoSeqHdr *libflv.VideoTag
 	audioSeqHdr *libflv.AudioTag
@@ -32,7 +29,7 @@ func NewRoom(rtmp *RTMP, roomID string) *Room {
 	r := &Room{
 		RoomID:    roomID,
 		Publisher: rtmp,
-		GOP:       broadcast.NewBroadcast(3),
+		GOP:       NewGOP(),
 	}
 	return r
 }
@@ -79,39 +76,8 @@ func (room *Room) Close() {
 //player join the room
 func (room *Room) RTMPJoin(rtmp *RTMP) {
 	go func() {
-		//Backfill sequence headers so a player joining mid-GOP has the
-		//decoder configuration before the first video tag arrives.
-		meta, videoHdr, audioHdr := room.snapshotHeaders()
-		if meta != nil {
-			mb := MessageBase{
-				rtmp:          rtmp,
-				messageTime:   meta.GetTagInfo().TimeStamp,
-				messageLength: meta.GetTagInfo().DataSize,
-				messageType:   MessageType(meta.GetTagInfo().TagType),
-			}
-			_ = NewDataMessage(mb, meta).Send()
-		}
-		if videoHdr != nil {
-			mb := MessageBase{
-				rtmp:          rtmp,
-				messageTime:   videoHdr.GetTagInfo().TimeStamp,
-				messageLength: videoHdr.GetTagInfo().DataSize,
-				messageType:   MessageType(videoHdr.GetTagInfo().TagType),
-			}
-			_ = NewVideoMessage(mb, videoHdr).Send()
-		}
-		if audioHdr != nil {
-			mb := MessageBase{
-				rtmp:          rtmp,
-				messageTime:   audioHdr.GetTagInfo().TimeStamp,
-				messageLength: audioHdr.GetTagInfo().DataSize,
-				messageType:   MessageType(audioHdr.GetTagInfo().TagType),
-			}
-			_ = NewAudioMessage(mb, audioHdr).Send()
-		}
-
 		var err error
-		gopReader := broadcast.NewBroadcastReader(room.GOP)
+		gopReader := NewGOPReader(room.GOP)
 		for {
 			p, alive := gopReader.Read()
 			if !alive {
@@ -151,25 +117,7 @@ func (room *Room) FLVJoin(writer easyio.EasyWriter) {
 		return
 	}
 
-	//Backfill cached sequence headers for mid-GOP joiners.
-	meta, videoHdr, audioHdr := room.snapshotHeaders()
-	if meta != nil {
-		if err := writer.WriteFull(libflv.FLVWrite(meta)); err != nil {
-			return
-		}
-	}
-	if videoHdr != nil {
-		if err := writer.WriteFull(libflv.FLVWrite(videoHdr)); err != nil {
-			return
-		}
-	}
-	if audioHdr != nil {
-		if err := writer.WriteFull(libflv.FLVWrite(audioHdr)); err != nil {
-			return
-		}
-	}
-
-	gopReader := broadcast.NewBroadcastReader(room.GOP)
+	gopReader := NewGOPReader(room.GOP)
 	for {
 		p, alive := gopReader.Read()
 		if !alive {
diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 0869d36..2ced8e7 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -266,9 +266,10 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	}
 	vt.DataSize = uint32(len(vt.Data()))
 	if frameType == libflv.KEY_FRAME {
-		s.publishRTMP.room.GOP.Reset()
+		s.publishRTMP.room.GOP.WriteKey(vt)
+	} else {
+		s.publishRTMP.room.GOP.Write(vt)
 	}
-	s.publishRTMP.room.GOP.Write(vt)
 }
 
 func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 53edd91..1dab6cb 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -11,7 +11,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/librtsp"
 )
@@ -407,7 +406,7 @@ func (s *rtspSession) streamLoop(room *Room) {
 		s.sendVideoSeqHeader(videoHdr)
 	}
 
-	gopReader := broadcast.NewBroadcastReader(room.GOP)
+	gopReader := NewGOPReader(room.GOP)
 	for atomic.LoadInt32(&s.playing) == 1 {
 		p, alive := gopReader.Read()
 		if !alive {
diff --git a/librtmp/server.go b/librtmp/server.go
index 0189165..e859264 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -13,7 +13,6 @@ import (
 	"sync"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libdash"
@@ -363,7 +362,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
 				hls = libhls.NewHls().WithStreamID(roomID).WithDir(app.hlsDir)
 				app.StoreHLS(roomID, hls)
-				go hls.Start(broadcast.NewBroadcastReader(room.GOP))
+				go hls.Start(NewGOPReader(room.GOP))
 				hls.WaitFirstSegment()
 			} else {
 				w.WriteHeader(http.StatusNotFound)
@@ -381,7 +380,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			if dash == nil && app.dashEnabled {
 				dash = libdash.NewDASH().WithStreamID(roomID).WithDir(app.dashDir)
 				app.StoreDASH(roomID, dash)
-				go dash.Start(broadcast.NewBroadcastReader(room.GOP))
+				go dash.Start(NewGOPReader(room.GOP))
 				dash.WaitFirstSegment()
 			}
 			if dash == nil {
diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 9f2c329..260e0b0 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -163,9 +163,10 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 	}
 	vt.DataSize = uint32(len(vt.Data()))
 	if au.Key {
-		br.room.GOP.Reset()
+		br.room.GOP.WriteKey(vt)
+	} else {
+		br.room.GOP.Write(vt)
 	}
-	br.room.GOP.Write(vt)
 }
 
 // onAudio converts an ADTS-prefixed AAC frame into one FLV audio tag.
diff --git a/librtmp/video.go b/librtmp/video.go
index 5ec3ad6..ef55807 100644
--- a/librtmp/video.go
+++ b/librtmp/video.go
@@ -90,8 +90,7 @@ func (vm *VideoMessage) Do() (err error) {
 			vm.rtmp.room.setVideoSequenceHeader(vm.videoTag)
 			vm.rtmp.room.GOP.WriteMeta(vm.videoTag)
 		} else {
-			vm.rtmp.room.GOP.Reset()
-			vm.rtmp.room.GOP.Write(vm.videoTag)
+			vm.rtmp.room.GOP.WriteKey(vm.videoTag)
 		}
 		fmt.Printf("write packet video :%+v\n", vm.videoTag)
 	} else {
-- 
2.43.0


From 1aa3d6c23ba59df7ff1a8c080ad49e9595967c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 02/67] fix: reassemble interleaved RTMP chunk streams
 separately

ParseMessage appended every chunk to one message whatever chunk stream it
came on, so interleaved messages were merged. Abort dropped the header
history of the chunk stream instead of the partial message.
---
 librtmp/chunk.go           | 6 ++++++
 librtmp/control_message.go | 2 +-
 librtmp/message.go         | 9 +++++++--
 librtmp/rtmp.go            | 1 +
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index c5e66c1..9b97bc5 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -175,6 +175,12 @@ func ParseChunk(rtmp *RTMP, message Message) (cp *Chunk, err error) {
 		return nil, err
 	}
 
+	if message == nil {
+		//Chunks of different chunk streams may interleave; this one
+		//continues whatever its own chunk stream has begun.
+		message = rtmp.partial[basicHeader.CsID]
+	}
+
 	messageHeader, err := parseChunkMessageHeader(rtmp, basicHeader, message == nil)
 	if err != nil {
 		return nil, err
diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index a1dd3a2..25725ae 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -279,7 +279,7 @@ func (am *AbortMessage) Parse() (err error) {
 func (am *AbortMessage) Do() error {
 	//Drop any partial message on the indicated chunk stream so the next
 	//chunk on that CSID starts a fresh message.
-	delete(am.rtmp.lastChunk, am.ChunkStreamID)
+	delete(am.rtmp.partial, am.ChunkStreamID)
 	return nil
 }
 
diff --git a/librtmp/message.go b/librtmp/message.go
index f9d56a3..a062a27 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -117,11 +117,12 @@ func ParseMessage(rtmp *RTMP) (err error) {
 
 	//read message payload from many chunks
 	for {
-		chunk, err = ParseChunk(rtmp, message)
+		chunk, err = ParseChunk(rtmp, nil)
 		if err != nil {
 			return err
 		}
 
+		message = rtmp.partial[chunk.CsID]
 		if message == nil {
 			mb := MessageBase{
 				rtmp:            rtmp,
@@ -130,7 +131,6 @@ func ParseMessage(rtmp *RTMP) (err error) {
 				messageType:     chunk.MessageType,
 				messageStreamID: chunk.MessageStreamID,
 				amf:             libamf.AMF0,
-				messagePayload:  make([]byte, 0, chunk.MessageLength),
 			}
 
 			switch chunk.MessageType {
@@ -185,8 +185,13 @@ func ParseMessage(rtmp *RTMP) (err error) {
 
 		message.Append(chunk)
 		if message.Done() {
+			delete(rtmp.partial, chunk.CsID)
 			break
 		}
+		if rtmp.partial == nil {
+			rtmp.partial = make(map[uint32]Message)
+		}
+		rtmp.partial[chunk.CsID] = message
 	}
 
 	//Track inbound bytes so we can send Window Acknowledgement messages
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index cc9ffc9..70db840 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -12,6 +12,7 @@ type RTMP struct {
 	readerConn       easyio.EasyReader
 	writerConn       easyio.EasyWriter
 	lastChunk        map[uint32]*Chunk //csid
+	partial          map[uint32]Message //csid, messages still being reassembled
 	peerMaxChunkSize uint32
 	ownMaxChunkSize  int
 	peer             string
-- 
2.43.0


From 2fa90c4ed1199617b7e3613df097246c9c1d7b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 03/67] fix: reject malformed RTMP messages instead of crashing

A message whose Parse failed was still executed, and short control
messages or commands with unexpected AMF types panicked, which took the
whole server down.
---
 librtmp/command_message.go | 11 +++++++++--
 librtmp/control_message.go |  9 +++++++++
 librtmp/message.go         |  6 ++++--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index de52718..ba4bac4 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -116,8 +116,15 @@ func (cm *CommandMessage) Parse() (err error) {
 		fmt.Println("index:", index, " a.type:", reflect.TypeOf(a), " a.Value:", reflect.ValueOf(a))
 	}
 
-	cm.CommandName = array[0].(string)
-	cm.TranscationID = int(array[1].(float64))
+	var ok bool
+	if cm.CommandName, ok = array[0].(string); !ok {
+		return errors.New("invalid command name")
+	}
+	txn, ok := array[1].(float64)
+	if !ok {
+		return errors.New("invalid transaction id")
+	}
+	cm.TranscationID = int(txn)
 	switch cm.CommandName {
 	case CONNECT:
 		_ = array[2]
diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index 25725ae..deca92b 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -44,6 +44,9 @@ func (wasm *WindowAcknowledgeSizeMessage) Send() (err error) {
 }
 
 func (wasm *WindowAcknowledgeSizeMessage) Parse() (err error) {
+	if len(wasm.messagePayload) < 4 {
+		return fmt.Errorf("WindowAcknowledgementSize payload too short: %d", len(wasm.messagePayload))
+	}
 	wasm.AcknowledgementWindowSize = binary.BigEndian.Uint32(wasm.messagePayload)
 	fmt.Println("windowAcknowledgeSize:", wasm.AcknowledgementWindowSize)
 	return nil
@@ -232,7 +235,13 @@ func (scsm *SetChunkSizeMessage) Send() error {
 }
 
 func (scsm *SetChunkSizeMessage) Parse() (err error) {
+	if len(scsm.messagePayload) < 4 {
+		return fmt.Errorf("SetChunkSize payload too short: %d", len(scsm.messagePayload))
+	}
 	scsm.NewChunkSize = binary.BigEndian.Uint32(scsm.messagePayload)
+	if scsm.NewChunkSize == 0 {
+		return fmt.Errorf("invalid chunk size: 0")
+	}
 	fmt.Println("new chunk size of peer::", scsm.NewChunkSize)
 	return nil
 }
diff --git a/librtmp/message.go b/librtmp/message.go
index a062a27..e310453 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/pkg/errors"
 )
 
@@ -206,7 +205,10 @@ func ParseMessage(rtmp *RTMP) (err error) {
 		}
 	}
 
-	return easyerrors.HandleMultiError(easyerrors.Simple(), message.Parse(), message.Do())
+	if err = message.Parse(); err != nil {
+		return err
+	}
+	return message.Do()
 }
 
 // DiscardMessage consumes (and drops) a message whose type we don't
-- 
2.43.0


From 52a7a12a8e3cf7939d5c97b735bc751bec5c870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:52 +0000
Subject: [PATCH 04/67] fix: pass script data on as published

Metadata was rebuilt from a fixed set of fields, so every other property
was lost, and a property of an unexpected type (numeric audiochannels, as
OBS sends) disconnected the publisher. Script data other than onMetaData
replaced the stream's metadata.
---
 libflv/meta.go          | 57 ++++++++++++++++++++++++-----------------
 librtmp/data_message.go |  6 +++++
 2 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/libflv/meta.go b/libflv/meta.go
index f8c299f..d29c32e 100644
--- a/libflv/meta.go
+++ b/libflv/meta.go
@@ -2,6 +2,7 @@ package libflv
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 
@@ -10,13 +11,13 @@ import (
 	"github.com/sbraveyoung/GGmpeg/libamf"
 	"github.com/fatih/structs"
 	"github.com/goinggo/mapstructure"
-	"github.com/pkg/errors"
 )
 
 type MetaTag struct {
 	TagBase         `structs:"-"`
 	FirstField      string  `structs:"-"`
 	SecondField     string  `structs:"-"`
+	body            []byte  //as published, without @setDataFrame
 	AudioChannels   string  `mapstructure:"audiochannels" structs:"audiochannels"`
 	AudioCodecID    float64 `mapstructure:"audiocodecid" structs:"audiocodecid"`
 	AudioDataRate   int     `mapstructure:"audiodatarate" structs:"audiodatarate"`
@@ -48,38 +49,43 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 		return nil, err
 	}
 
+	if len(array) == 0 {
+		return nil, errors.New("invalid onMetaData payload")
+	}
+
 	meta = &MetaTag{TagBase: tb}
 	//Publishers emit data messages in two shapes:
 	//  - [string "onMetaData", ecma-array]
 	//  - [string "@setDataFrame", string "onMetaData", ecma-array]
-	//Canonicalise to always keep the onMetaData string in SecondField
-	//and the properties array in the last slot.
-	var props interface{}
-	switch {
-	case len(array) >= 3:
-		if s, ok := array[0].(string); ok {
-			meta.FirstField = s
-		}
-		if s, ok := array[1].(string); ok {
-			meta.SecondField = s
-		}
-		props = array[2]
-	case len(array) == 2:
-		if s, ok := array[0].(string); ok {
-			meta.SecondField = s
-		}
-		props = array[1]
-	default:
+	//Canonicalise to always keep the onMetaData string in SecondField.
+	//Any other script data (onTextData, ...) has the first shape.
+	meta.body = append([]byte(nil), b...)
+	if s, ok := array[0].(string); ok && s == "@setDataFrame" {
+		meta.FirstField = s
+		//marker, 16-bit length, the string itself
+		meta.body = meta.body[3+len(s):]
+		array = array[1:]
+	}
+	if len(array) == 0 {
 		return meta, errors.New("invalid onMetaData payload")
 	}
-
-	if props != nil {
-		if err = mapstructure.Decode(props, meta); err != nil {
+	if s, ok := array[0].(string); ok {
+		meta.SecondField = s
+	}
+	if len(array) >= 2 && meta.SecondField == "onMetaData" && array[1] != nil {
+		//Encoders disagree about the types of many properties; one that
+		//does not fit its field is no reason to reject the stream.
+		if err := mapstructure.Decode(array[1], meta); err != nil {
 			fmt.Printf("decode data error, err:%+v\n", err)
-			err = errors.Wrap(err, "mapstructure.Decode data")
 		}
+		meta.TagBase = tb //a property may be named like one of its fields
 	}
-	return meta, err
+	return meta, nil
+}
+
+// IsMetaData tells stream metadata from other script data.
+func (mt *MetaTag) IsMetaData() bool {
+	return mt.SecondField == "" || mt.SecondField == "onMetaData"
 }
 
 // Marshal serialises the metadata tag body in the form FLV players
@@ -88,6 +94,9 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 // verb, not part of the FLV script-data tag format, so we drop
 // FirstField even when Parse observed one.)
 func (mt *MetaTag) Marshal() (b []byte) {
+	if mt.body != nil {
+		return mt.body
+	}
 	buf := bytes.NewBuffer([]byte{})
 	writer := easyio.NewEasyWriter(buf)
 	amf := libamf.AMF0
diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index 9cb28d8..ccf4139 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -67,6 +67,12 @@ func (dm *DataMessage) Do() (err error) {
 	if dm.rtmp.room == nil {
 		return nil
 	}
+	if !dm.metaTag.IsMetaData() {
+		//Captions, cue points, ...: part of the stream, not its
+		//configuration.
+		dm.rtmp.room.GOP.Write(dm.metaTag)
+		return nil
+	}
 	dm.rtmp.room.setMeta(dm.metaTag)
 	dm.rtmp.room.GOP.WriteMeta(dm.metaTag)
 	fmt.Printf("write packet data :%+v\n", dm.metaTag)
-- 
2.43.0


From 75fc1c198fc22c4e5afd662533760bb6dc7084fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 05/67] fix: decode nested AMF0 objects and ECMA arrays by
 their end marker

---
 libamf/amf0.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index d58787c..5be4bd7 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -201,7 +201,13 @@ func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
 		return p, err
 	}
 	if p.key == "" {
-		return p, nil
+		//the empty key and the object end marker close the object; a nested
+		//one must not leave the marker to the object around it
+		_, err = r.ReadN(1)
+		if err == io.EOF {
+			err = nil
+		}
+		return p, err
 	}
 
 	_, p.value, err = decodeamf0(r)
@@ -223,10 +229,11 @@ func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err e
 		return res, err
 	}
 
+	//length is only a hint: encoders also send 0 or an outdated count, the
+	//array ends with the object end marker: 00 00 09
 	res = make(map[string]interface{})
-	var i uint32
 	var p *pair
-	for i = 0; i <= length; i++ { //length: 00 00 09
+	for {
 		p, err = readPairamf0(r)
 		if err != nil {
 			return res, err
-- 
2.43.0


From 0cfa57483b2cc0bf8bc576c03e7f9a969375ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 06/67] fix: one publisher per stream, and only it can feed the
 stream

Two publishers racing for a name were both accepted, a connection
publishing twice (or playing after publishing) leaked its first stream,
and media sent by a player was broadcast to the stream it played.
---
 librtmp/app.go             | 16 ++++++++++++++++
 librtmp/client.go          |  6 +++---
 librtmp/command_message.go | 19 +++++++++++--------
 librtmp/room.go            |  1 +
 librtmp/rtmp.go            |  9 ++-------
 librtmp/rtsp_ingest.go     | 12 +++++-------
 librtmp/srt_server.go      |  9 ++++-----
 7 files changed, 42 insertions(+), 30 deletions(-)

diff --git a/librtmp/app.go b/librtmp/app.go
index b336523..6f18e21 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -42,6 +42,22 @@ func (app *App) Store(roomID string, room *Room) {
 	app.rooms.Store(roomID, room)
 }
 
+// publish makes room the one stream of its name. It reports false, and
+// changes nothing, when the name is taken.
+func (app *App) publish(room *Room) bool {
+	room.app = app
+	_, taken := app.rooms.LoadOrStore(room.RoomID, room)
+	return !taken
+}
+
+// unpublish ends a published room and frees its name.
+func (app *App) unpublish(room *Room) {
+	if app.Load(room.RoomID) == room {
+		app.Delete(room.RoomID)
+	}
+	room.Close()
+}
+
 func (app *App) Delete(roomID string) {
 	if h, ok := app.hls.LoadAndDelete(roomID); ok {
 		if hls, ok := h.(*libhls.HLS); ok {
diff --git a/librtmp/client.go b/librtmp/client.go
index 8f0f29b..81d2e76 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -59,13 +59,13 @@ func (pc *PullClient) Run() error {
 		_ = conn.Close()
 		return fmt.Errorf("local app %q not configured", pc.spec.app)
 	}
-	if existing := app.Load(pc.spec.streamID); existing != nil {
+	room := NewRoom(rtmp, pc.spec.streamID)
+	if !app.publish(room) {
 		_ = conn.Close()
 		return fmt.Errorf("local stream %q already publishing", pc.spec.streamID)
 	}
 	rtmp.app = pc.spec.app
-	rtmp.room = NewRoom(rtmp, pc.spec.streamID)
-	app.Store(pc.spec.streamID, rtmp.room)
+	rtmp.room = room
 	//We act as publisher into the local broadcast — when the upstream
 	//disconnects, cleanup() should tear the local room down so HLS /
 	//FLV viewers exit cleanly.
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index ba4bac4..d524d22 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -245,9 +245,11 @@ func (cm *CommandMessage) Do() (err error) {
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
-		if existing := app.Load(cm.PublishingName); existing != nil {
+		room := NewRoom(cm.rtmp, cm.PublishingName)
+		if cm.rtmp.room != nil || !app.publish(room) {
 			//Refuse a second publish to the same stream — replacing the
-			//publisher mid-stream would desync every viewer.
+			//publisher mid-stream would desync every viewer — and a
+			//second stream on the same connection.
 			return (&CommandMessageResponse{
 				MessageBase:     cm.MessageBase,
 				CommandName:     cm.CommandName,
@@ -260,9 +262,8 @@ func (cm *CommandMessage) Do() (err error) {
 				},
 			}).Send()
 		}
-		cm.rtmp.room = NewRoom(cm.rtmp, cm.PublishingName)
+		cm.rtmp.room = room
 		cm.rtmp.role = rolePublisher
-		app.Store(cm.PublishingName, cm.rtmp.room)
 
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
@@ -292,8 +293,8 @@ func (cm *CommandMessage) Do() (err error) {
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
-		cm.rtmp.room = app.Load(cm.PublishingName)
-		if cm.rtmp.room == nil {
+		room := app.Load(cm.PublishingName)
+		if room == nil {
 			return (&CommandMessageResponse{
 				MessageBase:     cm.MessageBase,
 				CommandName:     cm.CommandName,
@@ -306,8 +307,10 @@ func (cm *CommandMessage) Do() (err error) {
 				},
 			}).Send()
 		}
-		cm.rtmp.role = rolePlayer
-		cm.rtmp.room.RTMPJoin(cm.rtmp)
+		if cm.rtmp.room == nil {
+			cm.rtmp.role = rolePlayer
+		}
+		room.RTMPJoin(cm.rtmp)
 
 		err1 = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
diff --git a/librtmp/room.go b/librtmp/room.go
index 653023a..9fd3938 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -13,6 +13,7 @@ type Room struct {
 	RoomID    string
 	Publisher *RTMP
 	GOP       *GOP
+	app       *App //where it is published
 
 	// Cached sequence headers, for RTSP DESCRIBE. Populated by the
 	// publisher whenever it emits them; subscribers get theirs from
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 70db840..43ecdde 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -17,7 +17,7 @@ type RTMP struct {
 	ownMaxChunkSize  int
 	peer             string
 	app              string
-	room             *Room
+	room             *Room //the stream this connection publishes
 	server           *server
 	playType         string
 	role             connRole
@@ -100,12 +100,7 @@ func (rtmp *RTMP) cleanup() {
 	if rtmp.room == nil {
 		return
 	}
-	if rtmp.role == rolePublisher {
-		if app, ok := rtmp.server.apps[rtmp.app]; ok {
-			app.Delete(rtmp.room.RoomID)
-		}
-		rtmp.room.Close()
-	}
+	rtmp.room.app.unpublish(rtmp.room)
 	rtmp.room = nil
 }
 
diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 2ced8e7..5d84846 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -41,12 +41,6 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		resp.Reason = "Not Found"
 		return resp
 	}
-	if a.Load(room) != nil {
-		resp.StatusCode = 461
-		resp.Reason = "Stream Already Publishing"
-		return resp
-	}
-
 	parsed, err := librtsp.ParseSDP(req.Body)
 	if err != nil {
 		resp.StatusCode = 400
@@ -64,7 +58,11 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		app:    app,
 	}
 	rtmp.room = NewRoom(rtmp, room)
-	a.Store(room, rtmp.room)
+	if s.publishRTMP != nil || !a.publish(rtmp.room) {
+		resp.StatusCode = 461
+		resp.Reason = "Stream Already Publishing"
+		return resp
+	}
 
 	s.app, s.streamID = app, room
 	s.ingest = &rtspIngest{
diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 260e0b0..6c2a25a 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -75,10 +75,6 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 			br.mu.Unlock()
 			return fmt.Errorf("srt: app %q missing", br.spec.app)
 		}
-		if app.Load(br.spec.streamID) != nil {
-			br.mu.Unlock()
-			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
-		}
 		//Pseudo-publisher RTMP struct so cleanup paths match.
 		ps := &RTMP{
 			peer:   "srt://" + br.spec.address,
@@ -87,8 +83,11 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 			app:    br.spec.app,
 		}
 		ps.room = NewRoom(ps, br.spec.streamID)
+		if !app.publish(ps.room) {
+			br.mu.Unlock()
+			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
+		}
 		br.room = ps.room
-		app.Store(br.spec.streamID, br.room)
 	}
 	br.mu.Unlock()
 	br.demux.Feed(payload)
-- 
2.43.0


From acb38e44431717d76c3a2ee0c60191c241ea969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 07/67] fix: keep WebSocket frames whole and bounded

---
 librtmp/server.go    |  8 ++++++++
 librtmp/websocket.go | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index e859264..31597e8 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -269,6 +269,14 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 			select {
 			case <-stop:
 			case <-done:
+				//Closing with client frames unread would reset the
+				//connection, and the client could lose the end of the
+				//stream.
+				_ = ws.writeFrame(wsOpClose, nil)
+				select {
+				case <-stop:
+				case <-time.After(wsCloseTimeout):
+				}
 			}
 			return
 		}
diff --git a/librtmp/websocket.go b/librtmp/websocket.go
index 7506a9b..35e9d50 100644
--- a/librtmp/websocket.go
+++ b/librtmp/websocket.go
@@ -11,6 +11,8 @@ import (
 	"net"
 	"net/http"
 	"strings"
+	"sync"
+	"time"
 )
 
 // Minimal RFC 6455 server implementation. Covers exactly what flv.js
@@ -41,8 +43,20 @@ const (
 type wsConn struct {
 	conn net.Conn
 	br   *bufio.Reader
+
+	mu  sync.Mutex //one frame at a time
+	err error      //why nothing more can be written
 }
 
+const (
+	//The largest client frame we are ready to buffer.
+	wsMaxFrame = 1 << 20
+	//Control frames carry at most this much (§5.5).
+	wsMaxControl = 125
+	//How long a closing connection waits for its client.
+	wsCloseTimeout = time.Second
+)
+
 // upgradeWebSocket performs the HTTP/1.1 Upgrade handshake against
 // w/r and returns a connection that can be used to send binary frames.
 // The caller is responsible for hijacking and closing the underlying
@@ -109,14 +123,19 @@ func (ws *wsConn) writeFrame(op wsOpcode, payload []byte) error {
 		header = append(header, ln[:]...)
 	}
 
-	if _, err := ws.conn.Write(header); err != nil {
+	ws.mu.Lock()
+	defer ws.mu.Unlock()
+	if ws.err != nil {
+		return ws.err
+	}
+	if _, err := ws.conn.Write(append(header, payload...)); err != nil {
+		ws.err = err
 		return err
 	}
-	if len(payload) == 0 {
-		return nil
+	if op == wsOpClose {
+		ws.err = errors.New("websocket closed")
 	}
-	_, err := ws.conn.Write(payload)
-	return err
+	return nil
 }
 
 // readFrame reads one frame. It transparently unmasks the payload (all
@@ -155,6 +174,9 @@ func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 		}
 	}
 
+	if plen > wsMaxFrame || (op >= wsOpClose && plen > wsMaxControl) {
+		return 0, nil, fmt.Errorf("frame of %d bytes is too large", plen)
+	}
 	payload := make([]byte, plen)
 	if _, err := io.ReadFull(ws.br, payload); err != nil {
 		return 0, nil, err
@@ -176,6 +198,7 @@ func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 // Close sends a close frame (best-effort) and tears down the TCP
 // connection.
 func (ws *wsConn) Close() error {
+	_ = ws.conn.SetWriteDeadline(time.Now().Add(wsCloseTimeout))
 	_ = ws.writeFrame(wsOpClose, nil)
 	return ws.conn.Close()
 }
-- 
2.43.0


From a5a741d8c862cad32384d99216f683c769ea81cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 08/67] fix: acknowledge every byte received, play one stream
 at a time, close finished connections

---
 librtmp/gop.go     | 30 ++++++++++++++++++++++--------
 librtmp/message.go | 26 +++++++++++++++-----------
 librtmp/room.go    |  8 ++++++--
 librtmp/rtmp.go    | 45 +++++++++++++++++++++++++++++++++++++--------
 4 files changed, 80 insertions(+), 29 deletions(-)

diff --git a/librtmp/gop.go b/librtmp/gop.go
index 221150c..b2f5571 100644
--- a/librtmp/gop.go
+++ b/librtmp/gop.go
@@ -122,14 +122,28 @@ func (g *GOP) DisAlive() {
 
 // GOPReader is one subscriber's position in a GOP broadcast.
 type GOPReader struct {
-	gop   *GOP
-	group *gopGroup
-	index int
-	sent  gopConfig
+	gop    *GOP
+	group  *gopGroup
+	index  int
+	sent   gopConfig
+	closed bool
 }
 
+// NewGOPReader subscribes to the broadcast, starting with the current
+// group.
 func NewGOPReader(gop *GOP) *GOPReader {
-	return &GOPReader{gop: gop}
+	gop.mu.Lock()
+	defer gop.mu.Unlock()
+	return &GOPReader{gop: gop, group: gop.cur}
+}
+
+// Close ends the subscription: Read, also one that is waiting, returns
+// alive=false.
+func (r *GOPReader) Close() {
+	r.gop.mu.Lock()
+	defer r.gop.mu.Unlock()
+	r.closed = true
+	r.gop.cond.Broadcast()
 }
 
 // Read returns the next tag, blocking until there is one. alive is
@@ -138,10 +152,10 @@ func (r *GOPReader) Read() (p interface{}, alive bool) {
 	g := r.gop
 	g.mu.Lock()
 	defer g.mu.Unlock()
-	if r.group == nil {
-		r.group = g.cur
-	}
 	for {
+		if r.closed {
+			return nil, false
+		}
 		if r.index == 0 {
 			//Bring the reader up to date with the configuration the
 			//group starts with.
diff --git a/librtmp/message.go b/librtmp/message.go
index e310453..e1129eb 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -120,6 +120,7 @@ func ParseMessage(rtmp *RTMP) (err error) {
 		if err != nil {
 			return err
 		}
+		rtmp.acknowledge()
 
 		message = rtmp.partial[chunk.CsID]
 		if message == nil {
@@ -193,22 +194,25 @@ func ParseMessage(rtmp *RTMP) (err error) {
 		rtmp.partial[chunk.CsID] = message
 	}
 
-	//Track inbound bytes so we can send Window Acknowledgement messages
-	//on schedule. The sequence number is the cumulative count received.
-	rtmp.bytesReceived += message.GetInfo().messageLength
-	if rtmp.peerWindowAckSize > 0 && rtmp.bytesReceived-rtmp.lastAcked >= rtmp.peerWindowAckSize {
-		ack := NewAcknowledgeMessage(MessageBase{rtmp: rtmp}, rtmp.bytesReceived)
+	if err = message.Parse(); err != nil {
+		return err
+	}
+	return message.Do()
+}
+
+// acknowledge sends a Window Acknowledgement when the peer's window has
+// been received since the last one. The sequence number is the cumulative
+// count of bytes received.
+func (rtmp *RTMP) acknowledge() {
+	received := rtmp.bytesReceived
+	if rtmp.peerWindowAckSize > 0 && received-rtmp.lastAcked >= rtmp.peerWindowAckSize {
+		ack := NewAcknowledgeMessage(MessageBase{rtmp: rtmp}, received)
 		if sendErr := ack.Send(); sendErr == nil {
-			rtmp.lastAcked = rtmp.bytesReceived
+			rtmp.lastAcked = received
 		} else {
 			fmt.Println("send acknowledgement error:", sendErr)
 		}
 	}
-
-	if err = message.Parse(); err != nil {
-		return err
-	}
-	return message.Do()
 }
 
 // DiscardMessage consumes (and drops) a message whose type we don't
diff --git a/librtmp/room.go b/librtmp/room.go
index 9fd3938..c508fcb 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -74,11 +74,15 @@ func (room *Room) Close() {
 	room.GOP.DisAlive()
 }
 
-//player join the room
+//player join the room, leaving the one it is in
 func (room *Room) RTMPJoin(rtmp *RTMP) {
+	rtmp.leave()
+	gopReader := NewGOPReader(room.GOP)
+	done := make(chan struct{})
+	rtmp.playing, rtmp.playDone = gopReader, done
 	go func() {
+		defer close(done)
 		var err error
-		gopReader := NewGOPReader(room.GOP)
 		for {
 			p, alive := gopReader.Read()
 			if !alive {
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 43ecdde..d0919b7 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -9,6 +9,7 @@ import (
 )
 
 type RTMP struct {
+	conn             net.Conn
 	readerConn       easyio.EasyReader
 	writerConn       easyio.EasyWriter
 	lastChunk        map[uint32]*Chunk //csid
@@ -21,6 +22,8 @@ type RTMP struct {
 	server           *server
 	playType         string
 	role             connRole
+	playing          *GOPReader    //what this connection plays
+	playDone         chan struct{} //closed when it has stopped playing
 
 	// Peer-advertised flow control state.
 	peerWindowAckSize  uint32
@@ -53,8 +56,8 @@ const (
 )
 
 func NewRTMP(conn net.Conn, peer string, server *server) (rtmp *RTMP) {
-	return &RTMP{
-		readerConn:       easyio.NewEasyReader(conn),
+	rtmp = &RTMP{
+		conn:             conn,
 		writerConn:       easyio.NewEasyWriter(conn),
 		lastChunk:        make(map[uint32]*Chunk),
 		peerMaxChunkSize: 128,
@@ -63,6 +66,20 @@ func NewRTMP(conn net.Conn, peer string, server *server) (rtmp *RTMP) {
 		server:           server,
 		ownWindowAckSize: 2500000,
 	}
+	rtmp.readerConn = easyio.NewEasyReader(&countingReader{r: conn, n: &rtmp.bytesReceived})
+	return rtmp
+}
+
+// countingReader counts the bytes read from the peer.
+type countingReader struct {
+	r io.Reader
+	n *uint32
+}
+
+func (cr *countingReader) Read(b []byte) (n int, err error) {
+	n, err = cr.r.Read(b)
+	*cr.n += uint32(n)
+	return n, err
 }
 
 func (rtmp *RTMP) HandlerServer() {
@@ -73,6 +90,7 @@ func (rtmp *RTMP) HandlerServer() {
 		fmt.Println("handshake error:", err)
 		return
 	}
+	rtmp.bytesReceived = 0 //the handshake does not count
 	fmt.Println("handshake done...")
 
 	for {
@@ -91,17 +109,27 @@ func (rtmp *RTMP) HandlerServer() {
 	}
 }
 
-// cleanup releases any room state the connection owned. For publishers
+// cleanup releases everything the connection owned. For publishers
 // it closes the GOP broadcast so every subscriber (RTMP/FLV/HLS) wakes
 // up with alive=false and exits its read loop; it also removes the
-// room from the owning App. For players it's a no-op — their goroutine
-// observes the closed broadcast on its own.
+// room from the owning App. For players it ends their subscription.
 func (rtmp *RTMP) cleanup() {
-	if rtmp.room == nil {
+	if rtmp.room != nil {
+		rtmp.room.app.unpublish(rtmp.room)
+		rtmp.room = nil
+	}
+	_ = rtmp.conn.Close()
+	rtmp.leave()
+}
+
+// leave stops playing and waits until nothing more will be sent.
+func (rtmp *RTMP) leave() {
+	if rtmp.playing == nil {
 		return
 	}
-	rtmp.room.app.unpublish(rtmp.room)
-	rtmp.room = nil
+	rtmp.playing.Close()
+	<-rtmp.playDone
+	rtmp.playing = nil
 }
 
 // HandlerClient connects outbound: handshakes as client, sends
@@ -116,6 +144,7 @@ func (rtmp *RTMP) HandlerClient() {
 		fmt.Println("client handshake error:", err)
 		return
 	}
+	rtmp.bytesReceived = 0
 
 	if err := rtmp.runClientCommands(); err != nil {
 		fmt.Println("client command error:", err)
-- 
2.43.0


From 172aa5c53ccdc8942a0402070a42c9f7e9256ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:50 +0000
Subject: [PATCH 09/67] fix: stuff short TS packets with an adaptation field of
 the right length

A PES that ended within 8 bytes of a full packet, or a key frame that fit
its first packet, was written with an invalid adaptation field or padded
after its payload.
---
 libmpeg/ts.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libmpeg/ts.go b/libmpeg/ts.go
index 82a3ce3..2fd3069 100644
--- a/libmpeg/ts.go
+++ b/libmpeg/ts.go
@@ -127,7 +127,8 @@ func (af *AdaptationField) Parse(reader easyio.EasyReader) (err error) {
 
 func (af *AdaptationField) Marshal(writer easyio.EasyWriter) (n uint8, err error) {
 	if af.AdaptationFieldLength < 1 {
-		return 0, fmt.Errorf("invalid1 AdaptationFieldLength:%d", af.AdaptationFieldLength)
+		//a single byte of stuffing
+		return 1, writer.WriteFull([]byte{0x00})
 	}
 
 	b := make([]byte, 0, af.AdaptationFieldLength+1)
@@ -264,13 +265,18 @@ func (ts *TS) Mux(psi PSI, firstTSofKeyFrame bool, dts uint64, writer easyio.Eas
 		var headerSize uint8 = 4 //ts header
 		if firstTSofKeyFrame {
 			headerSize += 8 //adaptation length
-		} else {
-			ts.AdaptationField = &AdaptationField{}
 		}
 
+		//A payload that does not fill the packet is preceded by an
+		//adaptation field as long as the gap, or the PCR's grows by it.
 		if remain := psi.Remain(); remain < int(writable-headerSize) {
-			ts.AdaptationFieldExist |= 0x02
-			ts.AdaptationField.AdaptationFieldLength = uint8(int(writable-headerSize) - remain - 1)
+			stuffing := uint8(int(writable-headerSize) - remain)
+			if firstTSofKeyFrame {
+				ts.AdaptationField.AdaptationFieldLength += stuffing
+			} else {
+				ts.AdaptationFieldExist |= 0x02
+				ts.AdaptationField = &AdaptationField{AdaptationFieldLength: stuffing - 1}
+			}
 		}
 	}
 
-- 
2.43.0


From fcbd6b70b5596abb921c0ec1ad0d93635ecc2b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:50 +0000
Subject: [PATCH 10/67] fix: keep only the latest H.264 parameter sets, without
 trailing record bytes

Every repeated sequence header was appended to the parameter sets put in
front of each key frame, and what follows the PPS in the decoder
configuration record was taken for part of it.
---
 libavc/avc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libavc/avc.go b/libavc/avc.go
index 017a5f5..7720b57 100644
--- a/libavc/avc.go
+++ b/libavc/avc.go
@@ -98,10 +98,10 @@ func (parser *Parser) ParseSpecificInfo(src []byte) error {
 	}
 
 	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
+	pps = append(pps, tmpBuf[3:3+seq.ppsLen]...)
 
-	parser.SpecificInfo = append(parser.SpecificInfo, sps...)
-	parser.SpecificInfo = append(parser.SpecificInfo, pps...)
+	//It replaces the parameter sets of an earlier sequence header.
+	parser.SpecificInfo = append(sps, pps...)
 
 	return nil
 }
-- 
2.43.0


From 82292cddf5325c6ba2bf45a63bff96426d39bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 11/67] fix: HLS timestamps past 2^32 ticks, negative
 composition offsets, full segment durations

Timestamps were multiplied by 90 in 32 bits, so they fell back after
13.25 hours; a negative composition offset became a huge one; and EXTINF
left out the last frame of each segment.
---
 libhls/hls.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index d16ccbe..520ec74 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -411,7 +411,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			pid = libmpeg.AUDIO_PID
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.AUDIO_PID]
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
 			pes.Index = 0
@@ -453,7 +453,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.VIDEO_PID]
 			pes.StreamType = 0x1B
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
@@ -477,7 +477,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + uint64(compositionTime(pv.Cts)*90)
 			}
 			return pes, pid, videoKey, false
 
@@ -497,7 +497,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			videoKey = pv.FrameType == libflv.KEY_FRAME
 			pid = libmpeg.VIDEO_PID
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
@@ -506,7 +506,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.Data = avccToAnnexB(pv.Data())
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + uint64(compositionTime(pv.Cts)*90)
 			}
 			return pes, pid, videoKey, false
 
@@ -517,6 +517,12 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 	return nil, 0, false, true
 }
 
+// compositionTime widens the signed 24-bit composition offset of a
+// video tag, in milliseconds.
+func compositionTime(cts uint32) int64 {
+	return int64(int32(cts<<8) >> 8)
+}
+
 // newPAT builds the canonical PAT/PMT skeleton used by openSegment.
 // videoStreamType is the codec stream_type (0x1B for H.264, 0x24 for
 // HEVC); audio defaults to 0x0F (ADTS AAC).
@@ -677,6 +683,10 @@ func (hls *HLS) writePSI() error {
 // rotate closes the current segment, reaps old ones beyond the window,
 // and opens a new one starting at the given DTS.
 func (hls *HLS) rotate(nextStartDTS uint64) error {
+	//The last frame lasts until the next segment starts.
+	if nextStartDTS > hls.currentEndDTS {
+		hls.currentEndDTS = nextStartDTS
+	}
 	hls.finaliseCurrent()
 	return hls.openSegment(nextStartDTS)
 }
-- 
2.43.0


From 98df99f77c4fbdb80d0da80122b29d2f7e83efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 12/67] fix: HLS segments of HEVC streams start with the
 parameter sets

They were taken to be in band, which FLV publishers don't do.
---
 libhls/hls.go | 50 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 520ec74..db05ce1 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -70,6 +70,7 @@ type HLS struct {
 	Cc         map[uint16]uint8 //key:pid — reset at each segment boundary
 	Ah         *libaac.AACHeader
 	AvcParser  *libavc.Parser
+	hevcParams []byte //AnnexB VPS/SPS/PPS from the last HEVC sequence header
 	audioCache *audioCache
 	align      *align
 
@@ -489,9 +490,9 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.StreamType = 0x24
 
 			if pv.FrameType == libflv.KEY_FRAME && pv.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
-				//HEVCDecoderConfigurationRecord — publishers also send
-				//VPS/SPS/PPS in-band ahead of every IDR, so we don't
-				//need to memoise them for the muxer.
+				//HEVCDecoderConfigurationRecord — its parameter sets go in
+				//front of every key frame that doesn't bring its own.
+				hls.hevcParams = hevcParameterSets(pv.Data())
 				return nil, 0, false, true
 			}
 			videoKey = pv.FrameType == libflv.KEY_FRAME
@@ -504,6 +505,9 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.Index = 0
 			pes.HeaderIndex = 0
 			pes.Data = avccToAnnexB(pv.Data())
+			if videoKey && !hasHEVCParameterSets(pv.Data()) {
+				pes.Data = append(append([]byte{}, hls.hevcParams...), pes.Data...)
+			}
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
 				pes.PTS = pes.DTS + uint64(compositionTime(pv.Cts)*90)
@@ -585,6 +589,46 @@ func avccToAnnexB(buf []byte) []byte {
 	return out
 }
 
+// hevcParameterSets lifts the VPS/SPS/PPS NAL units of an
+// HEVCDecoderConfigurationRecord into an AnnexB stream.
+func hevcParameterSets(record []byte) []byte {
+	out := []byte{}
+	if len(record) < 23 {
+		return out
+	}
+	for off, arrays := 23, int(record[22]); arrays > 0 && off+3 <= len(record); arrays-- {
+		nalus := int(record[off+1])<<8 | int(record[off+2])
+		for off += 3; nalus > 0; nalus-- {
+			if off+2 > len(record) {
+				return out
+			}
+			size := int(record[off])<<8 | int(record[off+1])
+			off += 2
+			if off+size > len(record) {
+				return out
+			}
+			out = append(out, 0x00, 0x00, 0x00, 0x01)
+			out = append(out, record[off:off+size]...)
+			off += size
+		}
+	}
+	return out
+}
+
+// hasHEVCParameterSets reports whether a length-prefixed access unit
+// contains a VPS, SPS or PPS (NAL unit types 32 to 34).
+func hasHEVCParameterSets(buf []byte) bool {
+	for off := 0; off+4 < len(buf); {
+		size := int(buf[off])<<24 | int(buf[off+1])<<16 |
+			int(buf[off+2])<<8 | int(buf[off+3])
+		if t := (buf[off+4] >> 1) & 0x3f; size > 0 && t >= 32 && t <= 34 {
+			return true
+		}
+		off += 4 + size
+	}
+	return false
+}
+
 // openSegment creates a fresh .ts file and writes an initial PAT/PMT.
 func (hls *HLS) openSegment(startDTS uint64) error {
 	hls.mu.Lock()
-- 
2.43.0


From 687b2a98652c261b15e6545c2d7093a5f2b228c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 13/67] fix: ADTS channel configuration of more than three
 channels

---
 libaac/aac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libaac/aac.go b/libaac/aac.go
index 5823ceb..fa3b5e4 100644
--- a/libaac/aac.go
+++ b/libaac/aac.go
@@ -31,7 +31,7 @@ func (ah *AACHeader) Adts(data []byte) (header []byte) {
 	return []byte{
 		0xff,
 		0xf1,
-		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2),
+		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2) | ((ah.Channel >> 2) & 0x01),
 		((ah.Channel << 2) << 4) | uint8((frameLen<<3)>>14),
 		uint8((frameLen << 5) >> 8),
 		uint8(((frameLen<<13)>>13)<<5) | ((0x7c << 1) >> 3),
-- 
2.43.0


From 5dff77ca2d85bbb1e91793a117a3cb3f74957fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 14/67] fix: HLS across the wrap of 32-bit timestamps

---
 libflv/tag.go | 22 ++++++++++++++++++++++
 libhls/hls.go |  7 ++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/libflv/tag.go b/libflv/tag.go
index 27540aa..96f8a24 100644
--- a/libflv/tag.go
+++ b/libflv/tag.go
@@ -48,3 +48,25 @@ func (tb *TagBase) GetTagInfo() *TagBase {
 // b = append(b, tb.Data...)
 // return b
 // }
+
+// Timeline extends the 32-bit millisecond timestamps of consecutive
+// tags, which wrap around after 49.7 days, to 64 bits.
+type Timeline struct {
+	now     uint64
+	last    uint32
+	started bool
+}
+
+// At returns the extended time of a tag, which may lie a little before
+// that of the previous one.
+func (t *Timeline) At(timeStamp uint32) uint64 {
+	step := int64(int32(timeStamp - t.last))
+	if !t.started || step < 0 && uint64(-step) > t.now {
+		t.now = uint64(timeStamp)
+	} else {
+		t.now += uint64(step)
+	}
+	t.last = timeStamp
+	t.started = true
+	return t.now
+}
diff --git a/libhls/hls.go b/libhls/hls.go
index db05ce1..94414e8 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -79,6 +79,7 @@ type HLS struct {
 	currentWriter   easyio.EasyWriter
 	currentStartDTS uint64
 	currentEndDTS   uint64
+	timeline        libflv.Timeline
 	partStartDTS    uint64
 	partStartOffset int64
 	currentBytes    int64 //running offset into currentFile
@@ -412,7 +413,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			pid = libmpeg.AUDIO_PID
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.AUDIO_PID]
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
+			pes.DTS = hls.timeline.At(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
 			pes.Index = 0
@@ -454,7 +455,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.VIDEO_PID]
 			pes.StreamType = 0x1B
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
+			pes.DTS = hls.timeline.At(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
@@ -498,7 +499,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			videoKey = pv.FrameType == libflv.KEY_FRAME
 			pid = libmpeg.VIDEO_PID
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
+			pes.DTS = hls.timeline.At(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
-- 
2.43.0


From 89020bb09f6747f69f011dc9df6833b951ac7675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:55 +0000
Subject: [PATCH 15/67] fix: start segmenters once per stream, for every
 publisher, and end them with it

---
 libdash/dash.go            | 16 ++++++--
 libhls/hls.go              | 11 +++--
 librtmp/app.go             | 82 ++++++++++++++++++++++++++++++++++----
 librtmp/command_message.go | 13 ------
 librtmp/room.go            | 10 ++++-
 librtmp/rtmp.go            |  4 +-
 librtmp/server.go          | 16 ++++----
 7 files changed, 113 insertions(+), 39 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 377cb83..89df53b 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -143,17 +143,24 @@ func (d *DASH) Stop() {
 		return
 	}
 	d.mu.Lock()
-	segs := append([]segmentInfo(nil), d.segments...)
-	d.segments = nil
 	d.cond.Broadcast()
 	d.mu.Unlock()
+	d.removeFiles()
+	d.readyOnce.Do(func() { close(d.ready) })
+}
+
+// removeFiles deletes everything the segmenter has on disk.
+func (d *DASH) removeFiles() {
+	d.mu.Lock()
+	segs := d.segments
+	d.segments = nil
+	d.mu.Unlock()
 	for _, s := range segs {
 		_ = os.Remove(filepath.Join(d.dir, s.filename))
 	}
 	if d.streamID != "" {
 		_ = os.Remove(filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID)))
 	}
-	d.readyOnce.Do(func() { close(d.ready) })
 }
 
 func (d *DASH) stopRequested() bool {
@@ -175,6 +182,9 @@ func (d *DASH) Start(gopReader TagReader) error {
 	}
 	defer func() {
 		d.flushCurrent()
+		if d.stopRequested() {
+			d.removeFiles()
+		}
 		d.readyOnce.Do(func() { close(d.ready) })
 	}()
 
diff --git a/libhls/hls.go b/libhls/hls.go
index 94414e8..0e38ac0 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -265,10 +265,8 @@ func (hls *HLS) Stop() {
 	if !atomic.CompareAndSwapInt32(&hls.stopped, 0, 1) {
 		return
 	}
-	if hls.currentFile != nil {
-		_ = hls.currentFile.Close()
-		hls.currentFile = nil
-	}
+	//The segment being written is left to Start, which removes it on its
+	//way out.
 	hls.mu.Lock()
 	hls.currentSegName = ""
 	segs := append([]segmentInfo(nil), hls.segments...)
@@ -762,6 +760,11 @@ func (hls *HLS) finaliseCurrent() {
 	}
 
 	hls.mu.Lock()
+	if hls.stopRequested() {
+		hls.mu.Unlock()
+		_ = os.Remove(filepath.Join(hls.dir, name))
+		return
+	}
 	seg := segmentInfo{
 		filename: name,
 		seq:      hls.nextSeq,
diff --git a/librtmp/app.go b/librtmp/app.go
index 6f18e21..98ca4c0 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -1,6 +1,7 @@
 package librtmp
 
 import (
+	"fmt"
 	"sync"
 
 	"github.com/sbraveyoung/GGmpeg/libdash"
@@ -42,20 +43,85 @@ func (app *App) Store(roomID string, room *Room) {
 	app.rooms.Store(roomID, room)
 }
 
-// publish makes room the one stream of its name. It reports false, and
-// changes nothing, when the name is taken.
+// publish makes room the one stream of its name and starts its
+// segmenters. It reports false, and changes nothing, when the name is
+// taken.
 func (app *App) publish(room *Room) bool {
 	room.app = app
-	_, taken := app.rooms.LoadOrStore(room.RoomID, room)
-	return !taken
+	if _, taken := app.rooms.LoadOrStore(room.RoomID, room); taken {
+		return false
+	}
+	if app.hlsMode == libhls.IMMEDIATELY {
+		app.startHLS(room)
+	}
+	if app.dashEnabled {
+		app.startDASH(room)
+	}
+	return true
 }
 
-// unpublish ends a published room and frees its name.
+// unpublish ends a published room and, once its segmenters have removed
+// their files, frees its name.
 func (app *App) unpublish(room *Room) {
-	if app.Load(room.RoomID) == room {
-		app.Delete(room.RoomID)
+	if !room.close() {
+		return
+	}
+	if hls := app.LoadHLS(room.RoomID); hls != nil {
+		hls.Stop()
+	}
+	if dash := app.LoadDASH(room.RoomID); dash != nil {
+		dash.Stop()
+	}
+	room.segmenters.Wait()
+	app.Delete(room.RoomID)
+}
+
+// startHLS returns the HLS segmenter of a published room, which it
+// starts unless there is one already. It returns nil once the room is
+// closed.
+func (app *App) startHLS(room *Room) *libhls.HLS {
+	room.mu.Lock()
+	defer room.mu.Unlock()
+	if room.closed {
+		return nil
 	}
-	room.Close()
+	if hls := app.LoadHLS(room.RoomID); hls != nil {
+		return hls
+	}
+	hls := libhls.NewHls().WithStreamID(room.RoomID).WithDir(app.hlsDir)
+	app.StoreHLS(room.RoomID, hls)
+	reader := NewGOPReader(room.GOP)
+	room.segmenters.Add(1)
+	go func() {
+		defer room.segmenters.Done()
+		if err := hls.Start(reader); err != nil {
+			fmt.Printf("hls %s: %v\n", room.RoomID, err)
+		}
+	}()
+	return hls
+}
+
+// startDASH is startHLS for the DASH segmenter.
+func (app *App) startDASH(room *Room) *libdash.DASH {
+	room.mu.Lock()
+	defer room.mu.Unlock()
+	if room.closed {
+		return nil
+	}
+	if dash := app.LoadDASH(room.RoomID); dash != nil {
+		return dash
+	}
+	dash := libdash.NewDASH().WithStreamID(room.RoomID).WithDir(app.dashDir)
+	app.StoreDASH(room.RoomID, dash)
+	reader := NewGOPReader(room.GOP)
+	room.segmenters.Add(1)
+	go func() {
+		defer room.segmenters.Done()
+		if err := dash.Start(reader); err != nil {
+			fmt.Printf("dash %s: %v\n", room.RoomID, err)
+		}
+	}()
+	return dash
 }
 
 func (app *App) Delete(roomID string) {
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index d524d22..d37a4e7 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -10,8 +10,6 @@ import (
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/sbraveyoung/GGmpeg/libdash"
-	"github.com/sbraveyoung/GGmpeg/libhls"
 	"github.com/fatih/structs"
 	"github.com/goinggo/mapstructure"
 	"github.com/pkg/errors"
@@ -277,17 +275,6 @@ func (cm *CommandMessage) Do() (err error) {
 			},
 		}).Send()
 
-		if app.hlsMode == libhls.IMMEDIATELY {
-			hls := libhls.NewHls().WithStreamID(cm.PublishingName).WithDir(app.hlsDir)
-			app.hls.Store(cm.PublishingName, hls)
-			go hls.Start(NewGOPReader(cm.rtmp.room.GOP))
-		}
-		if app.dashEnabled {
-			dash := libdash.NewDASH().WithStreamID(cm.PublishingName).WithDir(app.dashDir)
-			app.StoreDASH(cm.PublishingName, dash)
-			go dash.Start(NewGOPReader(cm.rtmp.room.GOP))
-		}
-
 	case PLAY:
 		app, ok := cm.rtmp.server.apps[cm.rtmp.app]
 		if !ok {
diff --git a/librtmp/room.go b/librtmp/room.go
index c508fcb..e990cd9 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -23,6 +23,8 @@ type Room struct {
 	audioSeqHdr *libflv.AudioTag
 	metaTag     *libflv.MetaTag
 	closed      bool
+
+	segmenters sync.WaitGroup //running HLS and DASH segmenters
 }
 
 //NOTE: the room must be created by publisher
@@ -62,16 +64,22 @@ func (room *Room) snapshotHeaders() (meta *libflv.MetaTag, video *libflv.VideoTa
 // Close releases the broadcast so every subscriber wakes up with
 // alive=false. Safe to call multiple times.
 func (room *Room) Close() {
+	room.close()
+}
+
+// close is Close; it reports whether the room was still open.
+func (room *Room) close() bool {
 	room.mu.Lock()
 	if room.closed {
 		room.mu.Unlock()
-		return
+		return false
 	}
 	room.closed = true
 	room.mu.Unlock()
 	//DisAlive() wakes every BroadcastReader with alive=false so the
 	//RTMP/FLV/HLS join goroutines exit cleanly.
 	room.GOP.DisAlive()
+	return true
 }
 
 //player join the room, leaving the one it is in
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index d0919b7..27252b7 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -118,7 +118,9 @@ func (rtmp *RTMP) cleanup() {
 		rtmp.room.app.unpublish(rtmp.room)
 		rtmp.room = nil
 	}
-	_ = rtmp.conn.Close()
+	if rtmp.conn != nil {
+		_ = rtmp.conn.Close()
+	}
 	rtmp.leave()
 }
 
diff --git a/librtmp/server.go b/librtmp/server.go
index 31597e8..bbeb6e8 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -368,14 +368,13 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			//hit so no-one is paying for HLS segmentation when no viewer
 			//is attached.
 			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
-				hls = libhls.NewHls().WithStreamID(roomID).WithDir(app.hlsDir)
-				app.StoreHLS(roomID, hls)
-				go hls.Start(NewGOPReader(room.GOP))
-				hls.WaitFirstSegment()
-			} else {
+				hls = app.startHLS(room)
+			}
+			if hls == nil {
 				w.WriteHeader(http.StatusNotFound)
 				return
 			}
+			hls.WaitFirstSegment()
 		}
 
 		//DASH dispatch (manifest + init + media segments). Lazy-start
@@ -386,10 +385,9 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			strings.HasSuffix(file, ".m4s"):
 			dash := app.LoadDASH(roomID)
 			if dash == nil && app.dashEnabled {
-				dash = libdash.NewDASH().WithStreamID(roomID).WithDir(app.dashDir)
-				app.StoreDASH(roomID, dash)
-				go dash.Start(NewGOPReader(room.GOP))
-				dash.WaitFirstSegment()
+				if dash = app.startDASH(room); dash != nil {
+					dash.WaitFirstSegment()
+				}
 			}
 			if dash == nil {
 				w.WriteHeader(http.StatusNotFound)
-- 
2.43.0


From f1d4e368d68360b64ec7ed0403adfdddc3ddefe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:43 +0000
Subject: [PATCH 16/67] fix: MPD durations in the letter case XML Schema asks
 for

---
 libdash/mpd.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdash/mpd.go b/libdash/mpd.go
index 6037958..321f856 100644
--- a/libdash/mpd.go
+++ b/libdash/mpd.go
@@ -58,11 +58,11 @@ func buildMPD(in manifestInputs) []byte {
 	fmt.Fprintf(&sb, `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" `+
 		`type="dynamic" `+
 		`profiles="urn:mpeg:dash:profile:isoff-live:2011" `+
-		`minBufferTime="PT%ds" `+
+		`minBufferTime="PT%dS" `+
 		`availabilityStartTime="%s" `+
 		`publishTime="%s" `+
-		`minimumUpdatePeriod="PT%ds" `+
-		`timeShiftBufferDepth="PT%ds" `+
+		`minimumUpdatePeriod="PT%dS" `+
+		`timeShiftBufferDepth="PT%dS" `+
 		`>`+"\n",
 		targetDurSec,
 		avail,
-- 
2.43.0


From cba890ab72d1213387782004cdb43e97da7a68f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:01 +0000
Subject: [PATCH 17/67] fix: DASH sample durations, timestamp wrap and negative
 composition offsets

---
 libdash/dash.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 89df53b..d79736d 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -181,13 +181,14 @@ func (d *DASH) Start(gopReader TagReader) error {
 		return fmt.Errorf("mkdir %s: %w", d.dir, err)
 	}
 	defer func() {
-		d.flushCurrent()
+		d.flushCurrent(0)
 		if d.stopRequested() {
 			d.removeFiles()
 		}
 		d.readyOnce.Do(func() { close(d.ready) })
 	}()
 
+	var timeline libflv.Timeline
 	for {
 		if d.stopRequested() {
 			return nil
@@ -226,8 +227,8 @@ func (d *DASH) Start(gopReader TagReader) error {
 			continue
 		}
 
-		dts := uint64(v.GetTagInfo().TimeStamp) //ms
-		cts := int32(v.Cts)                     //ms
+		dts := timeline.At(v.GetTagInfo().TimeStamp) //ms
+		cts := int32(v.Cts<<8) >> 8                  //ms, a signed 24-bit field
 		isKey := v.FrameType == libflv.KEY_FRAME
 
 		//Rotate on keyframes once the current segment has hit
@@ -237,7 +238,7 @@ func (d *DASH) Start(gopReader TagReader) error {
 			if len(d.currentSamples) > 0 {
 				curDur := dts - d.currentSamples[0].dts
 				if curDur*1000 >= uint64(d.targetDur/time.Millisecond)*1000 {
-					if err := d.flushCurrent(); err != nil {
+					if err := d.flushCurrent(dts); err != nil {
 						fmt.Printf("dash: flush segment: %v\n", err)
 					}
 				}
@@ -450,9 +451,10 @@ func (d *DASH) handleSequenceHeader(record []byte) error {
 
 // flushCurrent closes the in-progress segment, builds an fMP4 fragment
 // and writes it under <dir>/<streamID>-<seq>.m4s. Old segments are
-// reaped to keep windowSize on disk.
-func (d *DASH) flushCurrent() error {
-	if len(d.currentSamples) < 2 {
+// reaped to keep windowSize on disk. nextDTS is where the next segment
+// starts, 0 if there is none.
+func (d *DASH) flushCurrent(nextDTS uint64) error {
+	if len(d.currentSamples) < 2 && nextDTS == 0 {
 		//Need at least one duration interval. Drop a single-sample
 		//tail rather than emit a malformed fragment.
 		d.currentSamples = d.currentSamples[:0]
@@ -468,13 +470,11 @@ func (d *DASH) flushCurrent() error {
 		var dur uint64
 		if i+1 < len(d.currentSamples) {
 			dur = d.currentSamples[i+1].dts - s.dts
+		} else if nextDTS > 0 {
+			dur = nextDTS - s.dts
 		} else {
 			//Last sample: use previous interval as a best-guess.
-			if i > 0 {
-				dur = s.dts - d.currentSamples[i-1].dts
-			} else {
-				dur = 33 //~30fps fallback
-			}
+			dur = s.dts - d.currentSamples[i-1].dts
 		}
 		samples = append(samples, libmp4.Sample{
 			Duration:              uint32(dur),
-- 
2.43.0


From 03db40e8b5cb1425c8b36b300e7be1ca0a03c5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:09 +0000
Subject: [PATCH 18/67] fix: HEVC picture size with temporal sub-layers

---
 libdash/dash.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index d79736d..8d8f7d4 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -381,16 +381,18 @@ func parseHEVCSPSDimensions(sps []byte) (w, h uint16) {
 	for i := 0; i < skipBytes; i++ {
 		_, _ = br.readBits(8)
 	}
-	if maxSubLayers > 1 {
-		flags, _ := br.readBits(2 * int(maxSubLayers-1))
-		_ = flags
-		//byte-align: the spec specifies padding.
-		for br.pos%8 != 0 {
-			_, _ = br.readBits(1)
+	if maxSubLayers > 0 {
+		//Presence flags of up to eight sub-layers, then up to 11 bytes
+		//of profile and one of level for each.
+		flags, _ := br.readBits(16)
+		for i := 0; i < int(maxSubLayers); i++ {
+			if flags>>(15-2*i)&1 != 0 {
+				br.pos += 88
+			}
+			if flags>>(14-2*i)&1 != 0 {
+				br.pos += 8
+			}
 		}
-		//Each sub-layer-present flag bit pair brings up to 11 bytes
-		//of profile/level data. Without parsing the flags we can't
-		//cleanly skip them — bail if any are set.
 	}
 
 	_ = br.readUE() //seq_parameter_set_id
-- 
2.43.0


From a5ef323d91aab57abe71dde632d345e89f18a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:11 +0000
Subject: [PATCH 19/67] fix: replace the DASH init segment in one step

---
 libdash/dash.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 8d8f7d4..cab0cf2 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -149,6 +149,21 @@ func (d *DASH) Stop() {
 	d.readyOnce.Do(func() { close(d.ready) })
 }
 
+// writeInit puts the init segment on disk in one step: players fetch it
+// while a repeated sequence header has it written again.
+func (d *DASH) writeInit() error {
+	path := filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID))
+	tmp := path + ".tmp"
+	err := os.WriteFile(tmp, d.initBytes, 0o644)
+	if err == nil {
+		err = os.Rename(tmp, path)
+	}
+	if err != nil {
+		_ = os.Remove(tmp)
+	}
+	return err
+}
+
 // removeFiles deletes everything the segmenter has on disk.
 func (d *DASH) removeFiles() {
 	d.mu.Lock()
@@ -290,8 +305,7 @@ func (d *DASH) handleHEVCSequenceHeader(record []byte) error {
 	d.mu.Unlock()
 
 	if d.streamID != "" {
-		path := filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID))
-		if err := os.WriteFile(path, d.initBytes, 0o644); err != nil {
+		if err := d.writeInit(); err != nil {
 			return fmt.Errorf("write init segment: %w", err)
 		}
 	}
@@ -440,8 +454,7 @@ func (d *DASH) handleSequenceHeader(record []byte) error {
 
 	//Write init segment to disk so http.ServeFile can serve it.
 	if d.streamID != "" {
-		path := filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID))
-		if err := os.WriteFile(path, d.initBytes, 0o644); err != nil {
+		if err := d.writeInit(); err != nil {
 			return fmt.Errorf("write init segment: %w", err)
 		}
 	}
-- 
2.43.0


From 502616c2b0ae8cdbf80013448b2d390b71f44d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:09 +0000
Subject: [PATCH 20/67] fix: LL-HLS part durations around lagging audio, parts
 that cover the whole segment

---
 libhls/hls.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 0e38ac0..8dbbd40 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -386,7 +386,8 @@ outer:
 		//to the part we're closing — the next part starts at the
 		//current write offset.
 		if hls.llEnabled && hls.currentFile != nil {
-			partDur := float64(pes.DTS-hls.partStartDTS) / 90000.0
+			//Audio may lag behind the start of the part.
+			partDur := float64(int64(pes.DTS-hls.partStartDTS)) / 90000.0
 			if partDur*float64(time.Second) >= float64(hls.partTargetDur) {
 				hls.closeCurrentPart(pes.DTS, false)
 			}
@@ -666,8 +667,8 @@ func (hls *HLS) closeCurrentPart(endDTS uint64, nextIndependent bool) {
 	if hls.currentFile == nil {
 		return
 	}
-	dur := float64(endDTS-hls.partStartDTS) / 90000.0
-	if dur <= 0 {
+	dur := float64(int64(endDTS-hls.partStartDTS)) / 90000.0
+	if dur < 0 {
 		return
 	}
 	length := hls.currentBytes - hls.partStartOffset
-- 
2.43.0


From 222f1c962c9e7c9a866eae6ba85d9adb05e00d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:03 +0000
Subject: [PATCH 21/67] fix: LL-HLS reloads return when their segment is
 complete or the stream ends

---
 libhls/hls.go | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 8dbbd40..9ad883f 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -94,6 +94,7 @@ type HLS struct {
 	nextSeq        int
 	currentParts   []partInfo //LL-HLS: parts of the in-progress segment
 	currentSegName string     //basename of in-progress segment, "" if none
+	ended          bool       //Start has returned
 
 	// coordination
 	ready     chan struct{}
@@ -195,39 +196,28 @@ func (hls *HLS) Playlist() []byte {
 // "respond with stale playlist" guidance from Apple's spec).
 func (hls *HLS) WaitForPlaylist(wantMSN int, wantPart int, timeout time.Duration) []byte {
 	deadline := time.Now().Add(timeout)
+	//Cond.Wait releases mu while parked; broadcasts come from the writer
+	//goroutine after each part is recorded, and from here once the bound
+	//has expired.
+	timer := time.AfterFunc(timeout, func() {
+		hls.mu.Lock()
+		hls.cond.Broadcast()
+		hls.mu.Unlock()
+	})
+	defer timer.Stop()
 	hls.mu.Lock()
-	for {
-		if !hls.llEnabled || wantMSN < 0 {
+	for hls.llEnabled && wantMSN >= 0 && !hls.ended && !hls.stopRequested() {
+		//Segments up to nextSeq-1 are complete.
+		if wantMSN < hls.nextSeq {
 			break
 		}
-		latestMSN := hls.nextSeq - 1
-		latestPart := -1
-		if hls.currentSegName != "" {
-			latestMSN = hls.nextSeq
-			latestPart = len(hls.currentParts) - 1
-		}
-		if wantMSN < latestMSN || (wantMSN == latestMSN && wantPart <= latestPart) {
+		if wantMSN == hls.nextSeq && hls.currentSegName != "" && wantPart < len(hls.currentParts) {
 			break
 		}
-		now := time.Now()
-		if !now.Before(deadline) {
+		if !time.Now().Before(deadline) {
 			break
 		}
-		//Cond.Wait releases mu while parked; broadcasts come from the
-		//writer goroutine after each part is recorded.
-		waitCh := make(chan struct{})
-		go func(d time.Duration) {
-			time.Sleep(d)
-			hls.mu.Lock()
-			hls.cond.Broadcast()
-			hls.mu.Unlock()
-			close(waitCh)
-		}(deadline.Sub(now))
 		hls.cond.Wait()
-		select {
-		case <-waitCh:
-		default:
-		}
 	}
 	if len(hls.segments) == 0 && !hls.llEnabled {
 		hls.mu.Unlock()
@@ -307,6 +297,11 @@ func (hls *HLS) Start(gopReader TagReader) (err error) {
 		//On graceful exit (publisher gone or Stop called) finalise the
 		//current segment so players don't lose the last few seconds.
 		hls.finaliseCurrent()
+		hls.mu.Lock()
+		hls.ended = true
+		hls.currentSegName = ""
+		hls.cond.Broadcast()
+		hls.mu.Unlock()
 		hls.readyOnce.Do(func() { close(hls.ready) })
 	}()
 
-- 
2.43.0


From 966768ef763d044b470f721ea22bd9a3db60e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:02 +0000
Subject: [PATCH 22/67] fix: serve DASH whether or not HLS has been asked for

---
 librtmp/server.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index bbeb6e8..883c677 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -362,21 +362,6 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			return
 		}
 
-		hls := app.LoadHLS(roomID)
-		if hls == nil {
-			//DELAY mode: lazy-start the transcoder on first playlist
-			//hit so no-one is paying for HLS segmentation when no viewer
-			//is attached.
-			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
-				hls = app.startHLS(room)
-			}
-			if hls == nil {
-				w.WriteHeader(http.StatusNotFound)
-				return
-			}
-			hls.WaitFirstSegment()
-		}
-
 		//DASH dispatch (manifest + init + media segments). Lazy-start
 		//if WithDASH is on but no DASH instance exists yet.
 		switch {
@@ -397,6 +382,21 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			return
 		}
 
+		hls := app.LoadHLS(roomID)
+		if hls == nil {
+			//DELAY mode: lazy-start the transcoder on first playlist
+			//hit so no-one is paying for HLS segmentation when no viewer
+			//is attached.
+			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
+				hls = app.startHLS(room)
+			}
+			if hls == nil {
+				w.WriteHeader(http.StatusNotFound)
+				return
+			}
+			hls.WaitFirstSegment()
+		}
+
 		switch {
 		case strings.HasSuffix(file, ".m3u8"):
 			//LL-HLS blocking playlist reload: clients append
-- 
2.43.0


From 28d6be1ddffff692172d4175f1236cd49bd48439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 23/67] fix: RTSP players may send RTCP on the control
 connection

---
 librtmp/rtsp_server.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 1dab6cb..2ec2d8c 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -2,6 +2,7 @@ package librtmp
 
 import (
 	"bufio"
+	"encoding/binary"
 	"fmt"
 	"io"
 	"net"
@@ -84,6 +85,10 @@ func newRTSPSession(conn net.Conn, srv *server) *rtspSession {
 func (s *rtspSession) run() {
 	defer s.conn.Close()
 	for {
+		err := s.skipInterleaved()
+		if err != nil {
+			return
+		}
 		req, err := librtsp.ReadRequest(s.br)
 		if err != nil {
 			if err != io.EOF {
@@ -104,6 +109,27 @@ func (s *rtspSession) run() {
 	}
 }
 
+// skipInterleaved discards the interleaved frames a player sends on the
+// control connection (RTCP receiver reports) before its next request.
+func (s *rtspSession) skipInterleaved() error {
+	for {
+		b, err := s.br.Peek(1)
+		if err != nil {
+			return err
+		}
+		if b[0] != '$' {
+			return nil
+		}
+		hdr, err := s.br.Peek(4)
+		if err != nil {
+			return err
+		}
+		if _, err = s.br.Discard(4 + int(binary.BigEndian.Uint16(hdr[2:]))); err != nil {
+			return err
+		}
+	}
+}
+
 // dispatch routes a request to the per-method handler. Each handler
 // returns a fully-formed response or nil to terminate the session.
 func (s *rtspSession) dispatch(req *librtsp.Request) *librtsp.Response {
-- 
2.43.0


From f06c853f39e7a4513767605e92b32856b16446e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 24/67] fix: RTSP over UDP keeps its tracks apart, and a
 session ends with its connection

---
 librtmp/rtsp_ingest.go | 12 ------
 librtmp/rtsp_server.go | 98 +++++++++++++++++++++++++++---------------
 2 files changed, 63 insertions(+), 47 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 5d84846..4043b9e 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -146,18 +146,6 @@ func (s *rtspSession) runIngestLoop() {
 		if s.publishRTMP != nil {
 			s.publishRTMP.cleanup()
 		}
-		if s.videoUDP != nil {
-			_ = s.videoUDP.Close()
-		}
-		if s.audioUDP != nil {
-			_ = s.audioUDP.Close()
-		}
-		if s.videoUDPRTCP != nil {
-			_ = s.videoUDPRTCP.Close()
-		}
-		if s.audioUDPRTCP != nil {
-			_ = s.audioUDPRTCP.Close()
-		}
 	}()
 
 	//Spawn a UDP reader per track that was set up in UDP mode.
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 2ec2d8c..1b0627a 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -58,6 +58,8 @@ type rtspSession struct {
 	peerVideoRTP  *net.UDPAddr //where to send RTP for the video track
 	peerAudioRTP  *net.UDPAddr
 
+	player *GOPReader //subscription of the PLAY goroutine
+
 	// Publisher path (ANNOUNCE/RECORD): set after a successful
 	// ANNOUNCE; handleRecord enters the RTP receive loop.
 	ingest      *rtspIngest
@@ -83,7 +85,7 @@ func newRTSPSession(conn net.Conn, srv *server) *rtspSession {
 // flush a response. Runs until either side closes the TCP connection
 // or PLAY's goroutine reports a write failure.
 func (s *rtspSession) run() {
-	defer s.conn.Close()
+	defer s.release()
 	for {
 		err := s.skipInterleaved()
 		if err != nil {
@@ -109,6 +111,28 @@ func (s *rtspSession) run() {
 	}
 }
 
+// release ends whatever the session started and gives back its sockets.
+func (s *rtspSession) release() {
+	_ = s.conn.Close()
+	if s.player != nil {
+		s.player.Close()
+	}
+	s.closeUDP(false)
+	s.closeUDP(true)
+}
+
+// closeUDP closes the sockets of one track, if it has any.
+func (s *rtspSession) closeUDP(audio bool) {
+	rtp, rtcp := s.videoUDP, s.videoUDPRTCP
+	if audio {
+		rtp, rtcp = s.audioUDP, s.audioUDPRTCP
+	}
+	if rtp != nil {
+		_ = rtp.Close()
+		_ = rtcp.Close()
+	}
+}
+
 // skipInterleaved discards the interleaved frames a player sends on the
 // control connection (RTCP receiver reports) before its next request.
 func (s *rtspSession) skipInterleaved() error {
@@ -218,6 +242,11 @@ func (s *rtspSession) handleDescribe(req *librtsp.Request, resp *librtsp.Respons
 // is recorded on the session so subsequent PLAY / RECORD send paths
 // know which transport to use.
 func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
+	if atomic.LoadInt32(&s.playing) == 1 || atomic.LoadInt32(&s.recording) == 1 {
+		resp.StatusCode = 455
+		resp.Reason = "Method Not Valid In This State"
+		return resp
+	}
 	transport := req.Headers.Get("transport")
 	useUDP := strings.Contains(transport, "RTP/AVP") &&
 		!strings.Contains(transport, "RTP/AVP/TCP")
@@ -257,6 +286,12 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 			resp.Reason = "Internal Server Error"
 			return resp
 		}
+		defer func() {
+			if resp.StatusCode != 200 {
+				_ = udpSocks[0].Close()
+				_ = udpSocks[1].Close()
+			}
+		}()
 	}
 
 	//Two SETUP shapes:
@@ -291,20 +326,18 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 		}
 	}
 
-	//Wire up UDP sockets to the per-track slot so PLAY / RECORD
-	//goroutines can find them later.
-	if useUDP {
-		clientHost := s.peerHostIP()
-		rtpPeer := &net.UDPAddr{IP: clientHost, Port: clientRTPPort}
-		if isAudio {
-			s.audioUDP = udpSocks[0]
-			s.audioUDPRTCP = udpSocks[1]
-			s.peerAudioRTP = rtpPeer
-		} else {
-			s.videoUDP = udpSocks[0]
-			s.videoUDPRTCP = udpSocks[1]
-			s.peerVideoRTP = rtpPeer
-		}
+	//Wire up UDP sockets (none in TCP mode) to the per-track slot so
+	//PLAY / RECORD goroutines can find them later.
+	s.closeUDP(isAudio) //of an earlier SETUP
+	rtpPeer := &net.UDPAddr{IP: s.peerHostIP(), Port: clientRTPPort}
+	if isAudio {
+		s.audioUDP = udpSocks[0]
+		s.audioUDPRTCP = udpSocks[1]
+		s.peerAudioRTP = rtpPeer
+	} else {
+		s.videoUDP = udpSocks[0]
+		s.videoUDPRTCP = udpSocks[1]
+		s.peerVideoRTP = rtpPeer
 	}
 
 	if s.sessionID == "" {
@@ -414,14 +447,15 @@ func (s *rtspSession) handlePlay(req *librtsp.Request, resp *librtsp.Response) *
 	if !atomic.CompareAndSwapInt32(&s.playing, 0, 1) {
 		return resp
 	}
-	go s.streamLoop(rm)
+	s.player = NewGOPReader(rm.GOP)
+	go s.streamLoop(rm, s.player)
 	return resp
 }
 
 // streamLoop reads from the room's GOP broadcast and emits RTP packets
 // for each video/audio FLV tag. Runs until the publisher disconnects
 // or the TCP connection's write side fails.
-func (s *rtspSession) streamLoop(room *Room) {
+func (s *rtspSession) streamLoop(room *Room, gopReader *GOPReader) {
 	defer atomic.StoreInt32(&s.playing, 0)
 
 	//Backfill cached sequence headers as in-band data so any client
@@ -432,7 +466,6 @@ func (s *rtspSession) streamLoop(room *Room) {
 		s.sendVideoSeqHeader(videoHdr)
 	}
 
-	gopReader := NewGOPReader(room.GOP)
 	for atomic.LoadInt32(&s.playing) == 1 {
 		p, alive := gopReader.Read()
 		if !alive {
@@ -475,7 +508,7 @@ func (s *rtspSession) sendVideoSeqHeader(tag *libflv.VideoTag) {
 	for _, nal := range [][]byte{sps, pps} {
 		for _, payload := range librtsp.PackNAL(nal, librtsp.DefaultMTU) {
 			pkt := s.videoRTP.Pack(false, 0, payload)
-			if err := s.writeInterleaved(uint8(s.videoChan), pkt); err != nil {
+			if err := s.sendRTP(false, pkt); err != nil {
 				return
 			}
 		}
@@ -510,7 +543,7 @@ func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
 		for pi, piece := range pieces {
 			marker := ni == len(nals)-1 && pi == len(pieces)-1
 			pkt := s.videoRTP.Pack(marker, pts, piece)
-			if err := s.writeInterleaved(uint8(s.videoChan), pkt); err != nil {
+			if err := s.sendRTP(false, pkt); err != nil {
 				return err
 			}
 		}
@@ -538,7 +571,7 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 		frame := librtsp.AdtsToRaw(tag.Data())
 		payload := librtsp.PackAACFrame(frame)
 		pkt := s.audioRTP.Pack(true, ts, payload)
-		return s.writeInterleaved(uint8(s.audioChan), pkt)
+		return s.sendRTP(true, pkt)
 
 	case libflv.FLV_AUDIO_OPUS:
 		if tag.AACPacketType != libflv.AAC_RAW {
@@ -548,27 +581,22 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * librtsp.OpusClockRate / 1000)
 		payload := librtsp.PackOpusFrame(tag.Data())
 		pkt := s.audioRTP.Pack(true, ts, payload)
-		return s.writeInterleaved(uint8(s.audioChan), pkt)
+		return s.sendRTP(true, pkt)
 	}
 	return nil
 }
 
-// writeInterleaved sends one RTP packet on the appropriate transport.
-// ch is the interleave channel (used in TCP mode); routing in UDP mode
-// is by even/odd channel number — the same convention SETUP responses
-// use. We resolve the right UDP socket + peer addr from the session.
-func (s *rtspSession) writeInterleaved(ch uint8, rtp []byte) error {
-	//UDP: pick the matching per-track socket. Channel 0 / 2 / … (the
-	//RTP halves) map to whichever track we set up first.
-	if int(ch) == s.videoChan && s.videoUDP != nil {
-		_, err := s.videoUDP.WriteToUDP(rtp, s.peerVideoRTP)
-		return err
+// sendRTP sends one RTP packet of a track the way its SETUP asked for.
+func (s *rtspSession) sendRTP(audio bool, rtp []byte) error {
+	udp, peer, ch := s.videoUDP, s.peerVideoRTP, s.videoChan
+	if audio {
+		udp, peer, ch = s.audioUDP, s.peerAudioRTP, s.audioChan
 	}
-	if int(ch) == s.audioChan && s.audioUDP != nil {
-		_, err := s.audioUDP.WriteToUDP(rtp, s.peerAudioRTP)
+	if udp != nil {
+		_, err := udp.WriteToUDP(rtp, peer)
 		return err
 	}
-	frame := librtsp.InterleaveFrame(ch, rtp)
+	frame := librtsp.InterleaveFrame(uint8(ch), rtp)
 	s.wmu.Lock()
 	defer s.wmu.Unlock()
 	_, err := s.conn.Write(frame)
-- 
2.43.0


From 9de0d78795caf08844acfa4a0d8ffc026b8905c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 25/67] fix: RTSP timestamps with negative composition offsets
 and past 2^32 ms

---
 librtmp/rtsp_server.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 1b0627a..ecd6e76 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -58,7 +58,8 @@ type rtspSession struct {
 	peerVideoRTP  *net.UDPAddr //where to send RTP for the video track
 	peerAudioRTP  *net.UDPAddr
 
-	player *GOPReader //subscription of the PLAY goroutine
+	player  *GOPReader //subscription of the PLAY goroutine
+	audioMs uint64     //time of the last audio packet sent
 
 	// Publisher path (ANNOUNCE/RECORD): set after a successful
 	// ANNOUNCE; handleRecord enters the RTP receive loop.
@@ -524,7 +525,8 @@ func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
 		return nil
 	}
 	//PTS in 90 kHz clock; FLV gives us DTS in ms plus a CTS offset.
-	pts := (uint32(tag.GetTagInfo().TimeStamp) + uint32(tag.Cts)) * 90
+	//The offset is a signed 24-bit field.
+	pts := (uint32(tag.GetTagInfo().TimeStamp) + uint32(int32(tag.Cts<<8)>>8)) * 90
 
 	//Codec-specific packetiser. For unsupported codecs we silently
 	//drop the frame — better than tearing down the RTSP session.
@@ -567,7 +569,7 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 		case 2:
 			rate = 22050
 		}
-		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * uint64(rate) / 1000)
+		ts := uint32(s.audioTime(tag) * uint64(rate) / 1000)
 		frame := librtsp.AdtsToRaw(tag.Data())
 		payload := librtsp.PackAACFrame(frame)
 		pkt := s.audioRTP.Pack(true, ts, payload)
@@ -578,7 +580,7 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 			return nil //skip Opus sequence header (no in-RTP equivalent)
 		}
 		//Opus RTP clock is fixed at 48 kHz per RFC 7587 §4.1.
-		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * librtsp.OpusClockRate / 1000)
+		ts := uint32(s.audioTime(tag) * librtsp.OpusClockRate / 1000)
 		payload := librtsp.PackOpusFrame(tag.Data())
 		pkt := s.audioRTP.Pack(true, ts, payload)
 		return s.sendRTP(true, pkt)
@@ -586,6 +588,17 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 	return nil
 }
 
+// audioTime is a tag's timestamp in ms, going on past 2^32 where the
+// published one wraps.
+func (s *rtspSession) audioTime(tag *libflv.AudioTag) uint64 {
+	ts := tag.GetTagInfo().TimeStamp
+	if s.audioMs == 0 {
+		s.audioMs = uint64(ts)
+	}
+	s.audioMs += uint64(int64(int32(ts - uint32(s.audioMs))))
+	return s.audioMs
+}
+
 // sendRTP sends one RTP packet of a track the way its SETUP asked for.
 func (s *rtspSession) sendRTP(audio bool, rtp []byte) error {
 	udp, peer, ch := s.videoUDP, s.peerVideoRTP, s.videoChan
-- 
2.43.0


From bdd635345fe5c5a41524d4b8c4d7c5642348028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 26/67] fix: read interleaved RTP packets of RTSP publishers
 whole

---
 librtmp/rtsp_ingest.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 4043b9e..edd63eb 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -3,6 +3,7 @@ package librtmp
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"net"
 	"strings"
 	"sync/atomic"
@@ -183,13 +184,13 @@ func (s *rtspSession) runIngestLoop() {
 			continue
 		}
 		hdr := make([]byte, 3)
-		if _, err := s.br.Read(hdr); err != nil {
+		if _, err := io.ReadFull(s.br, hdr); err != nil {
 			return
 		}
 		ch := hdr[0]
 		ln := int(binary.BigEndian.Uint16(hdr[1:3]))
 		body := make([]byte, ln)
-		if _, err := s.br.Read(body); err != nil {
+		if _, err := io.ReadFull(s.br, body); err != nil {
 			return
 		}
 		s.handleInterleaved(ch, body)
-- 
2.43.0


From bfb329e63d6fb5bd202da496e842058d4a30d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 27/67] fix: an RTSP publisher's stream ends with its
 connection, whatever it got to

---
 librtmp/rtsp_ingest.go | 19 ++++++++-----------
 librtmp/rtsp_server.go |  4 ++++
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index edd63eb..8e3d4a5 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -17,6 +17,7 @@ import (
 // rtspSession when the publish flow kicks off.
 type rtspIngest struct {
 	parsed  *librtsp.ParsedSDP
+	room    *Room
 	videoCh int //RTSP interleave channel (RTP), -1 if not negotiated
 	audioCh int
 	videoRA *librtsp.H264Reassembler
@@ -68,6 +69,7 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 	s.app, s.streamID = app, room
 	s.ingest = &rtspIngest{
 		parsed:  parsed,
+		room:    rtmp.room,
 		videoCh: -1,
 		audioCh: -1,
 		videoRA: &librtsp.H264Reassembler{},
@@ -124,6 +126,9 @@ func (s *rtspSession) handleRecord(req *librtsp.Request, resp *librtsp.Response)
 		return resp
 	}
 	resp.Headers.Set("Session", s.sessionID)
+	if !atomic.CompareAndSwapInt32(&s.recording, 0, 1) {
+		return resp
+	}
 
 	//Send the 200 OK first, then enter the ingest loop. Returning nil
 	//tells dispatch's caller "you take it from here" — the run() loop
@@ -132,7 +137,6 @@ func (s *rtspSession) handleRecord(req *librtsp.Request, resp *librtsp.Response)
 	if err := s.writeResponse(resp); err != nil {
 		return nil
 	}
-	atomic.StoreInt32(&s.recording, 1)
 	s.runIngestLoop()
 	return nil
 }
@@ -142,13 +146,6 @@ func (s *rtspSession) handleRecord(req *librtsp.Request, resp *librtsp.Response)
 // UDP tracks each get their own read goroutine; the TCP control loop
 // concurrently handles GET_PARAMETER / TEARDOWN / etc.
 func (s *rtspSession) runIngestLoop() {
-	defer atomic.StoreInt32(&s.recording, 0)
-	defer func() {
-		if s.publishRTMP != nil {
-			s.publishRTMP.cleanup()
-		}
-	}()
-
 	//Spawn a UDP reader per track that was set up in UDP mode.
 	if s.videoUDP != nil {
 		go s.runUDPReader(s.videoUDP, false)
@@ -253,9 +250,9 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	}
 	vt.DataSize = uint32(len(vt.Data()))
 	if frameType == libflv.KEY_FRAME {
-		s.publishRTMP.room.GOP.WriteKey(vt)
+		s.ingest.room.GOP.WriteKey(vt)
 	} else {
-		s.publishRTMP.room.GOP.Write(vt)
+		s.ingest.room.GOP.Write(vt)
 	}
 }
 
@@ -281,7 +278,7 @@ func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
 			SoundData:     frame,
 		}
 		at.DataSize = uint32(len(at.Data()))
-		s.publishRTMP.room.GOP.Write(at)
+		s.ingest.room.GOP.Write(at)
 	}
 }
 
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index ecd6e76..e47cd71 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -118,8 +118,12 @@ func (s *rtspSession) release() {
 	if s.player != nil {
 		s.player.Close()
 	}
+	atomic.StoreInt32(&s.recording, 0)
 	s.closeUDP(false)
 	s.closeUDP(true)
+	if s.publishRTMP != nil {
+		s.publishRTMP.cleanup()
+	}
 }
 
 // closeUDP closes the sockets of one track, if it has any.
-- 
2.43.0


From 96a2056c39e1fc9fedf85d9b0c422cb3b73bf165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 28/67] fix: RTP from publishers: no frames of lost or repeated
 packets, timestamps past the wrap and of every AU

---
 librtmp/rtsp_ingest.go | 59 +++++++++++++++++++++++++++++++++++++++---
 librtsp/rtp_unpack.go  |  3 +++
 2 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 8e3d4a5..ab1cdd3 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -21,11 +21,42 @@ type rtspIngest struct {
 	videoCh int //RTSP interleave channel (RTP), -1 if not negotiated
 	audioCh int
 	videoRA *librtsp.H264Reassembler
+	video   rtpTrack
+	audio   rtpTrack
 	//Audio re-assembly is per-packet (every packet is one+ frame), so
 	//no per-publisher state is needed — we just decode each RTP
 	//payload via librtsp.AACAUExtract.
 }
 
+// rtpTrack follows the sequence numbers and the timestamps of one track.
+type rtpTrack struct {
+	started bool
+	ssrc    uint32
+	seq     uint16
+	ts      uint32
+	ext     int64 //ts, continued past its wrap
+	resync  bool  //packets are missing: skip to the next access unit
+}
+
+// accept takes note of a packet. It reports whether the packet is to be
+// used — neither a duplicate nor late — and whether any before it are
+// missing.
+func (t *rtpTrack) accept(pkt *librtsp.RTPPacket) (use, gap bool) {
+	if !t.started || t.ssrc != pkt.SSRC {
+		gap = t.started
+		t.started, t.ssrc, t.ext = true, pkt.SSRC, int64(pkt.Timestamp)
+	} else {
+		d := int16(pkt.SequenceNum - t.seq)
+		if d <= 0 {
+			return false, false
+		}
+		gap = d > 1
+		t.ext += int64(int32(pkt.Timestamp - t.ts))
+	}
+	t.seq, t.ts = pkt.SequenceNum, pkt.Timestamp
+	return true, gap
+}
+
 // handleAnnounce picks up an SDP body the publisher just pushed,
 // extracts SPS/PPS and AAC config, and provisions a local Room so any
 // downstream protocols (HTTP-FLV / HLS / DASH / RTSP PLAY) can mirror
@@ -231,7 +262,22 @@ func (s *rtspSession) handleInterleaved(channel uint8, payload []byte) {
 }
 
 func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
-	nals, ts := s.ingest.videoRA.Push(pkt)
+	track := &s.ingest.video
+	use, gap := track.accept(pkt)
+	if !use {
+		return
+	}
+	if gap {
+		//What is missing may have been the end of one access unit and
+		//the start of another: neither can be completed any more.
+		s.ingest.videoRA = &librtsp.H264Reassembler{}
+		track.resync = true
+	}
+	if track.resync {
+		track.resync = !pkt.Marker
+		return
+	}
+	nals, _ := s.ingest.videoRA.Push(pkt)
 	if len(nals) == 0 {
 		return
 	}
@@ -240,7 +286,7 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	if librtsp.ContainsKeyframe(nals) {
 		frameType = libflv.KEY_FRAME
 	}
-	tagTS := ts / 90 //RTP video clock is 90 kHz; FLV tags are ms
+	tagTS := uint32(track.ext / 90) //RTP video clock is 90 kHz; FLV tags are ms
 	vt := &libflv.VideoTag{
 		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
 		FrameType:     frameType,
@@ -257,13 +303,18 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 }
 
 func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
+	track := &s.ingest.audio
+	if use, _ := track.accept(pkt); !use {
+		return
+	}
 	frames := librtsp.AACAUExtract(pkt.Payload)
 	rate := s.ingest.parsed.AudioRate
 	if rate <= 0 {
 		rate = 44100
 	}
-	for _, frame := range frames {
-		tagTS := uint32(uint64(pkt.Timestamp) * 1000 / uint64(rate))
+	for i, frame := range frames {
+		//an AAC frame is 1024 samples
+		tagTS := uint32((track.ext + int64(i)*1024) * 1000 / int64(rate))
 		soundType := uint8(libflv.SND_STEREO)
 		if s.ingest.parsed.AudioChans == 1 {
 			soundType = libflv.SND_MONO
diff --git a/librtsp/rtp_unpack.go b/librtsp/rtp_unpack.go
index 0a63d49..d4c58e5 100644
--- a/librtsp/rtp_unpack.go
+++ b/librtsp/rtp_unpack.go
@@ -121,6 +121,9 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 			//indicator's NRI bits + the FU header's type.
 			r.fuBuf = []byte{(hdr & 0xE0) | origType}
 		}
+		if r.fuBuf == nil {
+			break //its start is missing
+		}
 		r.fuBuf = append(r.fuBuf, pkt.Payload[2:]...)
 		if end {
 			r.pending = append(r.pending, r.fuBuf)
-- 
2.43.0


From 2bdfbcba86b56f6684bb12dc9987e6770db4a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 29/67] fix: RTSP publishers: media only from the publisher,
 tracks over UDP use no interleaved channel

---
 librtmp/rtsp_ingest.go | 5 ++++-
 librtmp/rtsp_server.go | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index ab1cdd3..fb6c922 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -230,10 +230,13 @@ func (s *rtspSession) runIngestLoop() {
 func (s *rtspSession) runUDPReader(c *net.UDPConn, isAudio bool) {
 	buf := make([]byte, 1500)
 	for atomic.LoadInt32(&s.recording) == 1 {
-		n, _, err := c.ReadFromUDP(buf)
+		n, from, err := c.ReadFromUDP(buf)
 		if err != nil {
 			return
 		}
+		if !from.IP.Equal(s.peerHostIP()) {
+			continue //not from the publisher
+		}
 		pkt, perr := librtsp.ParseRTP(append([]byte(nil), buf[:n]...))
 		if perr != nil {
 			continue
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index e47cd71..99ae3cc 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -307,7 +307,11 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 	isAudio := false
 	if s.ingest != nil {
 		var ok bool
-		isAudio, ok = s.notifyIngestSetup(req.URL, rtpCh)
+		ch := rtpCh
+		if useUDP {
+			ch = -1 //no interleaved channel carries this track
+		}
+		isAudio, ok = s.notifyIngestSetup(req.URL, ch)
 		if !ok {
 			resp.StatusCode = 404
 			resp.Reason = "Not Found"
-- 
2.43.0


From d439ba677373e6af1b17ab0fe29f60e276750ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 30/67] fix: SRT sessions per caller socket, 31-bit sequence
 numbers, everything received acknowledged

---
 libsrt/control.go  |   8 ++-
 libsrt/listener.go | 172 ++++++++++++++++++++++++++++++++++-----------
 2 files changed, 135 insertions(+), 45 deletions(-)

diff --git a/libsrt/control.go b/libsrt/control.go
index c14c12c..08d8624 100644
--- a/libsrt/control.go
+++ b/libsrt/control.go
@@ -81,16 +81,18 @@ func ParseNAK(body []byte) []LossRange {
 	return out
 }
 
+// seqMask keeps sequence numbers within their 31 bits.
+const seqMask = uint32(1)<<31 - 1
+
 // SeqDiff returns a − b under SRT's 31-bit modular sequence arithmetic.
 // Positive values mean a is "ahead of" b. Used by receiver bookkeeping
 // to detect new packets, retransmits, and loss.
 func SeqDiff(a, b uint32) int32 {
 	const half = uint32(1) << 30
-	const mask = uint32(1)<<31 - 1
-	d := (a - b) & mask
+	d := (a - b) & seqMask
 	if d > half {
 		//d is "negative" in modular arithmetic — wrap into int32 range.
-		return -int32(mask - d + 1)
+		return -int32(seqMask - d + 1)
 	}
 	return int32(d)
 }
diff --git a/libsrt/listener.go b/libsrt/listener.go
index 867c791..bf18362 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -20,6 +20,10 @@ import (
 // Returning an error stops the session.
 type DataHandler func(streamID string, payload []byte) error
 
+// A session whose peer has been silent for peerIdleTimeout is over; so is
+// a handshake that was not concluded by then.
+const peerIdleTimeout = 5 * time.Second
+
 // Listener owns one UDP socket and demultiplexes packets across many
 // SRT sessions keyed by (peer addr, our destSocketID). Sessions live
 // in memory until the peer Shuts down or stops sending for a while.
@@ -29,8 +33,10 @@ type Listener struct {
 	onData     DataHandler
 
 	mu       sync.Mutex
-	sessions map[string]*session
-	socketID uint32 //ours, monotonically incremented per accept
+	sessions map[uint32]*session //by our socket id
+	socketID uint32              //ours, monotonically incremented per accept
+	sweepAt  time.Time           //when to look for silent peers next
+	acksDue  bool                //some session has unacknowledged packets
 }
 
 type session struct {
@@ -71,7 +77,7 @@ func Listen(addr, streamID string, onData DataHandler) (*Listener, error) {
 		conn:     conn,
 		streamID: streamID,
 		onData:   onData,
-		sessions: map[string]*session{},
+		sessions: map[uint32]*session{},
 		socketID: rand.Uint32() | 0x40000000, //bit 30 set so it doesn't look like 0
 	}
 	return l, nil
@@ -82,8 +88,19 @@ func Listen(addr, streamID string, onData DataHandler) (*Listener, error) {
 func (l *Listener) Run() error {
 	buf := make([]byte, 1500)
 	for {
+		//Wake up without packets as well: for acknowledgements that are
+		//due, and for peers that went silent.
+		wait := time.Second
+		if l.flushACKs() {
+			wait = ackInterval
+		}
+		l.sweep()
+		_ = l.conn.SetReadDeadline(time.Now().Add(wait))
 		n, peer, err := l.conn.ReadFromUDP(buf)
 		if err != nil {
+			if ne, ok := err.(net.Error); ok && ne.Timeout() {
+				continue
+			}
 			return err
 		}
 		if n < HeaderSize {
@@ -104,10 +121,7 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 	if err != nil {
 		return
 	}
-	key := peer.String()
-	l.mu.Lock()
-	sess := l.sessions[key]
-	l.mu.Unlock()
+	sess := l.lookup(peer, hdr.DestSocketID)
 
 	switch hdr.Kind {
 	case KindControl:
@@ -116,9 +130,7 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 			l.handleHandshake(peer, hdr, body)
 		case CtrlShutdown:
 			if sess != nil {
-				l.mu.Lock()
-				delete(l.sessions, key)
-				l.mu.Unlock()
+				l.drop(sess)
 			}
 		case CtrlKeepAlive:
 			if sess != nil {
@@ -140,6 +152,40 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 	}
 }
 
+// lookup finds the session a packet belongs to: the one it names, if that
+// is the peer's own.
+func (l *Listener) lookup(peer *net.UDPAddr, id uint32) *session {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	sess := l.sessions[id]
+	if sess == nil || sess.peerAddr.String() != peer.String() {
+		return nil
+	}
+	return sess
+}
+
+func (l *Listener) drop(sess *session) {
+	l.mu.Lock()
+	delete(l.sessions, sess.ourSocketID)
+	l.mu.Unlock()
+}
+
+// sweep drops the sessions of peers that went silent.
+func (l *Listener) sweep() {
+	now := time.Now()
+	if now.Before(l.sweepAt) {
+		return
+	}
+	l.sweepAt = now.Add(time.Second)
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	for id, sess := range l.sessions {
+		if now.Sub(sess.lastSeen) > peerIdleTimeout {
+			delete(l.sessions, id)
+		}
+	}
+}
+
 // handleDataPacket runs the ARQ receiver state machine for one data
 // packet. We deliver in-order packets immediately; out-of-order arrivals
 // trigger a NAK for the gap (so the sender retransmits) and then we
@@ -148,10 +194,6 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 // jitter buffer.
 func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 	sess.mu.Lock()
-	if sess.expectedSeq == 0 && sess.ackNum == 0 {
-		//First data packet — adopt its sequence as the baseline.
-		sess.expectedSeq = hdr.SeqNumber
-	}
 	diff := SeqDiff(hdr.SeqNumber, sess.expectedSeq)
 	sess.receivedSeqs++
 
@@ -165,16 +207,21 @@ func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 		//NAK so the sender can retransmit; either it arrives before we
 		//hand off media (benign) or we've already moved past it.
 		from := sess.expectedSeq
-		to := hdr.SeqNumber - 1
-		sess.expectedSeq = hdr.SeqNumber + 1
+		to := (hdr.SeqNumber - 1) & seqMask
+		sess.expectedSeq = (hdr.SeqNumber + 1) & seqMask
 		sess.mu.Unlock()
 		l.sendNAK(sess, from, to)
 	default:
-		sess.expectedSeq++
+		sess.expectedSeq = (sess.expectedSeq + 1) & seqMask
 		sess.mu.Unlock()
 	}
 	if l.onData != nil {
-		_ = l.onData(sess.streamID, body)
+		if err := l.onData(sess.streamID, body); err != nil {
+			//The consumer has had enough: so has the peer.
+			l.drop(sess)
+			l.sendControl(sess.peerAddr, CtrlShutdown, 0, 0, sess, make([]byte, 4))
+			return
+		}
 	}
 	l.maybeSendACK(sess)
 }
@@ -185,16 +232,43 @@ func (l *Listener) sendNAK(sess *session, from, to uint32) {
 	l.sendControl(sess.peerAddr, CtrlNAK, 0, 0, sess, body)
 }
 
-// maybeSendACK emits an ACK at most every 10 ms (SRT's recommended
-// "Light ACK" interval) so the sender's send window can slide.
+// ackInterval is SRT's recommended "Light ACK" interval.
+const ackInterval = 10 * time.Millisecond
+
+// flushACKs acknowledges what was received since the last ACK, where that
+// is due, and reports whether there is more to come.
+func (l *Listener) flushACKs() (more bool) {
+	if !l.acksDue {
+		return false
+	}
+	var due []*session
+	l.mu.Lock()
+	for _, sess := range l.sessions {
+		sess.mu.Lock()
+		if sess.expectedSeq != sess.lastACKedSeq {
+			due = append(due, sess)
+		}
+		sess.mu.Unlock()
+	}
+	l.mu.Unlock()
+	l.acksDue = false
+	for _, sess := range due {
+		l.maybeSendACK(sess)
+	}
+	return l.acksDue
+}
+
+// maybeSendACK emits an ACK at most every 10 ms so the sender's send
+// window can slide.
 func (l *Listener) maybeSendACK(sess *session) {
-	const ackInterval = 10 * time.Millisecond
 	sess.mu.Lock()
 	if time.Since(sess.lastACK) < ackInterval {
+		l.acksDue = true //Run sends it when it is time
 		sess.mu.Unlock()
 		return
 	}
 	sess.lastACK = time.Now()
+	sess.lastACKedSeq = sess.expectedSeq
 	sess.ackNum++
 	ackNum := sess.ackNum
 	body := (&ACKBody{LastAckedSeq: sess.expectedSeq}).Marshal()
@@ -210,31 +284,42 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 	if err != nil {
 		return
 	}
-	key := peer.String()
 
+	//Each socket of a peer has a session of its own.
+	var sess *session
 	l.mu.Lock()
-	sess := l.sessions[key]
-	if sess == nil {
-		sess = &session{
-			peerAddr:     peer,
-			ourSocketID:  l.socketID,
-			startTime:    time.Now(),
-			streamID:     l.streamID,
+	for _, s := range l.sessions {
+		if s.peerSocketID == hs.SrtSocketID && s.peerAddr.String() == peer.String() {
+			sess = s
+			break
 		}
-		l.socketID++
-		l.sessions[key] = sess
 	}
 	l.mu.Unlock()
 
 	switch hs.HandshakeType {
 	case HSTypeAgreement: //v5 INDUCTION
-		//Mint a cookie tied to the peer's socket id; the conclusion
-		//must echo it back. CRC32 is used as a cheap mixer; real SRT
-		//also includes a server start time and IP.
-		sess.peerSocketID = hs.SrtSocketID
-		sess.cookie = crc32.ChecksumIEEE(
-			[]byte(fmt.Sprintf("%s-%d-%d",
-				peer.IP.String(), hs.SrtSocketID, time.Now().UnixNano())))
+		if sess == nil {
+			//Mint a cookie tied to the peer's socket id; the conclusion
+			//must echo it back. CRC32 is used as a cheap mixer; real SRT
+			//also includes a server start time and IP. An induction that
+			//is repeated gets the same answer.
+			now := time.Now()
+			sess = &session{
+				peerAddr:     peer,
+				peerSocketID: hs.SrtSocketID,
+				startTime:    now,
+				lastSeen:     now,
+				streamID:     l.streamID,
+				cookie: crc32.ChecksumIEEE(
+					[]byte(fmt.Sprintf("%s-%d-%d-%d",
+						peer.String(), hs.SrtSocketID, now.UnixNano(), rand.Uint32()))),
+			}
+			l.mu.Lock()
+			sess.ourSocketID = l.socketID
+			l.socketID++
+			l.sessions[sess.ourSocketID] = sess
+			l.mu.Unlock()
+		}
 
 		reply := *hs
 		reply.HandshakeType = HSTypeAgreement
@@ -244,13 +329,16 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 		l.sendControl(peer, CtrlHandshake, 0, 0, sess, reply.Marshal())
 
 	case HSTypeConclusion:
-		if hs.SyncCookie != sess.cookie {
+		if sess == nil || hs.SyncCookie != sess.cookie {
 			//Wrong cookie — quietly drop. Real SRT rejects.
 			return
 		}
-		sess.peerSocketID = hs.SrtSocketID
-		sess.expectedSeq = hs.InitialSequence
-		sess.concluded = true
+		if !sess.concluded {
+			sess.expectedSeq = hs.InitialSequence & seqMask
+			sess.lastACKedSeq = sess.expectedSeq
+			sess.lastSeen = time.Now()
+			sess.concluded = true
+		}
 
 		reply := *hs
 		reply.HandshakeType = HSTypeConclusion
-- 
2.43.0


From a11a98b5a2afa6b558f90e27681daa7e69cc830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 31/67] fix: pull delays never exceed 30 s

---
 librtmp/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index 883c677..8bab53e 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -171,8 +171,8 @@ func (s *server) Handler() error {
 					fmt.Printf("rtmp pull %s: %v\n", spec.remoteURL, err)
 				}
 				time.Sleep(backoff)
-				if backoff < 30*time.Second {
-					backoff *= 2
+				if backoff *= 2; backoff > 30*time.Second {
+					backoff = 30 * time.Second
 				}
 			}
 		}()
-- 
2.43.0


From 15040ed503ac5bc7687f9b2dd5b1e4bd9924e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 32/67] fix: a pull gives up on upstreams that refuse or fall
 silent

---
 librtmp/command_message.go | 18 ++++++++++++++++--
 librtmp/rtmp.go            | 19 +++++++++++++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index d37a4e7..839e7e8 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -75,6 +75,10 @@ type CommandMessage struct {
 
 	// Reader flag toggles for receiveAudio / receiveVideo.
 	BoolFlag bool
+
+	// Outcome of a command we sent.
+	StatusLevel string //_error, onStatus
+	StatusCode  string //_error, onStatus
 }
 
 func NewCommandMessage(mb MessageBase, fields ...interface{} /*commandName string, transcationID int, others*/) (cm *CommandMessage) {
@@ -166,6 +170,13 @@ func (cm *CommandMessage) Parse() (err error) {
 		if len(array) >= 4 {
 			cm.BoolFlag, _ = array[3].(bool)
 		}
+	case _ERROR, ON_STATUS:
+		if len(array) >= 4 {
+			if info, ok := array[3].(map[string]interface{}); ok {
+				cm.StatusLevel, _ = info["level"].(string)
+				cm.StatusCode, _ = info["code"].(string)
+			}
+		}
 	}
 	return nil
 }
@@ -410,8 +421,11 @@ func (cm *CommandMessage) Do() (err error) {
 		//connect/createStream sender can move on. No-op for the more
 		//common server-side case.
 		atomic.AddUint32(&cm.rtmp.resultCount, 1)
-	case _ERROR:
-		atomic.AddUint32(&cm.rtmp.resultCount, 1)
+	case _ERROR, ON_STATUS:
+		//Outbound-client path: the upstream refused a command.
+		if cm.rtmp.connectApp != "" && (cm.CommandName == _ERROR || cm.StatusLevel == "error") {
+			return errors.Errorf("refused by upstream: %s", cm.StatusCode)
+		}
 	default:
 	}
 
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 27252b7..8b83109 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"time"
 
 	"github.com/SmartBrave/Athena/easyio"
 )
@@ -82,6 +83,21 @@ func (cr *countingReader) Read(b []byte) (n int, err error) {
 	return n, err
 }
 
+// clientIdleTimeout is how long an upstream may stay silent.
+const clientIdleTimeout = 15 * time.Second
+
+// idleReader fails when the peer sends nothing for clientIdleTimeout.
+type idleReader struct {
+	conn net.Conn
+}
+
+func (ir *idleReader) Read(b []byte) (n int, err error) {
+	if err = ir.conn.SetReadDeadline(time.Now().Add(clientIdleTimeout)); err != nil {
+		return 0, err
+	}
+	return ir.conn.Read(b)
+}
+
 func (rtmp *RTMP) HandlerServer() {
 	defer rtmp.cleanup()
 
@@ -142,6 +158,9 @@ func (rtmp *RTMP) leave() {
 func (rtmp *RTMP) HandlerClient() {
 	defer rtmp.cleanup()
 
+	//An upstream that has gone silent is as good as gone.
+	rtmp.readerConn = easyio.NewEasyReader(&countingReader{r: &idleReader{conn: rtmp.conn}, n: &rtmp.bytesReceived})
+
 	if err := HandshakeClient(rtmp); err != nil {
 		fmt.Println("client handshake error:", err)
 		return
-- 
2.43.0


From d83c124bffb02b7ecae892396397c179918d747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:16 +0000
Subject: [PATCH 33/67] fix: any packet of an SRT peer keeps its session alive

---
 libsrt/listener.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsrt/listener.go b/libsrt/listener.go
index bf18362..c13c5b9 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -122,6 +122,9 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 		return
 	}
 	sess := l.lookup(peer, hdr.DestSocketID)
+	if sess != nil {
+		sess.lastSeen = time.Now()
+	}
 
 	switch hdr.Kind {
 	case KindControl:
@@ -134,7 +137,6 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 			}
 		case CtrlKeepAlive:
 			if sess != nil {
-				sess.lastSeen = time.Now()
 				//Mirror the keepalive back per spec.
 				resp := make([]byte, HeaderSize)
 				MarshalControlHeader(resp, CtrlKeepAlive, 0, 0,
@@ -147,7 +149,6 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 		if sess == nil || !sess.concluded {
 			return
 		}
-		sess.lastSeen = time.Now()
 		l.handleDataPacket(sess, hdr, body)
 	}
 }
-- 
2.43.0


From 1a18b33a8f5f8b8376f7fdf778922b484c81c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:02 +0000
Subject: [PATCH 34/67] fix: take memory for an AMF string only as its bytes
 arrive, not as its length field says

---
 libamf/amf0.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index 5be4bd7..d476234 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -156,11 +156,26 @@ func decodeLongStringamf0(r easyio.EasyReader) (str string, err error) {
 
 //TODO: utf-8 support
 func readByteamf0(r easyio.EasyReader, length uint32) (b []byte, err error) {
-	b, err = r.ReadN(uint32(length))
-	if err != nil {
-		return nil, err
+	//length is what the peer claims; memory is only taken for what is there
+	const step = 4096
+	for {
+		n := length
+		if n > step {
+			n = step
+		}
+		p, err := r.ReadN(n)
+		if err != nil {
+			if err == io.EOF && len(b) > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+			return nil, err
+		}
+		b = append(b, p...)
+		length -= n
+		if length == 0 {
+			return b, nil
+		}
 	}
-	return b, nil
 }
 
 func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
-- 
2.43.0


From 1468e1770923c7c15f9b1ceeb6d556a95d4ab117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:40 +0000
Subject: [PATCH 35/67] fix: refuse an RTSP request with a negative or enormous
 Content-Length

---
 librtsp/message.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/librtsp/message.go b/librtsp/message.go
index 0a1a222..a7256e8 100644
--- a/librtsp/message.go
+++ b/librtsp/message.go
@@ -51,6 +51,10 @@ func (h Headers) Set(key, value string) { h[strings.ToLower(key)] = value }
 func (h Headers) Get(key string) string { return h[strings.ToLower(key)] }
 func (h Headers) Del(key string)        { delete(h, strings.ToLower(key)) }
 
+// maxBody bounds the body of a request; a session description takes a few
+// hundred bytes.
+const maxBody = 1 << 20
+
 // ReadRequest consumes one request from r. Body length is taken from
 // the Content-Length header; absent length means no body.
 func ReadRequest(r *bufio.Reader) (*Request, error) {
@@ -76,6 +80,9 @@ func ReadRequest(r *bufio.Reader) (*Request, error) {
 		if err != nil {
 			return nil, fmt.Errorf("bad Content-Length: %v", err)
 		}
+		if n < 0 || n > maxBody {
+			return nil, fmt.Errorf("bad Content-Length: %d", n)
+		}
 		body := make([]byte, n)
 		if _, err := io.ReadFull(r, body); err != nil {
 			return nil, err
-- 
2.43.0


From ac567f6f61c0b7f887a3d1712c6565ca870bc413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:40 +0000
Subject: [PATCH 36/67] fix: a PMT whose pointer field leads out of the packet
 must not end the server

---
 libsrt/tsdemux.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 51d0ba4..2d0f949 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -136,10 +136,10 @@ func (d *Demuxer) parsePMT(payload []byte) {
 		return
 	}
 	pointer := int(payload[0])
-	body := payload[1+pointer:]
-	if len(body) < 12 {
+	if 1+pointer+12 > len(payload) {
 		return
 	}
+	body := payload[1+pointer:]
 	sectionLen := int(binary.BigEndian.Uint16(body[1:3])&0x0FFF) + 3
 	if sectionLen > len(body) {
 		sectionLen = len(body)
-- 
2.43.0


From db8e7e49e43bf4c5804b28b9fa8206d497788f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:29 +0000
Subject: [PATCH 37/67] fix: bound how deep AMF values may be nested

---
 libamf/amf0.go | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index d476234..ed8383a 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -44,7 +44,7 @@ func (amf0) Decode(r easyio.EasyReader) (res []interface{}, err error) {
 	var i interface{}
 	var marker Marker
 	for {
-		marker, i, err = decodeamf0(r)
+		marker, i, err = decodeamf0(r, 0)
 		if err == io.EOF {
 			break
 		}
@@ -70,7 +70,14 @@ func (amf0) Decode(r easyio.EasyReader) (res []interface{}, err error) {
 	return res, nil
 }
 
-func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
+//maxDepth bounds how deep values may be nested; a message could nest
+//millions of them.
+const maxDepth = 64
+
+func decodeamf0(r easyio.EasyReader, depth int) (marker Marker, i interface{}, err error) {
+	if depth > maxDepth {
+		return InvalidMarker, nil, errors.New("amf0 values nested too deep")
+	}
 	var b []byte
 	b, err = r.ReadN(1)
 	if err != nil {
@@ -86,7 +93,7 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case StringMarker:
 		i, err = decodeStringamf0(r)
 	case ObjectMarker: //complex types
-		i, err = decodeObjectamf0(r)
+		i, err = decodeObjectamf0(r, depth)
 	case MovieclipMarker: //not supported, do nothing
 	case NULLMarker:
 		i, err = nil, nil
@@ -94,10 +101,10 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case ReferenceMarker:
 		i, err = decodeReferenceamf0(r)
 	case EcmaArrayMarker: //complex types
-		i, err = decodeEcmaArrayamf0(r)
+		i, err = decodeEcmaArrayamf0(r, depth)
 	case ObjectEndMarker: //no futher information is encoded, do nothing
 	case StrictArrayMarker:
-		i, err = decodeStrictArrayamf0(r)
+		i, err = decodeStrictArrayamf0(r, depth)
 	case DateMarker:
 		i, err = decodeDateamf0(r)
 	case LongStringMarker:
@@ -109,7 +116,7 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case TypedObjectMarker: //complex types
 		//XXX: get className, then?
 		var className string
-		className, i, err = decodeTypedObjectamf0(r)
+		className, i, err = decodeTypedObjectamf0(r, depth)
 		i = map[string]interface{}{
 			className: i,
 		}
@@ -178,11 +185,11 @@ func readByteamf0(r easyio.EasyReader, length uint32) (b []byte, err error) {
 	}
 }
 
-func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
+func decodeObjectamf0(r easyio.EasyReader, depth int) (res map[string]interface{}, err error) {
 	var p *pair
 	res = make(map[string]interface{})
 	for {
-		p, err = readPairamf0(r)
+		p, err = readPairamf0(r, depth)
 		if err != nil {
 			return res, err
 		}
@@ -194,13 +201,13 @@ func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err erro
 	return res, nil
 }
 
-func decodeTypedObjectamf0(r easyio.EasyReader) (className string, res map[string]interface{}, err error) {
+func decodeTypedObjectamf0(r easyio.EasyReader, depth int) (className string, res map[string]interface{}, err error) {
 	className, err = decodeStringamf0(r)
 	if err != nil {
 		return className, res, err
 	}
 
-	res, err = decodeObjectamf0(r)
+	res, err = decodeObjectamf0(r, depth)
 	return className, res, err
 }
 
@@ -209,7 +216,7 @@ type pair struct {
 	value interface{}
 }
 
-func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
+func readPairamf0(r easyio.EasyReader, depth int) (p *pair, err error) {
 	p = &pair{}
 	p.key, err = decodeStringamf0(r)
 	if err != nil {
@@ -225,7 +232,7 @@ func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
 		return p, err
 	}
 
-	_, p.value, err = decodeamf0(r)
+	_, p.value, err = decodeamf0(r, depth+1)
 	if err != nil {
 		return p, err
 	}
@@ -237,7 +244,7 @@ func decodeReferenceamf0(r easyio.EasyReader) (index uint16, err error) {
 	return index, err
 }
 
-func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
+func decodeEcmaArrayamf0(r easyio.EasyReader, depth int) (res map[string]interface{}, err error) {
 	var length uint32
 	err = binary.Read(r, binary.BigEndian, &length)
 	if err != nil {
@@ -249,7 +256,7 @@ func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err e
 	res = make(map[string]interface{})
 	var p *pair
 	for {
-		p, err = readPairamf0(r)
+		p, err = readPairamf0(r, depth)
 		if err != nil {
 			return res, err
 		}
@@ -261,7 +268,7 @@ func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err e
 	return res, nil
 }
 
-func decodeStrictArrayamf0(r easyio.EasyReader) (res []interface{}, err error) {
+func decodeStrictArrayamf0(r easyio.EasyReader, depth int) (res []interface{}, err error) {
 	var length uint32
 	err = binary.Read(r, binary.BigEndian, &length)
 	if err != nil {
@@ -271,7 +278,7 @@ func decodeStrictArrayamf0(r easyio.EasyReader) (res []interface{}, err error) {
 	var i uint32
 	var item interface{}
 	for i = 0; i < length; i++ {
-		_, item, err = decodeamf0(r)
+		_, item, err = decodeamf0(r, depth+1)
 		if err != nil {
 			return res, err
 		}
-- 
2.43.0


From 3c2b4967189dc80b8bc5134545dbd0935b98d946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 38/67] fix: an SRT stream ends with its session, and a
 session's state is its own

---
 librtmp/srt_server.go | 60 +++++++++++++++++------------------
 libsrt/listener.go    | 73 +++++++++++++++++++++++++++++++++++--------
 libsrt/tsdemux.go     | 11 +++++++
 3 files changed, 100 insertions(+), 44 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 6c2a25a..10107f0 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -3,8 +3,6 @@ package librtmp
 import (
 	"encoding/binary"
 	"fmt"
-	"sync"
-	"time"
 
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/libsrt"
@@ -20,15 +18,13 @@ type srtSpec struct {
 	streamID string
 }
 
-// srtBridge wraps one libsrt.Listener and the per-stream demux state
-// that turns MPEG-TS into FLV tags. There's one bridge per WithSRT
-// invocation.
+// srtBridge turns the MPEG-TS of one session into FLV tags.
 type srtBridge struct {
-	spec    srtSpec
-	server  *server
-	mu      sync.Mutex
-	room    *Room
-	demux   *libsrt.Demuxer
+	spec      srtSpec
+	server    *server
+	publisher *RTMP //nil until the stream is published
+	room      *Room
+	demux     *libsrt.Demuxer
 
 	// Sequence-header bookkeeping. Once SPS/PPS are extracted from
 	// an in-band IDR access unit, we synthesise AVCDecoderConfigurationRecord
@@ -44,15 +40,16 @@ type srtBridge struct {
 // startSRT installs the listener; called from server.Handler() once
 // per WithSRT spec.
 func startSRT(srv *server, spec srtSpec) {
-	br := &srtBridge{
-		spec:   spec,
-		server: srv,
-		demux:  libsrt.NewDemuxer(),
-	}
-	br.demux.OnVideo = br.onVideo
-	br.demux.OnAudio = br.onAudio
-
-	listener, err := libsrt.Listen(spec.address, spec.streamID, br.onData)
+	listener, err := libsrt.ListenSessions(spec.address, spec.streamID, func(string) libsrt.SessionHandler {
+		br := &srtBridge{
+			spec:   spec,
+			server: srv,
+			demux:  libsrt.NewDemuxer(),
+		}
+		br.demux.OnVideo = br.onVideo
+		br.demux.OnAudio = br.onAudio
+		return br
+	})
 	if err != nil {
 		fmt.Printf("srt listen %s: %v\n", spec.address, err)
 		return
@@ -64,15 +61,13 @@ func startSRT(srv *server, spec srtSpec) {
 	}()
 }
 
-// onData feeds raw TS bytes from the SRT listener into the demuxer.
+// Data feeds raw TS bytes from the SRT session into the demuxer.
 // Lazy-allocates the Room on first invocation so empty publishes don't
 // pollute the App's room map.
-func (br *srtBridge) onData(streamID string, payload []byte) error {
-	br.mu.Lock()
-	if br.room == nil {
+func (br *srtBridge) Data(payload []byte, lost bool) error {
+	if br.publisher == nil {
 		app, ok := br.server.apps[br.spec.app]
 		if !ok {
-			br.mu.Unlock()
 			return fmt.Errorf("srt: app %q missing", br.spec.app)
 		}
 		//Pseudo-publisher RTMP struct so cleanup paths match.
@@ -84,16 +79,23 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 		}
 		ps.room = NewRoom(ps, br.spec.streamID)
 		if !app.publish(ps.room) {
-			br.mu.Unlock()
 			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
 		}
-		br.room = ps.room
+		br.publisher, br.room = ps, ps.room
 	}
-	br.mu.Unlock()
 	br.demux.Feed(payload)
 	return nil
 }
 
+// Closed ends the stream together with its session.
+func (br *srtBridge) Closed() {
+	if br.publisher == nil {
+		return
+	}
+	br.demux.Flush()
+	br.publisher.cleanup()
+}
+
 // onVideo converts an AnnexB-formatted access unit into FLV video
 // tag(s). On the first IDR we mine SPS/PPS, emit the AVC sequence
 // header, then continue with NALU tags.
@@ -269,7 +271,3 @@ func splitAnnexB(buf []byte) [][]byte {
 	}
 	return out
 }
-
-// silence the unused-time import in case the demuxer-feed path needs
-// time.Time later for stats.
-var _ = time.Now
diff --git a/libsrt/listener.go b/libsrt/listener.go
index c13c5b9..865fc62 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -20,6 +20,21 @@ import (
 // Returning an error stops the session.
 type DataHandler func(streamID string, payload []byte) error
 
+// SessionHandler consumes one session.
+type SessionHandler interface {
+	// Data is invoked once per data packet, like a DataHandler. lost
+	// reports that packets before this one are missing.
+	Data(payload []byte, lost bool) error
+	// Closed is invoked when the session is over, whatever ended it.
+	Closed()
+}
+
+// handlerFunc makes a SessionHandler of a DataHandler.
+type handlerFunc func(payload []byte) error
+
+func (f handlerFunc) Data(payload []byte, lost bool) error { return f(payload) }
+func (f handlerFunc) Closed()                              {}
+
 // A session whose peer has been silent for peerIdleTimeout is over; so is
 // a handshake that was not concluded by then.
 const peerIdleTimeout = 5 * time.Second
@@ -30,7 +45,7 @@ const peerIdleTimeout = 5 * time.Second
 type Listener struct {
 	conn       *net.UDPConn
 	streamID   string
-	onData     DataHandler
+	open       func(streamID string) SessionHandler
 
 	mu       sync.Mutex
 	sessions map[uint32]*session //by our socket id
@@ -49,6 +64,7 @@ type session struct {
 	lastSeen      time.Time
 	streamID      string
 	expectedSeq   uint32
+	handler       SessionHandler //of a concluded session
 
 	// ACK / NAK bookkeeping. lastACKedSeq is the sequence number we
 	// last reported via an ACK; ackNum is the monotonically-incrementing
@@ -65,6 +81,19 @@ type session struct {
 // session (since the SRT spec carries an optional StreamID extension
 // we don't parse, the fallback is the listener-supplied default).
 func Listen(addr, streamID string, onData DataHandler) (*Listener, error) {
+	return ListenSessions(addr, streamID, func(streamID string) SessionHandler {
+		return handlerFunc(func(payload []byte) error {
+			if onData == nil {
+				return nil
+			}
+			return onData(streamID, payload)
+		})
+	})
+}
+
+// ListenSessions is Listen with a handler of its own, from open, for each
+// session.
+func ListenSessions(addr, streamID string, open func(streamID string) SessionHandler) (*Listener, error) {
 	uaddr, err := net.ResolveUDPAddr("udp", addr)
 	if err != nil {
 		return nil, err
@@ -76,7 +105,7 @@ func Listen(addr, streamID string, onData DataHandler) (*Listener, error) {
 	l := &Listener{
 		conn:     conn,
 		streamID: streamID,
-		onData:   onData,
+		open:     open,
 		sessions: map[uint32]*session{},
 		socketID: rand.Uint32() | 0x40000000, //bit 30 set so it doesn't look like 0
 	}
@@ -86,6 +115,7 @@ func Listen(addr, streamID string, onData DataHandler) (*Listener, error) {
 // Run drives the receive loop until the underlying socket closes.
 // Caller is responsible for invoking Close().
 func (l *Listener) Run() error {
+	defer l.dropAll()
 	buf := make([]byte, 1500)
 	for {
 		//Wake up without packets as well: for acknowledgements that are
@@ -167,8 +197,28 @@ func (l *Listener) lookup(peer *net.UDPAddr, id uint32) *session {
 
 func (l *Listener) drop(sess *session) {
 	l.mu.Lock()
+	_, ok := l.sessions[sess.ourSocketID]
 	delete(l.sessions, sess.ourSocketID)
 	l.mu.Unlock()
+	if ok && sess.handler != nil {
+		sess.handler.Closed()
+	}
+}
+
+// dropAll ends every session.
+func (l *Listener) dropAll() {
+	for _, sess := range l.all() {
+		l.drop(sess)
+	}
+}
+
+func (l *Listener) all() (all []*session) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	for _, sess := range l.sessions {
+		all = append(all, sess)
+	}
+	return all
 }
 
 // sweep drops the sessions of peers that went silent.
@@ -178,11 +228,9 @@ func (l *Listener) sweep() {
 		return
 	}
 	l.sweepAt = now.Add(time.Second)
-	l.mu.Lock()
-	defer l.mu.Unlock()
-	for id, sess := range l.sessions {
+	for _, sess := range l.all() {
 		if now.Sub(sess.lastSeen) > peerIdleTimeout {
-			delete(l.sessions, id)
+			l.drop(sess)
 		}
 	}
 }
@@ -216,13 +264,11 @@ func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 		sess.expectedSeq = (sess.expectedSeq + 1) & seqMask
 		sess.mu.Unlock()
 	}
-	if l.onData != nil {
-		if err := l.onData(sess.streamID, body); err != nil {
-			//The consumer has had enough: so has the peer.
-			l.drop(sess)
-			l.sendControl(sess.peerAddr, CtrlShutdown, 0, 0, sess, make([]byte, 4))
-			return
-		}
+	if err := sess.handler.Data(body, diff > 0); err != nil {
+		//The consumer has had enough: so has the peer.
+		l.drop(sess)
+		l.sendControl(sess.peerAddr, CtrlShutdown, 0, 0, sess, make([]byte, 4))
+		return
 	}
 	l.maybeSendACK(sess)
 }
@@ -339,6 +385,7 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 			sess.lastACKedSeq = sess.expectedSeq
 			sess.lastSeen = time.Now()
 			sess.concluded = true
+			sess.handler = l.open(sess.streamID)
 		}
 
 		reply := *hs
diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 2d0f949..f1e6b6a 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -102,6 +102,17 @@ func (d *Demuxer) Feed(buf []byte) {
 	}
 }
 
+// Flush emits what is left when the stream ends: nothing else tells that
+// the last PES of each stream is complete.
+func (d *Demuxer) Flush() {
+	if len(d.videoBuf) > 0 {
+		d.flushVideo()
+	}
+	if len(d.audioBuf) > 0 {
+		d.flushAudio()
+	}
+}
+
 // parsePAT pulls the first PMT entry from the Program Association
 // Table. We only support a single program; multi-program TS would need
 // a richer accumulator.
-- 
2.43.0


From 8a52704c03aa44a9d24000e36f76b2645ffcdcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 39/67] fix: SRT ingest drops damaged PES, and takes all ADTS
 frames of a PES

---
 librtmp/srt_server.go |  22 +++-
 libsrt/listener.go    |  17 ++--
 libsrt/tsdemux.go     | 231 ++++++++++++++++++++++++++++++++----------
 3 files changed, 202 insertions(+), 68 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 10107f0..f952320 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -83,16 +83,21 @@ func (br *srtBridge) Data(payload []byte, lost bool) error {
 		}
 		br.publisher, br.room = ps, ps.room
 	}
+	if lost {
+		br.demux.Lost()
+	}
 	br.demux.Feed(payload)
 	return nil
 }
 
 // Closed ends the stream together with its session.
-func (br *srtBridge) Closed() {
+func (br *srtBridge) Closed(shutdown bool) {
 	if br.publisher == nil {
 		return
 	}
-	br.demux.Flush()
+	if shutdown {
+		br.demux.Flush()
+	}
 	br.publisher.cleanup()
 }
 
@@ -174,7 +179,7 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 // The first frame triggers the sequence-header emission derived from
 // the ADTS profile/rate/channel fields.
 func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
-	if len(af.Data) < 7 {
+	if len(af.Data) < 7 || len(af.Data) < adtsHeaderLen(af.Data) {
 		return
 	}
 	if af.Data[0] != 0xFF || (af.Data[1]&0xF0) != 0xF0 {
@@ -222,12 +227,21 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 		SoundSize:     libflv.SND_16_BIT,
 		SoundType:     soundType,
 		AACPacketType: libflv.AAC_RAW,
-		SoundData:     af.Data[7:], //strip 7-byte ADTS header
+		SoundData:     af.Data[adtsHeaderLen(af.Data):],
 	}
 	at.DataSize = uint32(len(at.Data()))
 	br.room.GOP.Write(at)
 }
 
+// adtsHeaderLen is how much of an ADTS frame precedes the AAC data: the
+// header, and a CRC where there is one.
+func adtsHeaderLen(frame []byte) int {
+	if frame[1]&0x01 == 0 {
+		return 9
+	}
+	return 7
+}
+
 // splitAnnexB walks an AnnexB-formatted byte stream and yields one
 // slice per NAL unit (start code stripped). Tolerates both 3-byte
 // (0x000001) and 4-byte (0x00000001) start codes.
diff --git a/libsrt/listener.go b/libsrt/listener.go
index 865fc62..270ca96 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -26,14 +26,15 @@ type SessionHandler interface {
 	// reports that packets before this one are missing.
 	Data(payload []byte, lost bool) error
 	// Closed is invoked when the session is over, whatever ended it.
-	Closed()
+	// shutdown reports that the peer did, having sent all it had.
+	Closed(shutdown bool)
 }
 
 // handlerFunc makes a SessionHandler of a DataHandler.
 type handlerFunc func(payload []byte) error
 
 func (f handlerFunc) Data(payload []byte, lost bool) error { return f(payload) }
-func (f handlerFunc) Closed()                              {}
+func (f handlerFunc) Closed(shutdown bool)                 {}
 
 // A session whose peer has been silent for peerIdleTimeout is over; so is
 // a handshake that was not concluded by then.
@@ -163,7 +164,7 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 			l.handleHandshake(peer, hdr, body)
 		case CtrlShutdown:
 			if sess != nil {
-				l.drop(sess)
+				l.drop(sess, true)
 			}
 		case CtrlKeepAlive:
 			if sess != nil {
@@ -195,20 +196,20 @@ func (l *Listener) lookup(peer *net.UDPAddr, id uint32) *session {
 	return sess
 }
 
-func (l *Listener) drop(sess *session) {
+func (l *Listener) drop(sess *session, shutdown bool) {
 	l.mu.Lock()
 	_, ok := l.sessions[sess.ourSocketID]
 	delete(l.sessions, sess.ourSocketID)
 	l.mu.Unlock()
 	if ok && sess.handler != nil {
-		sess.handler.Closed()
+		sess.handler.Closed(shutdown)
 	}
 }
 
 // dropAll ends every session.
 func (l *Listener) dropAll() {
 	for _, sess := range l.all() {
-		l.drop(sess)
+		l.drop(sess, false)
 	}
 }
 
@@ -230,7 +231,7 @@ func (l *Listener) sweep() {
 	l.sweepAt = now.Add(time.Second)
 	for _, sess := range l.all() {
 		if now.Sub(sess.lastSeen) > peerIdleTimeout {
-			l.drop(sess)
+			l.drop(sess, false)
 		}
 	}
 }
@@ -266,7 +267,7 @@ func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 	}
 	if err := sess.handler.Data(body, diff > 0); err != nil {
 		//The consumer has had enough: so has the peer.
-		l.drop(sess)
+		l.drop(sess, false)
 		l.sendControl(sess.peerAddr, CtrlShutdown, 0, 0, sess, make([]byte, 4))
 		return
 	}
diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index f1e6b6a..6efeb11 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -48,15 +48,78 @@ type Demuxer struct {
 	pmtPID    uint16
 	videoPID  uint16
 	audioPID  uint16
-	videoBuf  []byte
-	videoTS   uint64 //PTS of in-progress PES (90 kHz)
-	videoDTS  uint64
-	audioBuf  []byte
-	audioTS   uint64
+	video     pesBuffer
+	audio     pesBuffer
+	adts      []byte //start of an ADTS frame that the next audio PES completes
+	adtsPTS   uint64 //PTS of the next frame
+	adtsRest  uint64 //fraction of it, in units of the sampling rate
 	OnVideo   func(AccessUnit)
 	OnAudio   func(AudioFrame)
 }
 
+// pesBuffer collects the PES in progress on one PID.
+type pesBuffer struct {
+	seen  bool //a packet was
+	cc    byte //of the last packet
+	open  bool //everything since the start of a PES is in data
+	size  int  //of its body, 0 if unknown
+	data  []byte
+	known bool   //a PTS is
+	timed bool   //the PES has a PTS of its own
+	pts   uint64 //(90 kHz)
+	dts   uint64
+}
+
+// accept checks the continuity counter of a packet: one that repeats is not
+// to be used again, and a gap spoils the PES it is in.
+func (p *pesBuffer) accept(pkt []byte, discontinuity bool) (use, gap bool) {
+	cc := pkt[3] & 0x0F
+	if p.seen && !discontinuity {
+		if cc == p.cc {
+			return false, false
+		}
+		gap = cc != (p.cc+1)&0x0F
+	}
+	p.seen, p.cc = true, cc
+	return true, gap
+}
+
+// complete takes what was collected, if that is a whole PES.
+func (p *pesBuffer) complete() ([]byte, bool) {
+	data, ok := p.data, p.open && p.known && len(p.data) > 0
+	if p.size > 0 && ok {
+		if ok = len(data) >= p.size; ok {
+			data = data[:p.size]
+		}
+	}
+	p.open, p.data = false, nil
+	return data, ok
+}
+
+// push adds the payload of a packet. A PES without a PTS takes that of the
+// one before.
+func (p *pesBuffer) push(pusi bool, payload []byte) {
+	if !pusi {
+		if p.open {
+			p.data = append(p.data, payload...)
+		}
+		return
+	}
+	pts, dts, body, ok := parsePESHeader(payload)
+	if !ok {
+		p.open, p.data = false, nil
+		return
+	}
+	if p.timed = payload[7]&0x80 != 0; p.timed {
+		p.known, p.pts, p.dts = true, pts, dts
+	}
+	p.size = 0
+	if n := int(binary.BigEndian.Uint16(payload[4:6])); n > 0 {
+		p.size = n - 3 - int(payload[8])
+	}
+	p.open, p.data = true, append([]byte(nil), body...)
+}
+
 // NewDemuxer returns a fresh demuxer. Callbacks should be set before
 // calling Feed.
 func NewDemuxer() *Demuxer { return &Demuxer{} }
@@ -75,14 +138,19 @@ func (d *Demuxer) Feed(buf []byte) {
 		}
 		pid := uint16(pkt[1]&0x1F)<<8 | uint16(pkt[2])
 		pusi := pkt[1]&0x40 != 0
+		if pkt[1]&0x80 != 0 {
+			continue //known to be damaged
+		}
 		afCtrl := (pkt[3] >> 4) & 0x03 //adaptation field control
 		off := 4
+		discontinuity := false
 		if afCtrl == 2 || afCtrl == 3 {
 			afLen := int(pkt[4])
 			off += 1 + afLen
 			if off > TSPacketSize {
 				continue
 			}
+			discontinuity = afLen > 0 && pkt[5]&0x80 != 0
 		}
 		if afCtrl == 0 || afCtrl == 2 {
 			continue //no payload
@@ -95,22 +163,46 @@ func (d *Demuxer) Feed(buf []byte) {
 		case d.pmtPID:
 			d.parsePMT(payload)
 		case d.videoPID:
-			d.feedVideo(pusi, payload)
+			use, gap := d.video.accept(pkt, discontinuity)
+			if gap {
+				d.lostVideo()
+			}
+			if use {
+				d.feedVideo(pusi, payload)
+			}
 		case d.audioPID:
-			d.feedAudio(pusi, payload)
+			use, gap := d.audio.accept(pkt, discontinuity)
+			if gap {
+				d.lostAudio()
+			}
+			if use {
+				d.feedAudio(pusi, payload)
+			}
 		}
 	}
 }
 
+// Lost tells that packets are missing before what is fed next. What is in
+// progress can't be completed any more.
+func (d *Demuxer) Lost() {
+	d.lostVideo()
+	d.lostAudio()
+}
+
+func (d *Demuxer) lostVideo() {
+	d.video.open, d.video.data = false, nil
+}
+
+func (d *Demuxer) lostAudio() {
+	d.audio.open, d.audio.data = false, nil
+	d.adts = nil
+}
+
 // Flush emits what is left when the stream ends: nothing else tells that
 // the last PES of each stream is complete.
 func (d *Demuxer) Flush() {
-	if len(d.videoBuf) > 0 {
-		d.flushVideo()
-	}
-	if len(d.audioBuf) > 0 {
-		d.flushAudio()
-	}
+	d.flushVideo()
+	d.flushAudio()
 }
 
 // parsePAT pulls the first PMT entry from the Program Association
@@ -140,7 +232,7 @@ func (d *Demuxer) parsePAT(payload []byte) {
 }
 
 // parsePMT fishes the audio/video stream PIDs out of a Program Map
-// Table. stream_type 0x1B = H.264, 0x24 = HEVC, 0x0F = AAC ADTS,
+// Table. stream_type 0x1B = H.264, 0x0F = AAC ADTS, 0x24 = HEVC,
 // 0x11 = LATM (we don't handle), 0xC1 = AC-3 (skipped).
 func (d *Demuxer) parsePMT(payload []byte) {
 	if len(payload) < 2 {
@@ -157,81 +249,108 @@ func (d *Demuxer) parsePMT(payload []byte) {
 	}
 	progInfoLen := int(binary.BigEndian.Uint16(body[10:12]) & 0x0FFF)
 	off := 12 + progInfoLen
+	videoPID, audioPID := d.videoPID, d.audioPID
 	for off+5 <= sectionLen-4 {
 		streamType := body[off]
 		streamPID := binary.BigEndian.Uint16(body[off+1:off+3]) & 0x1FFF
 		esInfoLen := int(binary.BigEndian.Uint16(body[off+3:off+5]) & 0x0FFF)
 		off += 5 + esInfoLen
 		switch streamType {
-		case 0x1B, 0x24:
-			d.videoPID = streamPID
+		case 0x1B:
+			videoPID = streamPID
 		case 0x0F:
-			d.audioPID = streamPID
+			audioPID = streamPID
 		}
 	}
+	if videoPID != d.videoPID {
+		d.flushVideo()
+		d.videoPID, d.video.seen = videoPID, false
+	}
+	if audioPID != d.audioPID {
+		d.flushAudio()
+		d.audioPID, d.audio.seen, d.adts = audioPID, false, nil
+	}
 }
 
 // feedVideo / feedAudio buffer PES bytes, flushing on PUSI boundaries.
 // Internally we treat one PES unit as one access unit (true for live
 // MPEG-TS produced by FFmpeg with -codec copy from H.264).
 func (d *Demuxer) feedVideo(pusi bool, payload []byte) {
-	if pusi && len(d.videoBuf) > 0 {
-		d.flushVideo()
-	}
 	if pusi {
-		pts, dts, body, ok := parsePESHeader(payload)
-		if !ok {
-			return
-		}
-		d.videoTS = pts
-		d.videoDTS = dts
-		d.videoBuf = append(d.videoBuf[:0], body...)
-		return
+		d.flushVideo()
 	}
-	d.videoBuf = append(d.videoBuf, payload...)
+	d.video.push(pusi, payload)
 }
 
 func (d *Demuxer) flushVideo() {
-	if d.OnVideo == nil {
-		d.videoBuf = d.videoBuf[:0]
+	data, ok := d.video.complete()
+	if !ok || d.OnVideo == nil {
 		return
 	}
-	au := AccessUnit{
-		PTS: d.videoTS,
-		DTS: d.videoDTS,
-		NAL: append([]byte(nil), d.videoBuf...),
-		Key: containsAnnexBKeyframe(d.videoBuf),
-	}
-	d.videoBuf = d.videoBuf[:0]
-	d.OnVideo(au)
+	d.OnVideo(AccessUnit{
+		PTS: d.video.pts,
+		DTS: d.video.dts,
+		NAL: data,
+		Key: containsAnnexBKeyframe(data),
+	})
 }
 
 func (d *Demuxer) feedAudio(pusi bool, payload []byte) {
-	if pusi && len(d.audioBuf) > 0 {
+	if pusi {
 		d.flushAudio()
 	}
-	if pusi {
-		pts, _, body, ok := parsePESHeader(payload)
-		if !ok {
+	d.audio.push(pusi, payload)
+}
+
+// flushAudio emits the ADTS frames of a PES. The first may have begun in
+// the PES before; the PTS is that of the first which begins in this one.
+func (d *Demuxer) flushAudio() {
+	data, ok := d.audio.complete()
+	if !ok || d.OnAudio == nil {
+		d.adts = nil
+		return
+	}
+	begun := len(d.adts)
+	data = append(d.adts, data...)
+	d.adts = nil
+	for len(data) > 0 {
+		if begun <= 0 && d.audio.timed {
+			d.adtsPTS, d.adtsRest, d.audio.timed = d.audio.pts, 0, false
+		}
+		size, samples, rate := adtsFrame(data)
+		if size < 0 {
+			return //this is no ADTS
+		}
+		if size == 0 || size > len(data) {
+			d.adts = data
 			return
 		}
-		d.audioTS = pts
-		d.audioBuf = append(d.audioBuf[:0], body...)
-		return
+		d.OnAudio(AudioFrame{PTS: d.adtsPTS, Data: data[:size:size]})
+		begun -= size
+		data = data[size:]
+		d.adtsRest += samples * 90000
+		d.adtsPTS += d.adtsRest / rate
+		d.adtsRest %= rate
 	}
-	d.audioBuf = append(d.audioBuf, payload...)
 }
 
-func (d *Demuxer) flushAudio() {
-	if d.OnAudio == nil {
-		d.audioBuf = d.audioBuf[:0]
-		return
+var adtsRates = [...]uint64{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
+
+// adtsFrame reads the header of the ADTS frame at the start of b. The size
+// is 0 if there is not enough of it yet, and negative if it is none.
+func adtsFrame(b []byte) (size int, samples, rate uint64) {
+	if b[0] != 0xFF || len(b) > 1 && b[1]&0xF6 != 0xF0 {
+		return -1, 0, 0
 	}
-	d.OnAudio(AudioFrame{
-		PTS:  d.audioTS,
-		Data: append([]byte(nil), d.audioBuf...),
-	})
-	d.audioBuf = d.audioBuf[:0]
+	if len(b) < 7 {
+		return 0, 0, 0
+	}
+	size = int(b[3]&0x03)<<11 | int(b[4])<<3 | int(b[5])>>5
+	index := int(b[2]>>2) & 0x0F
+	if size < 7 || index >= len(adtsRates) {
+		return -1, 0, 0
+	}
+	return size, 1024 * (uint64(b[6]&0x03) + 1), adtsRates[index]
 }
 
 // parsePESHeader pulls the PTS (and DTS, when present) out of a PES
-- 
2.43.0


From 4a4b6fe4228562209ffe337041bd60ed140a495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 40/67] fix: SRT ingest follows parameter changes and
 timestamps past their wrap

---
 librtmp/srt_server.go | 105 +++++++++++++++++++++++++-----------------
 1 file changed, 64 insertions(+), 41 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index f952320..78a97eb 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -1,6 +1,7 @@
 package librtmp
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 
@@ -26,15 +27,19 @@ type srtBridge struct {
 	room      *Room
 	demux     *libsrt.Demuxer
 
+	// Timestamps continue past the wrap of the 33 bits they have in MPEG-TS.
+	timed  bool
+	lastTS uint64
+	extTS  int64
+
 	// Sequence-header bookkeeping. Once SPS/PPS are extracted from
 	// an in-band IDR access unit, we synthesise AVCDecoderConfigurationRecord
 	// and emit the FLV video sequence header. Same idea for AAC: pull
-	// the codec config out of the first ADTS frame and emit the audio
-	// sequence header.
-	emittedVideoSeqHdr bool
-	emittedAudioSeqHdr bool
-	cachedSPS          []byte
-	cachedPPS          []byte
+	// the codec config out of the ADTS header and emit the audio
+	// sequence header. Both are emitted again when they change.
+	sps, pps []byte
+	videoHdr []byte
+	audioHdr []byte
 }
 
 // startSRT installs the listener; called from server.Handler() once
@@ -101,6 +106,27 @@ func (br *srtBridge) Closed(shutdown bool) {
 	br.publisher.cleanup()
 }
 
+const ts33Mask = 1<<33 - 1
+
+// ts33Diff is a-b, for timestamps that wrap at 33 bits.
+func ts33Diff(a, b uint64) int64 {
+	return int64((a-b)&ts33Mask<<31) >> 31
+}
+
+// timestamp makes milliseconds of a DTS or PTS.
+func (br *srtBridge) timestamp(ts uint64) uint32 {
+	ts &= ts33Mask
+	if !br.timed {
+		br.timed, br.lastTS, br.extTS = true, ts, int64(ts)
+	}
+	br.extTS += ts33Diff(ts, br.lastTS)
+	br.lastTS = ts
+	if br.extTS < 0 {
+		return 0
+	}
+	return uint32(br.extTS / 90)
+}
+
 // onVideo converts an AnnexB-formatted access unit into FLV video
 // tag(s). On the first IDR we mine SPS/PPS, emit the AVC sequence
 // header, then continue with NALU tags.
@@ -121,17 +147,19 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 			pictureNALs = append(pictureNALs, n)
 		}
 	}
-	if !br.emittedVideoSeqHdr {
-		if sps != nil {
-			br.cachedSPS = sps
-		}
-		if pps != nil {
-			br.cachedPPS = pps
-		}
-		if br.cachedSPS != nil && br.cachedPPS != nil {
-			seq := buildAVCSequenceHeader(br.cachedSPS, br.cachedPPS)
+	tagTS := br.timestamp(au.DTS)
+	if sps != nil {
+		br.sps = sps
+	}
+	if pps != nil {
+		br.pps = pps
+	}
+	if br.sps != nil && br.pps != nil {
+		seq := buildAVCSequenceHeader(br.sps, br.pps)
+		if seq != nil && !bytes.Equal(seq, br.videoHdr) {
+			br.videoHdr = seq
 			vt := &libflv.VideoTag{
-				TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: 0},
+				TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
 				FrameType:     libflv.KEY_FRAME,
 				CodecID:       libflv.FLV_VIDEO_AVC,
 				AVCPacketType: libflv.AVC_SEQUENCE_HEADER,
@@ -140,7 +168,6 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 			vt.DataSize = uint32(len(vt.Data()))
 			br.room.setVideoSequenceHeader(vt)
 			br.room.GOP.WriteMeta(vt)
-			br.emittedVideoSeqHdr = true
 		}
 	}
 	if len(pictureNALs) == 0 {
@@ -157,8 +184,7 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 		avcc = append(avcc, sz[:]...)
 		avcc = append(avcc, n...)
 	}
-	tagTS := uint32(au.DTS / 90) //PTS/DTS in 90 kHz; FLV in ms
-	cts := uint32((au.PTS - au.DTS) / 90)
+	cts := uint32(ts33Diff(au.PTS, au.DTS) / 90) //PTS/DTS in 90 kHz; FLV in ms
 	vt := &libflv.VideoTag{
 		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
 		FrameType:     frameType,
@@ -176,7 +202,7 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 }
 
 // onAudio converts an ADTS-prefixed AAC frame into one FLV audio tag.
-// The first frame triggers the sequence-header emission derived from
+// The sequence header is derived from
 // the ADTS profile/rate/channel fields.
 func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 	if len(af.Data) < 7 || len(af.Data) < adtsHeaderLen(af.Data) {
@@ -188,22 +214,24 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 	profile := (af.Data[2] >> 6) & 0x03                              //2 bits
 	sampleIndex := (af.Data[2] >> 2) & 0x0F                          //4 bits
 	channels := ((af.Data[2] & 0x01) << 2) | ((af.Data[3] >> 6) & 0x03)
-	if !br.emittedAudioSeqHdr {
-		//AAC AudioSpecificConfig per ISO/IEC 14496-3:
-		//  5 bits profile (audio object type, ADTS profile + 1)
-		//  4 bits sampling frequency index
-		//  4 bits channel config
-		//  3 bits pad
-		objType := uint8(profile) + 1
-		var asc [2]byte
-		asc[0] = (objType<<3)&0xF8 | (sampleIndex>>1)&0x07
-		asc[1] = ((sampleIndex & 0x01) << 7) | (channels&0x0F)<<3
-		soundType := uint8(libflv.SND_STEREO)
-		if channels == 1 {
-			soundType = libflv.SND_MONO
-		}
+	//AAC AudioSpecificConfig per ISO/IEC 14496-3:
+	//  5 bits profile (audio object type, ADTS profile + 1)
+	//  4 bits sampling frequency index
+	//  4 bits channel config
+	//  3 bits pad
+	objType := uint8(profile) + 1
+	var asc [2]byte
+	asc[0] = (objType<<3)&0xF8 | (sampleIndex>>1)&0x07
+	asc[1] = ((sampleIndex & 0x01) << 7) | (channels&0x0F)<<3
+	soundType := uint8(libflv.SND_STEREO)
+	if channels == 1 {
+		soundType = libflv.SND_MONO
+	}
+	tagTS := br.timestamp(af.PTS)
+	if !bytes.Equal(asc[:], br.audioHdr) {
+		br.audioHdr = asc[:]
 		seq := &libflv.AudioTag{
-			TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: 0},
+			TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: tagTS},
 			SoundFormat:   libflv.FLV_AUDIO_AAC,
 			SoundRate:     3,
 			SoundSize:     libflv.SND_16_BIT,
@@ -214,14 +242,9 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 		seq.DataSize = uint32(len(seq.Data()))
 		br.room.setAudioSequenceHeader(seq)
 		br.room.GOP.WriteMeta(seq)
-		br.emittedAudioSeqHdr = true
-	}
-	soundType := uint8(libflv.SND_STEREO)
-	if channels == 1 {
-		soundType = libflv.SND_MONO
 	}
 	at := &libflv.AudioTag{
-		TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: uint32(af.PTS / 90)},
+		TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: tagTS},
 		SoundFormat:   libflv.FLV_AUDIO_AAC,
 		SoundRate:     3,
 		SoundSize:     libflv.SND_16_BIT,
-- 
2.43.0


From 3e10a3490fd74162896e0fc872b67e892510896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 41/67] fix: padding after a NAL unit of an SRT stream is no
 part of it

---
 librtmp/srt_server.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 78a97eb..414020b 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -301,8 +301,13 @@ func splitAnnexB(buf []byte) [][]byte {
 				break
 			}
 		}
-		if end > nalStart {
-			out = append(out, buf[nalStart:end])
+		//Zeros at the end are padding: no NAL unit ends with one.
+		nalEnd := end
+		for nalEnd > nalStart && buf[nalEnd-1] == 0 {
+			nalEnd--
+		}
+		if nalEnd > nalStart {
+			out = append(out, buf[nalStart:nalEnd])
 		}
 		i = end
 	}
-- 
2.43.0


From e3db16a5d8104f411afa2b5e3817d1190959b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 42/67] fix: after a loss no packet of an SRT stream is a
 repetition of the one before it

---
 libsrt/tsdemux.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 6efeb11..d0ba212 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -187,6 +187,7 @@ func (d *Demuxer) Feed(buf []byte) {
 func (d *Demuxer) Lost() {
 	d.lostVideo()
 	d.lostAudio()
+	d.video.seen, d.audio.seen = false, false //the counters wrap at 16 packets
 }
 
 func (d *Demuxer) lostVideo() {
-- 
2.43.0


From 581b7f1a63edcc6da220190a2a9ee8523f9e5bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 43/67] fix: after a disk error HLS drops the segment and goes
 on at the next key frame

---
 libhls/hls.go | 84 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 64 insertions(+), 20 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 9ad883f..fe6cd86 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -77,6 +77,7 @@ type HLS struct {
 	// Writer-only state (mutated only by Start's goroutine, no mutex).
 	currentFile     *os.File
 	currentWriter   easyio.EasyWriter
+	currentErr      error //why currentFile is incomplete, if it is
 	currentStartDTS uint64
 	currentEndDTS   uint64
 	timeline        libflv.Timeline
@@ -283,10 +284,6 @@ type TagReader interface {
 
 //start to generate ts segments.
 func (hls *HLS) Start(gopReader TagReader) (err error) {
-	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
-		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
-	}
-
 	//Build the PAT/PMT lazily — we don't know the video codec
 	//(H.264 vs HEVC) until the first sequence header arrives. Default
 	//to H.264 stream_type=0x1B; toPES upgrades video.StreamType to
@@ -331,17 +328,18 @@ outer:
 		//that's what we already multiply the FLV timestamps by.
 		if videoFrameKey {
 			if hls.currentFile == nil {
-				if err := hls.openSegment(pes.DTS); err != nil {
-					return err
-				}
+				err = hls.openSegment(pes.DTS)
 			} else {
 				curDur := float64(pes.DTS-hls.currentStartDTS) / 90000.0
 				if curDur*float64(time.Second) >= float64(hls.targetDur) {
-					if err := hls.rotate(pes.DTS); err != nil {
-						return err
-					}
+					err = hls.rotate(pes.DTS)
 				}
 			}
+			if err != nil {
+				//The next keyframe is the next chance.
+				hls.abandonCurrent(err)
+				continue
+			}
 		} else if hls.currentFile == nil {
 			//No segment yet: drop tags until the first keyframe
 			//arrives. Avoids emitting a segment that doesn't start at
@@ -352,8 +350,9 @@ outer:
 		//PAT/PMT periodicity: re-inject every psiInterval so clients
 		//that join decoding mid-segment find a PSI quickly.
 		if time.Since(hls.lastPSI) >= psiInterval {
-			if err := hls.writePSI(); err != nil {
-				return err
+			if err = hls.writePSI(); err != nil {
+				hls.abandonCurrent(err)
+				continue
 			}
 		}
 
@@ -362,6 +361,9 @@ outer:
 			finish, muxErr := libmpeg.NewTs(pid, hls.Cc, firstTS).Mux(pes, videoFrameKey && firstTS, pes.DTS, hls.currentWriter)
 			if muxErr != nil {
 				fmt.Printf("ts.Mux pes error:%+v\n", muxErr)
+				if hls.currentErr != nil {
+					hls.abandonCurrent(hls.currentErr)
+				}
 				continue outer
 			}
 			firstTS = false
@@ -369,6 +371,10 @@ outer:
 				break
 			}
 		}
+		if hls.currentErr != nil {
+			hls.abandonCurrent(hls.currentErr)
+			continue
+		}
 		if pes.DTS > hls.currentEndDTS {
 			hls.currentEndDTS = pes.DTS
 		}
@@ -629,6 +635,9 @@ func (hls *HLS) openSegment(startDTS uint64) error {
 	hls.mu.Lock()
 	name := fmt.Sprintf("%s-%d.ts", hls.streamID, hls.nextSeq)
 	hls.mu.Unlock()
+	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
+		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
+	}
 	fullPath := filepath.Join(hls.dir, name)
 	f, err := os.Create(fullPath)
 	if err != nil {
@@ -636,7 +645,8 @@ func (hls *HLS) openSegment(startDTS uint64) error {
 	}
 	hls.currentFile = f
 	hls.currentBytes = 0
-	hls.currentWriter = newCountingWriter(f, &hls.currentBytes)
+	hls.currentErr = nil
+	hls.currentWriter = newCountingWriter(f, &hls.currentBytes, &hls.currentErr)
 	hls.currentStartDTS = startDTS
 	hls.currentEndDTS = startDTS
 	hls.partStartDTS = startDTS
@@ -688,19 +698,25 @@ func (hls *HLS) closeCurrentPart(endDTS uint64, nextIndependent bool) {
 
 // countingWriter wraps an io.Writer and increments *n by the number of
 // bytes it actually transfers. We use it to track the current segment's
-// byte offset for LL-HLS partial BYTERANGE attributes.
+// byte offset for LL-HLS partial BYTERANGE attributes. After an error,
+// kept in *err, nothing more is written.
 type countingWriter struct {
-	w io.Writer
-	n *int64
+	w   io.Writer
+	n   *int64
+	err *error
 }
 
-func newCountingWriter(w io.Writer, n *int64) easyio.EasyWriter {
-	return easyio.NewEasyWriter(&countingWriter{w: w, n: n})
+func newCountingWriter(w io.Writer, n *int64, err *error) easyio.EasyWriter {
+	return easyio.NewEasyWriter(&countingWriter{w: w, n: n, err: err})
 }
 
 func (cw *countingWriter) Write(p []byte) (int, error) {
+	if *cw.err != nil {
+		return 0, *cw.err
+	}
 	written, err := cw.w.Write(p)
 	*cw.n += int64(written)
+	*cw.err = err
 	return written, err
 }
 
@@ -712,7 +728,7 @@ func (hls *HLS) writePSI() error {
 	}
 	_, err1 := libmpeg.NewTs(libmpeg.PAT_PID, hls.Cc, true).Mux(hls.Pat, false, 0, hls.currentWriter)
 	_, err2 := libmpeg.NewTs(libmpeg.PMT_PID, hls.Cc, true).Mux(hls.Pat.PMTs[libmpeg.PMT_PID], false, 0, hls.currentWriter)
-	if err := easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2); err != nil {
+	if err := easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2, hls.currentErr); err != nil {
 		return err
 	}
 	hls.lastPSI = time.Now()
@@ -730,12 +746,37 @@ func (hls *HLS) rotate(nextStartDTS uint64) error {
 	return hls.openSegment(nextStartDTS)
 }
 
+// abandonCurrent drops the in-progress segment, if there is one, because
+// of err: a segment that is not completely on disk is never listed.
+func (hls *HLS) abandonCurrent(err error) {
+	fmt.Printf("hls %s: %v\n", hls.streamID, err)
+	if hls.currentFile != nil {
+		name := hls.currentFile.Name()
+		_ = hls.currentFile.Close()
+		_ = os.Remove(name)
+	}
+	hls.currentFile = nil
+	hls.currentWriter = nil
+
+	hls.mu.Lock()
+	hls.currentParts = hls.currentParts[:0]
+	hls.currentSegName = ""
+	hls.mu.Unlock()
+
+	//Nobody is to wait for the disk.
+	hls.readyOnce.Do(func() { close(hls.ready) })
+}
+
 // finaliseCurrent closes and records the in-progress segment. Safe to
 // call when no segment is open.
 func (hls *HLS) finaliseCurrent() {
 	if hls.currentFile == nil {
 		return
 	}
+	if hls.currentErr != nil {
+		hls.abandonCurrent(hls.currentErr)
+		return
+	}
 	//Flush any tail bytes since the last part boundary into one final
 	//part, so LL-HLS clients have a complete partial-segment record
 	//for this MSN.
@@ -744,7 +785,10 @@ func (hls *HLS) finaliseCurrent() {
 	}
 
 	name := filepath.Base(hls.currentFile.Name())
-	_ = hls.currentFile.Close()
+	if err := hls.currentFile.Close(); err != nil {
+		hls.abandonCurrent(err)
+		return
+	}
 	hls.currentFile = nil
 	hls.currentWriter = nil
 
-- 
2.43.0


From e74c4b29d593d5925aa19707e95aded622b412dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 44/67] fix: after a disk error DASH writes what is missing and
 goes on at the next key frame

---
 libdash/dash.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index cab0cf2..cb3f269 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -152,6 +152,9 @@ func (d *DASH) Stop() {
 // writeInit puts the init segment on disk in one step: players fetch it
 // while a repeated sequence header has it written again.
 func (d *DASH) writeInit() error {
+	if err := os.MkdirAll(d.dir, 0o755); err != nil {
+		return err
+	}
 	path := filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID))
 	tmp := path + ".tmp"
 	err := os.WriteFile(tmp, d.initBytes, 0o644)
@@ -192,9 +195,6 @@ type TagReader interface {
 // fragments and writes them to disk. Returns when the publisher
 // disconnects or Stop is called.
 func (d *DASH) Start(gopReader TagReader) error {
-	if err := os.MkdirAll(d.dir, 0o755); err != nil {
-		return fmt.Errorf("mkdir %s: %w", d.dir, err)
-	}
 	defer func() {
 		d.flushCurrent(0)
 		if d.stopRequested() {
@@ -469,6 +469,16 @@ func (d *DASH) handleSequenceHeader(record []byte) error {
 // reaped to keep windowSize on disk. nextDTS is where the next segment
 // starts, 0 if there is none.
 func (d *DASH) flushCurrent(nextDTS uint64) error {
+	if d.initBytes != nil && !d.initWritten && d.streamID != "" {
+		//The disk failed when the sequence header came.
+		if err := d.writeInit(); err != nil {
+			d.currentSamples = d.currentSamples[:0]
+			return fmt.Errorf("write init segment: %w", err)
+		}
+		d.mu.Lock()
+		d.initWritten = true
+		d.mu.Unlock()
+	}
 	if len(d.currentSamples) < 2 && nextDTS == 0 {
 		//Need at least one duration interval. Drop a single-sample
 		//tail rather than emit a malformed fragment.
@@ -509,6 +519,10 @@ func (d *DASH) flushCurrent(nextDTS uint64) error {
 
 	filename := fmt.Sprintf("%s-%d.m4s", d.streamID, seq)
 	if err := os.WriteFile(filepath.Join(d.dir, filename), frag, 0o644); err != nil {
+		//The fragment is lost, the next starts with the keyframe that
+		//ended this one.
+		_ = os.Remove(filepath.Join(d.dir, filename))
+		d.currentSamples = d.currentSamples[:0]
 		return fmt.Errorf("write fragment: %w", err)
 	}
 
-- 
2.43.0


From 507cd98a7b4f12dbb5ed67450942ca6165dd4172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 45/67] fix: each app has a segment directory of its own, for
 HLS and DASH alike

---
 README.md         | 2 +-
 librtmp/app.go    | 7 +++++--
 librtmp/server.go | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index 5aebd96..659b739 100644
--- a/README.md
+++ b/README.md
@@ -233,7 +233,7 @@ PDFs of the specs each package implements live in `doc/`:
 
 ## Known rough edges
 
-- **HLS hardcoded segment dir** — `WithHls(addr)` uses `./data` by default; override via `SetHlsDir(app, dir)`.
+- **HLS hardcoded segment dir** — `WithHls(addr)` uses `./data/<app>` by default; override via `SetHlsDir(app, dir)`.
 - **DASH init segment is video-only** — audio AdaptationSet not yet wired.
 - **SRT key management** (KMREQ + PBKDF2 + AES Key Wrap) is a TODO; passphrase-less publishers work.
 - **WebRTC / WHIP / WHEP** — not implemented; would require ICE + DTLS + SRTP. Closest fit is `pion/webrtc` if you really need it.
diff --git a/librtmp/app.go b/librtmp/app.go
index 98ca4c0..165d661 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -2,6 +2,7 @@ package librtmp
 
 import (
 	"fmt"
+	"path/filepath"
 	"sync"
 
 	"github.com/sbraveyoung/GGmpeg/libdash"
@@ -20,13 +21,15 @@ type App struct {
 }
 
 func NewApp(appName string) *App {
+	//Streams of the same name in two apps have files of the same name.
+	dir := filepath.Join("data", appName)
 	return &App{
 		appName: appName,
 		rooms:   &sync.Map{},
 		hlsMode: libhls.NONE,
-		hlsDir:  "./data",
+		hlsDir:  dir,
 		hls:     &sync.Map{},
-		dashDir: "./data",
+		dashDir: dir,
 		dash:    &sync.Map{},
 	}
 }
diff --git a/librtmp/server.go b/librtmp/server.go
index 8bab53e..4bbae24 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -111,12 +111,13 @@ func (s *server) SetHlsMode(appName string, mode libhls.HLS_MODE) *server {
 }
 
 // SetHlsDir configures the directory where the given app stores HLS
-// segments. If unset it defaults to "./data".
+// and DASH segments. If unset it defaults to "./data/<appName>".
 func (s *server) SetHlsDir(appName string, dir string) *server {
 	if _, ok := s.apps[appName]; !ok {
 		panic("appName does not exist.")
 	}
 	s.apps[appName].hlsDir = dir
+	s.apps[appName].dashDir = dir
 	return s
 }
 
-- 
2.43.0


From 9126bb58780e3bcb1ef764538416346d0270356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 46/67] fix: a stream has, and serves, only files of its own

---
 librtmp/app.go    | 13 ++++++++++---
 librtmp/server.go | 16 +++++++++++++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/librtmp/app.go b/librtmp/app.go
index 165d661..8cbeff2 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -3,6 +3,7 @@ package librtmp
 import (
 	"fmt"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/sbraveyoung/GGmpeg/libdash"
@@ -79,13 +80,19 @@ func (app *App) unpublish(room *Room) {
 	app.Delete(room.RoomID)
 }
 
+// segmentName reports whether a stream of this name may have files: the
+// name comes from the publisher, and is part of theirs.
+func segmentName(roomID string) bool {
+	return !strings.ContainsAny(roomID, "/\\\x00")
+}
+
 // startHLS returns the HLS segmenter of a published room, which it
 // starts unless there is one already. It returns nil once the room is
-// closed.
+// closed, and if its name cannot be that of a file.
 func (app *App) startHLS(room *Room) *libhls.HLS {
 	room.mu.Lock()
 	defer room.mu.Unlock()
-	if room.closed {
+	if room.closed || !segmentName(room.RoomID) {
 		return nil
 	}
 	if hls := app.LoadHLS(room.RoomID); hls != nil {
@@ -108,7 +115,7 @@ func (app *App) startHLS(room *Room) *libhls.HLS {
 func (app *App) startDASH(room *Room) *libdash.DASH {
 	room.mu.Lock()
 	defer room.mu.Unlock()
-	if room.closed {
+	if room.closed || !segmentName(room.RoomID) {
 		return nil
 	}
 	if dash := app.LoadDASH(room.RoomID); dash != nil {
diff --git a/librtmp/server.go b/librtmp/server.go
index 4bbae24..7f42530 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -336,6 +336,20 @@ func parseHlsURL(rawPath string) (appName, roomID, file string, ok bool) {
 	return appName, roomID, file, true
 }
 
+// ownFile reports whether file is one the stream has: the playlist or
+// manifest, the init segment, or a numbered segment. Other streams have
+// theirs in the same directory.
+func ownFile(roomID, file string) bool {
+	if strings.HasSuffix(file, ".m3u8") || file == "index.mpd" || file == roomID+"-init.mp4" {
+		return true
+	}
+	if !strings.HasPrefix(file, roomID+"-") {
+		return false
+	}
+	seq := strings.TrimSuffix(strings.TrimSuffix(file[len(roomID)+1:], ".ts"), ".m4s")
+	return seq != "" && strings.Trim(seq, "0123456789") == ""
+}
+
 func (s *server) handleHls(wg *sync.WaitGroup) error {
 	hlsListener, err := newTCPListener(s.hlsAddress)
 	if err != nil {
@@ -358,7 +372,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			return
 		}
 		room := app.Load(roomID)
-		if room == nil {
+		if room == nil || !ownFile(roomID, file) {
 			w.WriteHeader(http.StatusNotFound)
 			return
 		}
-- 
2.43.0


From 19ba30c50e9cf21b0de9e2209ff678c324274073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 47/67] fix: the path of a request is unescaped once

---
 librtmp/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index 7f42530..7f37878 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -230,7 +230,7 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 	mux := http.NewServeMux()
 	mux.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
 		//http://{domain}:{port}/{app}/{roomID}.flv[?query]
-		appName, roomID, ok := parseFlvURL(r.URL.Path)
+		appName, roomID, ok := parseFlvURL(r.URL.EscapedPath())
 		if !ok {
 			w.WriteHeader(http.StatusBadRequest)
 			return
@@ -360,7 +360,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 	mux.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
 		//http://{domain}:{port}/{app}/{roomID}/index.m3u8
 		//http://{domain}:{port}/{app}/{roomID}/{seq}.ts
-		appName, roomID, file, ok := parseHlsURL(r.URL.Path)
+		appName, roomID, file, ok := parseHlsURL(r.URL.EscapedPath())
 		if !ok {
 			w.WriteHeader(http.StatusBadRequest)
 			return
-- 
2.43.0


From 087862737bb09e2dc268fd2d6b51140659db407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 48/67] fix: playlists and manifests escape the name of the
 stream

---
 libdash/mpd.go |  9 ++++++++-
 libhls/m3u8.go | 17 ++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/libdash/mpd.go b/libdash/mpd.go
index 321f856..c8913f0 100644
--- a/libdash/mpd.go
+++ b/libdash/mpd.go
@@ -2,6 +2,7 @@ package libdash
 
 import (
 	"fmt"
+	"net/url"
 	"strings"
 	"time"
 )
@@ -20,6 +21,12 @@ type manifestInputs struct {
 	segments          []segmentInfo
 }
 
+// templateURI escapes a stream ID for a relative URI in an attribute of
+// a SegmentTemplate, where $ and, it being XML, & have a meaning.
+func templateURI(streamID string) string {
+	return strings.NewReplacer(":", "%3A", "$", "%24", "&", "%26").Replace(url.PathEscape(streamID))
+}
+
 // buildMPD emits a dynamic (live) MPEG-DASH manifest using
 // SegmentTemplate with $Number$ substitution. Compatible with Shaka
 // Player and dash.js out of the box.
@@ -94,7 +101,7 @@ func buildMPD(in manifestInputs) []byte {
 		in.timescale,
 		maxSegDur,
 		startNumber,
-		in.streamID, in.streamID,
+		templateURI(in.streamID), templateURI(in.streamID),
 	)
 
 	sb.WriteString(`      </Representation>` + "\n")
diff --git a/libhls/m3u8.go b/libhls/m3u8.go
index 5116789..3ea223b 100644
--- a/libhls/m3u8.go
+++ b/libhls/m3u8.go
@@ -3,6 +3,7 @@ package libhls
 import (
 	"fmt"
 	"math"
+	"net/url"
 	"strings"
 	"time"
 )
@@ -15,6 +16,12 @@ type segmentInfo struct {
 	parts    []partInfo //LL-HLS: empty when not in low-latency mode
 }
 
+// segmentURI is the relative URI of a file named after its stream, which
+// may be called anything.
+func segmentURI(filename string) string {
+	return strings.Replace(url.PathEscape(filename), ":", "%3A", -1)
+}
+
 // buildPlaylist emits a live HLS (version 3) media playlist over the
 // given rolling segment window. The newest segment is the last entry;
 // readers pick up EXT-X-MEDIA-SEQUENCE from the oldest entry's seq.
@@ -39,7 +46,7 @@ func buildPlaylist(segments []segmentInfo) []byte {
 	fmt.Fprintf(&sb, "#EXT-X-MEDIA-SEQUENCE:%d\n", segments[0].seq)
 	sb.WriteString("#EXT-X-ALLOW-CACHE:NO\n")
 	for _, s := range segments {
-		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, s.filename)
+		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, segmentURI(s.filename))
 	}
 	return []byte(sb.String())
 }
@@ -108,9 +115,9 @@ func buildLLPlaylist(in playlistInputs) []byte {
 	//Emit each completed segment's parts then the EXTINF entry.
 	for _, s := range in.segments {
 		for _, p := range s.parts {
-			writePartTag(&sb, p, s.filename)
+			writePartTag(&sb, p, segmentURI(s.filename))
 		}
-		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, s.filename)
+		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, segmentURI(s.filename))
 	}
 
 	//Emit in-progress segment's parts (no EXTINF yet — segment isn't
@@ -119,13 +126,13 @@ func buildLLPlaylist(in playlistInputs) []byte {
 	var preloadOffset int64
 	if in.currentName != "" {
 		for _, p := range in.currentParts {
-			writePartTag(&sb, p, in.currentName)
+			writePartTag(&sb, p, segmentURI(in.currentName))
 			if next := p.byteOffset + p.byteLength; next > preloadOffset {
 				preloadOffset = next
 			}
 		}
 		fmt.Fprintf(&sb, "#EXT-X-PRELOAD-HINT:TYPE=PART,URI=\"%s\",BYTERANGE-START=%d\n",
-			in.currentName, preloadOffset)
+			segmentURI(in.currentName), preloadOffset)
 	}
 
 	return []byte(sb.String())
-- 
2.43.0


From 785c9866583c1b89512d5e7f2b60b5c516dfbee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 49/67] fix: a segment whose name starts with two dots can be
 fetched

---
 librtmp/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index 7f37878..721d4da 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -448,7 +448,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			//defeat path traversal attempts.
 			requested := filepath.Join(hls.Dir(), file)
 			rel, err := filepath.Rel(hls.Dir(), requested)
-			if err != nil || strings.HasPrefix(rel, "..") {
+			if err != nil || rel != filepath.Base(file) {
 				w.WriteHeader(http.StatusForbidden)
 				return
 			}
@@ -486,7 +486,7 @@ func (s *server) serveDASH(w http.ResponseWriter, r *http.Request, dash *libdash
 	case strings.HasSuffix(file, "-init.mp4"):
 		full := filepath.Join(dash.Dir(), file)
 		rel, err := filepath.Rel(dash.Dir(), full)
-		if err != nil || strings.HasPrefix(rel, "..") {
+		if err != nil || rel != filepath.Base(file) {
 			w.WriteHeader(http.StatusForbidden)
 			return
 		}
@@ -496,7 +496,7 @@ func (s *server) serveDASH(w http.ResponseWriter, r *http.Request, dash *libdash
 	case strings.HasSuffix(file, ".m4s"):
 		full := filepath.Join(dash.Dir(), file)
 		rel, err := filepath.Rel(dash.Dir(), full)
-		if err != nil || strings.HasPrefix(rel, "..") {
+		if err != nil || rel != filepath.Base(file) {
 			w.WriteHeader(http.StatusForbidden)
 			return
 		}
-- 
2.43.0


From 9f362d8d3ee2dcdf5cf0a11d60bc2777c0c81d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 50/67] fix: RTP datagrams of more than 1500 bytes are read
 whole

---
 librtmp/rtsp_ingest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index fb6c922..dba9885 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -228,7 +228,7 @@ func (s *rtspSession) runIngestLoop() {
 // runUDPReader pumps RTP packets off a per-track UDP socket. isAudio
 // distinguishes the two depacketisation paths.
 func (s *rtspSession) runUDPReader(c *net.UDPConn, isAudio bool) {
-	buf := make([]byte, 1500)
+	buf := make([]byte, 1<<16) //the largest datagram there is
 	for atomic.LoadInt32(&s.recording) == 1 {
 		n, from, err := c.ReadFromUDP(buf)
 		if err != nil {
-- 
2.43.0


From 6d80afdc17d88ca3dcb9e0356ff06dbcb909c2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 51/67] fix: SRT datagrams of more than 1500 bytes are read
 whole

---
 libsrt/listener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrt/listener.go b/libsrt/listener.go
index 270ca96..2714dd4 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -117,7 +117,7 @@ func ListenSessions(addr, streamID string, open func(streamID string) SessionHan
 // Caller is responsible for invoking Close().
 func (l *Listener) Run() error {
 	defer l.dropAll()
-	buf := make([]byte, 1500)
+	buf := make([]byte, 1<<16) //the largest datagram there is
 	for {
 		//Wake up without packets as well: for acknowledgements that are
 		//due, and for peers that went silent.
-- 
2.43.0


From e7502bf9ac59e735ce722bb40b40b5a22ee1b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 52/67] fix: an RTSP player gets the stream its DESCRIBE was
 of, or none

---
 librtmp/rtsp_server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 99ae3cc..eca068f 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -58,6 +58,7 @@ type rtspSession struct {
 	peerVideoRTP  *net.UDPAddr //where to send RTP for the video track
 	peerAudioRTP  *net.UDPAddr
 
+	room    *Room      //what the SDP of the last DESCRIBE is of
 	player  *GOPReader //subscription of the PLAY goroutine
 	audioMs uint64     //time of the last audio packet sent
 
@@ -227,7 +228,7 @@ func (s *rtspSession) handleDescribe(req *librtsp.Request, resp *librtsp.Respons
 		resp.Reason = "Not Found"
 		return resp
 	}
-	s.app, s.streamID = app, room
+	s.app, s.streamID, s.room = app, room, rm
 
 	sdp := buildSDPFromRoom(rm)
 	if sdp == nil {
@@ -445,7 +446,7 @@ func (s *rtspSession) handlePlay(req *librtsp.Request, resp *librtsp.Response) *
 		return resp
 	}
 	rm := a.Load(s.streamID)
-	if rm == nil {
+	if rm == nil || (s.room != nil && s.room != rm) { //gone, or published anew since its DESCRIBE
 		resp.StatusCode = 404
 		resp.Reason = "Not Found"
 		return resp
-- 
2.43.0


From 8997cbf39356aed1f46e2d43cbb52add1d55b55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 53/67] fix: the tracks of an RTSP publisher share one clock

---
 librtmp/rtsp_ingest.go | 48 ++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index dba9885..5bdaf59 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -6,7 +6,9 @@ import (
 	"io"
 	"net"
 	"strings"
+	"sync"
 	"sync/atomic"
+	"time"
 
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/librtsp"
@@ -26,6 +28,17 @@ type rtspIngest struct {
 	//Audio re-assembly is per-packet (every packet is one+ frame), so
 	//no per-publisher state is needed — we just decode each RTP
 	//payload via librtsp.AACAUExtract.
+
+	//The RTP clocks of the tracks start anywhere, each on its own: what
+	//arrives at the same time is of the same time.
+	begin time.Time
+	once  sync.Once
+}
+
+// age is how long ago the first packet of either track arrived.
+func (in *rtspIngest) age() time.Duration {
+	in.once.Do(func() { in.begin = time.Now() })
+	return time.Since(in.begin)
 }
 
 // rtpTrack follows the sequence numbers and the timestamps of one track.
@@ -34,17 +47,20 @@ type rtpTrack struct {
 	ssrc    uint32
 	seq     uint16
 	ts      uint32
-	ext     int64 //ts, continued past its wrap
+	ext     int64 //time since the stream began, in units of the RTP clock
 	resync  bool  //packets are missing: skip to the next access unit
 }
 
 // accept takes note of a packet. It reports whether the packet is to be
 // used — neither a duplicate nor late — and whether any before it are
-// missing.
-func (t *rtpTrack) accept(pkt *librtsp.RTPPacket) (use, gap bool) {
+// missing. A track starts at age.
+func (t *rtpTrack) accept(pkt *librtsp.RTPPacket, age time.Duration, rate int) (use, gap bool) {
 	if !t.started || t.ssrc != pkt.SSRC {
 		gap = t.started
-		t.started, t.ssrc, t.ext = true, pkt.SSRC, int64(pkt.Timestamp)
+		t.started, t.ssrc = true, pkt.SSRC
+		if ext := age.Microseconds() * int64(rate) / 1000000; ext > t.ext {
+			t.ext = ext
+		}
 	} else {
 		d := int16(pkt.SequenceNum - t.seq)
 		if d <= 0 {
@@ -57,6 +73,16 @@ func (t *rtpTrack) accept(pkt *librtsp.RTPPacket) (use, gap bool) {
 	return true, gap
 }
 
+// ms is the FLV timestamp of what comes so many samples after the start of
+// the last packet.
+func (t *rtpTrack) ms(samples int64, rate int) uint32 {
+	ms := (t.ext + samples) * 1000 / int64(rate)
+	if ms < 0 { //to be shown before the first access unit sent
+		ms = 0
+	}
+	return uint32(ms)
+}
+
 // handleAnnounce picks up an SDP body the publisher just pushed,
 // extracts SPS/PPS and AAC config, and provisions a local Room so any
 // downstream protocols (HTTP-FLV / HLS / DASH / RTSP PLAY) can mirror
@@ -266,7 +292,7 @@ func (s *rtspSession) handleInterleaved(channel uint8, payload []byte) {
 
 func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	track := &s.ingest.video
-	use, gap := track.accept(pkt)
+	use, gap := track.accept(pkt, s.ingest.age(), 90000)
 	if !use {
 		return
 	}
@@ -289,7 +315,7 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	if librtsp.ContainsKeyframe(nals) {
 		frameType = libflv.KEY_FRAME
 	}
-	tagTS := uint32(track.ext / 90) //RTP video clock is 90 kHz; FLV tags are ms
+	tagTS := track.ms(0, 90000) //RTP video clock is 90 kHz; FLV tags are ms
 	vt := &libflv.VideoTag{
 		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
 		FrameType:     frameType,
@@ -307,17 +333,17 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 
 func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
 	track := &s.ingest.audio
-	if use, _ := track.accept(pkt); !use {
-		return
-	}
-	frames := librtsp.AACAUExtract(pkt.Payload)
 	rate := s.ingest.parsed.AudioRate
 	if rate <= 0 {
 		rate = 44100
 	}
+	if use, _ := track.accept(pkt, s.ingest.age(), rate); !use {
+		return
+	}
+	frames := librtsp.AACAUExtract(pkt.Payload)
 	for i, frame := range frames {
 		//an AAC frame is 1024 samples
-		tagTS := uint32((track.ext + int64(i)*1024) * 1000 / int64(rate))
+		tagTS := track.ms(int64(i)*1024, rate)
 		soundType := uint8(libflv.SND_STEREO)
 		if s.ingest.parsed.AudioChans == 1 {
 			soundType = libflv.SND_MONO
-- 
2.43.0


From 298f2c99d43af33e55b8df0fdfe1dbf72d476df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 54/67] fix: a segment lasts until the next one starts, even if
 audio runs ahead

---
 libhls/hls.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index fe6cd86..989be7b 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -738,8 +738,9 @@ func (hls *HLS) writePSI() error {
 // rotate closes the current segment, reaps old ones beyond the window,
 // and opens a new one starting at the given DTS.
 func (hls *HLS) rotate(nextStartDTS uint64) error {
-	//The last frame lasts until the next segment starts.
-	if nextStartDTS > hls.currentEndDTS {
+	//The last frame lasts until the next segment starts, even if some
+	//audio has run ahead.
+	if nextStartDTS > hls.currentStartDTS {
 		hls.currentEndDTS = nextStartDTS
 	}
 	hls.finaliseCurrent()
-- 
2.43.0


From 0abd8691c581e65f6601dd9284f39a3991c3a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 55/67] fix: an Opus configuration is kept for late viewers,
 like that of AAC

---
 librtmp/audio.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librtmp/audio.go b/librtmp/audio.go
index 86957fc..765b186 100644
--- a/librtmp/audio.go
+++ b/librtmp/audio.go
@@ -84,7 +84,8 @@ func (am *AudioMessage) Do() (err error) {
 	if am.rtmp.room == nil {
 		return nil
 	}
-	if am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC && am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
+	hasHeader := am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC || am.audioTag.SoundFormat == libflv.FLV_AUDIO_OPUS
+	if hasHeader && am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
 		am.rtmp.room.setAudioSequenceHeader(am.audioTag)
 		am.rtmp.room.GOP.WriteMeta(am.audioTag)
 		fmt.Printf("write packet audio :%+v\n", am.audioTag)
-- 
2.43.0


From 574760d80e90da1317e10b96762dda945988c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 56/67] fix: Opus is always described as opus/48000/2

---
 librtsp/sdp.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/librtsp/sdp.go b/librtsp/sdp.go
index 5c2353f..e6a726b 100644
--- a/librtsp/sdp.go
+++ b/librtsp/sdp.go
@@ -94,16 +94,13 @@ func writeHEVC(sb *strings.Builder, vps, sps, pps []byte) {
 	sb.WriteString("a=control:trackID=0\r\n")
 }
 
-// writeOpus emits an Opus m-line per RFC 7587. Clock is always 48000.
-// Channels signalled via the rtpmap parameter; SDP usually carries
-// a=fmtp:97 sprop-stereo=1 for 2-channel content.
+// writeOpus emits an Opus m-line per RFC 7587: clock and channels of the
+// rtpmap are always 48000/2, whatever the stream carries. Stereo content
+// is announced with a=fmtp:97 sprop-stereo=1.
 func writeOpus(sb *strings.Builder, chans int) {
-	if chans <= 0 {
-		chans = 2
-	}
 	sb.WriteString("m=audio 0 RTP/AVP 97\r\n")
-	fmt.Fprintf(sb, "a=rtpmap:97 opus/48000/%d\r\n", chans)
-	if chans == 2 {
+	sb.WriteString("a=rtpmap:97 opus/48000/2\r\n")
+	if chans != 1 {
 		sb.WriteString("a=fmtp:97 sprop-stereo=1\r\n")
 	}
 	sb.WriteString("a=control:trackID=1\r\n")
-- 
2.43.0


From 1bbe564a7b32f1c400a6098fb98503969a55d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:46 +0000
Subject: [PATCH 57/67] fix: LL-HLS parts follow the video, whatever the audio
 is ahead of it

---
 libhls/hls.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 989be7b..6f9bc85 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -386,8 +386,9 @@ outer:
 		//GOPs). Performed AFTER muxing so the just-written PES belongs
 		//to the part we're closing — the next part starts at the
 		//current write offset.
-		if hls.llEnabled && hls.currentFile != nil {
-			//Audio may lag behind the start of the part.
+		//Parts follow the video, as segments do: audio may run ahead of
+		//it, or lag.
+		if hls.llEnabled && hls.currentFile != nil && pid == libmpeg.VIDEO_PID {
 			partDur := float64(int64(pes.DTS-hls.partStartDTS)) / 90000.0
 			if partDur*float64(time.Second) >= float64(hls.partTargetDur) {
 				hls.closeCurrentPart(pes.DTS, false)
-- 
2.43.0


From 363e5011e6666fa8d46707763eab9adea13d99e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:46 +0000
Subject: [PATCH 58/67] fix: a failed accept neither ends the server nor makes
 it spin

---
 librtmp/server.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index 721d4da..53a8360 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -1,6 +1,7 @@
 package librtmp
 
 import (
+	"errors"
 	"fmt"
 	"net"
 	"net/http"
@@ -190,6 +191,7 @@ func (s *server) Handler() error {
 		conn, err1 := rtmpListener.AcceptTCP()
 		if err := easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2); err != nil {
 			fmt.Println("error:", err)
+			time.Sleep(acceptRetryDelay)
 			continue
 		}
 
@@ -508,6 +510,9 @@ func (s *server) serveDASH(w http.ResponseWriter, r *http.Request, dash *libdash
 	}
 }
 
+// acceptRetryDelay is how long to wait after a failed accept.
+const acceptRetryDelay = 10 * time.Millisecond
+
 // handleRTSP runs the RTSP TCP listener. Each accepted connection
 // becomes one rtspSession running in its own goroutine.
 func (s *server) handleRTSP(wg *sync.WaitGroup) error {
@@ -519,9 +524,15 @@ func (s *server) handleRTSP(wg *sync.WaitGroup) error {
 	wg.Done()
 	for {
 		conn, err := listener.AcceptTCP()
-		if err != nil {
+		if errors.Is(err, net.ErrClosed) {
 			return err
 		}
+		if err != nil {
+			//Out of file descriptors, say: that passes.
+			fmt.Println("RTSP accept error:", err)
+			time.Sleep(acceptRetryDelay)
+			continue
+		}
 		go newRTSPSession(conn, s).run()
 	}
 }
-- 
2.43.0


From 5695db773981c8b5bb1b707c99b990c4f8b3a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:46 +0000
Subject: [PATCH 59/67] fix: a failed read does not end the SRT listener

---
 libsrt/listener.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libsrt/listener.go b/libsrt/listener.go
index 2714dd4..1697d4b 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -1,6 +1,7 @@
 package libsrt
 
 import (
+	"errors"
 	"fmt"
 	"hash/crc32"
 	"math/rand"
@@ -132,7 +133,12 @@ func (l *Listener) Run() error {
 			if ne, ok := err.(net.Error); ok && ne.Timeout() {
 				continue
 			}
-			return err
+			if errors.Is(err, net.ErrClosed) {
+				return err
+			}
+			//Short of memory, say: that passes, and concerns no session.
+			time.Sleep(time.Millisecond)
+			continue
 		}
 		if n < HeaderSize {
 			continue
-- 
2.43.0


From bbfb0b9ace670a88e84871d4ad5abdb5cbd1acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:46 +0000
Subject: [PATCH 60/67] fix: a failed read does not end an RTSP track

---
 librtmp/rtsp_ingest.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 5bdaf59..4f7cbf7 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -2,6 +2,7 @@ package librtmp
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"net"
@@ -257,9 +258,14 @@ func (s *rtspSession) runUDPReader(c *net.UDPConn, isAudio bool) {
 	buf := make([]byte, 1<<16) //the largest datagram there is
 	for atomic.LoadInt32(&s.recording) == 1 {
 		n, from, err := c.ReadFromUDP(buf)
-		if err != nil {
+		if errors.Is(err, net.ErrClosed) {
 			return
 		}
+		if err != nil {
+			//Short of memory, say: that passes.
+			time.Sleep(time.Millisecond)
+			continue
+		}
 		if !from.IP.Equal(s.peerHostIP()) {
 			continue //not from the publisher
 		}
-- 
2.43.0


From a0f9b0bfa5878bf7881cf3bc3bc77e2a9cc097c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 61/67] fix: a DESCRIBE in between does not change which stream
 an RTSP session is of

---
 librtmp/rtsp_server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index eca068f..fa549c4 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -58,7 +58,8 @@ type rtspSession struct {
 	peerVideoRTP  *net.UDPAddr //where to send RTP for the video track
 	peerAudioRTP  *net.UDPAddr
 
-	room    *Room      //what the SDP of the last DESCRIBE is of
+	room    *Room      //what the SDP the tracks were set up from is of
+	described func() //makes the session one of what the last DESCRIBE was of
 	player  *GOPReader //subscription of the PLAY goroutine
 	audioMs uint64     //time of the last audio packet sent
 
@@ -228,7 +229,10 @@ func (s *rtspSession) handleDescribe(req *librtsp.Request, resp *librtsp.Respons
 		resp.Reason = "Not Found"
 		return resp
 	}
-	s.app, s.streamID, s.room = app, room, rm
+	s.described = func() { s.app, s.streamID, s.room = app, room, rm }
+	if s.videoChan < 0 && s.audioChan < 0 {
+		s.described()
+	} //else the tracks that are set up stay what they are
 
 	sdp := buildSDPFromRoom(rm)
 	if sdp == nil {
@@ -334,6 +338,9 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 			resp.Reason = "Not Found"
 			return resp
 		}
+		if s.described != nil {
+			s.described()
+		}
 	}
 
 	//Wire up UDP sockets (none in TCP mode) to the per-track slot so
-- 
2.43.0


From c4cb22df33905afe701a021fa12d6ee4eadf3439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 62/67] fix: an end of sequence is no key frame to start a
 viewer at

---
 librtmp/video.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/librtmp/video.go b/librtmp/video.go
index ef55807..60e3fb7 100644
--- a/librtmp/video.go
+++ b/librtmp/video.go
@@ -89,6 +89,8 @@ func (vm *VideoMessage) Do() (err error) {
 		if vm.videoTag.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
 			vm.rtmp.room.setVideoSequenceHeader(vm.videoTag)
 			vm.rtmp.room.GOP.WriteMeta(vm.videoTag)
+		} else if vm.videoTag.AVCPacketType == libflv.AVC_END_OF_SEQUENCE {
+			vm.rtmp.room.GOP.Write(vm.videoTag) //marked as a key frame, but there is no picture
 		} else {
 			vm.rtmp.room.GOP.WriteKey(vm.videoTag)
 		}
-- 
2.43.0


From b14fc20138ce4d466f2af613f8d81a024a80a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 63/67] fix: an end of sequence is not segmented as an HEVC key
 frame

---
 libhls/hls.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libhls/hls.go b/libhls/hls.go
index 6f9bc85..6bd25f5 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -451,6 +451,9 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 				}
 				return nil, 0, false, true
 			}
+			if pv.AVCPacketType == libflv.AVC_END_OF_SEQUENCE {
+				return nil, 0, false, true //no picture
+			}
 			videoKey = pv.FrameType == libflv.KEY_FRAME
 			pid = libmpeg.VIDEO_PID
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.VIDEO_PID]
@@ -497,6 +500,9 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 				hls.hevcParams = hevcParameterSets(pv.Data())
 				return nil, 0, false, true
 			}
+			if pv.AVCPacketType == libflv.AVC_END_OF_SEQUENCE {
+				return nil, 0, false, true //no picture
+			}
 			videoKey = pv.FrameType == libflv.KEY_FRAME
 			pid = libmpeg.VIDEO_PID
 
-- 
2.43.0


From 9ccc68b1097a76bf5a9ef407a3404326a18f99c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:49 +0000
Subject: [PATCH 64/67] fix: acknowledge at once what exceeds a window that has
 become smaller

A peer that announces a window smaller than what it has sent since the last
acknowledgement may wait for that to be acknowledged before it sends anything
else; the server only looked when the next chunk arrived.
---
 librtmp/control_message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index deca92b..d2397bb 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -55,6 +55,9 @@ func (wasm *WindowAcknowledgeSizeMessage) Parse() (err error) {
 func (wasm *WindowAcknowledgeSizeMessage) Do() (err error) {
 	//remember the peer's window so our Acknowledgement cadence matches.
 	wasm.rtmp.peerWindowAckSize = wasm.AcknowledgementWindowSize
+	//what it sent already may exceed a window that has become smaller, and
+	//it may wait for that to be acknowledged.
+	wasm.rtmp.acknowledge()
 	return nil
 }
 
-- 
2.43.0


From e88ee35f0372429c3c68cb013ff3f378188b4837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 65/67] fix: PMTs that span packets, and tables that are not
 the program's current PMT

A section that did not fit into one TS packet was read as far as the packet
went, without what followed its descriptors; and anything on the PMT PID was
taken for the PMT: private tables, the PMT of another program, or one that
only applies later. Collect sections over packets, and check table id, CRC,
current_next_indicator and program number.
---
 libsrt/tsdemux.go | 125 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 97 insertions(+), 28 deletions(-)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index d0ba212..6545f44 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -46,8 +46,11 @@ type AudioFrame struct {
 // One Demuxer per session.
 type Demuxer struct {
 	pmtPID    uint16
+	program   uint16 //the one the PAT names first
 	videoPID  uint16
 	audioPID  uint16
+	pat       psiBuffer
+	pmt       psiBuffer
 	video     pesBuffer
 	audio     pesBuffer
 	adts      []byte //start of an ADTS frame that the next audio PES completes
@@ -120,6 +123,80 @@ func (p *pesBuffer) push(pusi bool, payload []byte) {
 	p.open, p.data = true, append([]byte(nil), body...)
 }
 
+// psiBuffer collects the section in progress on one PID.
+type psiBuffer struct {
+	seen bool //a packet was
+	cc   byte //of the last packet
+	data []byte
+}
+
+// push adds the payload of a packet and returns the sections that are
+// complete with it.
+func (p *psiBuffer) push(pkt []byte, pusi bool, payload []byte) (sections [][]byte) {
+	cc := pkt[3] & 0x0F
+	if p.seen && cc != (p.cc+1)&0x0F {
+		if cc == p.cc && !pusi {
+			return nil //repeats the last packet
+		}
+		p.data = nil
+	}
+	p.seen, p.cc = true, cc
+	if pusi {
+		if len(payload) == 0 || 1+int(payload[0]) > len(payload) {
+			p.data = nil
+			return nil
+		}
+		end := 1 + int(payload[0])
+		if p.data != nil {
+			p.data = append(p.data, payload[1:end]...)
+			sections = p.take(sections)
+		}
+		p.data = append([]byte{}, payload[end:]...)
+	} else if p.data != nil {
+		p.data = append(p.data, payload...)
+	}
+	return p.take(sections)
+}
+
+// take moves what is complete from data to sections.
+func (p *psiBuffer) take(sections [][]byte) [][]byte {
+	for len(p.data) >= 3 && p.data[0] != 0xFF {
+		size := 3 + int(binary.BigEndian.Uint16(p.data[1:3])&0x0FFF)
+		if size > len(p.data) {
+			return sections
+		}
+		sections = append(sections, p.data[:size:size])
+		p.data = p.data[size:]
+	}
+	if len(p.data) > 0 && p.data[0] == 0xFF {
+		p.data = nil //stuffing up to the end of the packet
+	}
+	return sections
+}
+
+// validSection tells whether a section is an undamaged table of that kind
+// which applies already.
+func validSection(section []byte, tableID byte) bool {
+	return len(section) >= 12 && section[0] == tableID && section[5]&0x01 != 0 && crcMPEG(section) == 0
+}
+
+// crcMPEG is the CRC of ISO/IEC 13818-1 Annex A. That of a whole section is
+// 0.
+func crcMPEG(b []byte) uint32 {
+	crc := uint32(0xFFFFFFFF)
+	for _, c := range b {
+		crc ^= uint32(c) << 24
+		for i := 0; i < 8; i++ {
+			if crc&0x80000000 != 0 {
+				crc = crc<<1 ^ 0x04C11DB7
+			} else {
+				crc <<= 1
+			}
+		}
+	}
+	return crc
+}
+
 // NewDemuxer returns a fresh demuxer. Callbacks should be set before
 // calling Feed.
 func NewDemuxer() *Demuxer { return &Demuxer{} }
@@ -159,9 +236,13 @@ func (d *Demuxer) Feed(buf []byte) {
 
 		switch pid {
 		case 0x0000:
-			d.parsePAT(payload)
+			for _, section := range d.pat.push(pkt, pusi, payload) {
+				d.parsePAT(section)
+			}
 		case d.pmtPID:
-			d.parsePMT(payload)
+			for _, section := range d.pmt.push(pkt, pusi, payload) {
+				d.parsePMT(section)
+			}
 		case d.videoPID:
 			use, gap := d.video.accept(pkt, discontinuity)
 			if gap {
@@ -188,6 +269,7 @@ func (d *Demuxer) Lost() {
 	d.lostVideo()
 	d.lostAudio()
 	d.video.seen, d.audio.seen = false, false //the counters wrap at 16 packets
+	d.pat, d.pmt = psiBuffer{}, psiBuffer{}
 }
 
 func (d *Demuxer) lostVideo() {
@@ -209,24 +291,19 @@ func (d *Demuxer) Flush() {
 // parsePAT pulls the first PMT entry from the Program Association
 // Table. We only support a single program; multi-program TS would need
 // a richer accumulator.
-func (d *Demuxer) parsePAT(payload []byte) {
-	if len(payload) < 2 {
-		return
-	}
-	//Skip pointer + section header (8 bytes).
-	pointer := int(payload[0])
-	if 1+pointer+8 > len(payload) {
+func (d *Demuxer) parsePAT(section []byte) {
+	if !validSection(section, 0) {
 		return
 	}
-	body := payload[1+pointer:]
-	//Section length covers everything from after section_length itself
-	//up to and including the CRC. For our needs we just walk the
-	//program loop right after the 8-byte fixed header.
-	for off := 8; off+4 <= len(body)-4; off += 4 {
-		programNumber := binary.BigEndian.Uint16(body[off : off+2])
-		pid := binary.BigEndian.Uint16(body[off+2:off+4]) & 0x1FFF
+	//The program loop follows the 8-byte fixed header.
+	for off := 8; off+4 <= len(section)-4; off += 4 {
+		programNumber := binary.BigEndian.Uint16(section[off : off+2])
+		pid := binary.BigEndian.Uint16(section[off+2:off+4]) & 0x1FFF
 		if programNumber != 0 {
-			d.pmtPID = pid
+			if pid != d.pmtPID {
+				d.pmt = psiBuffer{}
+			}
+			d.program, d.pmtPID = programNumber, pid
 			return
 		}
 	}
@@ -235,19 +312,11 @@ func (d *Demuxer) parsePAT(payload []byte) {
 // parsePMT fishes the audio/video stream PIDs out of a Program Map
 // Table. stream_type 0x1B = H.264, 0x0F = AAC ADTS, 0x24 = HEVC,
 // 0x11 = LATM (we don't handle), 0xC1 = AC-3 (skipped).
-func (d *Demuxer) parsePMT(payload []byte) {
-	if len(payload) < 2 {
-		return
-	}
-	pointer := int(payload[0])
-	if 1+pointer+12 > len(payload) {
+func (d *Demuxer) parsePMT(body []byte) {
+	if !validSection(body, 2) || binary.BigEndian.Uint16(body[3:5]) != d.program {
 		return
 	}
-	body := payload[1+pointer:]
-	sectionLen := int(binary.BigEndian.Uint16(body[1:3])&0x0FFF) + 3
-	if sectionLen > len(body) {
-		sectionLen = len(body)
-	}
+	sectionLen := len(body)
 	progInfoLen := int(binary.BigEndian.Uint16(body[10:12]) & 0x0FFF)
 	off := 12 + progInfoLen
 	videoPID, audioPID := d.videoPID, d.audioPID
-- 
2.43.0


From 51f9fe4f73813f939b2585470f6f10fa171428ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:51 +0000
Subject: [PATCH 66/67] fix: RTSP publish: put fragmented AAC frames together

---
 librtmp/rtsp_ingest.go | 12 +++++++-----
 librtsp/rtp_unpack.go  | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 4f7cbf7..9593c3a 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -26,9 +26,7 @@ type rtspIngest struct {
 	videoRA *librtsp.H264Reassembler
 	video   rtpTrack
 	audio   rtpTrack
-	//Audio re-assembly is per-packet (every packet is one+ frame), so
-	//no per-publisher state is needed — we just decode each RTP
-	//payload via librtsp.AACAUExtract.
+	audioRA librtsp.AACReassembler
 
 	//The RTP clocks of the tracks start anywhere, each on its own: what
 	//arrives at the same time is of the same time.
@@ -343,10 +341,14 @@ func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
 	if rate <= 0 {
 		rate = 44100
 	}
-	if use, _ := track.accept(pkt, s.ingest.age(), rate); !use {
+	use, gap := track.accept(pkt, s.ingest.age(), rate)
+	if !use {
 		return
 	}
-	frames := librtsp.AACAUExtract(pkt.Payload)
+	if gap {
+		s.ingest.audioRA = librtsp.AACReassembler{}
+	}
+	frames := s.ingest.audioRA.Push(pkt)
 	for i, frame := range frames {
 		//an AAC frame is 1024 samples
 		tagTS := track.ms(int64(i)*1024, rate)
diff --git a/librtsp/rtp_unpack.go b/librtsp/rtp_unpack.go
index d4c58e5..49a010c 100644
--- a/librtsp/rtp_unpack.go
+++ b/librtsp/rtp_unpack.go
@@ -176,6 +176,42 @@ func AACAUExtract(payload []byte) [][]byte {
 	return out
 }
 
+// AACReassembler turns the packets of an AAC-hbr track into frames. One
+// that does not fit into a packet comes in fragments: packets with a single
+// AU-header, the size in which is that of the whole frame (RFC 3640 3.2.3.1).
+type AACReassembler struct {
+	buf []byte //fragments so far
+	ts  uint32 //their timestamp
+}
+
+// Push takes the next packet and returns the frames that are complete with
+// it.
+func (a *AACReassembler) Push(pkt *RTPPacket) [][]byte {
+	pl := pkt.Payload
+	if len(pl) < 4 || binary.BigEndian.Uint16(pl) != 16 {
+		a.buf = nil
+		return AACAUExtract(pl)
+	}
+	size := int(binary.BigEndian.Uint16(pl[2:])) >> 3
+	if size <= len(pl)-4 {
+		a.buf = nil
+		return AACAUExtract(pl)
+	}
+	if a.ts != pkt.Timestamp {
+		a.buf = nil
+	}
+	a.buf, a.ts = append(a.buf, pl[4:]...), pkt.Timestamp
+	if len(a.buf) < size {
+		return nil
+	}
+	frame := a.buf
+	a.buf = nil
+	if len(frame) > size {
+		return nil
+	}
+	return [][]byte{frame}
+}
+
 // AVCCFromNALs concatenates NAL units into the AVCC format FLV expects:
 // a 4-byte big-endian length prefix followed by the NAL bytes, repeated
 // per NAL.
-- 
2.43.0


From 52276bf531cfdb52fe4a80cb055a3563d7b49d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:03 +0000
Subject: [PATCH 67/67] fix: commands and metadata of the AMF3 message types
 begin with a format byte

---
 librtmp/command_message.go |  2 +-
 librtmp/data_message.go    |  2 +-
 librtmp/message.go         | 11 +++++++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 839e7e8..c3a387d 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -106,7 +106,7 @@ func (cm *CommandMessage) Send() (err error) {
 
 func (cm *CommandMessage) Parse() (err error) {
 	var array []interface{}
-	array, err = cm.amf.Decode(easyio.NewEasyReader(bytes.NewReader(cm.messagePayload)))
+	array, err = cm.amf.Decode(easyio.NewEasyReader(bytes.NewReader(cm.amf0())))
 	if err != nil {
 		return errors.Wrap(err, "amf.Decode")
 	}
diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index ccf4139..df30e38 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -55,7 +55,7 @@ func (dm *DataMessage) Parse() (err error) {
 		DataSize:  dm.messageLength,
 		TimeStamp: dm.messageTime,
 		StreamID:  0,
-	}, dm.amf, dm.messagePayload)
+	}, dm.amf, dm.amf0())
 	if err != nil {
 		return err
 	}
diff --git a/librtmp/message.go b/librtmp/message.go
index e1129eb..3e26319 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -26,6 +26,17 @@ func (mb *MessageBase) Update(time uint32) {
 	mb.messageTime = time
 }
 
+// amf0 is the AMF0 data of a command or data message. In those of the AMF3
+// types it comes after a format byte of 0.
+func (mb *MessageBase) amf0() []byte {
+	if mb.messageType == COMMAND_MESSAGE_AMF3 || mb.messageType == DATA_MESSAGE_AMF3 {
+		if len(mb.messagePayload) > 0 && mb.messagePayload[0] == 0 {
+			return mb.messagePayload[1:]
+		}
+	}
+	return mb.messagePayload
+}
+
 func (mb *MessageBase) Append(chunk *Chunk) {
 	mb.messagePayload = append(mb.messagePayload, chunk.Payload...)
 }
-- 
2.43.0

