From c6b510792fe6fb9e233dd070d5d14afc28da31eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 01/24] fix: decode a null array field as nil instead of
 panicking in reflect

---
 decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder.go b/decoder.go
index b7b436d..f38581f 100644
--- a/decoder.go
+++ b/decoder.go
@@ -566,6 +566,10 @@ func peekObjectStruct(reader *bufio.Reader, offset int, tt reflect.Type) (next i
 		if next < 0 {
 			return
 		}
+		if v == nil {
+			// null array: leave the field nil
+			continue
+		}
 		f := o.Elem().Field(i)
 		f.Set(reflect.ValueOf(v))
 	}
-- 
2.43.0


From 389d8a605cd35329863858960c7306a1df59ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 02/24] fix: do not preallocate arrays from an unchecked wire
 length

---
 decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index f38581f..644cabe 100644
--- a/decoder.go
+++ b/decoder.go
@@ -516,7 +516,8 @@ func kafkaTags(ft reflect.StructField) (nullable, compact bool) {
 func peekObjectFixedArray(reader *bufio.Reader, offset, length int, elem reflect.Type) (next int, obj any) {
 	next = offset
 	if length >= 0 {
-		a := reflect.MakeSlice(reflect.SliceOf(elem), 0, length)
+		// the length is not trusted until that many elements were actually read
+		a := reflect.MakeSlice(reflect.SliceOf(elem), 0, 0)
 		for i := 0; i < int(length); i++ {
 			var item any
 			next, item = peekObject(reader, next, elem)
-- 
2.43.0


From 0bc02381b420a1ded7a47cf81150263abbb22dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 03/24] fix: decode CompactBytes with its compact length prefix

---
 decoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decoder.go b/decoder.go
index 644cabe..32824bd 100644
--- a/decoder.go
+++ b/decoder.go
@@ -430,6 +430,14 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 			return peekNullableBytes(reader, offset)
 		} else if tt.Name() == "CompactNullableBytes" {
 			return peekCompactNullableBytes(reader, offset)
+		} else if tt.Name() == "CompactBytes" {
+			var data CompactNullableBytes
+			next, data = peekCompactNullableBytes(reader, offset)
+			if next < 0 {
+				return
+			}
+			obj = CompactBytes(data)
+			return
 		} else {
 			if compact {
 				return peekObjectCompactVarArray(reader, offset, tt.Elem())
-- 
2.43.0


From c914ab3f7427366cdcd29488754c14577bd59ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:18 +0000
Subject: [PATCH 04/24] fix: decode a null array nested in an array instead of
 panicking in reflect

---
 decoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder.go b/decoder.go
index 32824bd..873b7cf 100644
--- a/decoder.go
+++ b/decoder.go
@@ -532,6 +532,11 @@ func peekObjectFixedArray(reader *bufio.Reader, offset, length int, elem reflect
 			if next < 0 {
 				return
 			}
+			if item == nil {
+				// null nested array
+				a = reflect.Append(a, reflect.Zero(elem))
+				continue
+			}
 			a = reflect.Append(a, reflect.ValueOf(item))
 		}
 		obj = a.Interface()
-- 
2.43.0


From 8ae8a550026916cff6f648a62a6a707b86d573c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:18 +0000
Subject: [PATCH 05/24] fix: encode a *string field tagged compact,nullable
 instead of panicking

---
 encoder.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index d50ac98..6df03b0 100644
--- a/encoder.go
+++ b/encoder.go
@@ -114,8 +114,7 @@ func encodeObjectWorker(writer *bufio.Writer, tt reflect.Type, obj any, nullable
 				if obj == nil {
 					encodeCompactNullableString(writer, nil)
 				} else {
-					s := obj.(*string)
-					s2 := CompactString(*s)
+					s2 := CompactString(obj.(string))
 					encodeCompactNullableString(writer, &s2)
 				}
 			} else {
-- 
2.43.0


From a314317b499c3c83c925cdef6342d5b7f17174c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:18 +0000
Subject: [PATCH 06/24] fix: encode a nil *CompactString as null instead of
 panicking

---
 encoder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index 6df03b0..65b450b 100644
--- a/encoder.go
+++ b/encoder.go
@@ -108,7 +108,11 @@ func encodeObjectWorker(writer *bufio.Writer, tt reflect.Type, obj any, nullable
 		encodeFloat64(writer, obj.(float64))
 	case reflect.String:
 		if tt.Name() == "CompactString" {
-			encodeCompactString(writer, obj.(CompactString))
+			if obj == nil {
+				encodeCompactNullableString(writer, nil)
+			} else {
+				encodeCompactString(writer, obj.(CompactString))
+			}
 		} else if compact {
 			if nullable {
 				if obj == nil {
@@ -206,6 +210,9 @@ func targetType(obj any) reflect.Type {
 	case *string:
 		var zero string
 		return reflect.TypeOf(zero)
+	case *CompactString:
+		var zero CompactString
+		return reflect.TypeOf(zero)
 	}
 
 	tt := reflect.TypeOf(obj)
-- 
2.43.0


From 749057ff84f9ca44a83a1d228fd7146f08f005f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 07/24] fix: answer a fetch at a negative offset without
 records instead of panicking

---
 fetch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fetch.go b/fetch.go
index aabbc16..959fa70 100644
--- a/fetch.go
+++ b/fetch.go
@@ -80,7 +80,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			if fd.kp != nil {
 				var rec *kafkaRecord
 				fd.kp.lock()
-				if fd.offset < len(fd.kp.Records) {
+				if fd.offset >= 0 && fd.offset < len(fd.kp.Records) {
 					rec = fd.kp.Records[fd.offset]
 				}
 				fd.kp.unlock()
-- 
2.43.0


From 2e0c3009b6831469a9b6f40300fc764c0e007170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 08/24] fix: complete a fetch whose next record exceeds the
 partition byte limit

---
 fetch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fetch.go b/fetch.go
index 959fa70..bd9e1f8 100644
--- a/fetch.go
+++ b/fetch.go
@@ -86,10 +86,10 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 				fd.kp.unlock()
 
 				if rec != nil {
-					more = true
 					hasOne = true
 					if fd.ms.appendMessage(rec, fd.maxSize) {
 						fd.offset++
+						more = true
 					}
 				}
 			}
-- 
2.43.0


From 544c28967e502a541a92e7f2d7ffdfa3772a9552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 09/24] fix: answer each partition of a fetch with its own
 records

---
 fetch.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fetch.go b/fetch.go
index bd9e1f8..dc5c0ae 100644
--- a/fetch.go
+++ b/fetch.go
@@ -125,15 +125,15 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 
 	n := 0
 	for _, topic := range request.Topics {
-		fd := fds[n]
-		n++
-
 		fr := &fetchResponse{
 			Topic:      topic.Topic,
 			Partitions: []fetchResponsePartition{},
 		}
 
 		for _, par := range topic.Partitions {
+			fd := fds[n]
+			n++
+
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
 				HighWatermark:  int64(fd.offset),
-- 
2.43.0


From cae67c4f2e73f8364b99a3ca7548519da2518224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:40 +0000
Subject: [PATCH 10/24] fix: checksum v1 messages with the standard CRC-32

---
 encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index 65b450b..edf8711 100644
--- a/encoder.go
+++ b/encoder.go
@@ -487,7 +487,7 @@ func encodeMessageSetV1(writer *bufio.Writer, ms *messageSetV1) {
 	}
 }
 
-var crcTable *crc32.Table = crc32.MakeTable(crc32.Castagnoli)
+var crcTable *crc32.Table = crc32.MakeTable(crc32.IEEE)
 
 func newMessageSetV1(offset int64) *messageSetV1 {
 	return &messageSetV1{
-- 
2.43.0


From 765908d0191a59e66c146ce3c11584bb8b207ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:41 +0000
Subject: [PATCH 11/24] fix: count only the bytes after the size field in a
 message size

---
 encoder.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoder.go b/encoder.go
index edf8711..4603889 100644
--- a/encoder.go
+++ b/encoder.go
@@ -505,15 +505,16 @@ func (msv1 *messageSetV1) appendMessage(record *kafkaRecord, maxSize int) bool {
 		Key:        record.Key,
 		Value:      record.Value,
 	}
-	mv1.MessageSize = int32(34 + len(record.Key) + len(record.Value))
+	mv1.MessageSize = int32(22 + len(record.Key) + len(record.Value))
 	mv1.Crc = int32(mv1.crc())
 
-	newSize := msv1.totalSize + int(mv1.MessageSize)
+	// the offset and message size fields precede the message
+	newSize := msv1.totalSize + 12 + int(mv1.MessageSize)
 	if newSize > maxSize {
 		return false
 	}
 
-	msv1.totalSize += int(mv1.MessageSize)
+	msv1.totalSize = newSize
 	msv1.offset++
 
 	msv1.msgs = append(msv1.msgs, mv1)
-- 
2.43.0


From 0c12c3497f2de380e9341f5fdaa23a33a50ccc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:21 +0000
Subject: [PATCH 12/24] fix: list the timestamp of the record at the offset
 found by time

---
 list_offsets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list_offsets.go b/list_offsets.go
index c1ef01a..5f2cd94 100644
--- a/list_offsets.go
+++ b/list_offsets.go
@@ -74,11 +74,11 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 					ts := int64(0)
 					for i := len(kp.Records) - 1; i >= 0; i-- {
 						msg := kp.Records[i]
-						ts = msg.Timestamp
 						if msg.Timestamp < p.Timestamp {
 							offset = int64(i + 1)
 							break
 						}
+						ts = msg.Timestamp
 					}
 					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: ts, Offset: offset})
 				}
-- 
2.43.0


From bd341626e6fbc6850bbc7d308181bf5c71dfcbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 13/24] fix: describe the existing partitions and unknown
 topics in metadata

---
 datastore.go | 13 +++++++++++++
 metadata.go  | 13 ++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/datastore.go b/datastore.go
index 5eb4df8..5427e0c 100644
--- a/datastore.go
+++ b/datastore.go
@@ -1,6 +1,7 @@
 package kafkamock
 
 import (
+	"sort"
 	"sync"
 	"time"
 )
@@ -91,6 +92,18 @@ func (kp *kafkaTopic) getPartition(number int32) *kafkaPartition {
 	return kp.Partitions[number]
 }
 
+func (kp *kafkaTopic) partitionIndexes() []int32 {
+	kp.mu.Lock()
+	defer kp.mu.Unlock()
+
+	indexes := make([]int32, 0, len(kp.Partitions))
+	for index := range kp.Partitions {
+		indexes = append(indexes, index)
+	}
+	sort.Slice(indexes, func(i, j int) bool { return indexes[i] < indexes[j] })
+	return indexes
+}
+
 func (kp *kafkaPartition) lock() {
 	kp.mu.Lock()
 }
diff --git a/metadata.go b/metadata.go
index 898c6f5..3d3918a 100644
--- a/metadata.go
+++ b/metadata.go
@@ -48,7 +48,18 @@ func metadataV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 
 	topics := make([]topicsV1, 0, len(request.Topics))
 	for _, t := range request.Topics {
-		topics = append(topics, topicsV1{Name: t, Partitions: []partitionV1{{PartitionIndex: 2, LeaderId: kLeaderNode, ReplicaNodes: []int32{1}, IsrNodes: []int32{1}}}})
+		kt := kc.ds.getTopic(t)
+		if kt == nil {
+			topics = append(topics, topicsV1{ErrorCode: int16(UnknownTopicOrPartition), Name: t, Partitions: []partitionV1{}})
+			continue
+		}
+
+		indexes := kt.partitionIndexes()
+		partitions := make([]partitionV1, 0, len(indexes))
+		for _, index := range indexes {
+			partitions = append(partitions, partitionV1{PartitionIndex: index, LeaderId: kLeaderNode, ReplicaNodes: []int32{1}, IsrNodes: []int32{1}})
+		}
+		topics = append(topics, topicsV1{Name: t, Partitions: partitions})
 	}
 
 	response = &metadataResponseV1{
-- 
2.43.0


From 2a256ad7d1cd1af9e3ab97fb97a08d6439fd6cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:07 +0000
Subject: [PATCH 14/24] fix: handle requests larger than the default read
 buffer

---
 kafka-client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kafka-client.go b/kafka-client.go
index 5e3546b..bbfc079 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -129,7 +129,7 @@ func (kc *kafkaClient) handle() {
 		kc.inbound = kc.inbound[4+msg.Len():]
 
 		kc.requestWg.Add(1)
-		reader := bufio.NewReader(msg)
+		reader := bufio.NewReaderSize(msg, msg.Len())
 		func() {
 			defer kc.requestWg.Done()
 			if err := kc.dispatcher(reader, msg.Len()); err != nil {
-- 
2.43.0


From 806662872c6cd2eeb9abaa6fe5e595118830dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:42 +0000
Subject: [PATCH 15/24] fix: read a partition's records under its lock in
 ListOffsets

---
 list_offsets.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/list_offsets.go b/list_offsets.go
index 5f2cd94..4cfa99c 100644
--- a/list_offsets.go
+++ b/list_offsets.go
@@ -59,21 +59,25 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 			if kp == nil {
 				rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, ErrorCode: int16(UnknownTopicOrPartition)})
 			} else {
+				kp.lock()
+				records := kp.Records
+				kp.unlock()
+
 				if p.Timestamp == -1 {
-					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: time.Now().UnixMilli(), Offset: int64(len(kp.Records))})
+					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: time.Now().UnixMilli(), Offset: int64(len(records))})
 				} else if p.Timestamp == -2 {
-					if len(kp.Records) == 0 {
+					if len(records) == 0 {
 						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex})
 					} else {
-						msg := kp.Records[0]
+						msg := records[0]
 						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: msg.Timestamp})
 					}
 				} else {
 					// slow but this is just a mock
 					offset := int64(0)
 					ts := int64(0)
-					for i := len(kp.Records) - 1; i >= 0; i-- {
-						msg := kp.Records[i]
+					for i := len(records) - 1; i >= 0; i-- {
+						msg := records[i]
 						if msg.Timestamp < p.Timestamp {
 							offset = int64(i + 1)
 							break
-- 
2.43.0


From 21bad0518bba7b9041d79e92c78d3d9fbe45c0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:42 +0000
Subject: [PATCH 16/24] fix: make the member assignment under the data store's
 locks

---
 sync_group.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sync_group.go b/sync_group.go
index 201ea57..9a5fd0f 100644
--- a/sync_group.go
+++ b/sync_group.go
@@ -55,15 +55,12 @@ func syncGroupV0(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 
 func makeMemberAssignment(ds *kafkaDataStore) []byte {
 	// assign all topics & partitions to this client
+	ds.mu.Lock()
 	mpas := make([]memberPartitionAssignment, 0, len(ds.Topics))
 	for name, topic := range ds.Topics {
-		pars := make([]int32, 0, len(topic.Partitions))
-		for _, par := range topic.Partitions {
-			pars = append(pars, par.Index)
-		}
-
-		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: pars})
+		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: topic.partitionIndexes()})
 	}
+	ds.mu.Unlock()
 
 	a := memberAssignment{
 		Version:              1,
-- 
2.43.0


From 2cd16fda19a6369abae0eff330b296caa88f662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:13 +0000
Subject: [PATCH 17/24] fix: close the connection when the client ends its side

---
 kafka-client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kafka-client.go b/kafka-client.go
index bbfc079..cc92800 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -113,6 +113,7 @@ func (kc *kafkaClient) handle() {
 				if !wasSocketClosed(err) {
 					panic(fmt.Sprintf("read error: %v", err))
 				}
+				kc.conn.Close()
 				return
 			}
 
-- 
2.43.0


From 4702330ad40d15f7c35f18704c6f3a416aa93d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:40 +0000
Subject: [PATCH 18/24] fix: forget the client that disconnected instead of the
 latest one

---
 kafka-mock.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kafka-mock.go b/kafka-mock.go
index 449225a..9127ba1 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -147,15 +147,16 @@ func (km *KafkaMock) run() {
 
 		km.mu.Lock()
 		cxnNumber++
+		clientNumber := cxnNumber
 		kc := newKafkaClient(km.l, km.ds, connection, km.serverPort, km.latency, func() {
 			km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
 			km.mu.Lock()
-			delete(km.clients, cxnNumber)
+			delete(km.clients, clientNumber)
 			km.active.Done()
 			km.wg.Done()
 			km.mu.Unlock()
 		})
-		km.clients[cxnNumber] = kc
+		km.clients[clientNumber] = kc
 		km.active.Add(1)
 		km.wg.Add(1)
 		km.mu.Unlock()
-- 
2.43.0


From 6180fcebd1f924ffc8c377ea500b78017f559958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:26 +0000
Subject: [PATCH 19/24] fix: deliver records posted before a finish to the
 fetch that waits for them

---
 fetch.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fetch.go b/fetch.go
index dc5c0ae..0ba0325 100644
--- a/fetch.go
+++ b/fetch.go
@@ -75,6 +75,14 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 	expiration := time.Now().Add(time.Duration(request.MaxWaitMs) * time.Millisecond)
 	hasOne := false
 	for {
+		// look for the close before looking for records, so that records posted before it are found
+		isClosed := false
+		select {
+		case <-kc.l.Done():
+			isClosed = true
+		default:
+		}
+
 		more := false
 		for _, fd := range fds {
 			if fd.kp != nil {
@@ -102,14 +110,6 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			}
 
 			// is client getting closed?
-			isClosed := false
-			select {
-			case <-kc.l.Done():
-				isClosed = true
-				break
-			default:
-				break
-			}
 			if isClosed {
 				break
 			}
-- 
2.43.0


From ba97d616dc62159f4cb23021e1cb4577bb5e4029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:35 +0000
Subject: [PATCH 20/24] fix: treat a connection that timed out as closed
 instead of panicking

---
 net-utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net-utils.go b/net-utils.go
index d362cce..9e41833 100644
--- a/net-utils.go
+++ b/net-utils.go
@@ -18,7 +18,7 @@ func wasSocketClosed(err error) bool {
 		sysErr, _ := opErr.Err.(*os.SyscallError)
 		if sysErr != nil {
 			errno, _ := sysErr.Err.(syscall.Errno)
-			if errno == syscall.ECONNRESET {
+			if errno == syscall.ECONNRESET || errno == syscall.ETIMEDOUT {
 				return true
 			}
 		}
-- 
2.43.0


From 80bea03a7803d96205cd853c90839a22c8079135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 21/24] fix: let a server that closes give up on a client that
 does not read its responses

---
 kafka-client.go  |  6 +++++-
 kafka-message.go | 29 ++++++++++++++++++++++++++---
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/kafka-client.go b/kafka-client.go
index cc92800..59d1630 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -237,7 +237,11 @@ func (kc *kafkaClient) dispatcher(reader *bufio.Reader, msgLength int) (err erro
 
 	km := newKafkaMessage(kc.l, kc.conn, &kmh)
 	if err = km.send(buf.Bytes()); err != nil {
-		if !kc.isConnected() {
+		if errors.Is(err, os.ErrDeadlineExceeded) {
+			// the server is closing and the client doesn't read - drop the client
+			kc.conn.Close()
+			err = nil
+		} else if !kc.isConnected() {
 			// the client dropped - ignore the error
 			err = nil
 		}
diff --git a/kafka-message.go b/kafka-message.go
index 3e2a77f..1ceeac8 100644
--- a/kafka-message.go
+++ b/kafka-message.go
@@ -1,8 +1,11 @@
 package kafkamock
 
 import (
+	"errors"
 	"fmt"
 	"net"
+	"os"
+	"time"
 
 	"github.com/jimsnab/go-lane"
 )
@@ -30,18 +33,18 @@ func (km *kafkaMessage) send(payload []byte) (err error) {
 
 	number := []byte{0, 0, 0, 0}
 	convertInt32(number, int32(payloadSize))
-	if _, err = km.conn.Write(number); err != nil {
+	if _, err = km.write(number); err != nil {
 		km.l.Errorf("error sending kafka %d response size: %v", km.port, err)
 		return
 	}
 
 	convertInt32(number, int32(km.hdr.CorrelationId))
-	if _, err = km.conn.Write(number); err != nil {
+	if _, err = km.write(number); err != nil {
 		km.l.Errorf("error sending kafka %d correlation id: %v", km.port, err)
 		return
 	}
 
-	if _, err = km.conn.Write(payload); err != nil {
+	if _, err = km.write(payload); err != nil {
 		km.l.Errorf("error sending kafka %d response: %v", km.port, err)
 		return
 	}
@@ -53,3 +56,23 @@ func (km *kafkaMessage) send(payload []byte) (err error) {
 	km.l.Tracef("sent kafka %d response %d: cmd %s v%d: %d bytes", km.port, km.hdr.CorrelationId, cmd, km.hdr.RequestApiVersion, payloadSize+8)
 	return
 }
+
+// Writes all of the data, waiting for a client that is slow to read it - but not once the server is closing.
+func (km *kafkaMessage) write(data []byte) (n int, err error) {
+	for {
+		km.conn.SetWriteDeadline(time.Now().Add(time.Second))
+		var written int
+		written, err = km.conn.Write(data[n:])
+		n += written
+		if !errors.Is(err, os.ErrDeadlineExceeded) {
+			return
+		}
+
+		select {
+		case <-km.l.Done():
+			return
+		default:
+			// keep going
+		}
+	}
+}
-- 
2.43.0


From da19dd4159c728b0f53a8a6b58f7a4f2edee7f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:59 +0000
Subject: [PATCH 22/24] fix: let a stop request that meets a restart stop one
 run, whole

---
 kafka-mock.go | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/kafka-mock.go b/kafka-mock.go
index 9127ba1..9d99032 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -64,26 +64,36 @@ func (km *KafkaMock) Start() {
 }
 
 func (km *KafkaMock) RequestStop() {
+	cancelFn := km.closeListener()
+	if cancelFn != nil {
+		// cancel any i/o tasks
+		cancelFn()
+	}
+}
+
+// Closes the listener of the current run, and provides the function that
+// cancels that run. Provides nil if there is nothing to stop.
+func (km *KafkaMock) closeListener() context.CancelFunc {
+	km.mu.Lock()
+	defer km.mu.Unlock()
+
 	alreadyStopped := km.stopped.Swap(true)
-	if !alreadyStopped {
-		if km.started.Load() {
-			// wait for startup to complete
-			km.l.Trace("request stop is ensuring startup completed first")
-			km.initializing.Wait()
+	if alreadyStopped || !km.started.Load() {
+		return nil
+	}
 
-			// force-close the socket listener
-			km.mu.Lock()
-			if km.listener != nil {
-				km.listener.Close()
-				km.l.Trace("kafka mock server listener terminated")
-				km.listener = nil
-			}
-			km.mu.Unlock()
+	// wait for startup to complete
+	km.l.Trace("request stop is ensuring startup completed first")
+	km.initializing.Wait()
 
-			// cancel any i/o tasks
-			km.cancelFn()
-		}
+	// force-close the socket listener
+	if km.listener != nil {
+		km.listener.Close()
+		km.l.Trace("kafka mock server listener terminated")
+		km.listener = nil
 	}
+
+	return km.cancelFn
 }
 
 func (km *KafkaMock) WaitForTermination() {
-- 
2.43.0


From 369ce8181372b353f4bcb8caf444039db799e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:59 +0000
Subject: [PATCH 23/24] fix: tie waiting for termination to the run it waits
 for

---
 kafka-mock.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/kafka-mock.go b/kafka-mock.go
index 9d99032..ab9d47e 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -16,7 +16,7 @@ type (
 		mu           sync.Mutex
 		parentLane   lane.Lane
 		l            lane.Lane
-		wg           sync.WaitGroup
+		terminated   chan struct{} // closed when the current run ends
 		cancelFn     context.CancelFunc
 		started      atomic.Bool
 		stopped      atomic.Bool
@@ -58,9 +58,11 @@ func (km *KafkaMock) Start() {
 	km.l = l
 	km.cancelFn = cancelFn
 
-	km.wg.Add(1)
+	terminated := make(chan struct{})
+	km.terminated = terminated
+
 	km.initializing.Add(1)
-	go km.run()
+	go km.run(terminated)
 }
 
 func (km *KafkaMock) RequestStop() {
@@ -97,10 +99,16 @@ func (km *KafkaMock) closeListener() context.CancelFunc {
 }
 
 func (km *KafkaMock) WaitForTermination() {
-	km.l.Trace("waiting for kafka mock to terminate")
-	km.wg.Wait()
-	km.RequestStop() // releases resources if not already released
-	km.l.Trace("kafka mock terminated")
+	km.mu.Lock()
+	l := km.l
+	terminated := km.terminated
+	km.mu.Unlock()
+
+	l.Trace("waiting for kafka mock to terminate")
+	if terminated != nil {
+		<-terminated
+	}
+	l.Trace("kafka mock terminated")
 }
 
 func (km *KafkaMock) SimplePost(topic string, partition int, key, value []byte) {
@@ -115,11 +123,11 @@ func (km *KafkaMock) ExtendedPost(topic string, partition int, key, value []byte
 	kp.postRecord(0, timestamp, key, value, headers)
 }
 
-func (km *KafkaMock) run() {
+func (km *KafkaMock) run(terminated chan struct{}) {
 	defer func() {
 		km.active.Wait()
 		km.started.Store(false)
-		km.wg.Done()
+		close(terminated)
 	}()
 
 	// establish socket service
@@ -163,12 +171,10 @@ func (km *KafkaMock) run() {
 			km.mu.Lock()
 			delete(km.clients, clientNumber)
 			km.active.Done()
-			km.wg.Done()
 			km.mu.Unlock()
 		})
 		km.clients[clientNumber] = kc
 		km.active.Add(1)
-		km.wg.Add(1)
 		km.mu.Unlock()
 	}
 }
-- 
2.43.0


From 54a4f34510f4095c4dc38b8173f466db0939a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:12 +0000
Subject: [PATCH 24/24] fix: keep copies of a posted record's key and value

---
 datastore.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/datastore.go b/datastore.go
index 5427e0c..2b8c927 100644
--- a/datastore.go
+++ b/datastore.go
@@ -121,16 +121,25 @@ func (kp *kafkaPartition) postRecord(attribs int8, ts time.Time, key, value []by
 		flatHeaders = append(flatHeaders, kafkaRecordHeader{HeaderKey: k, HeaderValue: v})
 	}
 
+	// the caller is free to reuse its buffers, so keep copies
 	record := &kafkaRecord{
 		Attributes: attribs,
 		Timestamp:  ts.UnixMilli(),
-		Key:        key,
-		Value:      value,
+		Key:        copyBytes(key),
+		Value:      copyBytes(value),
 		Headers:    flatHeaders,
 	}
 	kp.Records = append(kp.Records, record)
 }
 
+// Copies data, keeping nil and empty apart.
+func copyBytes(data []byte) []byte {
+	if data == nil {
+		return nil
+	}
+	return append([]byte{}, data...)
+}
+
 func (kp *kafkaPartition) groupCommittedOffset(group string) int64 {
 	kp.mu.Lock()
 	defer kp.mu.Unlock()
-- 
2.43.0

