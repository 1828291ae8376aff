From 3c2f1b6a722d676804179353c17b97c5826f80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 01/45] fix: count a repeated empty value only once

A batch message with an empty value was not recognised as a duplicate, so
receiving it twice decremented the expected message count twice and the
block could be emitted with messages still missing.
---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 00a5958..b48b4db 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -126,7 +126,7 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
     return true
   case BatchMsgType:
     path := string(m.Key()[33:])
-    if v, ok := pb.Values[path]; ok && len(v) > 0 { return false } // Already set
+    if _, ok := pb.Values[path]; ok { return false } // Already set
     if pb.DecPrefixCounter(path) {
       // If this is false, we're not tracking this prefix and should ignore the message
       pb.Values[path] = m.Value()
-- 
2.43.0


From 599d0ac832a7356fd71f13ed7ed4c00f343e7bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 02/45] fix: keep waiting for a subbatch whose header cannot be
 decoded

The subbatch was taken off the list of pending subbatches before its header
was decoded, so a malformed header made the block ready without the
subbatch's messages. A negative count panicked.
---
 delivery/consumer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index b48b4db..badf537 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -374,9 +374,10 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     }
     batchid := types.BytesToHash(m.Key()[33:])
     if _, ok := mp.pendingBatches[hash].pendingBatches[batchid]; !ok { return nil } // We've already gotten this batch
-    delete(mp.pendingBatches[hash].pendingBatches, batchid)
     var counter int
     if err := avro.Unmarshal(intSchema, m.Value(), &counter); err != nil { return err }
+    if counter < 0 { return fmt.Errorf("negative subbatch count %v", counter) }
+    delete(mp.pendingBatches[hash].pendingBatches, batchid)
     mp.pendingBatches[hash].batches[batchid] = make([]bool, counter)
     mp.pendingBatches[hash].updateResumption(m.Source(), m.Offset())
     for k, msg := range mp.pendingBatches[hash].pendingMessages {
-- 
2.43.0


From 3b0958e7ca943a4e86265166418ca5bd393129ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 03/45] fix: report missing subbatch messages in whyNotReady

The explanation was formatted and thrown away, so blocks waiting for
subbatch messages were reported as ready.
---
 delivery/consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index badf537..202e229 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -93,7 +93,7 @@ func (pb *PendingBatch) whyNotReady() string {
   }
   for batchid, batch := range pb.batches {
     for i, b := range batch {
-      if !b { fmt.Sprintf("Pending batch '%#x'[%v]", batchid, i) }
+      if !b { return fmt.Sprintf("Pending batch '%#x'[%v]", batchid, i) }
     }
   }
   return "ready"
-- 
2.43.0


From b7aaf62e03fbd760c91c25cfb1a9c129217b4a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 04/45] fix: stop looking for prefixes at the root

path.Dir("/") is "/", so a key starting with a slash that matched none of the
expected prefixes kept the consumer looping forever.
---
 delivery/consumer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 202e229..e38e109 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -155,7 +155,7 @@ func (pb *PendingBatch) DecPrefixCounter(p string) bool {
     pb.prefixes[p]--
     return true
   }
-  for d := p; d != "."; d = path.Dir(d) {
+  for d := p; d != "."; d = parentDir(d) {
     k := strings.TrimPrefix(d, "/") + "/"
     if v, ok := pb.prefixes[k]; ok && v > 0 {
       pb.prefixes[k]--
@@ -172,6 +172,13 @@ func (pb *PendingBatch) DecPrefixCounter(p string) bool {
   return false
 }
 
+// parentDir is path.Dir, but treats the root like the current directory: both
+// are their own parent.
+func parentDir(p string) string {
+  if p == "/" { return "." }
+  return path.Dir(p)
+}
+
 type prefixBatch struct {
   re *regexp.Regexp
   batch *PendingBatch
-- 
2.43.0


From 0c07ec7fd3f80589f7ce4b54fe95e28496614593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 05/45] fix: apply all early messages even if one of them fails

When a message that arrived before its block header could not be applied, the
remaining early messages of the block were neither applied nor tried again.
---
 delivery/consumer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index e38e109..4b55a32 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -308,6 +308,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   if mp.completed.Contains(hash) { return nil }   // We've recently emitted this block
   if _, ok := mp.oldBlocks[hash]; ok { return nil } // This block is older than the reorg threshold, skip anything related to it.
 
+  var replayErr error
   switch MessageType(m.Key()[0]) {
   case BatchType:
     b := &Batch{}
@@ -367,7 +368,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     if _, ok := mp.pendingMessages[hash]; ok {
       // We have some messages that arrived before the batch header. Process them now.
       for _, msg := range mp.pendingMessages[hash] {
-        if err := mp.ProcessMessage(msg); err != nil { return err }
+        if err := mp.ProcessMessage(msg); err != nil && replayErr == nil { replayErr = err }
       }
       delete (mp.pendingMessages, hash)
     }
@@ -405,7 +406,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     mp.completed.Add(hash, struct{}{})
     delete(mp.pendingBatches, hash)
   }
-  return nil
+  return replayErr
 }
 
 
-- 
2.43.0


From 3d538bc43819f4d42326d3e78e1f9aa3bafe5ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 06/45] fix: reject short keys and out of range subbatch
 indexes

Messages whose key is shorter than their type requires, or whose subbatch
index is not below the announced count, panicked.
---
 delivery/consumer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 4b55a32..0012e84 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -100,10 +100,18 @@ func (pb *PendingBatch) whyNotReady() string {
 }
 
 func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
+  if len(m.Key()) < 33 {
+    log.Error("Message key too short", "key", m.Key())
+    return true
+  }
   pb.updateResumption(m.Source(), m.Offset())
   switch MessageType(m.Key()[0]) {
   case SubBatchMsgType:
     // SubBatchMsgType.$hash.$BatchId.$Index
+    if len(m.Key()) < 65 {
+      log.Error("Subbatch message key too short", "key", m.Key())
+      return true
+    }
     batchid := types.BytesToHash(m.Key()[33:65])
     var idx int
     if err := avro.Unmarshal(intSchema, m.Key()[65:], &idx); err != nil {
@@ -114,6 +122,10 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
       pb.pendingMessages[string(m.Key())] = m
       return false
     }
+    if idx < 0 || idx >= len(pb.batches[batchid]) {
+      log.Error("Subbatch index out of range", "key", m.Key(), "index", idx)
+      return true
+    }
     if pb.batches[batchid][idx] { return false } // Already have it, no updates
     update := &SubBatchRecord{}
     if err := avro.Unmarshal(updateSchema, m.Value(), &update); err != nil {
@@ -290,6 +302,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
       break EVICTLOOP
     }
   }
+  if len(m.Key()) < 33 { return fmt.Errorf("message key too short: %#x", m.Key()) }
   mp.updateResumption(m.Source(), m.Offset())
   hash := types.BytesToHash(m.Key()[1:33])
   if MessageType(m.Key()[0]) == ReorgType {
-- 
2.43.0


From ca350f3302d9e34a47a8c42efeea51b7621c443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:40 +0000
Subject: [PATCH 07/45] fix: only choose a waiting child that is still pending

getPendingChild returned a zero hash as a child when every child had been
evicted or had no weight, and prepareEmit then panicked.
---
 delivery/ordering.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 1d253ca..fe11ce3 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -297,16 +297,20 @@ func (omp *OrderedMessageProcessor) getPendingChild(hash types.Hash) (types.Hash
   if !ok {
     return types.Hash{}, ok
   }
-  max := new(big.Int)
+  var max *big.Int
   var maxChild types.Hash
   for child := range children {
+    if _, ok := omp.pending[child]; !ok {
+      // The child has been evicted since it was queued
+      continue
+    }
     td := omp.getPendingChainDifficulty(child)
-    if max.Cmp(td) < 0 {
+    if max == nil || max.Cmp(td) < 0 {
       max = td
       maxChild = child
     }
   }
-  return maxChild, true
+  return maxChild, max != nil
 }
 
 // getPendingChainDifficulty returns the weight of the heaviest chain
-- 
2.43.0


From 256bb923356484bc0b42e39f10138337d4d7b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 08/45] fix: count a waiting block's own weight

A waiting block whose queued children have all been evicted was taken to
lead to weight zero, so a lighter sibling was chosen over it.
---
 delivery/ordering.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index fe11ce3..3c2e35b 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -317,16 +317,11 @@ func (omp *OrderedMessageProcessor) getPendingChild(hash types.Hash) (types.Hash
 // descending from a given node.
 func (omp *OrderedMessageProcessor) getPendingChainDifficulty(hash types.Hash) (*big.Int) {
   // log.Debug("Getting pending chain difficulty", "block", hash, "pending", omp.queued[hash])
-  children, ok := omp.queued[hash]
-  if !ok {
-    // TODO: Something is wonky here
-    if pb, ok := omp.pending[hash]; ok {
-      return pb.Weight
-    }
-    return new(big.Int)
-  }
   max := new(big.Int)
-  for child := range children {
+  if pb, ok := omp.pending[hash]; ok {
+    max = pb.Weight
+  }
+  for child := range omp.queued[hash] {
     weight := omp.getPendingChainDifficulty(child)
     if max.Cmp(weight) < 0 {
       max = weight
-- 
2.43.0


From e644059b0a01d0d2cf5b80b2c29aefbb814e0af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 09/45] fix: keep every block of a reorg for the full history

Only the newest block of a reorg was refreshed in the finished cache, so
the blocks below it could be evicted right after they had been emitted.
---
 delivery/ordering.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 3c2e35b..9080f6e 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -250,7 +250,11 @@ func (omp *OrderedMessageProcessor) prepareEmit(new, old []*PendingBatch) {
     omp.lastHash = newest.Hash
     omp.lastWeight = newest.Weight
     omp.finishSiblings(newest)
-    omp.finished.Add(newest.Hash, struct{}{})
+    for _, pb := range new {
+      // Blocks other than the newest are already finished, but they are part
+      // of the chain from now on, so keep them as long as the newest.
+      omp.finished.Add(pb.Hash, struct{}{})
+    }
   }
   for hash, ok := omp.getPendingChild(omp.lastHash); ok; hash, ok = omp.getPendingChild(omp.lastHash) {
     pb := omp.pending[hash]
-- 
2.43.0


From b9634e596127eddd16c2d6ee3c47903f5594eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 10/45] fix: do not evict a parent that is still in the history

A block that finished before its parent took the parent with it when it
was evicted, although the parent was emitted later and still in the window.
---
 delivery/ordering.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 9080f6e..c2025a1 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -105,7 +105,9 @@ func (omp *OrderedMessageProcessor) evict(hash types.Hash) {
   if pb, ok := omp.pending[hash]; ok {
     delete(omp.pending, pb.Hash)
     omp.mp.evictOlderThan(pb.Number)
-    omp.evict(pb.ParentHash) // If the parent is still being tracked we can go ahead and get rid of it
+    if !omp.finished.Contains(pb.ParentHash) {
+      omp.evict(pb.ParentHash) // If the parent is still being tracked we can go ahead and get rid of it
+    }
     if children, ok := omp.queued[pb.Hash]; ok {
       for childHash := range children {
         if !omp.finished.Contains(childHash) {
-- 
2.43.0


From 34855763f4d8334dd54a372a7759de4aea156b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 11/45] fix: anchor every alternative of a schema expression

---
 delivery/producer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/delivery/producer.go b/delivery/producer.go
index 270a22d..431c9a9 100644
--- a/delivery/producer.go
+++ b/delivery/producer.go
@@ -28,12 +28,10 @@ func NewProducer(defaultTopic string, schema map[string]string) (*Producer, erro
         return nil, ErrPrefixOverlap
       }
     }
-    exp, err := regexp.Compile(i)
+    if _, err := regexp.Compile(i); err != nil { return nil, err }
+    // Group the expression, so that every alternative is anchored
+    exp, err := regexp.Compile("^(?:" + i + ")")
     if err != nil { return nil, err }
-    if !strings.HasPrefix(i, "^") {
-      exp, err = regexp.Compile("^" + i)
-      if err != nil { return nil, err }
-    }
     s[counter] = regexpPair{topic: topic, regexp: exp}
     counter++
   }
-- 
2.43.0


From 88d802f784d4f48b31c2675bcca35bbe56a2268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 12/45] fix: find overlapping prefixes regardless of their
 anchors

---
 delivery/producer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delivery/producer.go b/delivery/producer.go
index 431c9a9..7a418f5 100644
--- a/delivery/producer.go
+++ b/delivery/producer.go
@@ -24,7 +24,8 @@ func NewProducer(defaultTopic string, schema map[string]string) (*Producer, erro
   counter := 0
   for i, topic := range schema {
     for j := range schema {
-      if i != j && strings.HasPrefix(i, j) {
+      // The anchor is implied, so it does not tell prefixes apart
+      if i != j && strings.HasPrefix(strings.TrimPrefix(i, "^"), strings.TrimPrefix(j, "^")) {
         return nil, ErrPrefixOverlap
       }
     }
-- 
2.43.0


From 8364bf6f1032d14b634eee0a5532c30bdad710e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 13/45] fix: do not keep subbatches of rejected blocks

---
 delivery/producer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delivery/producer.go b/delivery/producer.go
index 7a418f5..d40da9e 100644
--- a/delivery/producer.go
+++ b/delivery/producer.go
@@ -101,6 +101,7 @@ func (p *Producer) AddBlock(number int64, hash, parentHash types.Hash, weight *b
     }
   }
   //Create batch messages
+  infos := make(map[types.Hash]*batchInfo)
   for k, h := range batches {
     if h == (types.Hash{}) {
       return nil, ErrInvalidBatch
@@ -117,12 +118,16 @@ func (p *Producer) AddBlock(number int64, hash, parentHash types.Hash, weight *b
         break
       }
     }
-    p.pendingBatches[h] = bi
+    infos[h] = bi
   }
   for k, c := range counts {
     if _, ok := b.Updates[k]; ok { return nil, ErrPrefixConflict }
     b.Updates[k] = BatchRecord{Count: c}
   }
+  // Only expect the subbatches once the block is known to be valid
+  for h, bi := range infos {
+    p.pendingBatches[h] = bi
+  }
   topicMessages[p.defaultTopic] = append(topicMessages[p.defaultTopic], &message{
       key: BatchType.GetKey(hash.Bytes()),
       value: b.EncodeAvro(),
-- 
2.43.0


From 8b0ee1d12c94705a3c6c1d6d091a3a1c54b5cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 14/45] fix: refuse a block that updates and deletes the same
 header entry

---
 delivery/producer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delivery/producer.go b/delivery/producer.go
index d40da9e..08b8eb2 100644
--- a/delivery/producer.go
+++ b/delivery/producer.go
@@ -97,6 +97,7 @@ func (p *Producer) AddBlock(number int64, hash, parentHash types.Hash, weight *b
       }
     }
     if !matched {
+      if _, ok := b.Updates[k]; ok { return nil, ErrPrefixConflict }
       b.Updates[k] = BatchRecord{Delete: true}
     }
   }
-- 
2.43.0


From fe4bce5b6bbd2f57a477db8d44f68ce65325fa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 15/45] fix: strip the cardinal:// prefix before handing broker
 URLs to the Kafka consumer

---
 transports/resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transports/resolver.go b/transports/resolver.go
index ff309d2..0312632 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -58,7 +58,7 @@ func ResolveConsumer(brokerURL, defaultTopic string, topics []string, resumption
 func resolveConsumer(omp *delivery.OrderedMessageProcessor, brokerURL, defaultTopic string, topics []string, resumption []byte, rollback, lastNumber int64, lastHash types.Hash, trackedPrefixes []*regexp.Regexp) (Consumer, error) {
   switch protocol := strings.Split(strings.TrimPrefix(brokerURL, "cardinal://"), "://"); protocol[0] {
   case "kafka":
-    return kafkaConsumerWithOMP(omp, brokerURL, defaultTopic, topics, resumption, rollback, lastHash)
+    return kafkaConsumerWithOMP(omp, strings.TrimPrefix(brokerURL, "cardinal://"), defaultTopic, topics, resumption, rollback, lastHash)
   case "ws", "wss":
     prefixes := make([]string, len(trackedPrefixes))
     for i, p := range trackedPrefixes {
@@ -77,7 +77,7 @@ func ResumptionForTimestamp(brokerParams []BrokerParams, timestamp int64) ([]byt
   for _, bp := range brokerParams {
     switch protocol := strings.Split(strings.TrimPrefix(bp.URL, "cardinal://"), "://"); protocol[0] {
     case "kafka":
-      res, err := kafkaResumptionForTimestamp(bp.URL, bp.Topics, timestamp)
+      res, err := kafkaResumptionForTimestamp(strings.TrimPrefix(bp.URL, "cardinal://"), bp.Topics, timestamp)
       if err != nil {
         return nil, err
       }
-- 
2.43.0


From ca1ec81b8995f0c72a68e94728759a697768f1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 16/45] fix: consume a recorded position smaller than the
 rollback from the oldest offset

With an empty last hash a partition whose recorded position was smaller than
the rollback was consumed from the newest offset, skipping every message
between the recorded position and now.
---
 transports/kafka.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 3c3272b..811fb89 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -554,7 +554,7 @@ func (kc *KafkaConsumer) Start() error {
       offset, ok := kc.resumption[k]
       var startOffset int64
       if !ok || offset < kc.rollback{
-        if kc.startHash == (types.Hash{}) && kc.rollback >= 0 {
+        if kc.startHash == (types.Hash{}) && kc.rollback >= 0 && (!ok || offset < 0) {
           // An empty hash indicates an intention to start tracking the feed
           // now, so we should not add historical messages.
           offset, err = kc.client.GetOffset(topic, partid, sarama.OffsetNewest)
-- 
2.43.0


From b4605819a88b03c20a1dab1cb2e98fdb4cd5b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 17/45] fix: keep the websocket reconnect position before
 blocks that wait for sub-batches

A complete block delivered while an earlier block still waited for sub-batches
moved the reconnect position past the waiting block, which was lost when the
connection broke before its last sub-batch arrived.
---
 transports/websockets.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 5db3081..63a9a35 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -439,8 +439,12 @@ func (c *websocketConsumer) Start() error {
 					if len(pendingSubbatches[pb.Hash]) == 0 {
 						delete(pendingSubbatches, pb.Hash)
 						c.omp.ProcessCompleteBatch(pb)
-						c.lastNum = hexutil.Uint64(pb.Number)
-						c.lastHash = pb.Hash
+						if len(batches) == 0 {
+							// After reconnecting we would not get the rest of blocks
+							// before this one that still wait for sub-batches
+							c.lastNum = hexutil.Uint64(pb.Number)
+							c.lastHash = pb.Hash
+						}
 					}
 				case "subbatch":
 					pb, ok := batches[item.SubBatch.Hash]
@@ -460,8 +464,12 @@ func (c *websocketConsumer) Start() error {
 						delete(pendingSubbatches, item.SubBatch.Hash)
 						delete(batches, item.SubBatch.Hash)
 						c.omp.ProcessCompleteBatch(pb)
-						c.lastNum = hexutil.Uint64(pb.Number)
-						c.lastHash = pb.Hash
+						if len(batches) == 0 {
+							// After reconnecting we would not get the rest of blocks
+							// before this one that still wait for sub-batches
+							c.lastNum = hexutil.Uint64(pb.Number)
+							c.lastHash = pb.Hash
+						}
 					}
 				}
 			}
-- 
2.43.0


From 719d30e16f7c6a72838dfb78e274553f670e5c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 18/45] fix: ignore websocket messages that cannot be decoded

The error of json.Unmarshal was ignored and the notification was decoded into
the same variable every time, so an invalid message made the previous one be
processed again, and a block with an invalid value was delivered without it.
---
 transports/websockets.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 63a9a35..2987e10 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -372,7 +372,6 @@ func (c *websocketConsumer) Start() error {
 				}
 			}
 			log.Info("Subscription established", "id", subid)
-			var notification rpc.SubscriptionResponseRaw
 			select {
 			case connected <- struct{}{}:
 			default:
@@ -387,7 +386,11 @@ func (c *websocketConsumer) Start() error {
 					// Probably a ping message
 					continue
 				}
-				json.Unmarshal(message, &notification)
+				var notification rpc.SubscriptionResponseRaw
+				if err := json.Unmarshal(message, &notification); err != nil {
+					log.Warn("Server sent invalid json", "err", err, "message", string(message))
+					continue
+				}
 				if notification.Method != "cardinal_subscribe" {
 					log.Warn("Unexpected message on channel", "message", string(message))
 					continue
@@ -397,7 +400,10 @@ func (c *websocketConsumer) Start() error {
 					continue
 				}
 				var item resultMessage
-				json.Unmarshal(notification.Params.Result, &item)
+				if err := json.Unmarshal(notification.Params.Result, &item); err != nil {
+					log.Warn("Server sent an invalid message", "err", err, "message", string(message))
+					continue
+				}
 				switch item.Type {
 				case "ready":
 					if !isReady {
-- 
2.43.0


From c1393efa1f59531a694bcb9fa02357a572284600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 19/45] fix: wait for the history before watching the
 subscription of a stream

---
 transports/websockets.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index 2987e10..46a0f17 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -274,23 +274,17 @@ func (s *websocketStreamsService) Streams(ctx context.Context, number hexutil.Ui
 		initwg.Done()
 	}()
 	go func() {
-		for {
-			select {
-			case <-ctx.Done():
-				initwg.Wait()
-				sub.Unsubscribe()
-				s.closemu.Lock()
-				close(subch)
-				s.closemu.Unlock()
-				return
-			case <-sub.Err():
-				sub.Unsubscribe()
-				s.closemu.Lock()
-				close(subch)
-				s.closemu.Unlock()
-				return
-			}
+		// sub is not known, and subch must not be closed, before the
+		// historical blocks have been sent
+		initwg.Wait()
+		select {
+		case <-ctx.Done():
+		case <-sub.Err():
 		}
+		sub.Unsubscribe()
+		s.closemu.Lock()
+		close(subch)
+		s.closemu.Unlock()
 	}()
 	return subch, nil
 }
-- 
2.43.0


From 866bbdde1828aff7d47e21a62de9bab01e389cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 20/45] fix: forget the waiting copy of a block that is sent
 again

---
 transports/websockets.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transports/websockets.go b/transports/websockets.go
index 46a0f17..f6bfc5d 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -421,6 +421,8 @@ func (c *websocketConsumer) Start() error {
 					for _, k := range item.Batch.Deletes {
 						pb.Deletes[k] = struct{}{}
 					}
+					// The same block may be sent again, don't wait for the old one
+					delete(batches, pb.Hash)
 					pendingSubbatches[pb.Hash] = make(map[types.Hash]struct{})
 					for _, batchid := range item.Batch.Batches {
 						if sb, ok := subbatches[batchid]; ok {
-- 
2.43.0


From 551ba2e5dc294d96a80c4d6c47901042a6dbbf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 21/45] fix: guard the heartbeat table, which callers read
 while heartbeats arrive

---
 transports/kafka.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 811fb89..2cbe839 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -28,15 +28,23 @@ var (
   producerCount = metrics.NewMajorGauge("/streams/producers")
 )
 
-type pingTracker map[types.Hash]time.Time
+type pingTracker struct {
+  lock sync.Mutex
+  seen map[types.Hash]time.Time
+}
 
-func (pt pingTracker) update(key types.Hash) {
-  pt[key] = time.Now()
+func (pt *pingTracker) update(key types.Hash) {
+  pt.lock.Lock()
+  defer pt.lock.Unlock()
+  if pt.seen == nil { pt.seen = make(map[types.Hash]time.Time) }
+  pt.seen[key] = time.Now()
 }
 
-func (pt pingTracker) ProducerCount(d time.Duration) uint {
+func (pt *pingTracker) ProducerCount(d time.Duration) uint {
   var count uint
-  for _, v := range pt {
+  pt.lock.Lock()
+  defer pt.lock.Unlock()
+  for _, v := range pt.seen {
     if time.Since(v) < d {
       count++
     }
@@ -245,7 +253,6 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   if err != nil {
     return nil, err
   }
-  pt := make(pingTracker)
   client, err := sarama.NewClient(brokers, config)
   if err != nil { return nil, err }
   consumer, err := sarama.NewConsumerFromClient(client)
@@ -300,7 +307,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   }
   cache, _ := lru.New(4096)
   skipBatches, _ := lru.New(1024)
-  kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches, pt: pt, healthy: true}
+  kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches, healthy: true}
   go func() {
     ticker := time.NewTicker(30 * time.Second)
     for {
@@ -499,7 +506,6 @@ func kafkaConsumerWithOMP(omp *delivery.OrderedMessageProcessor, brokerURL, defa
     client: client,
     rollback: rollback,
     startHash: lastHash,
-    pt: make(pingTracker),
   }, nil
 }
 
-- 
2.43.0


From 99b14d28d76210e77df65b8418ceabd8b6fe95d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 22/45] fix: ignore block messages with short keys on the feed
 of a Kafka producer

---
 transports/kafka.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 2cbe839..e316ff5 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -295,6 +295,7 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
           if len(input.Key) == 0 { continue PARTITION_LOOP }
           switch delivery.MessageType(input.Key[0]) {
           case delivery.BatchType:
+            if len(input.Key) < 33 { continue PARTITION_LOOP }
             hashCh <- types.BytesToHash(input.Key[1:33])
           case delivery.PingType:
             if !bytes.Equal(input.Key[1:], idBytes[:]) { // Ignore our own heartbeats
-- 
2.43.0


From 18f2e50b5b58dfe3fd35de66294b00b85dd4f54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 23/45] fix: count a Kafka partition reader before it starts,
 so that shutdown waits for it

---
 transports/kafka.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index e316ff5..eaf3edb 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -585,8 +585,8 @@ func (kc *KafkaConsumer) Start() error {
         startOffset = offset
       }
       log.Info("Starting partition consumer", "topic", topic, "partition", partid, "offset", offset, "startOffset", startOffset)
+      kc.shutdownWg.Add(1)
       go func(pc sarama.PartitionConsumer, startOffset int64, partid int32, i int, topic string) {
-        kc.shutdownWg.Add(1)
         defer kc.shutdownWg.Done()
         dl.AddScale(i, startOffset)
         var once sync.Once
-- 
2.43.0


From b974689587cf56c699d69c1f9b5df61471f4571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 24/45] fix: consume the topic of a reorg from its first
 message

---
 transports/kafka.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index eaf3edb..732f272 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -680,6 +680,7 @@ func (kc *KafkaConsumer) Start() error {
               topics: []string{fmt.Sprintf("%s-re-%x",  kc.defaultTopic, msg.Key()[1:])},
               resumption: make(map[string]int64),
               client: kc.client,
+              rollback: -1, // The whole reorg topic, not just what is new on it
               isReorg: true,
             }
             rekc.Start()
-- 
2.43.0


From 63af375e0be965e9296646a849bd511ae48b1f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 25/45] fix: go on when the topic of a reorg cannot be consumed

---
 transports/kafka.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 732f272..4d88f32 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -683,7 +683,10 @@ func (kc *KafkaConsumer) Start() error {
               rollback: -1, // The whole reorg topic, not just what is new on it
               isReorg: true,
             }
-            rekc.Start()
+            if err := rekc.Start(); err != nil {
+              log.Error("Error consuming reorg topic", "err", err, "topics", rekc.topics)
+              continue
+            }
             <-rekc.Ready()
             rekc.Close()
           } else {
-- 
2.43.0


From e614f44648bc04c8825ebb6b732eda69c2c88bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 26/45] fix: ignore the end of a reorg whose start was not seen

---
 transports/kafka.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 4d88f32..8bad20c 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -655,6 +655,7 @@ func (kc *KafkaConsumer) Start() error {
     hbGauge := metrics.NewMajorGauge("streams/kafka/heartbeat")
     hbGauge.Update(1)
     hbTicker := time.NewTicker(time.Minute)
+    reorgs := 0
     for {
       select {
       case input, ok := <-messages:
@@ -690,6 +691,7 @@ func (kc *KafkaConsumer) Start() error {
             <-rekc.Ready()
             rekc.Close()
           } else {
+            reorgs++
             reorgWg.Add(1)
             if err := kc.omp.ProcessMessage(msg); err != nil {
               log.Error("Error processing input:", "err", err, "key", input.Key, "msg", input.Value, "part", input.Partition, "offset", input.Offset)
@@ -698,7 +700,11 @@ func (kc *KafkaConsumer) Start() error {
         case delivery.PingType:
           heartbeats <- types.BytesToHash(msg.Key()[1:])
         case delivery.ReorgCompleteType:
-          reorgWg.Done()
+          // The reorg may have started before we did
+          if reorgs > 0 {
+            reorgs--
+            reorgWg.Done()
+          }
         default:
           if err := kc.omp.ProcessMessage(msg); err != nil {
             log.Error("Error processing input:", "err", err, "key", input.Key, "msg", input.Value, "part", input.Partition, "offset", input.Offset)
-- 
2.43.0


From 7b2efca5212aed4a23105170c3e369be12195adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 27/45] fix: shut a Kafka consumer down only once

---
 transports/kafka.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 8bad20c..530a20c 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -475,6 +475,7 @@ type KafkaConsumer struct{
   client       sarama.Client
   rollback     int64
   shutdownWg   sync.WaitGroup
+  closeOnce    sync.Once
   isReorg      bool
   startHash    types.Hash
   pt           pingTracker
@@ -771,7 +772,7 @@ func (kc *KafkaConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Su
   return kc.omp.SubscribeReorg(ch)
 }
 func (kc *KafkaConsumer) Close() {
-  kc.quit <- struct{}{}
+  kc.closeOnce.Do(func() { kc.quit <- struct{}{} })
   kc.shutdownWg.Wait()
 }
 func (kc *KafkaConsumer) WhyNotReady(hash types.Hash) string {
-- 
2.43.0


From 656ee0bd08789616684c5f969fae1622083df936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 28/45] fix: let a waiter be stopped twice

---
 waiter/waiter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waiter/waiter.go b/waiter/waiter.go
index c5dc47f..c3435f0 100644
--- a/waiter/waiter.go
+++ b/waiter/waiter.go
@@ -46,6 +46,7 @@ type ompWaiter struct {
     hashes map[types.Hash]chan struct{}
     numbers map[int64]chan struct{}
     lock sync.RWMutex
+    stopOnce sync.Once
     sub types.Subscription
     ch chan *delivery.Waiter
 }
@@ -155,5 +156,5 @@ func (w *ompWaiter) WaitForNumberResult(n int64, timeout time.Duration) WaitResu
 
 func (w *ompWaiter) Stop() {
     w.sub.Unsubscribe()
-    close(w.ch)
+    w.stopOnce.Do(func() { close(w.ch) })
 }
\ No newline at end of file
-- 
2.43.0


From e898503b09c8b0aa4a537d44a268e116d9ec06e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 29/45] fix: close the channel of a block once when several
 subscribers are done with it

---
 delivery/consumer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 0012e84..769df7a 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -4,6 +4,7 @@ import (
   "math/big"
   "path"
   "strings"
+  "sync"
   "github.com/hashicorp/golang-lru"
   "github.com/openrelayxyz/cardinal-types"
   "github.com/openrelayxyz/cardinal-types/metrics"
@@ -37,6 +38,7 @@ type PendingBatch struct {
   pendingBatches map[types.Hash]struct{}
   pendingMessages map[string]ResumptionMessage // Key -> Message
   waitCh chan struct{}
+  doneLock sync.Mutex // every subscriber may call Done
   time time.Time
   failedReconstructPanic bool
 }
@@ -74,11 +76,13 @@ func (pb *PendingBatch) Ready() bool {
 
 // Done should be called on a pending batch after it has been applied.
 func (pb *PendingBatch) Done() {
+  pb.doneLock.Lock()
   waitch := pb.waitCh
   if waitch != nil {
     pb.waitCh = nil
     close(waitch)
   }
+  pb.doneLock.Unlock()
   deltaTimerMinor.UpdateSince(pb.time)
   if deltaTimer != nil {
     deltaTimer.UpdateSince(pb.time)
-- 
2.43.0


From 34ece613e863de975893caf9e3800563a7f59d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 30/45] fix: process the messages of several brokers one at a
 time

---
 delivery/ordering.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index c2025a1..21528e2 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -7,6 +7,7 @@ import (
   "github.com/openrelayxyz/cardinal-types/metrics"
   "github.com/hashicorp/golang-lru"
   log "github.com/inconshreveable/log15"
+  "sync"
   "time"
 )
 
@@ -22,6 +23,7 @@ var (
 
 type OrderedMessageProcessor struct {
   mp *MessageProcessor
+  mpLock         sync.Mutex // consumers of several brokers share the message processor
   lastHash       types.Hash
   lastWeight     *big.Int
   reorgThreshold int64
@@ -156,6 +158,8 @@ func (omp *OrderedMessageProcessor) Subscribe(ch interface{}) types.Subscription
 }
 
 func (omp *OrderedMessageProcessor) ProcessCompleteBatch(pb *PendingBatch) {
+	omp.mpLock.Lock()
+	defer omp.mpLock.Unlock()
 	omp.mp.ProcessCompleteBatch(pb)
 }
 
@@ -364,6 +368,8 @@ func (omp *OrderedMessageProcessor) prepareReorg(newHead, oldHead *PendingBatch)
 }
 
 func (omp *OrderedMessageProcessor) ProcessMessage(m ResumptionMessage) error {
+  omp.mpLock.Lock()
+  defer omp.mpLock.Unlock()
   return omp.mp.ProcessMessage(m)
 }
 
-- 
2.43.0


From 98f4b1b8a1670b6d806bbc38b9e1e450338949e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 31/45] fix: let a websocket consumer be closed before it has
 connected

---
 transports/websockets.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index f6bfc5d..2ef61a1 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -488,7 +488,9 @@ func (c *websocketConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types
 }
 func (c *websocketConsumer) Close() {
 	c.quit = true
-	c.conn.Close()
+	if c.conn != nil {
+		c.conn.Close()
+	}
 }
 func (c *websocketConsumer) Ready() <-chan struct{} {
 	return c.ready
-- 
2.43.0


From 52b07e102fb9c00eef90908b43b7c9c11ced16b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 32/45] fix: a block announced by several brokers is waited for
 until any of them delivers

---
 waiter/waiter.go | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/waiter/waiter.go b/waiter/waiter.go
index c3435f0..7f4482f 100644
--- a/waiter/waiter.go
+++ b/waiter/waiter.go
@@ -60,25 +60,33 @@ func NewOmpWaiter(omp *delivery.OrderedMessageProcessor) Waiter {
         ch: ch,
     }
     go func() {
-        var nchLock sync.Mutex
+        var chLock sync.Mutex
+        signal := func(ch chan struct{}) {
+            chLock.Lock()
+            select {
+            case <-ch:
+                // Another goroutine already closed the channel
+            default:
+                close(ch)
+            }
+            chLock.Unlock()
+        }
         for pw := range ch {
             w.lock.Lock()
-            w.hashes[pw.Hash] = pw.WaitCh
+            // A block can be announced more than once, by several brokers, and
+            // only one of the announcements delivers
+            if _, ok := w.hashes[pw.Hash]; !ok {
+                w.hashes[pw.Hash] = make(chan struct{})
+            }
             if _, ok := w.numbers[pw.Number]; !ok {
                 w.numbers[pw.Number] = make(chan struct{})
             }
             go func(nch, hch chan struct{}, pw *delivery.Waiter) {
                 select {
-                case <-hch:
-                    // The hash channel delivered, close the number channel (safely)
-                    nchLock.Lock()
-                    select {
-                    case <-nch:
-                        // Another goroutine already closed the channel
-                    default:
-                        close(nch)
-                    }
-                    nchLock.Unlock()
+                case <-pw.WaitCh:
+                    // The block was processed, close its channels (safely)
+                    signal(hch)
+                    signal(nch)
                     go func() {
                         // Leave the closed channels in the maps for the next 60 seconds
                         time.Sleep(60 * time.Second)
@@ -91,13 +99,19 @@ func NewOmpWaiter(omp *delivery.OrderedMessageProcessor) Waiter {
                     // The number channel delivered, the hash channel may never deliver
                     go func() {
                         // Leave the closed channels in the maps for the next 60 seconds
-                        time.Sleep(60 * time.Second)
+                        timer := time.After(60 * time.Second)
+                        select {
+                        case <-pw.WaitCh:
+                            signal(hch)
+                            <-timer
+                        case <-timer:
+                        }
                         w.lock.Lock()
                         delete(w.hashes, pw.Hash)
                         w.lock.Unlock()
                     }()
                 }
-            }(w.numbers[pw.Number], pw.WaitCh, pw)
+            }(w.numbers[pw.Number], w.hashes[pw.Hash], pw)
             w.lock.Unlock()
         }
     }()
-- 
2.43.0


From 172ceee504f9eb7dd05b6b07155d8eb7b447887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:43 +0000
Subject: [PATCH 33/45] fix: set a Kafka producer's health atomically,
 heartbeats read it concurrently

---
 transports/kafka.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 530a20c..72010a8 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -11,6 +11,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/Shopify/sarama"
@@ -230,7 +231,7 @@ type KafkaProducer struct{
   recentHashes *lru.Cache
   skipBatches  *lru.Cache
   pt           pingTracker
-  healthy      bool
+  unhealthy    int32 // set by SetHealth while heartbeats are sent
 }
 
 func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string) (Producer, error) {
@@ -308,14 +309,14 @@ func NewKafkaProducer(brokerURL, defaultTopic string, schema map[string]string)
   }
   cache, _ := lru.New(4096)
   skipBatches, _ := lru.New(1024)
-  kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches, healthy: true}
+  kp := &KafkaProducer{dp: dp, producer: producer, reorgTopic: "", defaultTopic: defaultTopic, brokerURL: brokerURL, recentHashes: cache, skipBatches: skipBatches}
   go func() {
     ticker := time.NewTicker(30 * time.Second)
     for {
       select {
       case t := <-ticker.C:
         b, _ := t.MarshalBinary()
-        if kp.healthy {
+        if atomic.LoadInt32(&kp.unhealthy) == 0 {
             producer.Input() <- &sarama.ProducerMessage{Topic: defaultTopic, Key: sarama.ByteEncoder(delivery.PingType.GetKey(idBytes[:])), Value: sarama.ByteEncoder(b)}
         }
       case h := <-hashCh:
@@ -334,7 +335,9 @@ func (kp *KafkaProducer) ProducerCount(d time.Duration) uint {
 }
 
 func (kp *KafkaProducer) SetHealth(b bool) {
-  kp.healthy = b
+  var unhealthy int32
+  if !b { unhealthy = 1 }
+  atomic.StoreInt32(&kp.unhealthy, unhealthy)
 }
 
 func (kp *KafkaProducer) emitBundle(bundle map[string][]delivery.Message) error {
-- 
2.43.0


From c17736f4102009fc61b31c0119e6c888d030079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:43 +0000
Subject: [PATCH 34/45] fix: keep a Kafka consumer's readiness in an atomic,
 Ready is called while it changes

---
 transports/kafka.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index 72010a8..5b90cd5 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -471,6 +471,7 @@ type KafkaConsumer struct{
   omp          *delivery.OrderedMessageProcessor
   quit         chan struct{}
   ready        chan struct{}
+  isReady      int32 // set once every partition has caught up
   brokerURL    string
   defaultTopic string
   topics       []string
@@ -607,7 +608,7 @@ func (kc *KafkaConsumer) Start() error {
             warmupWg.Wait()
             warm = true
           }
-          if kc.ready != nil {
+          if atomic.LoadInt32(&kc.isReady) == 0 {
             if !kc.isReorg {
               dl.Step(i)
             }
@@ -627,13 +628,14 @@ func (kc *KafkaConsumer) Start() error {
       partitionConsumers = append(partitionConsumers, pc)
     }
   }
-  var readych chan time.Time
+  readych := make(chan time.Time)
+  var waiting int32 // whether readych is ready to receive
   readyWaiter := func() <-chan time.Time  {
-    // If readych isn't ready to receive, use it as the sender, eliminating any
+    // If readych isn't ready to receive, use nil as the sender, eliminating any
     // possibility that this case will trigger, and avoiding the creation of
     // any timer objects that will have to get cleaned up when we don't need
     // them.
-    if readych == nil { return readych }
+    if atomic.LoadInt32(&waiting) == 0 { return nil }
     // Only if the readych is ready to receive should this return a timer, as
     // the timer will have to be created, run its course, and get cleaned up,
     // which adds overhead
@@ -643,17 +645,19 @@ func (kc *KafkaConsumer) Start() error {
     // Wait until all partition consumers are up to the high water mark and alert the ready channel
     wg.Wait()
     log.Debug("Partitions ready")
-    readych = make(chan time.Time)
+    atomic.StoreInt32(&waiting, 1)
     <-readych
     log.Debug("Ready")
-    readych = nil
+    atomic.StoreInt32(&waiting, 0)
     reorgWg.Wait()
     log.Debug("Reorg waiter ready")
-    kc.ready <- struct{}{}
-    log.Debug("Ready sent")
-    kc.ready = nil
+    // From here on Ready() does not hand out kc.ready, so those who got it
+    // before are told last
+    atomic.StoreInt32(&kc.isReady, 1)
     dl.Close()
     delivery.Ready()
+    kc.ready <- struct{}{}
+    log.Debug("Ready sent")
   }(&readyWg, &reorgWg)
   go func() {
     hbGauge := metrics.NewMajorGauge("streams/kafka/heartbeat")
@@ -763,7 +767,7 @@ func (kc *KafkaConsumer) ProducerCount(d time.Duration) uint {
 }
 
 func (kc *KafkaConsumer) Ready() <-chan struct{} {
-  if kc.ready != nil { return kc.ready }
+  if atomic.LoadInt32(&kc.isReady) == 0 { return kc.ready }
   r := make(chan struct{}, 1)
   r <- struct{}{}
   return r
-- 
2.43.0


From 718b976d3925dd7d772c4572753a259359867ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:43 +0000
Subject: [PATCH 35/45] fix: skip incomplete messages of a websocket broker
 instead of crashing

---
 transports/websockets.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/websockets.go b/transports/websockets.go
index 2ef61a1..c04cf8a 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -398,6 +398,10 @@ func (c *websocketConsumer) Start() error {
 					log.Warn("Server sent an invalid message", "err", err, "message", string(message))
 					continue
 				}
+				if (item.Type == "batch" || item.Type == "reorg") && item.Batch == nil || item.Type == "batch" && item.Batch.Weight == nil || item.Type == "subbatch" && item.SubBatch == nil {
+					log.Warn("Server sent an incomplete message", "message", string(message))
+					continue
+				}
 				switch item.Type {
 				case "ready":
 					if !isReady {
-- 
2.43.0


From c6911d7293320b4e813d462d392fe98b188e6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 36/45] fix: reconnect to a websocket broker when the
 subscription fails

---
 transports/websockets.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transports/websockets.go b/transports/websockets.go
index c04cf8a..db77ef6 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -365,6 +365,7 @@ func (c *websocketConsumer) Start() error {
 					log.Warn("Unexpected response", "wanted", call.ID, "got", response.ID)
 				}
 			}
+			if subid == nil { continue }
 			log.Info("Subscription established", "id", subid)
 			select {
 			case connected <- struct{}{}:
-- 
2.43.0


From 0ae7c08eee2001e687b2e09cb5036a45e19ccc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 37/45] fix: have the ordering goroutine handle reorgs of a
 websocket broker

---
 delivery/ordering.go     | 5 +++++
 transports/websockets.go | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 21528e2..73dbb6d 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -244,6 +244,11 @@ func (omp *OrderedMessageProcessor) queue(pb *PendingBatch) {
   omp.queued[pb.ParentHash][pb.Hash] = struct{}{}
 }
 
+// ProcessReorg has the message processor's own goroutine handle a reorg.
+func (omp *OrderedMessageProcessor) ProcessReorg(num int64, hash types.Hash) {
+  omp.mp.reorgFeed.Send(map[int64]types.Hash{num: hash})
+}
+
 func (omp *OrderedMessageProcessor) HandleReorg(num int64, hash types.Hash) {
   omp.lastHash = hash
   // omp.lastNumber = num
diff --git a/transports/websockets.go b/transports/websockets.go
index db77ef6..ef193fb 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -410,7 +410,7 @@ func (c *websocketConsumer) Start() error {
 						close(c.ready)
 					}
 				case "reorg":
-					c.omp.HandleReorg(int64(item.Batch.Number), item.Batch.Hash)
+					c.omp.ProcessReorg(int64(item.Batch.Number), item.Batch.Hash)
 				case "batch":
 					pb := &delivery.PendingBatch{
 						Number: int64(item.Batch.Number),
-- 
2.43.0


From 15027942557624990846291ed0b04fe1d7aa78ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 38/45] fix: protect the connection of a websocket consumer
 with a lock

---
 transports/websockets.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/transports/websockets.go b/transports/websockets.go
index ef193fb..bd8f502 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -296,6 +296,7 @@ type websocketConsumer struct {
 	chainUpdates types.Feed
 	pendingBatches types.Feed
 	reorgs types.Feed
+	lock sync.Mutex // protects conn and quit
 	conn *websocket.Conn
 	ready chan struct{}
 	quit bool
@@ -313,18 +314,24 @@ func (*websocketConsumer) ProducerCount(time.Duration) uint {
 }
 
 func (c *websocketConsumer) Start() error {
-	var err error
 	connected := make(chan struct{}, 8)
 	isReady := false
 	go func() {
-		for !c.quit {
-			c.conn, _, err = websocket.DefaultDialer.Dial(c.url, nil)
+		for !c.closed() {
+			conn, _, err := websocket.DefaultDialer.Dial(c.url, nil)
 			if err != nil {
 				// If we can't connect, don't slam the server with connection attempts
 				log.Warn("Dial failed", "url", c.url, "error", err)
 				time.Sleep(time.Second)
 				continue
 			}
+			c.lock.Lock()
+			c.conn = conn
+			c.lock.Unlock()
+			if c.closed() {
+				conn.Close()
+				return
+			}
 			batches := make(map[types.Hash]*delivery.PendingBatch)
 			subbatches := make(map[types.Hash]*transportSubbatch)
 			pendingSubbatches := make(map[types.Hash]map[types.Hash]struct{})
@@ -335,10 +342,10 @@ func (c *websocketConsumer) Start() error {
 				continue
 			}
 			callData, _ := json.Marshal(call)
-			c.conn.WriteMessage(websocket.TextMessage, callData)
+			conn.WriteMessage(websocket.TextMessage, callData)
 			var subid *hexutil.Uint64
 			for subid == nil {
-				_, message, err := c.conn.ReadMessage()
+				_, message, err := conn.ReadMessage()
 				if err != nil {
 					log.Warn("Read error. Resetting Connection.", "err", err)
 					time.Sleep(time.Second)
@@ -372,7 +379,7 @@ func (c *websocketConsumer) Start() error {
 			default:
 			}
 			for {
-				_, message, err := c.conn.ReadMessage()
+				_, message, err := conn.ReadMessage()
 				if err != nil {
 					log.Debug("Read error. Resetting connection.", "err", err)
 					break
@@ -491,7 +498,14 @@ func (c *websocketConsumer) Subscribe(ch interface{}) types.Subscription {
 func (c *websocketConsumer) SubscribeReorg(ch chan<- map[int64]types.Hash) types.Subscription {
 	return c.omp.SubscribeReorg(ch)
 }
+func (c *websocketConsumer) closed() bool {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	return c.quit
+}
 func (c *websocketConsumer) Close() {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	c.quit = true
 	if c.conn != nil {
 		c.conn.Close()
-- 
2.43.0


From b803bdd383f75912d7abedd8eae07a3dedb47abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 39/45] fix: every subscriber's ChainUpdate.Done wrote to the
 same array

---
 delivery/ordering.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 73dbb6d..8a2f7c8 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -136,7 +136,11 @@ func (c *ChainUpdate) Removed() []*PendingBatch {
 }
 
 func (c *ChainUpdate) Done() {
-  for _, pb := range append(c.added, c.removed...) {
+  // Appending one to the other could write to the array every subscriber shares
+  for _, pb := range c.added {
+    pb.Done()
+  }
+  for _, pb := range c.removed {
     pb.Done()
   }
 }
-- 
2.43.0


From 0688ec9b1880033753e701234c07c889c88743a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 40/45] fix: record deltas once caught up, without racing with
 Done

---
 delivery/consumer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index 769df7a..ad69a82 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -5,6 +5,7 @@ import (
   "path"
   "strings"
   "sync"
+  "sync/atomic"
   "github.com/hashicorp/golang-lru"
   "github.com/openrelayxyz/cardinal-types"
   "github.com/openrelayxyz/cardinal-types/metrics"
@@ -17,7 +18,8 @@ import (
 )
 
 var (
-  deltaTimer gmetrics.Timer
+  deltaTimer atomic.Value // a gmetrics.Timer, once caught up
+  deltaOnce sync.Once
   deltaTimerMinor = metrics.NewMinorTimer("/streams/minor/delta")
   pbGauge = metrics.NewMinorGauge("/streams/con/pending")
   messagesGauge = metrics.NewMinorGauge("/streams/con/messages")
@@ -84,8 +86,8 @@ func (pb *PendingBatch) Done() {
   }
   pb.doneLock.Unlock()
   deltaTimerMinor.UpdateSince(pb.time)
-  if deltaTimer != nil {
-    deltaTimer.UpdateSince(pb.time)
+  if timer, ok := deltaTimer.Load().(gmetrics.Timer); ok {
+    timer.UpdateSince(pb.time)
   }
   log.Debug("Batch applied", "hash", pb.Hash, "number", pb.Number, "delta", time.Since(pb.time))
 }
@@ -456,7 +458,5 @@ func (mp *MessageProcessor) resumptionCopy() map[string]int64 {
 // to start recording deltas once caught up, so the catchup process doesn't
 // taint the metrics
 func Ready() {
-  if deltaTimer != nil {
-    deltaTimer = metrics.NewMajorTimer("/streams/delta")
-  }
+  deltaOnce.Do(func() { deltaTimer.Store(metrics.NewMajorTimer("/streams/delta")) })
 }
-- 
2.43.0


From e11c83a4222a47a261ddbff637d81dfa93202896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 41/45] fix: create a consumer's waiter once, Waiter may be
 called concurrently

---
 transports/kafka.go      | 3 +++
 transports/resolver.go   | 4 ++++
 transports/websockets.go | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/transports/kafka.go b/transports/kafka.go
index 5b90cd5..dab3d28 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -484,6 +484,7 @@ type KafkaConsumer struct{
   startHash    types.Hash
   pt           pingTracker
   waiter       waiter.Waiter
+  waiterLock   sync.Mutex
 }
 
 func kafkaConsumerWithOMP(omp *delivery.OrderedMessageProcessor, brokerURL, defaultTopic string, topics []string, resumption []byte, rollback int64, lastHash types.Hash) (Consumer, error) {
@@ -787,6 +788,8 @@ func (kc *KafkaConsumer) WhyNotReady(hash types.Hash) string {
 }
 
 func (kc *KafkaConsumer) Waiter() waiter.Waiter {
+  kc.waiterLock.Lock()
+  defer kc.waiterLock.Unlock()
   if kc.waiter == nil {
     kc.waiter = waiter.NewOmpWaiter(kc.omp)
   }
diff --git a/transports/resolver.go b/transports/resolver.go
index 0312632..a76ebd7 100644
--- a/transports/resolver.go
+++ b/transports/resolver.go
@@ -7,6 +7,7 @@ import (
   "regexp"
   "time"
   "strings"
+  "sync"
   "reflect"
   "github.com/openrelayxyz/cardinal-types"
   "github.com/openrelayxyz/cardinal-streams/v2/delivery"
@@ -124,9 +125,12 @@ type muxConsumer struct {
   omp       *delivery.OrderedMessageProcessor
   consumers []Consumer
   waiter    waiter.Waiter
+  waiterLock sync.Mutex
 }
 
 func (mc *muxConsumer) Waiter() waiter.Waiter {
+  mc.waiterLock.Lock()
+  defer mc.waiterLock.Unlock()
   if mc.waiter == nil {
     for _, c := range mc.consumers {
       if w := c.Waiter(); w != (nullWaiter{}) {
diff --git a/transports/websockets.go b/transports/websockets.go
index bd8f502..0031c80 100644
--- a/transports/websockets.go
+++ b/transports/websockets.go
@@ -303,6 +303,7 @@ type websocketConsumer struct {
 	lastNum hexutil.Uint64
 	lastHash types.Hash
     waiter waiter.Waiter
+    waiterLock sync.Mutex
 }
 
 func newWebsocketConsumer(omp *delivery.OrderedMessageProcessor, url string, lastNum int64, lastHash types.Hash) (Consumer, error) {
@@ -519,6 +520,8 @@ func (c *websocketConsumer) WhyNotReady(types.Hash) string {
 }
 
 func (c *websocketConsumer) Waiter() waiter.Waiter {
+    c.waiterLock.Lock()
+    defer c.waiterLock.Unlock()
     if c.waiter == nil {
       c.waiter = waiter.NewOmpWaiter(c.omp)
     }
-- 
2.43.0


From bddf68243432cc7830f1864b91a11d3d786b159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:39 +0000
Subject: [PATCH 42/45] fix: a kept side block's other waiting children are
 finished too

Only the heaviest waiting child of a block that does not justify a reorg was
reconsidered. The others stayed unfinished, so blocks on top of them were
queued forever even once they outweighed the head.
---
 delivery/ordering.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 8a2f7c8..383cfe0 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -219,6 +219,7 @@ func (omp *OrderedMessageProcessor) HandlePendingBatch(pb *PendingBatch, reorg b
       // log.Debug("Weight does not justify reorg, but child is available", "child", child)
       // This block's child is already pending, process it instead
       if pb, ok := omp.pending[child]; ok {
+        omp.finishSiblings(pb) // Blocks descending from the other children may get heavier yet
         omp.HandlePendingBatch(pb, true)
       }
       omp.queue(pb)
-- 
2.43.0


From 012c5091e2da8d79cf148be7f0e21468364ae174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 43/45] fix: reorganise from the block the processor started at

The block given as LastHash is finished but not pending, so the search for the
common ancestor gave up on it: a consumer resuming right below a fork stayed on
the first branch it saw for good.
---
 delivery/ordering.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/delivery/ordering.go b/delivery/ordering.go
index 383cfe0..9da4f1d 100644
--- a/delivery/ordering.go
+++ b/delivery/ordering.go
@@ -370,9 +370,19 @@ func (omp *OrderedMessageProcessor) prepareReorg(newHead, oldHead *PendingBatch)
       return reverted, newBlocks, nil
     }
     reverted = append([]*PendingBatch{oldHead}, reverted...)
-    oldHead, _ = omp.pending[oldHead.ParentHash]
+    parentHash := oldHead.ParentHash
+    oldHead, _ = omp.pending[parentHash]
     if oldHead == nil {
-      return reverted, newBlocks, fmt.Errorf("Reached genesis without finding common ancestor")
+      // The block we started from isn't pending, but the branches can meet there
+      for newHead.ParentHash != parentHash {
+        newHead, _ = omp.pending[newHead.ParentHash]
+        if newHead == nil {
+          omp.queue(newBlocks[len(newBlocks) - 1]) // Its parent may yet arrive
+          return reverted, newBlocks, fmt.Errorf("Reached genesis without finding common ancestor")
+        }
+        newBlocks = append([]*PendingBatch{newHead}, newBlocks...)
+      }
+      return reverted, newBlocks, nil
     }
   }
 }
-- 
2.43.0


From 1b5623ec933a126ad77f522db014a42018a1debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:03 +0000
Subject: [PATCH 44/45] fix: reject values that end early or claim sizes they
 do not have

avro.Unmarshal takes io.EOF for success, so that an empty or truncated value
was applied as if it had been complete, and it makes whatever collections a
value claims to have (a huge size panics, a huge count never ends).
---
 delivery/consumer.go | 11 +++---
 delivery/types.go    | 82 +++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 86 insertions(+), 7 deletions(-)

diff --git a/delivery/consumer.go b/delivery/consumer.go
index ad69a82..5dac472 100644
--- a/delivery/consumer.go
+++ b/delivery/consumer.go
@@ -10,7 +10,6 @@ import (
   "github.com/openrelayxyz/cardinal-types"
   "github.com/openrelayxyz/cardinal-types/metrics"
   gmetrics "github.com/rcrowley/go-metrics"
-  "github.com/hamba/avro"
   log "github.com/inconshreveable/log15"
   "regexp"
   "fmt"
@@ -120,7 +119,7 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
     }
     batchid := types.BytesToHash(m.Key()[33:65])
     var idx int
-    if err := avro.Unmarshal(intSchema, m.Key()[65:], &idx); err != nil {
+    if err := unmarshal(intSchema, m.Key()[65:], &idx); err != nil {
       log.Error("Failed to unmarshal index at end of key", "key", m.Key())
       return true
     }
@@ -134,7 +133,7 @@ func (pb *PendingBatch) ApplyMessage(m ResumptionMessage) bool {
     }
     if pb.batches[batchid][idx] { return false } // Already have it, no updates
     update := &SubBatchRecord{}
-    if err := avro.Unmarshal(updateSchema, m.Value(), &update); err != nil {
+    if err := unmarshal(updateSchema, m.Value(), &update); err != nil {
       log.Error("Failed to unmarshal update record", "key", m.Key(), "value", m.Value())
       return false
     }
@@ -319,7 +318,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     }
     mp.oldBlocks = make(map[types.Hash]struct{})
     var num int
-    if err := avro.Unmarshal(intSchema, m.Value(), &num); err != nil { return err }
+    if err := unmarshal(intSchema, m.Value(), &num); err != nil { return err }
     mp.lastEmittedNum = int64(num)
     mp.reorgFeed.Send(map[int64]types.Hash{mp.lastEmittedNum: hash})
     return nil
@@ -331,7 +330,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
   switch MessageType(m.Key()[0]) {
   case BatchType:
     b := &Batch{}
-    if err := avro.Unmarshal(batchSchema, m.Value(), b); err != nil { return err }
+    if err := unmarshal(batchSchema, m.Value(), b); err != nil { return err }
     b.Hash = hash
     if _, ok := mp.pendingBatches[hash]; ok { return nil } // We already have this block. No need to check further.
     // if b.Number < (mp.lastEmittedNum - mp.reorgThreshold) {
@@ -402,7 +401,7 @@ func (mp *MessageProcessor) ProcessMessage(m ResumptionMessage) error {
     batchid := types.BytesToHash(m.Key()[33:])
     if _, ok := mp.pendingBatches[hash].pendingBatches[batchid]; !ok { return nil } // We've already gotten this batch
     var counter int
-    if err := avro.Unmarshal(intSchema, m.Value(), &counter); err != nil { return err }
+    if err := unmarshal(intSchema, m.Value(), &counter); err != nil { return err }
     if counter < 0 { return fmt.Errorf("negative subbatch count %v", counter) }
     delete(mp.pendingBatches[hash].pendingBatches, batchid)
     mp.pendingBatches[hash].batches[batchid] = make([]bool, counter)
diff --git a/delivery/types.go b/delivery/types.go
index ed11458..1442d53 100644
--- a/delivery/types.go
+++ b/delivery/types.go
@@ -1,6 +1,8 @@
 package delivery
 
 import (
+  "encoding/binary"
+  "errors"
   "math/big"
   "github.com/openrelayxyz/cardinal-types"
   "github.com/hamba/avro"
@@ -132,8 +134,86 @@ type ResumptionMessage interface{
   Time()   time.Time
 }
 
+var errMalformed = errors.New("malformed value")
+
+// unmarshal decodes data, which must hold a complete value. avro.Unmarshal
+// accepts values that end early, and believes any size it finds in them.
+func unmarshal(schema avro.Schema, data []byte, v interface{}) error {
+  if _, err := skipValue(schema, data); err != nil { return err }
+  return avro.Unmarshal(schema, data, v)
+}
+
+// skipValue returns what follows a value in data.
+func skipValue(schema avro.Schema, data []byte) ([]byte, error) {
+  var err error
+  switch s := schema.(type) {
+  case *avro.RecordSchema:
+    for _, field := range s.Fields() {
+      if data, err = skipValue(field.Type(), data); err != nil { return nil, err }
+    }
+    return data, nil
+  case *avro.MapSchema:
+    return skipBlocks(data, func(data []byte) ([]byte, error) {
+      // The key
+      if data, err = skipBytes(data); err != nil { return nil, err }
+      return skipValue(s.Values(), data)
+    })
+  case *avro.ArraySchema:
+    return skipBlocks(data, func(data []byte) ([]byte, error) {
+      return skipValue(s.Items(), data)
+    })
+  case *avro.FixedSchema:
+    if s.Size() > len(data) { return nil, errMalformed }
+    return data[s.Size():], nil
+  }
+  switch schema.Type() {
+  case avro.Boolean:
+    if len(data) < 1 { return nil, errMalformed }
+    return data[1:], nil
+  case avro.Int, avro.Long:
+    _, data, err = readLong(data)
+    return data, err
+  case avro.Bytes, avro.String:
+    return skipBytes(data)
+  }
+  return nil, errMalformed // None of our schemas have anything else
+}
+
+// skipBlocks returns what follows the blocks of items of an array or a map.
+func skipBlocks(data []byte, skipItem func([]byte) ([]byte, error)) ([]byte, error) {
+  for {
+    count, rest, err := readLong(data)
+    if err != nil { return nil, err }
+    if count == 0 { return rest, nil }
+    if count < 0 {
+      // The size of the block follows
+      count = -count
+      if _, rest, err = readLong(rest); err != nil { return nil, err }
+    }
+    // No item is shorter than a byte
+    if count < 0 || count > int64(len(rest)) { return nil, errMalformed }
+    for ; count > 0; count-- {
+      if rest, err = skipItem(rest); err != nil { return nil, err }
+    }
+    data = rest
+  }
+}
+
+func skipBytes(data []byte) ([]byte, error) {
+  size, data, err := readLong(data)
+  if err != nil { return nil, err }
+  if size < 0 || size > int64(len(data)) { return nil, errMalformed }
+  return data[size:], nil
+}
+
+func readLong(data []byte) (int64, []byte, error) {
+  v, n := binary.Varint(data)
+  if n <= 0 { return 0, nil, errMalformed }
+  return v, data[n:], nil
+}
+
 func UnmarshalBatch(data []byte) (*Batch, error) {
   b := &Batch{}
-  if err := avro.Unmarshal(batchSchema, data, b); err != nil { return nil, err }
+  if err := unmarshal(batchSchema, data, b); err != nil { return nil, err }
   return b, nil
 }
-- 
2.43.0


From f80a906c81bae8f09a910875ef6665b11fa67e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:41 +0000
Subject: [PATCH 45/45] fix: tell everyone who waits that a Kafka consumer is
 ready

---
 transports/kafka.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transports/kafka.go b/transports/kafka.go
index dab3d28..883c313 100644
--- a/transports/kafka.go
+++ b/transports/kafka.go
@@ -653,11 +653,11 @@ func (kc *KafkaConsumer) Start() error {
     reorgWg.Wait()
     log.Debug("Reorg waiter ready")
     // From here on Ready() does not hand out kc.ready, so those who got it
-    // before are told last
+    // before are told last, however many they are
     atomic.StoreInt32(&kc.isReady, 1)
     dl.Close()
     delivery.Ready()
-    kc.ready <- struct{}{}
+    close(kc.ready)
     log.Debug("Ready sent")
   }(&readyWg, &reorgWg)
   go func() {
-- 
2.43.0

