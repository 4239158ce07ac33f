From c4f82a145baca3541d2f1bd3df4a4dd46e633125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:19 +0000
Subject: [PATCH 01/38] fix: delete all messages and the configuration of a
 deleted queue

---
 pkg/queue/badger_priority_queue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index dfec73c..5705fe2 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -226,7 +226,9 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 		prefix := bpq.getMessagesPrefix()
 		for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
 			item := it.Item()
-			return txn.Delete(item.Key())
+			if err := txn.Delete(item.KeyCopy(nil)); err != nil {
+				return err
+			}
 		}
 
 		err := txn.Delete(bpq.GetQueueKey(bpq.config.Name))
-- 
2.43.0


From b20ddcd9fcba6065abdba54b7aad2af997079f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:19 +0000
Subject: [PATCH 02/38] fix: check the earliest acknowledgement deadline first

---
 pkg/queue/badger_priority_queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 5705fe2..2ac3db6 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -82,7 +82,7 @@ func NewBadgerPriorityQueue(db *badger.DB, cfg *config.Config, metrics *Promethe
 	bpq := &BadgerPriorityQueue{
 		db:                db,
 		cfg:               cfg,
-		ackQueue:          NewDelayedPriorityQueue(false),
+		ackQueue:          NewDelayedPriorityQueue(true),
 		PrometheusMetrics: metrics,
 		stats:             NewQueueStats(cfg.Queue.QueueStats.WindowSide),
 	}
-- 
2.43.0


From 5467e9eb6e33f5e4fad26e675e2eae3b8daec453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:20 +0000
Subject: [PATCH 03/38] fix: keep the acknowledgement deadline when the
 priority of an unacked message changes

---
 pkg/queue/badger_priority_queue.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 2ac3db6..8f79d9d 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -465,8 +465,6 @@ func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) err
 			return err
 		}
 
-		queueItem.UpdatePriority(newPriority)
-
 		return nil
 	})
 	if err != nil {
-- 
2.43.0


From 706973576ed7612c02d2da1388354d85e92ee66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:20 +0000
Subject: [PATCH 04/38] fix: do not mix up messages of queues whose names share
 a prefix

---
 pkg/queue/badger_priority_queue.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 8f79d9d..d1a4875 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -189,6 +189,12 @@ func (bpq *BadgerPriorityQueue) GetMessagesKey(id uint64) []byte {
 	return addPrefix(bpq.getMessagesPrefix(), uint64ToBytes(id))
 }
 
+// isMessageKey tells the messages of this queue from those of a queue whose name starts
+// with this queue's name and a colon.
+func (bpq *BadgerPriorityQueue) isMessageKey(key []byte) bool {
+	return len(key) == len(bpq.GetMessagesKey(0))
+}
+
 func (bpq *BadgerPriorityQueue) Create(queueType, queueName string) error {
 	bpq.mu.Lock()
 	defer bpq.mu.Unlock()
@@ -226,6 +232,9 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 		prefix := bpq.getMessagesPrefix()
 		for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
 			item := it.Item()
+			if !bpq.isMessageKey(item.Key()) {
+				continue
+			}
 			if err := txn.Delete(item.KeyCopy(nil)); err != nil {
 				return err
 			}
@@ -281,6 +290,9 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 			prefix := bpq.getMessagesPrefix()
 			for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
 				item := it.Item()
+				if !bpq.isMessageKey(item.Key()) {
+					continue
+				}
 				err := item.Value(func(val []byte) error {
 					msg, err := MessageFromBytes(val)
 					if err != nil {
-- 
2.43.0


From f88f9bed6b8077c103f4924fecf26b4a7959044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:20 +0000
Subject: [PATCH 05/38] fix: keep a queue loaded on first use in the queue
 manager

---
 pkg/queue/queue_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/queue/queue_manager.go b/pkg/queue/queue_manager.go
index 7af8bf9..47a53d2 100644
--- a/pkg/queue/queue_manager.go
+++ b/pkg/queue/queue_manager.go
@@ -114,6 +114,7 @@ func (qm *QueueManager) GetQueue(queueName string) (*BadgerPriorityQueue, error)
 		if err != nil {
 			return nil, ErrQueueNotFound
 		}
+		qm.queues[queueName] = q
 		return q, nil
 	}
 	return q, nil
-- 
2.43.0


From 3a84f8fa699a2fce4f6449360d68e66546a34534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:21 +0000
Subject: [PATCH 06/38] fix: change the in-memory queues only after the storage
 accepted a dequeue or ack

---
 pkg/queue/badger_priority_queue.go  | 35 +++++++++++++++++------------
 pkg/queue/delayed_priority_queue.go | 18 +++++++++++++++
 pkg/queue/fair_priority_queue.go    | 17 ++++++++++++++
 pkg/queue/queue.go                  |  2 ++
 4 files changed, 58 insertions(+), 14 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index d1a4875..849b666 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -363,7 +363,7 @@ func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
 		return nil, ErrEmptyQueue
 	}
 
-	queueItem := bpq.pq.Dequeue()
+	queueItem := bpq.pq.Peek()
 	if queueItem == nil {
 		return nil, ErrEmptyQueue
 	}
@@ -384,27 +384,33 @@ func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
 		if ack {
 			// in case of autoAck, we need to remove the message from the queue
 			return txn.Delete(bpq.GetMessagesKey(queueItem.ID))
-		} else {
-			// in case of manual ack, we need to keep the message in the queue
-			// so we can ack it later and add it to the ackQueue
-			bpq.ackQueue.Enqueue(
-				"default",
-				&Item{
-					ID: queueItem.ID,
-					Priority: time.Now().UTC().Add(
-						time.Duration(bpq.cfg.Queue.AcknowledgementTimeout) * time.Second,
-					).Unix(),
-				},
-			)
 		}
 
 		return nil
 	})
 
+	if err == badger.ErrKeyNotFound {
+		bpq.pq.Dequeue()
+	}
 	if err != nil {
 		return nil, err
 	}
 
+	bpq.pq.Dequeue()
+	if !ack {
+		// in case of manual ack, we need to keep the message in the queue
+		// so we can ack it later and add it to the ackQueue
+		bpq.ackQueue.Enqueue(
+			"default",
+			&Item{
+				ID: queueItem.ID,
+				Priority: time.Now().UTC().Add(
+					time.Duration(bpq.cfg.Queue.AcknowledgementTimeout) * time.Second,
+				).Unix(),
+			},
+		)
+	}
+
 	bpq.stats.IncrementDequeue()
 	if bpq.cfg.Prometheus.Enabled {
 		bpq.PrometheusMetrics.dequeueTotal.With(prometheus.Labels{"queue_name": bpq.config.Name}).Inc()
@@ -500,7 +506,6 @@ func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
 		if err != nil {
 			return err
 		}
-		bpq.ackQueue.DeleteByID("default", queueItem.ID)
 
 		return nil
 	})
@@ -508,6 +513,8 @@ func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
 		return err
 	}
 
+	bpq.ackQueue.DeleteByID("default", queueItem.ID)
+
 	bpq.stats.IncrementAck()
 	if bpq.cfg.Prometheus.Enabled {
 		bpq.PrometheusMetrics.ackTotal.With(prometheus.Labels{"queue_name": bpq.config.Name}).Inc()
diff --git a/pkg/queue/delayed_priority_queue.go b/pkg/queue/delayed_priority_queue.go
index 659be46..adde2e4 100644
--- a/pkg/queue/delayed_priority_queue.go
+++ b/pkg/queue/delayed_priority_queue.go
@@ -43,6 +43,24 @@ func (pq *DelayedPriorityQueue) Dequeue() *Item {
 	return heap.Pop(pq.queue).(*Item)
 }
 
+// Peek returns the item that Dequeue would return, without removing it
+func (pq *DelayedPriorityQueue) Peek() *Item {
+	pq.mu.RLock()
+	defer pq.mu.RUnlock()
+
+	if pq.queue.Len() == 0 {
+		return nil
+	}
+
+	queueItem := pq.queue.Peek().(*Item)
+
+	if int64(queueItem.Priority) > time.Now().UTC().Unix() {
+		return nil
+	}
+
+	return queueItem
+}
+
 func (pq *DelayedPriorityQueue) GetByID(group string, id uint64) *Item {
 	pq.mu.RLock()
 	defer pq.mu.RUnlock()
diff --git a/pkg/queue/fair_priority_queue.go b/pkg/queue/fair_priority_queue.go
index 3144fa0..8cda581 100644
--- a/pkg/queue/fair_priority_queue.go
+++ b/pkg/queue/fair_priority_queue.go
@@ -134,6 +134,23 @@ func (fq *FairPriorityQueue) Dequeue() *Item {
 	return item
 }
 
+// Peek returns the item that Dequeue would return, without removing it
+func (fq *FairPriorityQueue) Peek() *Item {
+	fq.mu.RLock()
+	defer fq.mu.RUnlock()
+
+	node := fq.currentNone
+	if node == nil {
+		node = fq.roundRobin.head
+	}
+
+	if node == nil || node.Queue().Len() == 0 {
+		return nil
+	}
+
+	return node.Queue().Peek().(*Item)
+}
+
 func (fq *FairPriorityQueue) GetByID(group string, id uint64) *Item {
 	fq.mu.RLock()
 	defer fq.mu.RUnlock()
diff --git a/pkg/queue/queue.go b/pkg/queue/queue.go
index 9eb1900..88abddb 100644
--- a/pkg/queue/queue.go
+++ b/pkg/queue/queue.go
@@ -3,6 +3,8 @@ package queue
 type Queue interface {
 	Enqueue(group string, item *Item)
 	Dequeue() *Item
+	// Peek returns the item that Dequeue would return, without removing it
+	Peek() *Item
 	GetByID(group string, id uint64) *Item
 	DeleteByID(group string, id uint64) *Item
 	UpdatePriority(group string, id uint64, priority int64)
-- 
2.43.0


From 4a47a7a029fef56d40885fb01d9a6987c2e83441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:21 +0000
Subject: [PATCH 07/38] fix: serialise queue commands, status reads and
 time-out redelivery

---
 pkg/queue/badger_priority_queue.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 849b666..26f877e 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -107,6 +107,9 @@ func (bpq *BadgerPriorityQueue) Init(queueType, queueName string) error {
 }
 
 func (bpq *BadgerPriorityQueue) GetStats() *QueueInfo {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	return &QueueInfo{
 		Name:    bpq.config.Name,
 		Type:    bpq.config.Type,
@@ -142,6 +145,7 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 	for {
 		select {
 		case <-ticker.C:
+			bpq.mu.Lock()
 			for {
 				item := bpq.ackQueue.Dequeue()
 				if item == nil {
@@ -162,6 +166,7 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 				bpq.pq.Enqueue(message.Group, queueItem)
 				log.Debug().Msgf("Re-enqueued message: %d", message.ID)
 			}
+			bpq.mu.Unlock()
 		case <-bpq.ackQueueMonitoringChan:
 			return
 		}
@@ -318,6 +323,9 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 }
 
 func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64, content string) (*Message, error) {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	if bpq.config.Type != "fair" {
 		group = "default"
 	}
@@ -359,6 +367,9 @@ func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64,
 }
 
 func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	if bpq.pq.Len() == 0 {
 		return nil, ErrEmptyQueue
 	}
@@ -442,6 +453,9 @@ func (bpq *BadgerPriorityQueue) GetByID(id uint64) (*Message, error) {
 }
 
 func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	group := "default"
 
 	// Update BadgerDB
@@ -495,6 +509,9 @@ func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) err
 }
 
 func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	queueItem := bpq.ackQueue.GetByID("default", id)
 
 	if queueItem == nil {
@@ -525,6 +542,9 @@ func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
 }
 
 func (bpq *BadgerPriorityQueue) Nack(id uint64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	item := bpq.ackQueue.GetByID("default", id)
 
 	if item == nil {
-- 
2.43.0


From da8c53a3bc0e541fa2c9964f06d0c759ce9f6aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:21 +0000
Subject: [PATCH 08/38] fix: do not read the rate window while it is being
 shifted

---
 pkg/queue/queue_stats.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/queue/queue_stats.go b/pkg/queue/queue_stats.go
index fa32e8b..49e67d3 100644
--- a/pkg/queue/queue_stats.go
+++ b/pkg/queue/queue_stats.go
@@ -1,6 +1,7 @@
 package queue
 
 import (
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -25,6 +26,8 @@ type queueStats struct {
 	windowSize     int
 
 	quit chan struct{}
+
+	mu sync.Mutex
 }
 
 func NewQueueStats(windowSize int) *queueStats {
@@ -75,6 +78,9 @@ func (rc *queueStats) IncrementNack() {
 }
 
 func (rc *queueStats) UpdateWindow() {
+	rc.mu.Lock()
+	defer rc.mu.Unlock()
+
 	// Shift history to the left and store current counts
 	for i := 1; i < rc.windowSize; i++ {
 		rc.enqueueHistory[i-1] = rc.enqueueHistory[i]
@@ -89,6 +95,8 @@ func (rc *queueStats) UpdateWindow() {
 }
 
 func (rc *queueStats) GetRPS() *QueueStats {
+	rc.mu.Lock()
+	defer rc.mu.Unlock()
 
 	var totalEnqueue, totalDequeue, totalAck, totalNack uint64
 
-- 
2.43.0


From 704e11441378c752bef0bf031ca26aed7bc61949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:22 +0000
Subject: [PATCH 09/38] fix: stop the time-out ticker of a deleted queue

---
 pkg/queue/badger_priority_queue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 26f877e..c605b02 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -141,6 +141,7 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 	ticker := time.NewTicker(
 		time.Duration(bpq.cfg.Queue.AcknowledgementCheckInterval) * time.Second,
 	)
+	defer ticker.Stop()
 
 	for {
 		select {
-- 
2.43.0


From 397da0b56b6887010b71fbd1ea40849fba03df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:22 +0000
Subject: [PATCH 10/38] fix: let a new group of a fair queue wait for a full
 round

---
 pkg/queue/fair_priority_queue.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/fair_priority_queue.go b/pkg/queue/fair_priority_queue.go
index 8cda581..9908f5b 100644
--- a/pkg/queue/fair_priority_queue.go
+++ b/pkg/queue/fair_priority_queue.go
@@ -43,6 +43,20 @@ func (l *LinkedList) Append(node *LinkedListNode) {
 	l.total++
 }
 
+// InsertBefore adds the node in front of another node of the list
+func (l *LinkedList) InsertBefore(node, next *LinkedListNode) {
+	node.prev = next.prev
+	node.next = next
+	if next.prev != nil {
+		next.prev.next = node
+	} else {
+		l.head = node
+	}
+	next.prev = node
+
+	l.total++
+}
+
 func (l *LinkedList) Remove(node *LinkedListNode) {
 	if node.prev != nil {
 		node.prev.next = node.next
@@ -92,7 +106,12 @@ func (fq *FairPriorityQueue) Enqueue(group string, item *Item) {
 		// Add group to round robin if not exists
 		node := NewLinkedListNode(group, NewPriorityQueue(true))
 		fq.queues[group] = node
-		fq.roundRobin.Append(node)
+		if fq.currentNone != nil {
+			// The group takes its turn after all groups that are already waiting
+			fq.roundRobin.InsertBefore(node, fq.currentNone)
+		} else {
+			fq.roundRobin.Append(node)
+		}
 	}
 	heap.Push(fq.queues[group].Queue(), item)
 	fq.totalMessages++
-- 
2.43.0


From 1b5c3f110057dfe1bc4eada86822a9bfb80e97fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:22 +0000
Subject: [PATCH 11/38] fix: keep the fair queue's count and groups right when
 a message is removed

---
 pkg/queue/fair_priority_queue.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/fair_priority_queue.go b/pkg/queue/fair_priority_queue.go
index 9908f5b..7f18666 100644
--- a/pkg/queue/fair_priority_queue.go
+++ b/pkg/queue/fair_priority_queue.go
@@ -189,9 +189,22 @@ func (fq *FairPriorityQueue) DeleteByID(group string, id uint64) *Item {
 		return nil
 	}
 
-	item := fq.queues[group].Queue().DeleteByID(id)
+	node := fq.queues[group]
+	item := node.Queue().DeleteByID(id)
+	if item == nil {
+		return nil
+	}
 	fq.totalMessages--
 
+	// An empty group must not stay in the round-robin list
+	if node.Queue().Len() == 0 {
+		if fq.currentNone == node {
+			fq.currentNone = node.next
+		}
+		fq.roundRobin.Remove(node)
+		delete(fq.queues, group)
+	}
+
 	return item
 }
 
-- 
2.43.0


From 61e99aca15cf78ffe4b06f2c4df7ddb574d1a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:37 +0000
Subject: [PATCH 12/38] fix: update the queue gauges when time-outs return
 messages

---
 pkg/queue/badger_priority_queue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index c605b02..312666c 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -167,6 +167,7 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 				bpq.pq.Enqueue(message.Group, queueItem)
 				log.Debug().Msgf("Re-enqueued message: %d", message.ID)
 			}
+			bpq.updatePrometheusQueueSizes()
 			bpq.mu.Unlock()
 		case <-bpq.ackQueueMonitoringChan:
 			return
-- 
2.43.0


From 32282b86d6dec118c89463ec2606d30d055e02bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:37 +0000
Subject: [PATCH 13/38] fix: clear the gauges of a deleted queue

---
 pkg/queue/badger_priority_queue.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 312666c..7e63c16 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -262,6 +262,9 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 
 	bpq.stats.Stop()
 
+	// A deleted queue has no messages
+	bpq.pq = NewDelayedPriorityQueue(true)
+	bpq.ackQueue = NewDelayedPriorityQueue(true)
 	bpq.updatePrometheusQueueSizes()
 
 	return nil
-- 
2.43.0


From c3356aa82766c12f476bf5a9a83c01637e2d3cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:37 +0000
Subject: [PATCH 14/38] fix: do not reuse the iterator key when deleting a
 range of logs

---
 pkg/badger-store/badger_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index 1f867a6..dc316ae 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -231,7 +231,7 @@ func (b *BadgerStore) DeleteRange(min, max uint64) error {
 				break
 			}
 
-			if err := txn.Delete(k); err != nil {
+			if err := txn.Delete(item.KeyCopy(nil)); err != nil {
 				it.Close()
 				txn.Discard()
 				return err
-- 
2.43.0


From 765312dc94c60b2697a82a8b34d42a3a5ac73bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:38 +0000
Subject: [PATCH 15/38] fix: do not keep memory of the HTTP request as a queue
 name

---
 pkg/queue/queue_manager.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/queue_manager.go b/pkg/queue/queue_manager.go
index 47a53d2..75d2a89 100644
--- a/pkg/queue/queue_manager.go
+++ b/pkg/queue/queue_manager.go
@@ -3,6 +3,7 @@ package queue
 import (
 	"fmt"
 	"sort"
+	"strings"
 	"sync"
 	"time"
 
@@ -114,7 +115,8 @@ func (qm *QueueManager) GetQueue(queueName string) (*BadgerPriorityQueue, error)
 		if err != nil {
 			return nil, ErrQueueNotFound
 		}
-		qm.queues[queueName] = q
+		// The name may live in a buffer of the HTTP server
+		qm.queues[strings.Clone(queueName)] = q
 		return q, nil
 	}
 	return q, nil
-- 
2.43.0


From fb2ca862e5f0ae0686189c8373fa2bead3dca1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:39 +0000
Subject: [PATCH 16/38] fix: do not take a peer whose name starts with the host
 name for this node

---
 pkg/cluster/cluster.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/cluster/cluster.go b/pkg/cluster/cluster.go
index 75561c9..09d7a5e 100644
--- a/pkg/cluster/cluster.go
+++ b/pkg/cluster/cluster.go
@@ -64,7 +64,7 @@ func (c *Cluster) Init() error {
 	for _, addr := range addrs {
 		log.Debug().Msgf("Discovered address: %s Current host: %s", addr, c.hostname)
 
-		if strings.HasPrefix(addr, c.hostname) {
+		if strings.HasPrefix(addr, c.hostname+".") || strings.HasPrefix(addr, c.hostname+":") {
 			c.nodeID = addr
 		} else {
 			c.hosts = append(c.hosts, addr)
-- 
2.43.0


From 6656cf8ba5df54f00430d22dd39426a1f243db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:39 +0000
Subject: [PATCH 17/38] fix: report when the own address or the kubernetes
 client is missing

---
 pkg/cluster/cluster.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/cluster.go b/pkg/cluster/cluster.go
index 09d7a5e..db971b0 100644
--- a/pkg/cluster/cluster.go
+++ b/pkg/cluster/cluster.go
@@ -74,10 +74,14 @@ func (c *Cluster) Init() error {
 	host, _, err := net.SplitHostPort(c.nodeID)
 	if err != nil {
 		log.Warn().Msgf("Error splitting host and port: %s %v\n", c.nodeID, err)
+		return err
 	}
 	c.raftAddr = fmt.Sprintf("%s:12000", host)
 
-	c.InitKubeClient()
+	if err := c.InitKubeClient(); err != nil {
+		log.Warn().Msgf("Error initialising kubernetes client: %s", err)
+		return err
+	}
 
 	log.Debug().Msgf(
 		"Current node is %s discovered hosts %+v raftAddr %s",
-- 
2.43.0


From 9294e7633fbdff06655cabbb3022d025b5354088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:40 +0000
Subject: [PATCH 18/38] fix: do not publish an endpoint without an address

---
 pkg/cluster/cluster.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/cluster/cluster.go b/pkg/cluster/cluster.go
index db971b0..4347e83 100644
--- a/pkg/cluster/cluster.go
+++ b/pkg/cluster/cluster.go
@@ -124,6 +124,7 @@ func (c *Cluster) LeaderChanged(isLeader bool) {
 		ip, err := c.serviceDiscovery.IP()
 		if err != nil {
 			log.Error().Msgf("Couldn't lookup the IP: %v\n", err)
+			return
 		}
 		c.ip = ip
 
-- 
2.43.0


From 44ccc43e0ecabbb438cec5fc07f7939e3bac6b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:41 +0000
Subject: [PATCH 19/38] fix: read the configuration file named on the command
 line

---
 pkg/config/config.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 34361b6..2706e3e 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -97,6 +97,14 @@ type Config struct {
 func LoadConfig() (*Config, error) {
 	var config Config
 
+	if cfgFile != "" {
+		// Use config file from the flag
+		viper.SetConfigFile(cfgFile)
+		if err := viper.ReadInConfig(); err != nil {
+			return nil, fmt.Errorf("unable to read config file, %v", err)
+		}
+	}
+
 	// Unmarshal the config into the struct
 	if err := viper.Unmarshal(&config); err != nil {
 		return nil, fmt.Errorf("unable to decode into struct, %v", err)
@@ -106,14 +114,9 @@ func LoadConfig() (*Config, error) {
 }
 
 func InitCobraCommand(runFunc func(cmd *cobra.Command, args []string)) *cobra.Command {
-	if cfgFile != "" {
-		// Use config file from the flag
-		viper.SetConfigFile(cfgFile)
-	} else {
-		// Default config file
-		viper.AddConfigPath(".")
-		viper.SetConfigName("config")
-	}
+	// Default config file, the one from the flag is read after the flags are parsed
+	viper.AddConfigPath(".")
+	viper.SetConfigName("config")
 
 	// Enable environment variable support
 	viper.AutomaticEnv()
-- 
2.43.0


From f8ae511145cf4a88bddc4446b4b1fa764da90974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:41 +0000
Subject: [PATCH 20/38] fix: forward gRPC requests safely when the leader
 changes or is unknown

---
 pkg/grpc/proxy.go | 70 +++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 24 deletions(-)

diff --git a/pkg/grpc/proxy.go b/pkg/grpc/proxy.go
index 24d9172..4440335 100644
--- a/pkg/grpc/proxy.go
+++ b/pkg/grpc/proxy.go
@@ -3,6 +3,7 @@ package grpc
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	pb "github.com/kgantsov/doq/pkg/proto"
 	"github.com/rs/zerolog/log"
@@ -10,6 +11,7 @@ import (
 )
 
 type GRPCProxy struct {
+	mu     sync.Mutex
 	client pb.DOQClient
 	leader string
 	port   int
@@ -22,8 +24,18 @@ func NewGRPCProxy(client pb.DOQClient, port int) *GRPCProxy {
 	}
 }
 
-func (p *GRPCProxy) initClient(leader string) {
-	p.leader = leader
+// getClient returns a client of the leader
+func (p *GRPCProxy) getClient(leader string) (pb.DOQClient, error) {
+	if leader == "" {
+		return nil, fmt.Errorf("leader is unknown")
+	}
+
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.client != nil && p.leader == leader {
+		return p.client, nil
+	}
 
 	host := leader
 
@@ -33,72 +45,82 @@ func (p *GRPCProxy) initClient(leader string) {
 
 	conn, err := grpc.Dial(host, grpc.WithInsecure())
 	if err != nil {
-		log.Fatal().Msgf("Failed to connect: %v", err)
+		return nil, fmt.Errorf("failed to connect: %v", err)
 	}
 	// defer conn.Close()
 
 	p.client = pb.NewDOQClient(conn)
+	p.leader = leader
+
+	return p.client, nil
 }
 
 func (p *GRPCProxy) CreateQueue(ctx context.Context, host string, req *pb.CreateQueueRequest) (*pb.CreateQueueResponse, error) {
 	log.Debug().Msgf("PROXY CreateQueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.CreateQueue(ctx, req)
+	return client.CreateQueue(ctx, req)
 }
 
 func (p *GRPCProxy) DeleteQueue(ctx context.Context, host string, req *pb.DeleteQueueRequest) (*pb.DeleteQueueResponse, error) {
 	log.Debug().Msgf("PROXY DeleteQueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.DeleteQueue(ctx, req)
+	return client.DeleteQueue(ctx, req)
 }
 
 func (p *GRPCProxy) Enqueue(ctx context.Context, host string, req *pb.EnqueueRequest) (*pb.EnqueueResponse, error) {
 	log.Debug().Msgf("PROXY Enqueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Enqueue(ctx, req)
+	return client.Enqueue(ctx, req)
 }
 
 func (p *GRPCProxy) Dequeue(ctx context.Context, host string, req *pb.DequeueRequest) (*pb.DequeueResponse, error) {
 	log.Debug().Msgf("PROXY Dequeue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Dequeue(ctx, req)
+	return client.Dequeue(ctx, req)
 }
 
 func (p *GRPCProxy) Ack(ctx context.Context, host string, req *pb.AckRequest) (*pb.AckResponse, error) {
 	log.Debug().Msgf("PROXY Ack: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Ack(ctx, req)
+	return client.Ack(ctx, req)
 }
 
 func (p *GRPCProxy) Nack(ctx context.Context, host string, req *pb.NackRequest) (*pb.NackResponse, error) {
 	log.Debug().Msgf("PROXY Nack: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Nack(ctx, req)
+	return client.Nack(ctx, req)
 }
 
 func (p *GRPCProxy) UpdatePriority(ctx context.Context, host string, req *pb.UpdatePriorityRequest) (*pb.UpdatePriorityResponse, error) {
 	log.Debug().Msgf("PROXY UpdatePriority: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.UpdatePriority(ctx, req)
+	return client.UpdatePriority(ctx, req)
 }
-- 
2.43.0


From 94912ef0e61adb99b7e6c058307ccfa42a4f2b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:42 +0000
Subject: [PATCH 21/38] fix: do not forward HTTP requests when no leader is
 known

---
 pkg/http/proxy.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pkg/http/proxy.go b/pkg/http/proxy.go
index d1053b5..5cde9f4 100644
--- a/pkg/http/proxy.go
+++ b/pkg/http/proxy.go
@@ -34,6 +34,9 @@ func (p *Proxy) getHost(host string) string {
 func (p *Proxy) CreateQueue(
 	ctx context.Context, host string, body *CreateQueueInputBody,
 ) (*CreateQueueOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, huma.Error503ServiceUnavailable("Leader is unknown", nil)
+	}
 
 	bodyB, err := json.Marshal(body)
 	if err != nil {
@@ -74,6 +77,10 @@ func (p *Proxy) CreateQueue(
 func (p *Proxy) DeleteQueue(
 	ctx context.Context, host string, queueName string,
 ) (*DeleteQueueOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, huma.Error503ServiceUnavailable("Leader is unknown", nil)
+	}
+
 	req, err := http.NewRequest(
 		"DELETE",
 		fmt.Sprintf("%s/API/v1/queues/%s", p.getHost(host), queueName),
@@ -104,6 +111,10 @@ func (p *Proxy) DeleteQueue(
 }
 
 func (p *Proxy) Enqueue(ctx context.Context, host string, queueName string, body *EnqueueInputBody) (*EnqueueOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, huma.Error503ServiceUnavailable("Leader is unknown", nil)
+	}
+
 	bodyB, err := json.Marshal(body)
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to marshal body", err)
@@ -143,6 +154,10 @@ func (p *Proxy) Enqueue(ctx context.Context, host string, queueName string, body
 func (p *Proxy) Dequeue(
 	ctx context.Context, host string, queueName string, ack bool,
 ) (*DequeueOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, huma.Error503ServiceUnavailable("Leader is unknown", nil)
+	}
+
 	req, err := http.NewRequest(
 		"GET",
 		fmt.Sprintf(
@@ -183,6 +198,10 @@ func (p *Proxy) Ack(
 	queueName string,
 	id uint64,
 ) (*AckOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, huma.Error503ServiceUnavailable("Leader is unknown", nil)
+	}
+
 	req, err := http.NewRequest(
 		"POST",
 		fmt.Sprintf(
@@ -221,6 +240,10 @@ func (p *Proxy) Nack(
 	queueName string,
 	id uint64,
 ) (*NackOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, huma.Error503ServiceUnavailable("Leader is unknown", nil)
+	}
+
 	req, err := http.NewRequest(
 		"POST",
 		fmt.Sprintf(
@@ -260,6 +283,10 @@ func (p *Proxy) UpdatePriority(
 	id uint64,
 	body *UpdatePriorityInputBody,
 ) (*UpdatePriorityOutputBody, huma.StatusError) {
+	if host == "" {
+		return nil, huma.Error503ServiceUnavailable("Leader is unknown", nil)
+	}
+
 	bodyB, err := json.Marshal(body)
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to marshal body", err)
-- 
2.43.0


From c2b2c08c10a3739bc3887c3108765bc09aeeedbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:20 +0000
Subject: [PATCH 22/38] fix: decode queue names in HTTP paths and encode them
 when forwarding

---
 pkg/http/messages.go | 32 ++++++++++++++++++++++++--------
 pkg/http/proxy.go    | 13 +++++++------
 pkg/http/queues.go   | 13 ++++++++++---
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/pkg/http/messages.go b/pkg/http/messages.go
index 3513439..84d1ff5 100644
--- a/pkg/http/messages.go
+++ b/pkg/http/messages.go
@@ -3,6 +3,7 @@ package http
 import (
 	"context"
 	"net/http"
+	"net/url"
 	"strconv"
 
 	"github.com/danielgtaylor/huma/v2"
@@ -19,7 +20,10 @@ type (
 )
 
 func (h *Handler) Enqueue(ctx context.Context, input *EnqueueInput) (*EnqueueOutput, error) {
-	queueName := input.QueueName
+	queueName, err := url.PathUnescape(input.QueueName)
+	if err != nil {
+		return nil, huma.Error400BadRequest("Failed to decode the name of a queue", err)
+	}
 	group := input.Body.Group
 	priority := input.Body.Priority
 	content := input.Body.Content
@@ -58,7 +62,10 @@ func (h *Handler) Enqueue(ctx context.Context, input *EnqueueInput) (*EnqueueOut
 }
 
 func (h *Handler) Dequeue(ctx context.Context, input *DequeueInput) (*DequeueOutput, error) {
-	queueName := input.QueueName
+	queueName, err := url.PathUnescape(input.QueueName)
+	if err != nil {
+		return nil, huma.Error400BadRequest("Failed to decode the name of a queue", err)
+	}
 
 	if !h.node.IsLeader() {
 		respBody, err := h.proxy.Dequeue(ctx, h.node.Leader(), queueName, input.Ack)
@@ -92,7 +99,10 @@ func (h *Handler) Dequeue(ctx context.Context, input *DequeueInput) (*DequeueOut
 }
 
 func (h *Handler) Ack(ctx context.Context, input *AckInput) (*AckOutput, error) {
-	queueName := input.QueueName
+	queueName, err := url.PathUnescape(input.QueueName)
+	if err != nil {
+		return nil, huma.Error400BadRequest("Failed to decode the name of a queue", err)
+	}
 
 	if !h.node.IsLeader() {
 		respBody, err := h.proxy.Ack(ctx, h.node.Leader(), queueName, input.ID)
@@ -106,7 +116,7 @@ func (h *Handler) Ack(ctx context.Context, input *AckInput) (*AckOutput, error)
 		return res, nil
 	}
 
-	err := h.node.Ack(queueName, input.ID)
+	err = h.node.Ack(queueName, input.ID)
 
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to ack a message from a queue", err)
@@ -124,7 +134,10 @@ func (h *Handler) Ack(ctx context.Context, input *AckInput) (*AckOutput, error)
 }
 
 func (h *Handler) Nack(ctx context.Context, input *NackInput) (*NackOutput, error) {
-	queueName := input.QueueName
+	queueName, err := url.PathUnescape(input.QueueName)
+	if err != nil {
+		return nil, huma.Error400BadRequest("Failed to decode the name of a queue", err)
+	}
 
 	if !h.node.IsLeader() {
 		respBody, err := h.proxy.Nack(ctx, h.node.Leader(), queueName, input.ID)
@@ -138,7 +151,7 @@ func (h *Handler) Nack(ctx context.Context, input *NackInput) (*NackOutput, erro
 		return res, nil
 	}
 
-	err := h.node.Nack(queueName, input.ID)
+	err = h.node.Nack(queueName, input.ID)
 
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to nack a message from a queue", err)
@@ -156,7 +169,10 @@ func (h *Handler) Nack(ctx context.Context, input *NackInput) (*NackOutput, erro
 }
 
 func (h *Handler) UpdatePriority(ctx context.Context, input *UpdatePriorityInput) (*UpdatePriorityOutput, error) {
-	queueName := input.QueueName
+	queueName, err := url.PathUnescape(input.QueueName)
+	if err != nil {
+		return nil, huma.Error400BadRequest("Failed to decode the name of a queue", err)
+	}
 	priority := input.Body.Priority
 
 	if !h.node.IsLeader() {
@@ -174,7 +190,7 @@ func (h *Handler) UpdatePriority(ctx context.Context, input *UpdatePriorityInput
 		return res, nil
 	}
 
-	err := h.node.UpdatePriority(queueName, input.ID, priority)
+	err = h.node.UpdatePriority(queueName, input.ID, priority)
 
 	if err != nil {
 		return nil, huma.Error409Conflict("Failed to update priority a message", err)
diff --git a/pkg/http/proxy.go b/pkg/http/proxy.go
index 5cde9f4..2ed082e 100644
--- a/pkg/http/proxy.go
+++ b/pkg/http/proxy.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/http"
+	"net/url"
 
 	"github.com/danielgtaylor/huma/v2"
 	"github.com/rs/zerolog/log"
@@ -83,7 +84,7 @@ func (p *Proxy) DeleteQueue(
 
 	req, err := http.NewRequest(
 		"DELETE",
-		fmt.Sprintf("%s/API/v1/queues/%s", p.getHost(host), queueName),
+		fmt.Sprintf("%s/API/v1/queues/%s", p.getHost(host), url.PathEscape(queueName)),
 		nil,
 	)
 	if err != nil {
@@ -122,7 +123,7 @@ func (p *Proxy) Enqueue(ctx context.Context, host string, queueName string, body
 
 	req, err := http.NewRequest(
 		"POST",
-		fmt.Sprintf("%s/API/v1/queues/%s/messages", p.getHost(host), queueName),
+		fmt.Sprintf("%s/API/v1/queues/%s/messages", p.getHost(host), url.PathEscape(queueName)),
 		bytes.NewBuffer(bodyB),
 	)
 	if err != nil {
@@ -163,7 +164,7 @@ func (p *Proxy) Dequeue(
 		fmt.Sprintf(
 			"%s/API/v1/queues/%s/messages?ack=%s",
 			p.getHost(host),
-			queueName,
+			url.PathEscape(queueName),
 			fmt.Sprint(ack),
 		),
 		nil,
@@ -205,7 +206,7 @@ func (p *Proxy) Ack(
 	req, err := http.NewRequest(
 		"POST",
 		fmt.Sprintf(
-			"%s/API/v1/queues/%s/messages/%d/ack", p.getHost(host), queueName, id,
+			"%s/API/v1/queues/%s/messages/%d/ack", p.getHost(host), url.PathEscape(queueName), id,
 		),
 		nil,
 	)
@@ -247,7 +248,7 @@ func (p *Proxy) Nack(
 	req, err := http.NewRequest(
 		"POST",
 		fmt.Sprintf(
-			"%s/API/v1/queues/%s/messages/%d/nack", p.getHost(host), queueName, id,
+			"%s/API/v1/queues/%s/messages/%d/nack", p.getHost(host), url.PathEscape(queueName), id,
 		),
 		nil,
 	)
@@ -297,7 +298,7 @@ func (p *Proxy) UpdatePriority(
 		fmt.Sprintf(
 			"%s/API/v1/queues/%s/messages/%d/priority",
 			p.getHost(host),
-			queueName,
+			url.PathEscape(queueName),
 			id,
 		),
 		bytes.NewBuffer(bodyB),
diff --git a/pkg/http/queues.go b/pkg/http/queues.go
index ba9822b..1e26ae9 100644
--- a/pkg/http/queues.go
+++ b/pkg/http/queues.go
@@ -3,6 +3,7 @@ package http
 import (
 	"context"
 	"net/http"
+	"net/url"
 
 	"github.com/danielgtaylor/huma/v2"
 )
@@ -43,7 +44,10 @@ func (h *Handler) CreateQueue(ctx context.Context, input *CreateQueueInput) (*Cr
 }
 
 func (h *Handler) DeleteQueue(ctx context.Context, input *DeleteQueueInput) (*DeleteQueueOutput, error) {
-	queueName := input.QueueName
+	queueName, err := url.PathUnescape(input.QueueName)
+	if err != nil {
+		return nil, huma.Error400BadRequest("Failed to decode the name of a queue", err)
+	}
 
 	if !h.node.IsLeader() {
 		respBody, err := h.proxy.DeleteQueue(ctx, h.node.Leader(), queueName)
@@ -57,7 +61,7 @@ func (h *Handler) DeleteQueue(ctx context.Context, input *DeleteQueueInput) (*De
 		return res, nil
 	}
 
-	err := h.node.DeleteQueue(queueName)
+	err = h.node.DeleteQueue(queueName)
 
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to dequeue a message from a queue", err)
@@ -102,7 +106,10 @@ func (h *Handler) Queues(ctx context.Context, input *QueuesInput) (*QueuesOutput
 }
 
 func (h *Handler) QueueInfo(ctx context.Context, input *QueueInfoInput) (*QueueInfoOutput, error) {
-	queueName := input.QueueName
+	queueName, err := url.PathUnescape(input.QueueName)
+	if err != nil {
+		return nil, huma.Error400BadRequest("Failed to decode the name of a queue", err)
+	}
 
 	queueInfo, err := h.node.GetQueueInfo(queueName)
 
-- 
2.43.0


From 0947eef6c67e4ba42f6d4e746a82d6b427f496d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:21 +0000
Subject: [PATCH 23/38] fix: report message ids above the signed range
 unchanged in HTTP answers

---
 pkg/http/messages.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/http/messages.go b/pkg/http/messages.go
index 84d1ff5..d6979c6 100644
--- a/pkg/http/messages.go
+++ b/pkg/http/messages.go
@@ -52,7 +52,7 @@ func (h *Handler) Enqueue(ctx context.Context, input *EnqueueInput) (*EnqueueOut
 		Status: http.StatusOK,
 		Body: EnqueueOutputBody{
 			Status:   "ENQUEUED",
-			ID:       strconv.Itoa(int(msg.ID)),
+			ID:       strconv.FormatUint(msg.ID, 10),
 			Group:    group,
 			Priority: priority,
 			Content:  content,
@@ -89,7 +89,7 @@ func (h *Handler) Dequeue(ctx context.Context, input *DequeueInput) (*DequeueOut
 		Status: http.StatusOK,
 		Body: DequeueOutputBody{
 			Status:   "DEQUEUED",
-			ID:       strconv.Itoa(int(msg.ID)),
+			ID:       strconv.FormatUint(msg.ID, 10),
 			Group:    msg.Group,
 			Priority: msg.Priority,
 			Content:  msg.Content,
@@ -126,7 +126,7 @@ func (h *Handler) Ack(ctx context.Context, input *AckInput) (*AckOutput, error)
 		Status: http.StatusOK,
 		Body: AckOutputBody{
 			Status: "ACKNOWLEDGED",
-			ID:     strconv.Itoa(int(input.ID)),
+			ID:     strconv.FormatUint(input.ID, 10),
 		},
 	}
 
@@ -161,7 +161,7 @@ func (h *Handler) Nack(ctx context.Context, input *NackInput) (*NackOutput, erro
 		Status: http.StatusOK,
 		Body: NackOutputBody{
 			Status: "UNACKNOWLEDGED",
-			ID:     strconv.Itoa(int(input.ID)),
+			ID:     strconv.FormatUint(input.ID, 10),
 		},
 	}
 
@@ -200,7 +200,7 @@ func (h *Handler) UpdatePriority(ctx context.Context, input *UpdatePriorityInput
 		Status: http.StatusOK,
 		Body: UpdatePriorityOutputBody{
 			Status:   "UPDATED",
-			ID:       strconv.Itoa(int(input.ID)),
+			ID:       strconv.FormatUint(input.ID, 10),
 			Priority: priority,
 		},
 	}
-- 
2.43.0


From a943a480f329b481c65aea1a0f016044b9466b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:21 +0000
Subject: [PATCH 24/38] fix: answer an enqueue with the group the queue stored

---
 pkg/http/messages.go | 6 +++---
 pkg/raft/commands.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/http/messages.go b/pkg/http/messages.go
index d6979c6..41bbdcf 100644
--- a/pkg/http/messages.go
+++ b/pkg/http/messages.go
@@ -53,9 +53,9 @@ func (h *Handler) Enqueue(ctx context.Context, input *EnqueueInput) (*EnqueueOut
 		Body: EnqueueOutputBody{
 			Status:   "ENQUEUED",
 			ID:       strconv.FormatUint(msg.ID, 10),
-			Group:    group,
-			Priority: priority,
-			Content:  content,
+			Group:    msg.Group,
+			Priority: msg.Priority,
+			Content:  msg.Content,
 		},
 	}
 	return res, nil
diff --git a/pkg/raft/commands.go b/pkg/raft/commands.go
index 28b65ec..b85097f 100644
--- a/pkg/raft/commands.go
+++ b/pkg/raft/commands.go
@@ -37,7 +37,7 @@ func (n *Node) Enqueue(
 
 	return &queue.Message{
 		ID:       r.ID,
-		Group:    group,
+		Group:    r.Group,
 		Priority: r.Priority,
 		Content:  r.Content,
 	}, nil
-- 
2.43.0


From be7bb36830ae5f85d4d227fe4724420fb2ceb86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:22 +0000
Subject: [PATCH 25/38] fix: ask raft for the current leader instead of a copy
 up to a second old

---
 pkg/raft/node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index 4155827..ba60b0a 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -167,7 +167,12 @@ func (node *Node) ListenToLeaderChanges() {
 }
 
 func (n *Node) Leader() string {
-	u, _ := url.ParseRequestURI(fmt.Sprintf("http://%s", n.leader))
+	leaderAddr, _ := n.Raft.LeaderWithID()
+
+	u, err := url.ParseRequestURI(fmt.Sprintf("http://%s", leaderAddr))
+	if err != nil {
+		return ""
+	}
 
 	return u.Hostname()
 }
-- 
2.43.0


From de18dcf2eac902cd33b84f727a75eed890139489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:22 +0000
Subject: [PATCH 26/38] fix: stop the poll ticker of a consumer that left

---
 pkg/grpc/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/grpc/server.go b/pkg/grpc/server.go
index c0d7497..dda6e15 100644
--- a/pkg/grpc/server.go
+++ b/pkg/grpc/server.go
@@ -199,6 +199,7 @@ func (s *QueueServer) DequeueStream(req *pb.DequeueRequest, stream pb.DOQ_Dequeu
 	defer s.unregisterConsumer(req.QueueName, consumerID)
 
 	ticker := time.NewTicker(1 * time.Second)
+	defer ticker.Stop()
 
 	// Stream messages to the consumer
 	for {
-- 
2.43.0


From 06f8a3283f830f3df6a115be33631d02e20714c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:32 +0000
Subject: [PATCH 27/38] fix: read back empty values from the stable store

Get reported a key that holds an empty value as not found.
---
 pkg/badger-store/badger_store.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index dc316ae..c631eaf 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -286,11 +286,10 @@ func (b *BadgerStore) Get(k []byte) ([]byte, error) {
 	}
 
 	val, err := item.ValueCopy(nil)
-
-	if val == nil || err != nil {
-		return nil, ErrKeyNotFound
+	if err != nil {
+		return nil, err
 	}
-	return append([]byte(nil), val...), nil
+	return append([]byte{}, val...), nil
 }
 
 // SetUint64 is like Set, but handles uint64 values
-- 
2.43.0


From f941a202c0cc546a18b3bbbd767140597cbe2937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:32 +0000
Subject: [PATCH 28/38] fix: reject replicated commands without a payload

A null payload was taken for one with every field empty, so for example a
queue with an empty name was created.
---
 pkg/raft/fsm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/raft/fsm.go b/pkg/raft/fsm.go
index ca337fb..f6f0dc1 100644
--- a/pkg/raft/fsm.go
+++ b/pkg/raft/fsm.go
@@ -70,6 +70,10 @@ func (c *Command) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	if len(temp.Payload) == 0 || string(temp.Payload) == "null" {
+		return fmt.Errorf("missing payload of operation: %s", temp.Op)
+	}
+
 	c.Op = temp.Op
 
 	// Based on the operation, unmarshal the payload into the appropriate struct
-- 
2.43.0


From adefdb7a130d2609bc3558e969d677f346cc9433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:02 +0000
Subject: [PATCH 29/38] fix: find a last log index whose first byte is 0xff

LastIndex searched backwards from a key that sorts before those indexes.
---
 pkg/badger-store/badger_store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index c631eaf..1764976 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -2,6 +2,7 @@ package badgerstore
 
 import (
 	"errors"
+	"math"
 
 	"github.com/dgraph-io/badger/v4"
 	"github.com/hashicorp/raft"
@@ -150,7 +151,7 @@ func (b *BadgerStore) LastIndex() (uint64, error) {
 
 	it.Rewind()
 
-	for it.Seek(End(prefix)); it.ValidForPrefix(prefix); it.Next() {
+	for it.Seek(addPrefix(prefix, uint64ToBytes(math.MaxUint64))); it.ValidForPrefix(prefix); it.Next() {
 
 		item := it.Item()
 		key := item.Key()
-- 
2.43.0


From 880dbfea92bcf14759fdd848cd2bab0d0f1b0fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:12 +0000
Subject: [PATCH 30/38] fix: never send a forwarded dequeue twice

---
 pkg/http/proxy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/http/proxy.go b/pkg/http/proxy.go
index 2ed082e..e6741de 100644
--- a/pkg/http/proxy.go
+++ b/pkg/http/proxy.go
@@ -5,8 +5,10 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"io"
 	"net/http"
 	"net/url"
+	"strings"
 
 	"github.com/danielgtaylor/huma/v2"
 	"github.com/rs/zerolog/log"
@@ -172,6 +174,9 @@ func (p *Proxy) Dequeue(
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to create a request", err)
 	}
+	// A dequeue must not be repeated. The client sends a GET again by itself when a kept
+	// connection breaks before the response, unless the request has a body it cannot rewind.
+	req.Body = io.NopCloser(strings.NewReader(""))
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-- 
2.43.0


From ae1fc00a83b9ed4994e5a6e8003171092d345ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:09 +0000
Subject: [PATCH 31/38] fix: do not wait forever for a host that does not
 answer a join request

---
 pkg/cluster/jointer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/jointer.go b/pkg/cluster/jointer.go
index 10f2be5..90c2b8b 100644
--- a/pkg/cluster/jointer.go
+++ b/pkg/cluster/jointer.go
@@ -12,6 +12,10 @@ import (
 	"github.com/rs/zerolog/log"
 )
 
+// joinTimeout limits how long one host is waited for, so that a host that never answers does
+// not keep the others from being asked.
+const joinTimeout = 10 * time.Second
+
 type Joiner struct {
 	nodeID   string
 	raftAddr string
@@ -64,7 +68,7 @@ func (j *Joiner) join(joinAddr, raftAddr, nodeID string) error {
 	}
 	req.Header.Set("Content-Type", "application/json")
 
-	client := &http.Client{}
+	client := &http.Client{Timeout: joinTimeout}
 	resp, err := client.Do(req)
 	if err != nil {
 		return err
-- 
2.43.0


From f0029a448f48b61b3be27a6fbd8d986e2309dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:31 +0000
Subject: [PATCH 32/38] fix: let the default log level "warning" take effect

---
 cmd/server/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 517b53e..4c7c896 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -48,7 +48,10 @@ func Run(cmd *cobra.Command, args []string) {
 	zerolog.TimeFieldFormat = zerolog.TimeFormatUnixNano
 
 	logLevel, err := zerolog.ParseLevel(config.Logging.LogLevel)
-	if err != nil {
+	if config.Logging.LogLevel == "warning" {
+		// the name of the default level, which zerolog only knows as "warn"
+		zerolog.SetGlobalLevel(zerolog.WarnLevel)
+	} else if err != nil {
 		zerolog.SetGlobalLevel(zerolog.DebugLevel)
 	} else {
 		zerolog.SetGlobalLevel(logLevel)
-- 
2.43.0


From 21f45d9d4bd4e2ac85520ff43cf3fac2087fa603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:57 +0000
Subject: [PATCH 33/38] fix: report storage read errors instead of not found

A failed read of the term, the vote or a log entry was reported as if nothing had been
stored, which raft takes for a fresh node.
---
 pkg/badger-store/badger_store.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index 1764976..21f8f0c 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -167,14 +167,16 @@ func (b *BadgerStore) GetLog(idx uint64, raftLog *raft.Log) error {
 	defer txn.Discard()
 
 	item, err := txn.Get(addPrefix(dbLogs, uint64ToBytes(idx)))
-	if err != nil {
+	if errors.Is(err, badger.ErrKeyNotFound) {
 		return raft.ErrLogNotFound
 	}
+	if err != nil {
+		return err
+	}
 
 	val, err := item.ValueCopy(nil)
-
-	if val == nil || err != nil {
-		return raft.ErrLogNotFound
+	if err != nil {
+		return err
 	}
 	return DecodeMsgPack(val, raftLog)
 }
@@ -282,9 +284,12 @@ func (b *BadgerStore) Get(k []byte) ([]byte, error) {
 	defer txn.Discard()
 
 	item, err := txn.Get(addPrefix(dbConf, k))
-	if err != nil {
+	if errors.Is(err, badger.ErrKeyNotFound) {
 		return nil, ErrKeyNotFound
 	}
+	if err != nil {
+		return nil, err
+	}
 
 	val, err := item.ValueCopy(nil)
 	if err != nil {
-- 
2.43.0


From ce22bf4410dfac6f9f7f71efc18c2e570311ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:50 +0000
Subject: [PATCH 34/38] fix: do not keep a queue that could only be loaded in
 part

---
 pkg/queue/badger_priority_queue.go | 13 +++++++++++--
 pkg/queue/queue_manager.go         |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 7e63c16..04b6ae5 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -275,6 +275,7 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 	defer bpq.mu.Unlock()
 
 	var qc *QueueConfig
+	var messages []*Message
 
 	err := bpq.db.View(func(txn *badger.Txn) error {
 		item, err := txn.Get(bpq.GetQueueKey(queueName))
@@ -291,7 +292,7 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 			return err
 		}
 
-		bpq.Init(qc.Type, qc.Name)
+		bpq.config = qc
 
 		if loadMessages {
 			it := txn.NewIterator(badger.DefaultIteratorOptions)
@@ -308,7 +309,7 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 					if err != nil {
 						return err
 					}
-					bpq.pq.Enqueue(msg.Group, &Item{ID: msg.ID, Priority: msg.Priority})
+					messages = append(messages, &Message{Group: msg.Group, ID: msg.ID, Priority: msg.Priority})
 					return nil
 				})
 				if err != nil {
@@ -319,9 +320,17 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 		return nil
 	})
 	if err != nil {
+		bpq.config = nil
 		return err
 	}
 
+	// Nothing is started for a queue that can not be loaded
+	bpq.Init(qc.Type, qc.Name)
+
+	for _, msg := range messages {
+		bpq.pq.Enqueue(msg.Group, &Item{ID: msg.ID, Priority: msg.Priority})
+	}
+
 	bpq.updatePrometheusQueueSizes()
 
 	return nil
diff --git a/pkg/queue/queue_manager.go b/pkg/queue/queue_manager.go
index 75d2a89..b856e18 100644
--- a/pkg/queue/queue_manager.go
+++ b/pkg/queue/queue_manager.go
@@ -50,7 +50,9 @@ func (qm *QueueManager) LoadQueues() {
 			q := NewBadgerPriorityQueue(qm.db, qm.config, qm.PrometheusMetrics)
 			err := q.Load(queueName, true)
 			if err != nil {
+				// The queue is loaded when it is first used
 				log.Error().Err(err).Str("queue", queueName).Msg("Failed to load queue")
+				continue
 			}
 			qm.queues[queueName] = q
 		}
-- 
2.43.0


From 73f909a21745b517ebe083848c8371cf1ce24bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:50 +0000
Subject: [PATCH 35/38] fix: do not deliver a message whose content can not be
 read

---
 pkg/queue/badger_priority_queue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 04b6ae5..740fa8c 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -401,10 +401,13 @@ func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
 			return err
 		}
 
-		item.Value(func(val []byte) error {
+		err = item.Value(func(val []byte) error {
 			msg, err = MessageFromBytes(val)
 			return err
 		})
+		if err != nil {
+			return err
+		}
 
 		if ack {
 			// in case of autoAck, we need to remove the message from the queue
-- 
2.43.0


From 03eb727f88f7e4a86b427d676a886e58f8db40f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:07 +0000
Subject: [PATCH 36/38] fix: keep an unacknowledged message whose redelivery
 could not be read

---
 pkg/queue/badger_priority_queue.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 740fa8c..680323d 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -147,6 +147,7 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 		select {
 		case <-ticker.C:
 			bpq.mu.Lock()
+			var unread []*Item
 			for {
 				item := bpq.ackQueue.Dequeue()
 				if item == nil {
@@ -156,6 +157,9 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 				message, err := bpq.GetByID(item.ID)
 				if err != nil {
 					log.Error().Err(err).Msgf("Failed to get message by ID: %d", item.ID)
+					if err != badger.ErrKeyNotFound {
+						unread = append(unread, item)
+					}
 					continue
 				}
 
@@ -167,6 +171,10 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 				bpq.pq.Enqueue(message.Group, queueItem)
 				log.Debug().Msgf("Re-enqueued message: %d", message.ID)
 			}
+			// A message that could not be read is tried again at the next tick
+			for _, item := range unread {
+				bpq.ackQueue.Enqueue("default", item)
+			}
 			bpq.updatePrometheusQueueSizes()
 			bpq.mu.Unlock()
 		case <-bpq.ackQueueMonitoringChan:
-- 
2.43.0


From 1cce33fca71db053129c8e59a7790f21132a710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 37/38] fix: stop the background work of a queue that was only
 loaded for a failed deletion

---
 pkg/queue/badger_priority_queue.go | 11 ++++++++---
 pkg/queue/queue_manager.go         |  4 ++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 680323d..e23d96b 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -192,6 +192,13 @@ func (bpq *BadgerPriorityQueue) StopAckQueueMonitoring() {
 	close(bpq.ackQueueMonitoringChan)
 }
 
+// stop ends the background work of the queue
+func (bpq *BadgerPriorityQueue) stop() {
+	bpq.StopAckQueueMonitoring()
+
+	bpq.stats.Stop()
+}
+
 func (bpq *BadgerPriorityQueue) getMessagesPrefix() []byte {
 	return []byte(fmt.Sprintf("messages:%s:", bpq.config.Name))
 }
@@ -266,9 +273,7 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 		return err
 	}
 
-	bpq.StopAckQueueMonitoring()
-
-	bpq.stats.Stop()
+	bpq.stop()
 
 	// A deleted queue has no messages
 	bpq.pq = NewDelayedPriorityQueue(true)
diff --git a/pkg/queue/queue_manager.go b/pkg/queue/queue_manager.go
index b856e18..e6f1bfe 100644
--- a/pkg/queue/queue_manager.go
+++ b/pkg/queue/queue_manager.go
@@ -98,6 +98,10 @@ func (qm *QueueManager) Delete(queueName string) error {
 
 	err := q.Delete()
 	if err != nil {
+		if !ok && q.config != nil {
+			// The copy was only loaded to be deleted and is not kept
+			q.stop()
+		}
 		return err
 	}
 
-- 
2.43.0


From e71d36620bad8de0fee7002db64a365a3425a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:04 +0000
Subject: [PATCH 38/38] fix: a node stopped in the middle of its bootstrap
 could never be started again

The first term was stored and the first log entry was not: raft then refuses to
bootstrap and the server waited for a leader for ever.
---
 pkg/raft/node.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index ba60b0a..92aced2 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -254,6 +254,11 @@ func (n *Node) createRaftNode(nodeID, raftDir, raftPort string, queueManager *qu
 		return nil, err
 	}
 
+	if err := resetInterruptedBootstrap(badgerDB, snapshots); err != nil {
+		log.Warn().Msgf("failed to check the state of the store: %s", err)
+		return nil, err
+	}
+
 	fsm := &FSM{queueManager: queueManager, NodeID: nodeID, db: n.db, config: n.cfg}
 
 	r, err := raft.NewRaft(config, fsm, logStore, stableStore, snapshots, transport)
@@ -295,3 +300,30 @@ func (n *Node) createRaftNode(nodeID, raftDir, raftPort string, queueManager *qu
 
 	return r, nil
 }
+
+// resetInterruptedBootstrap makes it possible to bootstrap a node that was stopped in the middle
+// of its bootstrap: the first term was stored, the first log entry was not, and raft
+// refuses to bootstrap a node that has a term.
+func resetInterruptedBootstrap(store *badgerstore.BadgerStore, snapshots raft.SnapshotStore) error {
+	term, err := store.GetUint64([]byte("CurrentTerm"))
+	if err != nil || term != 1 {
+		// Bootstrapping has not begun or the node has been a member of a cluster
+		return nil
+	}
+
+	lastIndex, err := store.LastIndex()
+	if err != nil {
+		return err
+	}
+
+	snaps, err := snapshots.List()
+	if err != nil {
+		return err
+	}
+
+	if lastIndex > 0 || len(snaps) > 0 {
+		return nil
+	}
+
+	return store.SetUint64([]byte("CurrentTerm"), 0)
+}
-- 
2.43.0

