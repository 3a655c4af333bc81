From 0a117e2c715c1043ca14548b93d8b12df72b8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:40 +0000
Subject: [PATCH 01/72] fix: copy the message key when it is accepted, as the
 value is

---
 simple_producer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index d304dc7..c574bfd 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -139,12 +139,18 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 	valueCopy := make([]byte, len(value))
 	copy(valueCopy, value)
 
+	var keyCopy []byte // a nil key stays nil
+	if key != nil {
+		keyCopy = make([]byte, len(key))
+		copy(keyCopy, key)
+	}
+
 	record := Record{
 		attributes:     0x00, // compress in upper message set level
 		timestampDelta: 0,
 		offsetDelta:    0,
 
-		key:   key,
+		key:   keyCopy,
 		value: valueCopy,
 	}
 
-- 
2.43.0


From a2a9f5819e6f97d522917a3806acf0752e32a339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:46 +0000
Subject: [PATCH 02/72] fix: do not send the last batch again when the flush
 ticker fires during Close

---
 simple_producer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_producer.go b/simple_producer.go
index c574bfd..75b5f7e 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -239,6 +239,7 @@ func (p *SimpleProducer) Close() {
 		logger.Info("flush before SimpleProducer close")
 		if len(p.records) > 0 {
 			p.flush(p.records)
+			p.records = nil // a periodic flush waiting for the lock must not send them again
 		}
 
 		if p.parent == nil {
-- 
2.43.0


From 92234a47ce27f888077ed8e8141d1765b4132400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:55 +0000
Subject: [PATCH 03/72] fix: guard the producer's per-partition map and
 metadata against concurrent AddMessage

---
 producer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/producer.go b/producer.go
index a8cf18c..ba706e4 100644
--- a/producer.go
+++ b/producer.go
@@ -87,10 +87,10 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 	if err != nil {
 		return fmt.Errorf("get metadata of %s error: %w", p.topic, err)
 	}
-	p.topicMeta = metadataResponse.TopicMetadatas[0]
+	topicMeta := metadataResponse.TopicMetadatas[0]
 
 	validPartitionID := make([]int32, 0)
-	for _, partition := range p.topicMeta.PartitionMetadatas {
+	for _, partition := range topicMeta.PartitionMetadatas {
 		if partition.PartitionErrorCode == 0 {
 			validPartitionID = append(validPartitionID, partition.PartitionID)
 		}
@@ -103,6 +103,7 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	p.topicMeta = topicMeta
 	if p.currentProducer == nil {
 		logger.Info("init current simple producer", "leader", sp.leader)
 		p.currentProducer = sp
@@ -131,9 +132,10 @@ func (p *Producer) getLeaderID(pid int32) (int32, error) {
 
 // getSimpleProducer return the simple producer. if key is nil, return the current simple producer
 func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+
 	if key == nil {
-		p.lock.Lock()
-		defer p.lock.Unlock()
 		return p.currentProducer, nil
 	}
 
-- 
2.43.0


From e7e872aa501f54cd072565f3f14019854469231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:44 +0000
Subject: [PATCH 04/72] fix: encode the length of a null record key with its
 own size, not the previous field's

---
 record.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/record.go b/record.go
index 3dfdb3d..0c091c9 100644
--- a/record.go
+++ b/record.go
@@ -65,7 +65,7 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 	keyLenBuf := make([]byte, binary.MaxVarintLen64)
 	if r.key == nil {
-		binary.PutVarint(keyLenBuf, -1)
+		n = binary.PutVarint(keyLenBuf, -1)
 	} else {
 		n = binary.PutVarint(keyLenBuf, int64(len(r.key)))
 	}
-- 
2.43.0


From feeca42ca9484219295cba8a926aa803c52aaea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:50 +0000
Subject: [PATCH 05/72] fix: number the records of a produced batch by offset
 delta

---
 simple_producer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simple_producer.go b/simple_producer.go
index 75b5f7e..31937fa 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -177,6 +177,10 @@ func (p *SimpleProducer) Flush() error {
 }
 
 func (p *SimpleProducer) createRecordBatch(records []*Record) RecordBatch {
+	for i, record := range records {
+		record.offsetDelta = int32(i)
+	}
+
 	ts := time.Now().UnixMilli()
 	batch := RecordBatch{
 		BaseOffset:           0,
-- 
2.43.0


From b4b9f6be1858ce2ffb26deeded4dc11752e4ce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:03 +0000
Subject: [PATCH 06/72] fix: drop the broker connection after every failed
 request, not only on EOF and EPIPE

---
 broker.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/broker.go b/broker.go
index 4f44682..9fb6a41 100644
--- a/broker.go
+++ b/broker.go
@@ -11,7 +11,6 @@ import (
 	"net"
 	"os"
 	"sync"
-	"syscall"
 	"time"
 )
 
@@ -244,19 +243,17 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 		return nil, err
 	}
 
-	defer func() {
-		if os.IsTimeout(err) || errors.Is(err, io.EOF) || errors.Is(err, syscall.EPIPE) {
-			broker.Close()
-		}
-	}()
-
+	// after any failure the position in the response stream is unknown: a response that
+	// comes late would be taken for the answer to the next request, so drop the connection
 	rp, err := broker.Request(r)
 	if err != nil {
+		broker.Close()
 		return nil, err
 	}
 
 	resp, err = rp.ReadAndParse()
 	if err != nil {
+		broker.Close()
 		return nil, err
 	}
 	return resp, resp.Error()
-- 
2.43.0


From a23b343c172df8c547a2c365c7631f350c285d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:09 +0000
Subject: [PATCH 07/72] fix: close a connection whose version discovery or
 authentication failed

---
 broker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index 9fb6a41..fed49d6 100644
--- a/broker.go
+++ b/broker.go
@@ -75,10 +75,15 @@ func (broker *Broker) createConn() error {
 }
 
 // create a new connection to the broker, and then do the sasl authenticate if needed
-func (broker *Broker) createConnAndAuth() error {
+func (broker *Broker) createConnAndAuth() (err error) {
 	if err := broker.createConn(); err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			broker.Close() // do not leave a half-initialized connection behind
+		}
+	}()
 
 	clientID := "healer-init"
 	apiVersionsResponse, err := broker.requestAPIVersions(clientID)
-- 
2.43.0


From 310cd1d24cd9833765e7d279993ff6e3e4b2704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:07 +0000
Subject: [PATCH 08/72] fix: reject a response whose correlation id is not the
 request's

---
 broker.go   |  5 +++--
 response.go | 12 ++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/broker.go b/broker.go
index fed49d6..41a0168 100644
--- a/broker.go
+++ b/broker.go
@@ -276,8 +276,9 @@ func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, e
 	}
 
 	rp := defaultReadParser{
-		broker:  broker,
-		timeout: timeout,
+		broker:        broker,
+		timeout:       timeout,
+		correlationID: correlationID,
 	}
 	return rp, nil
 }
diff --git a/response.go b/response.go
index df43f67..e967293 100644
--- a/response.go
+++ b/response.go
@@ -25,6 +25,8 @@ type defaultReadParser struct {
 	api     uint16
 	version uint16
 	timeout int
+
+	correlationID uint32
 }
 
 // ReadAndParse read a whole response data from broker and parse it
@@ -34,6 +36,13 @@ func (p defaultReadParser) ReadAndParse() (Response, error) {
 		return nil, fmt.Errorf("read response of %d(%d) from %s error: %w", p.api, p.version, p.broker.GetAddress(), err)
 	}
 
+	// version discovery is the first exchange on a new connection, no stale response can precede its answer
+	if p.api != API_ApiVersions && len(data) >= 8 {
+		if correlationID := binary.BigEndian.Uint32(data[4:]); correlationID != p.correlationID {
+			return nil, fmt.Errorf("response of %d(%d) from %s has correlation id %d, expected %d", p.api, p.version, p.broker.GetAddress(), correlationID, p.correlationID)
+		}
+	}
+
 	resp, err := p.Parse(data)
 	if err != nil {
 		return nil, fmt.Errorf("parse response of %d(%d) from %s error: %w", p.api, p.version, p.broker.GetAddress(), err)
@@ -82,6 +91,9 @@ func (p defaultReadParser) Read() ([]byte, error) {
 		}
 	}
 	copy(resp[0:4], responseLengthBuf)
+	if responseLength < 4 {
+		return nil, errShortRead
+	}
 	logger.V(5).Info("response info", "length", len(resp), "CorrelationID", binary.BigEndian.Uint32(resp[4:]))
 	return resp, nil
 }
-- 
2.43.0


From c0c2fc09ff209e36efb539bd6529abd12e8adb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:11 +0000
Subject: [PATCH 09/72] fix: a producer works on the healthy partitions while
 another partition of its topic is not available

---
 producer.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/producer.go b/producer.go
index ba706e4..8ef1ee4 100644
--- a/producer.go
+++ b/producer.go
@@ -2,6 +2,7 @@ package healer
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math/rand"
 	"sync"
@@ -81,13 +82,18 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 // update metadata and currentProducer
 func (p *Producer) updateCurrentSimpleProducer() error {
 	metadataResponse, err := p.brokers.RequestMetaData(p.config.ClientID, []string{p.topic})
-	if err == nil {
-		err = metadataResponse.Error()
-	}
-	if err != nil {
+	// the error code of one partition comes back as an error too, but does not keep the healthy ones from being used
+	var e KafkaError
+	if err != nil && !errors.As(err, &e) {
 		return fmt.Errorf("get metadata of %s error: %w", p.topic, err)
 	}
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return fmt.Errorf("topic %s not found in metadata", p.topic)
+	}
 	topicMeta := metadataResponse.TopicMetadatas[0]
+	if topicMeta.TopicErrorCode != 0 {
+		return fmt.Errorf("get metadata of %s error: %w", p.topic, getErrorFromErrorCode(topicMeta.TopicErrorCode))
+	}
 
 	validPartitionID := make([]int32, 0)
 	for _, partition := range topicMeta.PartitionMetadatas {
@@ -95,6 +101,9 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 			validPartitionID = append(validPartitionID, partition.PartitionID)
 		}
 	}
+	if len(validPartitionID) == 0 {
+		return fmt.Errorf("no healthy partition of %s in metadata", p.topic)
+	}
 	partitionID := validPartitionID[rand.Int31n(int32(len(validPartitionID)))]
 	sp, err := NewSimpleProducer(context.Background(), p.topic, partitionID, p.config)
 	if err != nil {
-- 
2.43.0


From 4017b2eaefd0a3730044da17da5587f60a2f0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:57 +0000
Subject: [PATCH 10/72] fix: a producer sends to the leader its latest metadata
 names, for keyed messages and for those still held at a refresh too

---
 producer.go        | 117 ++++++++++++++++++++++++++++++---------------
 simple_producer.go |   9 ++++
 2 files changed, 87 insertions(+), 39 deletions(-)

diff --git a/producer.go b/producer.go
index 8ef1ee4..7e9ceaf 100644
--- a/producer.go
+++ b/producer.go
@@ -55,6 +55,8 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 		return nil, err
 	}
 
+	p.ctx = context.WithValue(context.Background(), parentProducerKey, p)
+
 	for {
 		if err = p.updateCurrentSimpleProducer(); err != nil {
 			logger.Error(err, "update current simple producer, sleep and retry", "topic", p.topic, "retry_backoff_ms", p.config.RetryBackOffMS)
@@ -64,9 +66,6 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 		}
 	}
 
-	ctx := context.Background()
-	p.ctx = context.WithValue(ctx, parentProducerKey, p)
-
 	go func() {
 		for range time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond).C {
 			err := p.updateCurrentSimpleProducer()
@@ -79,22 +78,35 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 	return p, nil
 }
 
-// update metadata and currentProducer
-func (p *Producer) updateCurrentSimpleProducer() error {
+// requestTopicMeta returns the metadata of the topic, at least one partition of which is healthy
+func (p *Producer) requestTopicMeta() (topicMeta TopicMetadata, err error) {
 	metadataResponse, err := p.brokers.RequestMetaData(p.config.ClientID, []string{p.topic})
 	// the error code of one partition comes back as an error too, but does not keep the healthy ones from being used
 	var e KafkaError
 	if err != nil && !errors.As(err, &e) {
-		return fmt.Errorf("get metadata of %s error: %w", p.topic, err)
+		return topicMeta, fmt.Errorf("get metadata of %s error: %w", p.topic, err)
 	}
 	if len(metadataResponse.TopicMetadatas) == 0 {
-		return fmt.Errorf("topic %s not found in metadata", p.topic)
+		return topicMeta, fmt.Errorf("topic %s not found in metadata", p.topic)
 	}
-	topicMeta := metadataResponse.TopicMetadatas[0]
+	topicMeta = metadataResponse.TopicMetadatas[0]
 	if topicMeta.TopicErrorCode != 0 {
-		return fmt.Errorf("get metadata of %s error: %w", p.topic, getErrorFromErrorCode(topicMeta.TopicErrorCode))
+		return topicMeta, fmt.Errorf("get metadata of %s error: %w", p.topic, getErrorFromErrorCode(topicMeta.TopicErrorCode))
+	}
+	return topicMeta, nil
+}
+
+// update metadata and currentProducer
+func (p *Producer) updateCurrentSimpleProducer() error {
+	topicMeta, err := p.requestTopicMeta()
+	if err != nil {
+		return err
 	}
 
+	p.lock.Lock()
+	p.topicMeta = topicMeta
+	p.lock.Unlock()
+
 	validPartitionID := make([]int32, 0)
 	for _, partition := range topicMeta.PartitionMetadatas {
 		if partition.PartitionErrorCode == 0 {
@@ -105,25 +117,27 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 		return fmt.Errorf("no healthy partition of %s in metadata", p.topic)
 	}
 	partitionID := validPartitionID[rand.Int31n(int32(len(validPartitionID)))]
-	sp, err := NewSimpleProducer(context.Background(), p.topic, partitionID, p.config)
-	if err != nil {
-		return fmt.Errorf("change current simple producer to %s-%d error: %w", p.topic, partitionID, err)
+
+	older, err := p.replaceCurrentSimpleProducer(partitionID)
+	if older != nil {
+		older.Close() // without the lock: it asks for the leader of its partition to send what it still holds
 	}
+	return err
+}
 
+// replaceCurrentSimpleProducer returns the simple producer that was current before
+func (p *Producer) replaceCurrentSimpleProducer(partitionID int32) (older *SimpleProducer, err error) {
 	p.lock.Lock()
 	defer p.lock.Unlock()
-	p.topicMeta = topicMeta
-	if p.currentProducer == nil {
-		logger.Info("init current simple producer", "leader", sp.leader)
-		p.currentProducer = sp
-	} else {
-		older := p.currentProducer
-		logger.Info("update current simple producer", "older", older, "oldLeader", older.leader, "new", sp, "newLeader", sp.leader)
-		p.currentProducer = sp
-		older.Close()
-	}
 
-	return nil
+	sp, err := p.newSimpleProducer(partitionID)
+	if err != nil {
+		return nil, fmt.Errorf("change current simple producer to %s-%d error: %w", p.topic, partitionID, err)
+	}
+	older = p.currentProducer
+	logger.Info("update current simple producer", "older", older, "new", sp, "newLeader", sp.leader)
+	p.currentProducer = sp
+	return older, nil
 }
 
 // getLeaderID return the leader broker id of the partition from metadata cache
@@ -139,6 +153,45 @@ func (p *Producer) getLeaderID(pid int32) (int32, error) {
 	return -1, fmt.Errorf("partition %s-%d not found in metadata", p.topic, pid)
 }
 
+// getLeaderBroker returns the connection to the leader that is shared by the simple producers
+func (p *Producer) getLeaderBroker(leaderID int32) (*Broker, error) {
+	if broker, ok := p.leaderBrokersMapping[leaderID]; ok {
+		return broker, nil
+	}
+	broker, err := p.brokers.NewBroker(leaderID)
+	if err != nil {
+		return nil, fmt.Errorf("create broker %d error: %w", leaderID, err)
+	}
+	p.leaderBrokersMapping[leaderID] = broker
+	return broker, nil
+}
+
+// newSimpleProducer creates a simple producer that uses the connection to the leader p shares between its simple producers
+func (p *Producer) newSimpleProducer(partitionID int32) (*SimpleProducer, error) {
+	leaderID, err := p.getLeaderID(partitionID)
+	if err != nil {
+		return nil, err
+	}
+	broker, err := p.getLeaderBroker(leaderID)
+	if err != nil {
+		return nil, err
+	}
+	ctx := context.WithValue(p.ctx, leaderKey, broker)
+	return NewSimpleProducer(ctx, p.topic, partitionID, p.config)
+}
+
+// leaderOf is called by the simple producers each time they send something, so that they follow a leader that moved
+func (p *Producer) leaderOf(pid int32) (*Broker, error) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	for _, partition := range p.topicMeta.PartitionMetadatas {
+		if partition.PartitionID == pid && partition.Leader >= 0 {
+			return p.getLeaderBroker(partition.Leader)
+		}
+	}
+	return nil, fmt.Errorf("no leader of %s-%d in metadata", p.topic, pid)
+}
+
 // getSimpleProducer return the simple producer. if key is nil, return the current simple producer
 func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
 	p.lock.Lock()
@@ -154,23 +207,9 @@ func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
 		return sp, nil
 	}
 
-	leaderID, err := p.getLeaderID(partitionID)
-	if err != nil {
-		return nil, err
-	}
-	broker, ok := p.leaderBrokersMapping[leaderID]
-	if !ok {
-		broker, err = p.brokers.NewBroker(leaderID)
-		if err != nil {
-			return nil, fmt.Errorf("create broker %d error: %s", leaderID, err)
-		}
-		p.leaderBrokersMapping[leaderID] = broker
-	}
-
-	ctx := context.WithValue(p.ctx, leaderKey, broker)
-	sp, err := NewSimpleProducer(ctx, p.topic, partitionID, p.config)
+	sp, err := p.newSimpleProducer(partitionID)
 	if err != nil {
-		return nil, fmt.Errorf("could not create simple producer from the %s-%d", p.topic, partitionID)
+		return nil, fmt.Errorf("could not create simple producer from the %s-%d: %w", p.topic, partitionID, err)
 	}
 	p.pidToSimpleProducers[partitionID] = sp
 	return sp, nil
diff --git a/simple_producer.go b/simple_producer.go
index 31937fa..3f24194 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -223,6 +223,15 @@ func (p *SimpleProducer) flush(records []*Record) error {
 		p.createRecordBatch(records),
 	}
 
+	if p.parent != nil {
+		leader, err := p.parent.leaderOf(p.partition)
+		if err != nil {
+			logger.Error(err, "failed to get leader", "topic", p.topic, "partition", p.partition)
+			return err
+		}
+		p.leader = leader
+	}
+
 	rp, err := p.leader.RequestAndGet(produceRequest)
 	if err == nil {
 		err = rp.Error()
-- 
2.43.0


From 519557b82d66854d387407366429dbc80049650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:32 +0000
Subject: [PATCH 11/72] fix: AddMessage returns the error of the batch it
 sends, and of a producer that is closed

---
 producer.go        | 2 +-
 simple_producer.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/producer.go b/producer.go
index 7e9ceaf..f9d3da8 100644
--- a/producer.go
+++ b/producer.go
@@ -231,7 +231,7 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 		}
 		return err
 	}
-	return nil
+	return ErrProducerClosed
 }
 
 // Close close all simple producers in the console producer
diff --git a/simple_producer.go b/simple_producer.go
index 3f24194..4a4ace6 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -128,7 +128,7 @@ func NewSimpleProducer(ctx context.Context, topic string, partition int32, confi
 	return p, nil
 }
 
-// AddMessage add message to message set. If message set is full, send it to kafka synchronously
+// AddMessage add message to message set. If message set is full, send it to kafka synchronously and return the error of sending
 func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 	p.lock.Lock()
 	defer p.lock.Unlock()
@@ -158,7 +158,7 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 	if len(p.records) >= p.config.MessageMaxCount {
 		records := p.records
 		p.records = make([]*Record, 0, p.config.MessageMaxCount)
-		p.flush(records)
+		return p.flush(records)
 	}
 	return nil
 }
-- 
2.43.0


From d7f8ce6d1b44950d19bec27cbd83c84a1de3c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:10 +0000
Subject: [PATCH 12/72] fix: a produce request of a version below 3 has no
 transactional id

---
 produce_request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/produce_request.go b/produce_request.go
index 8b8f9bb..65aa5c6 100644
--- a/produce_request.go
+++ b/produce_request.go
@@ -119,7 +119,7 @@ func (r *ProduceRequest) Encode(version uint16) (payload []byte) {
 		return nil
 	}
 
-	if r.APIVersion >= tags["StatesFilter"] {
+	if r.APIVersion >= tags["transactionalID"] {
 		if isFlexible {
 			_, err = writeCompactNullableString(buf, r.transactionalID)
 		} else {
@@ -169,7 +169,7 @@ func (r *ProduceRequest) Decode(data []byte, version uint16) error {
 	isFlexible := r.IsFlexible()
 
 	// Decode transactionalID if applicable
-	if r.APIVersion >= r.tags()["StatesFilter"] {
+	if r.APIVersion >= r.tags()["transactionalID"] {
 		if isFlexible {
 			r.transactionalID, o = compactNullableString(data[offset:])
 		} else {
-- 
2.43.0


From 1ad84e62e71cddd2791bbc47d1244161ce1ef2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:16 +0000
Subject: [PATCH 13/72] fix: decode a produce response field by field as its
 version lays them out

---
 produce_response.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/produce_response.go b/produce_response.go
index 4d79488..341d334 100644
--- a/produce_response.go
+++ b/produce_response.go
@@ -17,7 +17,7 @@ type produceResponseP struct {
 	ErrorCode   int16
 	BaseOffset  int64
 
-	LogAppendTimeMs int64 `healer:"minVersion:3"`
+	LogAppendTimeMs int64 `healer:"minVersion:2"`
 	LogStartOffset  int64 `healer:"minVersion:5"`
 
 	RecordErrors []produceResponseRecordErrors `healer:"minVersion:8"`
@@ -50,7 +50,7 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 	offset += 8
 
 	tags := p.tags()
-	if version >= tags["GroupState"] {
+	if version >= tags["LogAppendTimeMs"] {
 		p.LogAppendTimeMs = int64(binary.BigEndian.Uint64(payload[offset:]))
 		offset += 8
 	}
@@ -84,8 +84,10 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 				offset += o
 			}
 
-			r.TaggedField, o = DecodeTaggedFields(payload[offset:])
-			offset += o
+			if isFlexible {
+				r.TaggedField, o = DecodeTaggedFields(payload[offset:])
+				offset += o
+			}
 		}
 	}
 
@@ -98,6 +100,11 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 		offset += o
 	}
 
+	if isFlexible {
+		p.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
+
 	return
 }
 
@@ -126,11 +133,13 @@ func (t *produceResponseT) decode(payload []byte, version uint16, isFlexible boo
 	}
 	for j := range t.Partitions {
 		p := &t.Partitions[j]
-		p.decode(payload[offset:], version, isFlexible)
+		offset += p.decode(payload[offset:], version, isFlexible)
 	}
 
-	t.TaggedField, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if isFlexible {
+		t.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return
 }
@@ -139,7 +148,7 @@ type ProduceResponse struct {
 	ResponseHeader
 	ProduceResponses []produceResponseT
 
-	ThrottleTimeMs int32        `healer:"minVersion:3"`
+	ThrottleTimeMs int32        `healer:"minVersion:1"`
 	TaggedField    TaggedFields `json:"tagged_fields"`
 }
 
@@ -165,7 +174,7 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 	}
 	offset += 4
 
-	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_DeleteAcls, version)
+	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_ProduceRequest, version)
 	offset += o
 
 	isFlexible := r.ResponseHeader.IsFlexible()
@@ -184,5 +193,13 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 		offset += r.ProduceResponses[i].decode(payload[offset:], version, isFlexible)
 	}
 
+	if version >= healerTags(r)["ThrottleTimeMs"] {
+		r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+		offset += 4
+	}
+	if isFlexible {
+		r.TaggedField, _ = DecodeTaggedFields(payload[offset:])
+	}
+
 	return r, err
 }
-- 
2.43.0


From 5f4ed440f05e676ef12a54a8fde44712352dd2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:41 +0000
Subject: [PATCH 14/72] fix: a producer looks up the leader again after a
 failed produce request

---
 producer.go        | 12 +++++++++++-
 simple_producer.go | 39 +++++++++++++++++++++++++++++++--------
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/producer.go b/producer.go
index f9d3da8..6fc83bb 100644
--- a/producer.go
+++ b/producer.go
@@ -181,7 +181,17 @@ func (p *Producer) newSimpleProducer(partitionID int32) (*SimpleProducer, error)
 }
 
 // leaderOf is called by the simple producers each time they send something, so that they follow a leader that moved
-func (p *Producer) leaderOf(pid int32) (*Broker, error) {
+func (p *Producer) leaderOf(pid int32, refresh bool) (*Broker, error) {
+	if refresh {
+		topicMeta, err := p.requestTopicMeta()
+		if err != nil {
+			return nil, err
+		}
+		p.lock.Lock()
+		p.topicMeta = topicMeta
+		p.lock.Unlock()
+	}
+
 	p.lock.Lock()
 	defer p.lock.Unlock()
 	for _, partition := range p.topicMeta.PartitionMetadatas {
diff --git a/simple_producer.go b/simple_producer.go
index 4a4ace6..0cef462 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -18,6 +18,8 @@ type SimpleProducer struct {
 	leader  *Broker
 	parent  *Producer
 
+	leaderStale bool // the last produce request failed
+
 	topic     string
 	partition int32
 
@@ -46,7 +48,10 @@ func (p *SimpleProducer) createLeader() (*Broker, error) {
 	}
 
 	leaderID, err := p.brokers.findLeader(p.config.ClientID, p.topic, p.partition)
-	if err != nil || leaderID == -1 {
+	if err == nil && leaderID == -1 {
+		err = fmt.Errorf("no leader of %s-%d", p.topic, p.partition)
+	}
+	if err != nil {
 		logger.Error(err, "could not get leader", "topic", p.topic, "partitionID", p.partition)
 		return nil, err
 	}
@@ -223,13 +228,9 @@ func (p *SimpleProducer) flush(records []*Record) error {
 		p.createRecordBatch(records),
 	}
 
-	if p.parent != nil {
-		leader, err := p.parent.leaderOf(p.partition)
-		if err != nil {
-			logger.Error(err, "failed to get leader", "topic", p.topic, "partition", p.partition)
-			return err
-		}
-		p.leader = leader
+	if err := p.updateLeader(); err != nil {
+		logger.Error(err, "failed to get leader", "topic", p.topic, "partition", p.partition)
+		return err
 	}
 
 	rp, err := p.leader.RequestAndGet(produceRequest)
@@ -238,11 +239,33 @@ func (p *SimpleProducer) flush(records []*Record) error {
 	}
 	if err != nil {
 		logger.Error(err, "failed to produce request")
+		p.leaderStale = true
 		return err
 	}
 	return err
 }
 
+// updateLeader makes p.leader the broker that leads the partition. if the last produce request failed, it asks
+// the cluster again, since the partition may have moved to another broker
+func (p *SimpleProducer) updateLeader() error {
+	if p.parent != nil {
+		leader, err := p.parent.leaderOf(p.partition, p.leaderStale)
+		if err != nil {
+			return err
+		}
+		p.leader = leader
+	} else if p.leaderStale {
+		leader, err := p.createLeader()
+		if err != nil {
+			return err
+		}
+		p.leader.Close()
+		p.leader = leader
+	}
+	p.leaderStale = false
+	return nil
+}
+
 // Close closes the producer
 func (p *SimpleProducer) Close() {
 	p.once.Do(func() {
-- 
2.43.0


From 17de3e8d310d09046de68dbfa1be1992614d6329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:04 +0000
Subject: [PATCH 15/72] fix: do not wait for a response to a produce request
 with acks 0

---
 broker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/broker.go b/broker.go
index 41a0168..1775b3a 100644
--- a/broker.go
+++ b/broker.go
@@ -256,6 +256,10 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 		return nil, err
 	}
 
+	if produceRequest, ok := r.(*ProduceRequest); ok && produceRequest.RequiredAcks == 0 {
+		return ProduceResponse{}, nil // the broker sends no response
+	}
+
 	resp, err = rp.ReadAndParse()
 	if err != nil {
 		broker.Close()
-- 
2.43.0


From 59200358b57d773854e9cc8e742f71ee5f7137db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:32 +0000
Subject: [PATCH 16/72] fix: keep the order of unkeyed messages when the
 current partition is replaced at a metadata refresh

---
 producer.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/producer.go b/producer.go
index 6fc83bb..0fcd960 100644
--- a/producer.go
+++ b/producer.go
@@ -26,6 +26,7 @@ type Producer struct {
 	pidToSimpleProducers map[int32]*SimpleProducer
 	leaderBrokersMapping map[int32]*Broker
 	currentProducer      *SimpleProducer
+	currentLock          sync.Mutex // guards currentProducer, taken before lock
 	lock                 sync.Mutex
 
 	ctx context.Context
@@ -118,9 +119,11 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 	}
 	partitionID := validPartitionID[rand.Int31n(int32(len(validPartitionID)))]
 
+	p.currentLock.Lock() // what the older one still holds is sent before the new one accepts messages
+	defer p.currentLock.Unlock()
 	older, err := p.replaceCurrentSimpleProducer(partitionID)
 	if older != nil {
-		older.Close() // without the lock: it asks for the leader of its partition to send what it still holds
+		older.Close() // it takes the lock of p to ask for its leader
 	}
 	return err
 }
@@ -204,13 +207,15 @@ func (p *Producer) leaderOf(pid int32, refresh bool) (*Broker, error) {
 
 // getSimpleProducer return the simple producer. if key is nil, return the current simple producer
 func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
-	p.lock.Lock()
-	defer p.lock.Unlock()
-
 	if key == nil {
+		p.currentLock.Lock()
+		defer p.currentLock.Unlock()
 		return p.currentProducer, nil
 	}
 
+	p.lock.Lock()
+	defer p.lock.Unlock()
+
 	partitionID := int32(murmur.MurmurHash2(key, 0) % uint32(len(p.topicMeta.PartitionMetadatas)))
 
 	if sp, ok := p.pidToSimpleProducers[partitionID]; ok {
-- 
2.43.0


From 6749a903f86342d4bc1ccf2c38349ddde0b0992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:38 +0000
Subject: [PATCH 17/72] fix: closing a producer ends its metadata refresh,
 refuses further messages and closes all its connections

---
 producer.go        | 42 ++++++++++++++++++++++++++++++++++++++----
 simple_producer.go |  4 ++++
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/producer.go b/producer.go
index 0fcd960..0d265c9 100644
--- a/producer.go
+++ b/producer.go
@@ -29,6 +29,9 @@ type Producer struct {
 	currentLock          sync.Mutex // guards currentProducer, taken before lock
 	lock                 sync.Mutex
 
+	closed    bool
+	closeChan chan struct{}
+
 	ctx context.Context
 }
 
@@ -47,6 +50,7 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 		topic:                topic,
 		pidToSimpleProducers: make(map[int32]*SimpleProducer),
 		leaderBrokersMapping: make(map[int32]*Broker),
+		closeChan:            make(chan struct{}),
 	}
 
 	brokerConfig := getBrokerConfigFromProducerConfig(&cfg)
@@ -68,10 +72,17 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 	}
 
 	go func() {
-		for range time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond).C {
-			err := p.updateCurrentSimpleProducer()
-			if err != nil {
-				logger.Error(err, "refresh simple producer failed", "topic", p.topic)
+		ticker := time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond)
+		defer ticker.Stop()
+		for {
+			select {
+			case <-ticker.C:
+				err := p.updateCurrentSimpleProducer()
+				if err != nil {
+					logger.Error(err, "refresh simple producer failed", "topic", p.topic)
+				}
+			case <-p.closeChan:
+				return
 			}
 		}
 	}()
@@ -133,6 +144,9 @@ func (p *Producer) replaceCurrentSimpleProducer(partitionID int32) (older *Simpl
 	p.lock.Lock()
 	defer p.lock.Unlock()
 
+	if p.closed {
+		return nil, ErrProducerClosed
+	}
 	sp, err := p.newSimpleProducer(partitionID)
 	if err != nil {
 		return nil, fmt.Errorf("change current simple producer to %s-%d error: %w", p.topic, partitionID, err)
@@ -216,6 +230,10 @@ func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
 	p.lock.Lock()
 	defer p.lock.Unlock()
 
+	if p.closed {
+		return nil, ErrProducerClosed
+	}
+
 	partitionID := int32(murmur.MurmurHash2(key, 0) % uint32(len(p.topicMeta.PartitionMetadatas)))
 
 	if sp, ok := p.pidToSimpleProducers[partitionID]; ok {
@@ -251,6 +269,19 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 
 // Close close all simple producers in the console producer
 func (p *Producer) Close() {
+	p.currentLock.Lock() // waits for a refresh of the current simple producer
+	defer p.currentLock.Unlock()
+
+	p.lock.Lock()
+	if p.closed {
+		p.lock.Unlock()
+		return
+	}
+	p.closed = true
+	close(p.closeChan)
+	p.lock.Unlock()
+
+	// the simple producers take the lock to send what they still hold
 	if p.currentProducer != nil {
 		p.currentProducer.Close()
 	}
@@ -258,7 +289,10 @@ func (p *Producer) Close() {
 		sp.Close()
 	}
 
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	for _, broker := range p.leaderBrokersMapping {
 		broker.Close()
 	}
+	p.brokers.Close()
 }
diff --git a/simple_producer.go b/simple_producer.go
index 0cef462..bc6a380 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -120,6 +120,7 @@ func NewSimpleProducer(ctx context.Context, topic string, partition int32, confi
 	// TODO wait to the next ticker to see if messageSet changes
 	go func() {
 		ticker := time.NewTicker(time.Duration(p.config.FlushIntervalMS) * time.Millisecond)
+		defer ticker.Stop()
 		for {
 			select {
 			case <-ticker.C:
@@ -281,6 +282,9 @@ func (p *SimpleProducer) Close() {
 		if p.parent == nil {
 			logger.Info("close connection to leader")
 			p.leader.Close()
+			if p.brokers != nil {
+				p.brokers.Close()
+			}
 		} else {
 			logger.Info("connection not closed here, parent will close it")
 		}
-- 
2.43.0


From e82c7ffaae714ad978c68ee4825f421eb763afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:20 +0000
Subject: [PATCH 18/72] fix: read the fields of a fetch response in full when
 the network splits them

---
 broker.go         | 10 ++++------
 fetch_response.go | 18 +++++++++---------
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/broker.go b/broker.go
index 1775b3a..41b7d6a 100644
--- a/broker.go
+++ b/broker.go
@@ -300,19 +300,17 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	io.Copy(broker.conn, bytes.NewBuffer(payload))
+	if _, err = io.Copy(broker.conn, bytes.NewBuffer(payload)); err != nil {
+		return nil, responseLength, err
+	}
 
 	responseLengthBuf := make([]byte, 4)
 	if timeout > 0 {
 		broker.conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
 	}
-	n, err := broker.conn.Read(responseLengthBuf)
-	if err != nil {
+	if _, err = io.ReadFull(broker.conn, responseLengthBuf); err != nil {
 		return nil, responseLength, err
 	}
-	if n != 4 {
-		return nil, responseLength, errShortRead
-	}
 
 	responseLength = binary.BigEndian.Uint32(responseLengthBuf)
 	logger.V(5).Info("got responseLength", "responseLength", responseLength)
diff --git a/fetch_response.go b/fetch_response.go
index fef9dfa..e9076d0 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -375,12 +375,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		}
 	}()
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 		return err
 	}
 	p.PartitionID = int32(binary.BigEndian.Uint32(buf))
 
-	if _, err = streamDecoder.Read(buf[:2]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:2]); err != nil {
 		return err
 	}
 	p.ErrorCode = int16(binary.BigEndian.Uint16(buf))
@@ -388,24 +388,24 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		return KafkaError(p.ErrorCode)
 	}
 
-	if _, err = streamDecoder.Read(buf[:8]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 		return err
 	}
 	// p.HighWatermark = int64(binary.BigEndian.Uint64(buf))
 
 	switch version {
 	case 7, 10:
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 			return err
 		}
 		// p.LastStableOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 			return err
 		}
 		// p.LogStartOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:4]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 			return err
 		}
 		abortedTransactionsCount := int32(binary.BigEndian.Uint32(buf))
@@ -415,12 +415,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 				FirstOffset int64
 			}, abortedTransactionsCount)
 			for i := 0; i < int(abortedTransactionsCount); i++ {
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 					return err
 				}
 				p.AbortedTransactions[i].ProducerID = int64(binary.BigEndian.Uint64(buf))
 
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 					return err
 				}
 				p.AbortedTransactions[i].FirstOffset = int64(binary.BigEndian.Uint64(buf))
@@ -428,7 +428,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		}
 	}
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 		return err
 	}
 	p.RecordBatchesSize = int32(binary.BigEndian.Uint32(buf))
-- 
2.43.0


From d2bb818121ba70ae1f652d4a771b5fa96e0063af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:46 +0000
Subject: [PATCH 19/72] fix: consume compressed messages of formats 0 and 1,
 and logs that mix formats

---
 fetch_response.go | 86 ++++++++++++++---------------------------------
 message.go        | 19 +++++++----
 2 files changed, 37 insertions(+), 68 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index e9076d0..e222b45 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -123,78 +123,42 @@ func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err
 		if err != nil {
 			return nil, fmt.Errorf("uncompress lz4 records error: %w", err)
 		}
+	default:
+		return nil, fmt.Errorf("unknown compression type %d", compress)
 	}
 	return uncompressedBytes, nil
 }
 
+// decode one message (offset(int64) message_size(int32) message), which may be a compressed wrapper of more messages.
+// the next one may have another format, so the caller looks at its magic byte again.
 func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topicName string, partitionID int32, magic int, header17 []byte) (offset int, err error) {
-	firstMessageSet := true
-	// value is the bytes of whole record consists of (offset(int64) message_size(int32) message)
-	var value []byte
-	for {
-		if firstMessageSet {
-			firstMessageSet = false
-
-			// messageSize doesn't include the size of messageSize itself.
-			messageSize := int(binary.BigEndian.Uint32(header17[8:]))
-			if messageSize < 6 {
-				return
-			}
-
-			// 12 is the size of offset(int64) & message_size(int32) in header17
-			value = make([]byte, 12+messageSize)
-			n, e := streamDecoder.Read(value[17:])
-			offset += n
-			if e != nil {
-				return offset, e
-			}
-
-			// remaining bytes is incomplete
-			if n < len(value)-17 {
-				return offset, err
-			}
-			copy(value, header17)
-		} else {
-			buf, n, err := streamDecoder.read(12)
-			offset += n
-			if err != nil {
-				return offset, err
-			}
-			if n < 12 {
-				return offset, err
-			}
-			messageSize := int(binary.BigEndian.Uint32(buf[8:]))
-			value = make([]byte, 12+messageSize)
-			n, err = streamDecoder.Read(value[12:])
-			offset += n
-			if err != nil {
-				return offset, err
-			}
+	// messageSize doesn't include the size of messageSize itself.
+	messageSize := int(binary.BigEndian.Uint32(header17[8:]))
+	if messageSize < 6 {
+		return
+	}
 
-			// remaining bytes is incomplete
-			if n < len(value)-17 {
-				return offset, err
-			}
-			copy(value, buf)
-		}
+	// value is the bytes of whole record. 12 is the size of offset(int64) & message_size(int32) in header17
+	value := make([]byte, 12+messageSize)
+	copy(value, header17)
+	n, err := io.ReadFull(streamDecoder, value[17:])
+	offset += n
+	if err != nil { // remaining bytes is incomplete
+		return offset, err
+	}
 
-		messageSet, err := DecodeToMessageSet(value)
+	messageSet, err := DecodeToMessageSet(value)
+	if err != nil {
+		return offset, err
+	}
 
-		if err != nil {
+	// TODO send each message to the channel directly?
+	for i := range messageSet {
+		if err = streamDecoder.filterAndPutMessage(messageSet[i], topicName, partitionID); err != nil {
 			return offset, err
 		}
-
-		if len(messageSet) == 0 {
-			return offset, nil
-		}
-
-		// TODO send each message to the channel directly?
-		for i := range messageSet {
-			if err = streamDecoder.filterAndPutMessage(messageSet[i], topicName, partitionID); err != nil {
-				return offset, err
-			}
-		}
 	}
+	return offset, nil
 }
 
 // decode one recordBatch which consists of multiple records
diff --git a/message.go b/message.go
index 5d1c319..17b5914 100644
--- a/message.go
+++ b/message.go
@@ -1,9 +1,9 @@
 package healer
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
-	"fmt"
 	"hash/crc32"
 )
 
@@ -38,12 +38,7 @@ type Message struct {
 type MessageSet []*Message
 
 func (message *Message) decompress() ([]byte, error) {
-	compression := CompressType(message.Attributes & 0b11)
-	compressor := NewCompressor(compression.String())
-	if compressor == nil {
-		return nil, fmt.Errorf("unknown Compression Type %s", compression)
-	}
-	return compressor.Compress(message.Value)
+	return uncompress(message.Attributes&0b111, bytes.NewReader(message.Value))
 }
 
 func (messageSet *MessageSet) Length() int {
@@ -175,6 +170,16 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 				// TODO go on to next message in the messageSet?
 				return messageSet, err
 			}
+			if message.MagicByte == 1 && len(_messageSet) > 0 {
+				// the messages inside have offsets relative to the first one, the wrapper has the offset of the last one
+				base := message.Offset - _messageSet[len(_messageSet)-1].Offset
+				for _, m := range _messageSet {
+					m.Offset += base
+					if message.Attributes&0b1000 != 0 { // log append time
+						m.Timestamp = message.Timestamp
+					}
+				}
+			}
 			messageSet = append(messageSet, _messageSet...)
 		} else {
 			messageSet = append(messageSet, message)
-- 
2.43.0


From 7ba603e7aba7b6908cecdf70773d63c23772160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:25 +0000
Subject: [PATCH 20/72] fix: tell null from empty in the key, value and headers
 of a consumed record

---
 record.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/record.go b/record.go
index 0c091c9..60521b5 100644
--- a/record.go
+++ b/record.go
@@ -22,8 +22,10 @@ func decodeHeader(payload []byte) (header RecordHeader, offset int) {
 
 	valueLength, o := binary.Varint(payload[offset:])
 	offset += o
-	header.Value = make([]byte, valueLength)
-	offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+	if valueLength >= 0 { // -1 is null
+		header.Value = make([]byte, valueLength)
+		offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+	}
 	return
 }
 
@@ -155,14 +157,14 @@ func DecodeToRecord(payload []byte) (record Record, offset int, err error) {
 	keyLength, o := binary.Varint(payload[offset:])
 	offset += o
 
-	if keyLength > 0 {
+	if keyLength >= 0 { // -1 is null
 		record.key = make([]byte, keyLength)
 		offset += copy(record.key, payload[offset:offset+int(keyLength)])
 	}
 
 	valueLen, o := binary.Varint(payload[offset:])
 	offset += o
-	if valueLen > 0 {
+	if valueLen >= 0 { // -1 is null
 		record.value = make([]byte, valueLen)
 		offset += copy(record.value, payload[offset:offset+int(valueLen)])
 	}
-- 
2.43.0


From 89329b56b757ed6c843ccb36ff9c6aa8c0ed5bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:02 +0000
Subject: [PATCH 21/72] fix: move past emptied and control batches and
 compacted batch tails, and read one fetch response to its end before the next
 request

---
 fetch_response.go  | 57 ++++++++++++++++++++++++++++------------------
 simple_consumer.go | 27 +++++++++++++++-------
 2 files changed, 54 insertions(+), 30 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index e222b45..0ad4136 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -55,6 +55,8 @@ type fetchResponseStreamDecoder struct {
 	startOffset int64
 
 	hasOneMessage bool
+
+	nextOffset int64 // the offset following the last batch that has been decoded completely
 }
 
 var errShortRead = errors.New("short read")
@@ -187,10 +189,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	// magic := buf[16]
 	// crc := binary.BigEndian.Uint32(buf[17:])
 	attributes := binary.BigEndian.Uint16(buf[21:])
-	compress := attributes & 0b11
-	// lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
+	compress := attributes & 0b111
+	logAppendTime := attributes&0b1000 != 0
+	control := attributes&0b100000 != 0
+	lastOffsetDelta := int32(binary.BigEndian.Uint32(buf[23:]))
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
-	// maxTimestamp := binary.BigEndian.Uint64(buf[35:])
+	maxTimestamp := binary.BigEndian.Uint64(buf[35:])
 	// producerID := binary.BigEndian.Uint64(buf[43:])
 	// producerEpoch := binary.BigEndian.Uint16(buf[51:])
 	// baseSequence := binary.BigEndian.Uint32(buf[53:])
@@ -203,18 +207,25 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	// 	"baseTimestamp", baseTimestamp, "maxTimestamp", maxTimestamp, "producerID", producerID, "producerEpoch",
 	// 	producerEpoch, "baseSequence", baseSequence, "count", count)
 
-	if count <= 0 {
-		return
-	}
-
-	r := io.LimitReader(streamDecoder, int64(batchLength)-49)
+	r := &io.LimitedReader{R: streamDecoder, N: int64(batchLength) - 49}
 	// set offset immediately because we have to skip the data even if uncompress error
 	offset += int(batchLength) - 49
+
+	// compaction leaves batches without records, and control batches hold none for the application
+	if count <= 0 || control {
+		io.Copy(io.Discard, r)
+		if r.N > 0 {
+			return offset, io.ErrUnexpectedEOF
+		}
+		streamDecoder.nextOffset = baseOffset + int64(lastOffsetDelta) + 1
+		return offset, nil
+	}
+
 	uncompressedBytes, err := uncompress(int8(compress), r)
+	io.Copy(io.Discard, r) // read all remaining compressed bytes, since lz4 reader may not read all bytes before raise error
 	if err != nil {
-		io.ReadAll(r) // read all remaining compressed bytes, since lz4 reader may not read all bytes before raise error
-		if streamDecoder.end() && streamDecoder.hasOneMessage {
-			return offset, nil
+		if r.N > 0 { // the batch is cut off
+			return offset, io.ErrUnexpectedEOF
 		}
 		return offset, fmt.Errorf("uncompress records bytes error: %w", err)
 	}
@@ -238,11 +249,18 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 			Value:      record.value,
 			Headers:    record.Headers,
 		}
+		if logAppendTime {
+			message.Timestamp = maxTimestamp
+		}
 		if err = streamDecoder.filterAndPutMessage(message, topicName, partitionID); err != nil {
 			return offset, err
 		}
 	}
 
+	if r.N <= 0 {
+		// the last offsets of the batch may have been removed by compaction
+		streamDecoder.nextOffset = baseOffset + int64(lastOffsetDelta) + 1
+	}
 	return offset, nil
 }
 
@@ -280,12 +298,12 @@ func (streamDecoder *fetchResponseStreamDecoder) putMessage(msg *FullMessage) er
 // that is, `Record Batch`,`Record Batch`,`Record Batch`...
 func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSet(topicName string, partitionID int32, messageSetSizeBytes int32, version uint16) (err error) {
 	defer func() {
-		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || err == &maxBytesTooSmall {
-			if streamDecoder.hasOneMessage {
-				err = nil
-			}
+		if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+			return
 		}
-		if !streamDecoder.hasOneMessage && err == nil {
+		if streamDecoder.hasOneMessage || streamDecoder.nextOffset > streamDecoder.startOffset {
+			err = nil
+		} else if streamDecoder.end() {
 			err = &maxBytesTooSmall
 		}
 	}()
@@ -333,12 +351,6 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		buf []byte = make([]byte, 8)
 	)
 
-	defer func() {
-		if errors.Is(err, io.EOF) {
-			err = &maxBytesTooSmall
-		}
-	}()
-
 	if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 		return err
 	}
@@ -474,6 +486,7 @@ func (streamDecoder *fetchResponseStreamDecoder) streamDecode(ctx context.Contex
 	streamDecoder.offset = 0
 	streamDecoder.startOffset = startOffset
 	streamDecoder.hasOneMessage = false
+	streamDecoder.nextOffset = 0
 
 	if err := streamDecoder.decodeHeader(streamDecoder.version); err != nil {
 		return err
diff --git a/simple_consumer.go b/simple_consumer.go
index 273af5b..459b3f4 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"sync"
 	"syscall"
@@ -412,7 +413,8 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 		r := NewFetchRequest(c.config.ClientID, c.config.FetchMaxWaitMS, c.config.FetchMinBytes)
 		r.addPartition(c.topic, c.partitionID, c.offset, c.config.FetchMaxBytes, c.partition.LeaderEpoch)
 
-		reader, responseLength, err := c.leaderBroker.requestFetchStreamingly(r)
+		leaderBroker := c.leaderBroker
+		reader, responseLength, err := leaderBroker.requestFetchStreamingly(r)
 		if err != nil {
 			if err == context.Canceled {
 				return
@@ -432,7 +434,9 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 		}
 
 		ctx, cancel := context.WithCancel(context.Background())
+		wg.Add(1)
 		go func() {
+			defer wg.Done()
 			if err := frsd.streamDecode(ctx, c.offset); err != nil {
 				if err == context.Canceled {
 					return
@@ -443,13 +447,16 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 		}()
 
 		// consume all messages from one fetch response
-		wg.Add(1)
-		go func() {
-			c.consumeMessages(innerMessages, messages)
-			cancel()
-			wg.Done()
-		}()
+		err = c.consumeMessages(innerMessages, messages)
+		cancel()
+		// the next fetch must not be sent before this response has been read to its end
 		wg.Wait()
+		if !frsd.end() && leaderBroker != nil {
+			leaderBroker.Close() // part of the response is still to come, or never will
+		}
+		if err == nil && frsd.nextOffset > c.offset {
+			c.offset = frsd.nextOffset
+		}
 	}
 }
 
@@ -470,7 +477,11 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 			if os.IsTimeout(message.Error) || errors.Is(message.Error, io.EOF) || errors.Is(message.Error, syscall.EPIPE) {
 				c.leaderBroker.Close()
 			} else if message.Error == &maxBytesTooSmall {
-				c.config.FetchMaxBytes *= 2
+				if c.config.FetchMaxBytes > math.MaxInt32/2 {
+					c.config.FetchMaxBytes = math.MaxInt32
+				} else {
+					c.config.FetchMaxBytes *= 2
+				}
 				logger.Info("fetch.max.bytes is too small, double it", "new FetchMaxBytes", c.config.FetchMaxBytes)
 			}
 			if errors.Is(message.Error, KafkaError(1)) {
-- 
2.43.0


From 3f0d757851e2e7cef25c5f60aadfac1b8a49b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:27 +0000
Subject: [PATCH 22/72] fix: no nil dereference when a consumer cannot connect
 to the partition's leader

---
 simple_consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 459b3f4..ec2b47c 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -169,7 +169,7 @@ func (c *SimpleConsumer) getLeaderBroker() error {
 	leaderBroker, err = c.brokers.NewBroker(leaderID)
 	if err != nil {
 		// FIXME refresh metadata
-		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID, "leaderAddress", c.brokers.brokers[leaderID].address)
+		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID)
 		return err
 	}
 
-- 
2.43.0


From cfb55b096f3028d6de4c4a06a2ab70e4bd181b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:32 +0000
Subject: [PATCH 23/72] fix: a consumer looks up the leader again after a
 failed fetch or offset request

---
 simple_consumer.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index ec2b47c..cc2957f 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -178,6 +178,22 @@ func (c *SimpleConsumer) getLeaderBroker() error {
 	return nil
 }
 
+// drop the current leader and look the leader up again until it is found
+func (c *SimpleConsumer) changeLeaderBroker() {
+	if c.leaderBroker != nil {
+		c.leaderBroker.Close()
+		c.leaderBroker = nil
+	}
+	for !c.stop {
+		if err := c.getLeaderBroker(); err != nil {
+			logger.Error(err, "failer to get leader", "topic", c.topic, "partitionID", c.partitionID)
+			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+		} else {
+			break
+		}
+	}
+}
+
 // init offset based on fromBeginning if not got commited offset
 func (c *SimpleConsumer) initOffset() {
 	logger.V(1).Info("init offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
@@ -197,6 +213,7 @@ func (c *SimpleConsumer) initOffset() {
 		if c.offset, err = c.getOffset(c.fromBeginning); err != nil {
 			logger.Error(err, "could not get offset", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+			c.changeLeaderBroker() // it may have moved
 		} else {
 			logger.Info("fetched offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 			break
@@ -421,6 +438,7 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 			}
 			logger.Error(err, "failed to fetch")
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+			c.changeLeaderBroker() // it may have moved
 			continue
 		}
 
@@ -490,16 +508,7 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 					logger.Error(err, "failed to get offset", "topic", c.topic, "partitionID", c.partitionID)
 				}
 			} else if errors.Is(message.Error, KafkaError(6)) {
-				c.leaderBroker.Close()
-				c.leaderBroker = nil
-				for !c.stop {
-					if err = c.getLeaderBroker(); err != nil {
-						logger.Error(err, "failer to get leader", "topic", c.topic, "partitionID", c.partitionID)
-						time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
-					} else {
-						break
-					}
-				}
+				c.changeLeaderBroker()
 			} else if errors.Is(message.Error, KafkaError(74)) {
 				c.refreshPartiton()
 			}
-- 
2.43.0


From 15789047414ec0b924bd283012be808ed8d2ccb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:07 +0000
Subject: [PATCH 24/72] fix: finding a leader does not panic when the metadata
 response has no topic

---
 brokers.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/brokers.go b/brokers.go
index 94e993f..57c83fc 100644
--- a/brokers.go
+++ b/brokers.go
@@ -301,12 +301,19 @@ func (brokers *Brokers) findLeader(clientID, topic string, partitionID int32) (i
 		return -1, fmt.Errorf("could not get metadata of topic %s: %w", topic, err)
 	}
 
-	partitionMetadatas := metadataResponse.TopicMetadatas[0].PartitionMetadatas
-	for _, partitionMetadata := range partitionMetadatas {
-		if partitionMetadata.PartitionID == partitionID {
-			return partitionMetadata.Leader, nil
+	for _, topicMetadata := range metadataResponse.TopicMetadatas {
+		if topicMetadata.TopicName != topic {
+			continue
+		}
+		for _, partitionMetadata := range topicMetadata.PartitionMetadatas {
+			if partitionMetadata.PartitionID == partitionID {
+				return partitionMetadata.Leader, nil
+			}
 		}
 	}
+	if err != nil {
+		return -1, fmt.Errorf("could not get metadata of topic %s: %w", topic, err)
+	}
 	return -1, fmt.Errorf("could not find out leader of topic %s", topic)
 }
 
-- 
2.43.0


From 9f19548cfba48d13462d73f3002fd056042ca974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:51 +0000
Subject: [PATCH 25/72] fix: reject a fetch response whose correlation id is
 not the request's

---
 broker.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/broker.go b/broker.go
index 41b7d6a..f20625d 100644
--- a/broker.go
+++ b/broker.go
@@ -304,21 +304,24 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 		return nil, responseLength, err
 	}
 
-	responseLengthBuf := make([]byte, 4)
+	responseHeader := make([]byte, 8) // length and correlationID
 	if timeout > 0 {
 		broker.conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
 	}
-	if _, err = io.ReadFull(broker.conn, responseLengthBuf); err != nil {
+	if _, err = io.ReadFull(broker.conn, responseHeader); err != nil {
 		return nil, responseLength, err
 	}
 
-	responseLength = binary.BigEndian.Uint32(responseLengthBuf)
+	responseLength = binary.BigEndian.Uint32(responseHeader)
 	logger.V(5).Info("got responseLength", "responseLength", responseLength)
+	if id := binary.BigEndian.Uint32(responseHeader[4:]); id != correlationID {
+		return nil, responseLength, fmt.Errorf("response of correlation id %d to request of correlation id %d", id, correlationID)
+	}
 
-	reader := &io.LimitedReader{
+	reader := io.MultiReader(bytes.NewReader(responseHeader[4:]), &io.LimitedReader{
 		R: broker.conn,
-		N: int64(responseLength),
-	}
+		N: int64(responseLength) - 4,
+	})
 	return reader, responseLength, nil
 }
 
-- 
2.43.0


From 695ed99662713dc55b6eddcde87f1634554a2cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:06 +0000
Subject: [PATCH 26/72] fix: an offset fetch response may carry null metadata

---
 offset_fetch_response.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/offset_fetch_response.go b/offset_fetch_response.go
index ba09b09..a8be5f3 100644
--- a/offset_fetch_response.go
+++ b/offset_fetch_response.go
@@ -72,10 +72,11 @@ func NewOffsetFetchResponse(payload []byte) (r OffsetFetchResponse, err error) {
 			offset += 4
 			p.Offset = int64(binary.BigEndian.Uint64(payload[offset:]))
 			offset += 8
-			l = int(binary.BigEndian.Uint16(payload[offset:]))
-			offset += 2
-			p.Metadata = string(payload[offset : offset+l])
-			offset += l
+			metadata, o := nullableString(payload[offset:])
+			offset += o
+			if metadata != nil {
+				p.Metadata = *metadata
+			}
 			p.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 			offset += 2
 
-- 
2.43.0


From 3dd1dcae0638941e00fb9cbb246c73f83fd41619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:04 +0000
Subject: [PATCH 27/72] fix: a position out of range is corrected to the
 earliest or latest offset as requested, also for committed and explicit ones

---
 simple_consumer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index cc2957f..5f4d18a 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -368,6 +368,14 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	c.messages = messages
 
 	c.offset = offset
+	switch offset { // where to go if the offset to start from is out of range
+	case -1:
+		c.fromBeginning = false
+	case -2:
+		c.fromBeginning = true
+	default:
+		c.fromBeginning = c.config.FromBeginning
+	}
 
 	logger.V(5).Info("start consume from offset (before fetch offset)", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 
@@ -503,10 +511,12 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 				logger.Info("fetch.max.bytes is too small, double it", "new FetchMaxBytes", c.config.FetchMaxBytes)
 			}
 			if errors.Is(message.Error, KafkaError(1)) {
-				c.offset, err = c.getOffset(c.fromBeginning)
+				offset, err := c.getOffset(c.fromBeginning)
 				if err != nil {
 					logger.Error(err, "failed to get offset", "topic", c.topic, "partitionID", c.partitionID)
+					return err
 				}
+				c.offset = offset
 			} else if errors.Is(message.Error, KafkaError(6)) {
 				c.changeLeaderBroker()
 			} else if errors.Is(message.Error, KafkaError(74)) {
-- 
2.43.0


From 39dd255c35e3dd1fe2d83d3edd37c53ee68d34dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:09 +0000
Subject: [PATCH 28/72] fix: looking up the committed offset follows the group
 to a new coordinator and ends when the consumer is stopped

---
 simple_consumer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 5f4d18a..9ef5503 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -263,11 +263,16 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 		coordinator = c.coordinator
 	}
 
-	for {
+	for !c.stop {
 		resp, err := coordinator.RequestAndGet(r)
 		if err != nil {
 			logger.Error(err, "failed to request fetch offset, sleep 500 ms", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(500 * time.Millisecond)
+			if err := c.getCoordinator(); err != nil { // the group may have moved to another coordinator
+				logger.Error(err, "failed to get coordinator")
+			} else {
+				coordinator = c.coordinator
+			}
 			continue
 		}
 
-- 
2.43.0


From 808dddbed40113b3353b2d2ed77cbe5ec0d11acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:14 +0000
Subject: [PATCH 29/72] fix: a consumer without group id does not ask for a
 group coordinator

---
 consumer.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/consumer.go b/consumer.go
index 9b72442..31b5ef7 100644
--- a/consumer.go
+++ b/consumer.go
@@ -107,15 +107,6 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 			simpleConsumer := NewSimpleConsumerWithBrokers(topicName, int32(p), c.config, c.brokers)
 			simpleConsumer.wg = &c.wg
 
-			for {
-				err := simpleConsumer.getCoordinator()
-				if err != nil {
-					logger.Error(err, "get coordinator failed")
-					time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
-					continue
-				}
-				break
-			}
 			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
 		}
 	}
-- 
2.43.0


From 39abc922e5eea565b42b2bc51e7a82a864b6d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:15 +0000
Subject: [PATCH 30/72] fix: commit the final position of a stopped consumer,
 after the last delivery and before its connections are closed

---
 simple_consumer.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 9ef5503..a513de3 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -28,6 +28,8 @@ type SimpleConsumer struct {
 	cancel        context.CancelFunc
 	stop          bool
 	consumeLoopWg sync.WaitGroup
+	commitLoopWg  sync.WaitGroup
+	autoCommit    bool // the position is committed automatically, the last time in Stop
 
 	fromBeginning  bool
 	offset         int64
@@ -305,6 +307,11 @@ func (c *SimpleConsumer) Stop() {
 
 	c.consumeLoopWg.Wait()
 
+	c.commitLoopWg.Wait()
+	if c.autoCommit { // nothing more is delivered, so this is the final position
+		c.CommitOffset()
+	}
+
 	if c.leaderBroker != nil {
 		c.leaderBroker.Close()
 	}
@@ -317,7 +324,7 @@ func (c *SimpleConsumer) Stop() {
 }
 
 // call this when simpleConsumer NOT belong to GroupConsumer, or call BelongTo.Commit()
-func (c *SimpleConsumer) commitOffset() bool {
+func (c *SimpleConsumer) commitOffset(offset int64) bool {
 	var apiVersion uint16
 	if c.config.OffsetsStorage == 1 {
 		apiVersion = 2
@@ -329,14 +336,14 @@ func (c *SimpleConsumer) commitOffset() bool {
 	offsetComimtReq.SetMemberID("")
 	offsetComimtReq.SetGenerationID(-1)
 	offsetComimtReq.SetRetentionTime(-1)
-	offsetComimtReq.AddPartiton(c.topic, c.partitionID, c.offset, "")
+	offsetComimtReq.AddPartiton(c.topic, c.partitionID, offset, "")
 
 	_, err := c.coordinator.RequestAndGet(offsetComimtReq)
 	if err == nil {
-		logger.V(3).Info("offset committed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+		logger.V(3).Info("offset committed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
 		return true
 	}
-	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
 	return false
 }
 
@@ -349,12 +356,15 @@ func (c *SimpleConsumer) CommitOffset() {
 		return
 	}
 	offset := c.offset
+	if offset < 0 { // the position is not known yet
+		return
+	}
 	if c.belongTO != nil {
 		if c.belongTO.commitOffset(c.topic, c.partitionID, offset) {
 			c.offsetCommited = offset
 		}
 	} else if c.config.GroupID != "" {
-		if c.commitOffset() {
+		if c.commitOffset(offset) {
 			c.offsetCommited = offset
 		}
 	}
@@ -408,7 +418,10 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	}
 
 	if c.config.AutoCommit && c.config.GroupID != "" {
+		c.autoCommit = true
+		c.commitLoopWg.Add(1)
 		go func() {
+			defer c.commitLoopWg.Done()
 			ticker := time.NewTicker(time.Millisecond * time.Duration(c.config.AutoCommitIntervalMS))
 			defer ticker.Stop()
 			for {
@@ -416,20 +429,19 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 				case <-ticker.C:
 					c.CommitOffset()
 				case <-c.ctx.Done():
-					c.CommitOffset()
 					return
 				}
 			}
 		}()
 	}
 
+	c.consumeLoopWg.Add(1)
 	go c.consumeLoop(messages)
 
 	return messages, nil
 }
 
 func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
-	c.consumeLoopWg.Add(1)
 	defer c.consumeLoopWg.Done()
 
 	defer logger.Info("consume loop exit", "topic", c.topic, "partitionID", c.partitionID)
-- 
2.43.0


From e28cdcac1c235583fb4414643409ad9aecb0b3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:31 +0000
Subject: [PATCH 31/72] fix: a failed offset commit is tried again at the
 group's current coordinator

---
 simple_consumer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simple_consumer.go b/simple_consumer.go
index a513de3..66a7464 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -339,6 +339,12 @@ func (c *SimpleConsumer) commitOffset(offset int64) bool {
 	offsetComimtReq.AddPartiton(c.topic, c.partitionID, offset, "")
 
 	_, err := c.coordinator.RequestAndGet(offsetComimtReq)
+	if err != nil { // the connection may be broken, or the group moved to another coordinator
+		logger.Error(err, "commit offset failed, find coordinator and try again", "GroupID", c.config.GroupID)
+		if err = c.getCoordinator(); err == nil {
+			_, err = c.coordinator.RequestAndGet(offsetComimtReq)
+		}
+	}
 	if err == nil {
 		logger.V(3).Info("offset committed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
 		return true
-- 
2.43.0


From f438f9d9fdaf24fa5680152d5db394e5c3692718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:07 +0000
Subject: [PATCH 32/72] fix: a failed offset commit is tried again when the new
 coordinator's connection is broken too

---
 simple_consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 66a7464..2bf0a3e 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -339,7 +339,7 @@ func (c *SimpleConsumer) commitOffset(offset int64) bool {
 	offsetComimtReq.AddPartiton(c.topic, c.partitionID, offset, "")
 
 	_, err := c.coordinator.RequestAndGet(offsetComimtReq)
-	if err != nil { // the connection may be broken, or the group moved to another coordinator
+	for i := 0; i < 2 && err != nil; i++ { // the connection may be broken, or the group moved to another coordinator
 		logger.Error(err, "commit offset failed, find coordinator and try again", "GroupID", c.config.GroupID)
 		if err = c.getCoordinator(); err == nil {
 			_, err = c.coordinator.RequestAndGet(offsetComimtReq)
-- 
2.43.0


From cd250b4df1ea15cdd32d55ba20c66fd7219c26de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:36 +0000
Subject: [PATCH 33/72] fix: assigning a topic that no member subscribes to
 divided by zero

---
 assign.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/assign.go b/assign.go
index d043cd1..5495a53 100644
--- a/assign.go
+++ b/assign.go
@@ -75,6 +75,9 @@ func (r *rangeAssignmentStrategy) Assign(members []Member, topicMetadatas []Topi
 				}
 			}
 		}
+		if len(membersWithTheTopic) == 0 {
+			continue
+		}
 		topicPartitionsAssignments[topicMetadata.TopicName] = r.assignPartitions(membersWithTheTopic, partitions)
 	}
 
-- 
2.43.0


From b21e7c9f7ad1d060edbf55527e94d5181bc00598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:33 +0000
Subject: [PATCH 34/72] fix: a failed leave group request panicked

---
 broker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index f20625d..53f1433 100644
--- a/broker.go
+++ b/broker.go
@@ -446,5 +446,8 @@ func (broker *Broker) requestHeartbeat(clientID, groupID string, generationID in
 func (broker *Broker) requestLeaveGroup(clientID, groupID string, memberID string) (r LeaveGroupResponse, err error) {
 	leaveReq := NewLeaveGroupRequest(clientID, groupID, memberID)
 	resp, err := broker.RequestAndGet(leaveReq)
-	return resp.(LeaveGroupResponse), err
+	if v, ok := resp.(LeaveGroupResponse); ok {
+		return v, err
+	}
+	return r, err
 }
-- 
2.43.0


From 8a9b222ee6fcfd4cae2d0aafccd8db3021c0f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:36 +0000
Subject: [PATCH 35/72] fix: closing a group consumer while it joins leaves the
 group, and starts and leaks nothing

---
 group_consumer.go  | 28 ++++++++++++++++++++++------
 simple_consumer.go | 36 +++++++++++++++++++++---------------
 2 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/group_consumer.go b/group_consumer.go
index 98c927a..9cf463c 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -153,16 +153,17 @@ func (c *GroupConsumer) parseGroupAssignments(memberAssignmentPayload []byte) er
 	b, _ := json.Marshal(memberAssignment)
 	logger.Info("parse memeber assignment", "assignment", b)
 	c.partitionAssignments = memberAssignment.PartitionAssignments
-	c.simpleConsumers = make([]*SimpleConsumer, 0)
+	simpleConsumers := make([]*SimpleConsumer, 0)
 
 	for _, partitionAssignment := range c.partitionAssignments {
 		for _, partitionID := range partitionAssignment.Partitions {
-			simpleConsumer := NewSimpleConsumerWithBrokers(partitionAssignment.Topic, partitionID, c.config, c.brokers)
+			simpleConsumer := newSimpleConsumerWithBrokers(partitionAssignment.Topic, partitionID, c.config, c.brokers)
 			simpleConsumer.belongTO = c
 			simpleConsumer.wg = &c.wg
-			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
+			simpleConsumers = append(simpleConsumers, simpleConsumer)
 		}
 	}
+	c.simpleConsumers = simpleConsumers
 
 	return nil
 }
@@ -377,7 +378,11 @@ func (c *GroupConsumer) stop() {
 	if c.simpleConsumers != nil {
 		for _, simpleConsumer := range c.simpleConsumers {
 			logger.Info("stop simple consumer", "topic", simpleConsumer.topic, "partitionID", simpleConsumer.partitionID)
-			simpleConsumer.Stop()
+			if c.joined {
+				simpleConsumer.Stop()
+			} else { // it has not been started
+				simpleConsumer.cancel()
+			}
 		}
 	}
 	c.simpleConsumers = nil
@@ -386,7 +391,7 @@ func (c *GroupConsumer) stop() {
 }
 
 func (c *GroupConsumer) leave() {
-	if !c.joined {
+	if c.memberID == "" {
 		logger.Info("not joined yet, leave directly")
 		return
 	}
@@ -516,10 +521,21 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 
 	select {
 	case <-c.closeChan:
-		return c.messages, nil
+		<-joinedChan
 	case <-joinedChan:
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	if c.closed {
+		for _, simpleConsumer := range c.simpleConsumers {
+			simpleConsumer.cancel()
+		}
+		c.simpleConsumers = nil
+		return c.messages, nil
+	}
+
 	c.joined = true
 
 	// consume
diff --git a/simple_consumer.go b/simple_consumer.go
index 2bf0a3e..c401fc8 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -48,6 +48,27 @@ func (c *SimpleConsumer) String() string {
 
 // NewSimpleConsumerWithBrokers create a simple consumer with existing brokers
 func NewSimpleConsumerWithBrokers(topic string, partitionID int32, config ConsumerConfig, brokers *Brokers) *SimpleConsumer {
+	c := newSimpleConsumerWithBrokers(topic, partitionID, config, brokers)
+
+	if config.GroupID != "" {
+		var err error
+		for {
+			err = c.getCoordinator()
+			if err != nil {
+				logger.Error(err, "failed to get coordinator")
+				time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+				continue
+			}
+			break
+		}
+	} else {
+		c.coordinator = nil
+	}
+
+	return c
+}
+
+func newSimpleConsumerWithBrokers(topic string, partitionID int32, config ConsumerConfig, brokers *Brokers) *SimpleConsumer {
 	c := &SimpleConsumer{
 		config:      config,
 		topic:       topic,
@@ -75,21 +96,6 @@ func NewSimpleConsumerWithBrokers(topic string, partitionID int32, config Consum
 		}
 	}()
 
-	if config.GroupID != "" {
-		var err error
-		for {
-			err = c.getCoordinator()
-			if err != nil {
-				logger.Error(err, "failed to get coordinator")
-				time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
-				continue
-			}
-			break
-		}
-	} else {
-		c.coordinator = nil
-	}
-
 	return c
 }
 
-- 
2.43.0


From 5d712b68e3831caf5b7b3d457738aff6ca29700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:17 +0000
Subject: [PATCH 36/72] fix: stop the partitions of a group consumer together,
 so that a rebalance does not outlast the session

---
 group_consumer.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/group_consumer.go b/group_consumer.go
index 9cf463c..19dd8e6 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -375,16 +375,20 @@ func (c *GroupConsumer) stop() {
 	defer c.mutex.Unlock()
 
 	logger.Info("stop group consumer", "GroupID", c.config.GroupID, "simpleConsumerCount", len(c.simpleConsumers))
-	if c.simpleConsumers != nil {
-		for _, simpleConsumer := range c.simpleConsumers {
-			logger.Info("stop simple consumer", "topic", simpleConsumer.topic, "partitionID", simpleConsumer.partitionID)
-			if c.joined {
+	var stopping sync.WaitGroup
+	for _, simpleConsumer := range c.simpleConsumers {
+		logger.Info("stop simple consumer", "topic", simpleConsumer.topic, "partitionID", simpleConsumer.partitionID)
+		if c.joined { // each of them waits for its fetch, do not let the waits add up
+			stopping.Add(1)
+			go func(simpleConsumer *SimpleConsumer) {
+				defer stopping.Done()
 				simpleConsumer.Stop()
-			} else { // it has not been started
-				simpleConsumer.cancel()
-			}
+			}(simpleConsumer)
+		} else { // it has not been started
+			simpleConsumer.cancel()
 		}
 	}
+	stopping.Wait()
 	c.simpleConsumers = nil
 
 	c.wg.Wait()
-- 
2.43.0


From 8152d695acb4fd9416e35ff3e996070dba46ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:32 +0000
Subject: [PATCH 37/72] fix: keep the broker connection when the broker answers
 with an error code

---
 broker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index 53f1433..9b97f3b 100644
--- a/broker.go
+++ b/broker.go
@@ -262,7 +262,10 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 
 	resp, err = rp.ReadAndParse()
 	if err != nil {
-		broker.Close()
+		var kafkaError KafkaError
+		if !errors.As(err, &kafkaError) { // an error code is an answer like others
+			broker.Close()
+		}
 		return nil, err
 	}
 	return resp, resp.Error()
-- 
2.43.0


From 4eace858b052b2d144b700044cdf3ca21f2ea0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:20 +0000
Subject: [PATCH 38/72] fix: send no tagged fields in DescribeAcls and
 CreateAcls requests below version 2

---
 create_acls_request.go   | 20 ++++++++++++++------
 describe_acls_request.go |  4 +++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/create_acls_request.go b/create_acls_request.go
index 180bef2..621b84c 100644
--- a/create_acls_request.go
+++ b/create_acls_request.go
@@ -60,7 +60,9 @@ func (a *AclCreation) encodeTo(payload []byte, version uint16, headerVersion uin
 	offset++
 	payload[offset] = uint8(a.PermissionType)
 	offset++
-	offset += copy(payload[offset:], a.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], a.TaggedFields.Encode())
+	}
 
 	return
 }
@@ -103,7 +105,9 @@ func (r *CreateAclsRequest) Encode(version uint16) (payload []byte) {
 	}
 
 	// Write the tag buffer
-	offset += copy(payload[offset:], r.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], r.TaggedFields.Encode())
+	}
 
 	return payload
 }
@@ -173,15 +177,19 @@ func DecodeCreateAclsRequest(payload []byte) (r CreateAclsRequest, err error) {
 		creation.PermissionType = AclsPermissionType(payload[offset])
 		offset++
 
-		creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if headerVersion >= 2 {
+			creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 
 		r.Creations[i] = *creation
 	}
 
 	// Decode TaggedFields
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if headerVersion >= 2 {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
diff --git a/describe_acls_request.go b/describe_acls_request.go
index 2fa0509..b77b6c5 100644
--- a/describe_acls_request.go
+++ b/describe_acls_request.go
@@ -58,7 +58,9 @@ func (r *DescribeAclsRequest) Encode(version uint16) (rst []byte) {
 
 	binary.Write(buf, binary.BigEndian, r.PermissionType)
 
-	buf.Write(r.DescribeAclsRequestBody.TaggedFields.Encode())
+	if version >= 2 {
+		buf.Write(r.DescribeAclsRequestBody.TaggedFields.Encode())
+	}
 
 	return buf.Bytes()
 }
-- 
2.43.0


From 91ec71527a79ed5d60ed1e6bc376d2657fe46b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:42 +0000
Subject: [PATCH 39/72] fix: request encodings: null assignments, buffer
 lengths, replaced assignments, cancelled reassignments

---
 alter_partition_reassignments_request.go |  6 +++++-
 create_partitions_request.go             | 11 ++++++++---
 create_topics_request.go                 |  8 ++++----
 delete_acls_request.go                   |  8 ++++++--
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/alter_partition_reassignments_request.go b/alter_partition_reassignments_request.go
index ba87d0f..d4f1098 100644
--- a/alter_partition_reassignments_request.go
+++ b/alter_partition_reassignments_request.go
@@ -134,7 +134,11 @@ func (r *AlterPartitionReassignmentsPartition) encode(payload []byte) (offset in
 	binary.BigEndian.PutUint32(payload[offset:], uint32(r.PartitionID))
 	offset += 4
 
-	offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Replicas)))
+	if r.Replicas == nil { // cancel a pending reassignment
+		offset += copy(payload[offset:], encodeCompactArrayLength(-1))
+	} else {
+		offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Replicas)))
+	}
 
 	for _, replica := range r.Replicas {
 		binary.BigEndian.PutUint32(payload[offset:], uint32(replica))
diff --git a/create_partitions_request.go b/create_partitions_request.go
index 2a522c0..183899a 100644
--- a/create_partitions_request.go
+++ b/create_partitions_request.go
@@ -84,7 +84,11 @@ func (r *createPartitionsRequestTopicBlock) encode(payload []byte, version uint1
 			offset += binary.PutUvarint(payload[offset:], 1+uint64(len(r.Assignments)))
 		}
 	case 0:
-		binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		count := int32(len(r.Assignments))
+		if r.Assignments == nil {
+			count = -1
+		}
+		binary.BigEndian.PutUint32(payload[offset:], uint32(count))
 		offset += 4
 	}
 	for _, assignment := range r.Assignments {
@@ -108,13 +112,14 @@ func (r *CreatePartitionsRequest) length(version uint16) (length int) {
 		for _, assignment := range topic.Assignments { // assignments
 			length += 4
 			length += 4 * len(assignment.BrokerIDs)
-			length++ // TAG_BUFFER
+			length += assignment.TaggedFields.length()
 		}
+		length += topic.TaggedFields.length()
 	}
 	length += 4 // timeout_ms
 	length++    // validate_only
 	if version == 2 {
-		length += 4 // TAG_BUFFER
+		length += r.TaggedFields.length()
 	}
 	return
 }
diff --git a/create_topics_request.go b/create_topics_request.go
index ee854e9..b079e3c 100644
--- a/create_topics_request.go
+++ b/create_topics_request.go
@@ -185,15 +185,15 @@ func (r *CreateTopicsRequest) AddReplicaAssignment(topic string, pid int32, repl
 
 	found = false
 	for _, ra := range rr.ReplicaAssignments {
-		if ra.Partition >= pid {
-			return errorPidOutOfRange
-		}
-
 		if ra.Partition == pid {
 			found = true
 			ra.Replicas = replicas
 			return nil
 		}
+
+		if ra.Partition > pid {
+			return errorPidOutOfRange
+		}
 	}
 
 	if !found {
diff --git a/delete_acls_request.go b/delete_acls_request.go
index f4e8213..7354d68 100644
--- a/delete_acls_request.go
+++ b/delete_acls_request.go
@@ -32,6 +32,7 @@ func (f *DeleteAclsFilter) length() (n int) {
 		n += len(*f.Host)
 	}
 	n += 1 // operation
+	n += 1 // permission type
 
 	n += f.TaggedFields.length()
 	return
@@ -97,6 +98,7 @@ func (r *DeleteAclsRequest) length() (n int) {
 	for _, filter := range r.Filters {
 		n += filter.length()
 	}
+	n += r.TaggedFields.length()
 	return n
 }
 
@@ -195,8 +197,10 @@ func DecodeDeleteAclsRequest(payload []byte) (*DeleteAclsRequest, error) {
 		f.PermissionType = AclsPermissionType(payload[offset])
 		offset++
 
-		f.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if r.RequestHeader.IsFlexible() {
+			f.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 
 		r.Filters[i] = f
 	}
-- 
2.43.0


From d39b2d4da1e81cc2d741c635dbf67ca657f8afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:35 +0000
Subject: [PATCH 40/72] fix: fetch request buffer is too small for several
 partitions of a topic

---
 fetch_request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fetch_request.go b/fetch_request.go
index 3855996..a3ee3e8 100644
--- a/fetch_request.go
+++ b/fetch_request.go
@@ -67,8 +67,8 @@ func (fetchRequest *FetchRequest) addPartition(topic string, partitionID int32,
 func (fetchRequest *FetchRequest) length(version uint16) int {
 	length := 4 + fetchRequest.RequestHeader.length()
 	length += 25 + 4 + 4
-	for topicname := range fetchRequest.Topics {
-		length += 2 + len(topicname) + 28
+	for topicname, partitionBlocks := range fetchRequest.Topics {
+		length += 2 + len(topicname) + 4 + len(partitionBlocks)*28
 	}
 	for topicname, partitionIDs := range fetchRequest.ForgottenTopicsDatas {
 		length += 2 + len(topicname) + 4 + len(partitionIDs)*4
-- 
2.43.0


From 09feff869ca608b412612c2a3a10041b64d9bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:31 +0000
Subject: [PATCH 41/72] fix: decode ACL responses as specified: throttle time,
 tagged fields only in flexible versions, null messages

---
 create_acls_response.go    | 11 +++++++++--
 delete_acls_response.go    | 25 ++++++++++++++++---------
 desscribe_acls_response.go |  4 ++--
 errorcode.go               |  8 ++++++++
 4 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/create_acls_response.go b/create_acls_response.go
index e7752fb..a27eb60 100644
--- a/create_acls_response.go
+++ b/create_acls_response.go
@@ -7,8 +7,9 @@ import (
 
 type CreateAclsResponse struct {
 	ResponseHeader
-	Results      []AclCreationResult
-	TaggedFields TaggedFields
+	ThrottleTimeMs int32
+	Results        []AclCreationResult
+	TaggedFields   TaggedFields
 }
 
 type AclCreationResult struct {
@@ -42,6 +43,9 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_CreateAcls, version)
 	offset += o
 
+	r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+	offset += 4
+
 	var resultCount int32
 	if r.ResponseHeader.IsFlexible() {
 		resultCount, o = compactArrayLength(payload[offset:])
@@ -85,6 +89,7 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 
 func (r *CreateAclsResponse) length() (n int) {
 	n += r.ResponseHeader.length()
+	n += 4 // throttle time
 	n += 4 // results count
 	for _, result := range r.Results {
 		n += 2 // error code
@@ -109,6 +114,8 @@ func (r *CreateAclsResponse) Encode() (payload []byte) {
 	}()
 
 	offset += r.ResponseHeader.EncodeTo(payload[offset:])
+	binary.BigEndian.PutUint32(payload[offset:], uint32(r.ThrottleTimeMs))
+	offset += 4
 	if r.ResponseHeader.IsFlexible() {
 		offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Results)))
 	} else {
diff --git a/delete_acls_response.go b/delete_acls_response.go
index 3eb39ca..cdddf68 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -126,12 +126,11 @@ type DeleteAclsResponse struct {
 func (r *DeleteAclsResponse) Error() (err error) {
 	for i := range r.FilterResults {
 		if r.FilterResults[i].ErrorCode != 0 {
-			return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].ErrorCode), *r.FilterResults[i].ErrorMessage)
+			return errorWithMessage(r.FilterResults[i].ErrorCode, r.FilterResults[i].ErrorMessage)
 		}
 		for j := range r.FilterResults[i].MatchingAcls {
 			if r.FilterResults[i].MatchingAcls[j].ErrorCode != 0 {
-				return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].MatchingAcls[j].ErrorCode),
-					*r.FilterResults[i].MatchingAcls[j].ErrorMessage)
+				return errorWithMessage(r.FilterResults[i].MatchingAcls[j].ErrorCode, r.FilterResults[i].MatchingAcls[j].ErrorMessage)
 			}
 		}
 	}
@@ -195,12 +194,16 @@ func DecodeDeleteAclsResponse(payload []byte, version uint16) (*DeleteAclsRespon
 			offset += o
 		}
 
-		r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if r.ResponseHeader.IsFlexible() {
+			r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 	}
 
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if r.ResponseHeader.IsFlexible() {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
@@ -243,9 +246,13 @@ func (r *DeleteAclsResponse) Encode() (payload []byte) {
 			buf.Write(m.encode(r.ResponseHeader.apiVersion, r.ResponseHeader.IsFlexible()))
 		}
 
-		buf.Write(fr.TaggedFields.Encode())
+		if r.ResponseHeader.IsFlexible() {
+			buf.Write(fr.TaggedFields.Encode())
+		}
 	}
 
-	buf.Write(r.TaggedFields.Encode())
+	if r.ResponseHeader.IsFlexible() {
+		buf.Write(r.TaggedFields.Encode())
+	}
 	return buf.Bytes()
 }
diff --git a/desscribe_acls_response.go b/desscribe_acls_response.go
index e8a9c3d..76acf7e 100644
--- a/desscribe_acls_response.go
+++ b/desscribe_acls_response.go
@@ -48,7 +48,7 @@ func NewDescribeAclsResponse(payload []byte, version uint16) (response DescribeA
 	response.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	if version >= 1 {
+	if version >= 2 {
 		_, o = DecodeTaggedFields(payload[offset:])
 		offset += o
 	}
@@ -181,7 +181,7 @@ func (r *DescribeAclsResponse) Encode(version uint16) (rst []byte, err error) {
 	binary.Write(buf, binary.BigEndian, uint32(0))
 
 	binary.Write(buf, binary.BigEndian, r.CorrelationID)
-	if version >= 1 {
+	if version >= 2 {
 		buf.Write(r.TaggedFields.Encode())
 	}
 	binary.Write(buf, binary.BigEndian, r.ThrottleTimeMs)
diff --git a/errorcode.go b/errorcode.go
index d17df81..28ca5ae 100644
--- a/errorcode.go
+++ b/errorcode.go
@@ -42,6 +42,14 @@ func getErrorFromErrorCode(errorcode int16) error {
 	return fmt.Errorf("unknown error code:%d", errorcode)
 }
 
+// errorWithMessage adds the message of the broker, if there is one, to the error of the code
+func errorWithMessage(errorcode int16, message *string) error {
+	if message == nil {
+		return KafkaError(errorcode)
+	}
+	return fmt.Errorf("%w: %s", KafkaError(errorcode), *message)
+}
+
 func init() {
 	AllError[-1] = &Error{
 		ErrorCode: -1,
-- 
2.43.0


From 504dc7fe5e08a776113ed5befe853f86da2f9221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:49 +0000
Subject: [PATCH 42/72] fix: decode partition and reassignment responses with
 tagged fields and null messages

---
 alter_partition_reassignments_response.go |  8 ++++----
 create_partitions_response.go             | 20 ++++++++++++--------
 list_partition_reassignments_response.go  | 12 ++++++------
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/alter_partition_reassignments_response.go b/alter_partition_reassignments_response.go
index 42162fe..2902352 100644
--- a/alter_partition_reassignments_response.go
+++ b/alter_partition_reassignments_response.go
@@ -19,12 +19,12 @@ type AlterPartitionReassignmentsResponse struct {
 
 func (r *AlterPartitionReassignmentsResponse) Error() error {
 	if r.ErrorCode != 0 {
-		return fmt.Errorf("%w: %s", KafkaError(r.ErrorCode), *r.ErrorMsg)
+		return errorWithMessage(r.ErrorCode, r.ErrorMsg)
 	}
 	for _, t := range r.Responses {
 		for _, p := range t.Partitions {
 			if p.ErrorCode != 0 {
-				return fmt.Errorf("%w: %s", KafkaError(p.ErrorCode), *p.ErrorMsg)
+				return errorWithMessage(p.ErrorCode, p.ErrorMsg)
 			}
 		}
 	}
@@ -152,8 +152,8 @@ func NewAlterPartitionReassignmentsResponse(payload []byte, version uint16) (*Al
 
 			partitionCount, o := compactArrayLength(payload[offset:])
 			offset += o
-			if partitionCount <= 0 {
-				topic.Partitions = nil
+			if partitionCount < 0 {
+				partitionCount = 0
 			}
 
 			topic.Partitions = make([]*alterPartitionReassignmentsResponseTopicPartition, partitionCount)
diff --git a/create_partitions_response.go b/create_partitions_response.go
index 4861514..294c986 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -24,7 +24,7 @@ type createPartitionsResponseResultBlock struct {
 func (r CreatePartitionsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
-			return fmt.Errorf("create partitions error(%d): %s: %w", result.ErrorCode, *result.ErrorMessage, KafkaError(result.ErrorCode))
+			return fmt.Errorf("create partitions error(%d): %w", result.ErrorCode, errorWithMessage(result.ErrorCode, result.ErrorMessage))
 		}
 	}
 	return nil
@@ -44,9 +44,9 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 
 	r.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
-	if version == 2 {
-		// TAG_BUFFER
-		offset++
+	if version >= 2 {
+		_, o := DecodeTaggedFields(payload[offset:])
+		offset += o
 	}
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
@@ -89,11 +89,15 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 			offset += o
 			r.Results[i].ErrorMessage = msg
 		}
-		// TAG_BUFFER
-		offset++
+		if version >= 2 {
+			_, o := DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
+	}
+	if version >= 2 {
+		_, o := DecodeTaggedFields(payload[offset:])
+		offset += o
 	}
-	// TAG_BUFFER
-	offset++
 
 	return
 }
diff --git a/list_partition_reassignments_response.go b/list_partition_reassignments_response.go
index de1e77a..bd05ac5 100644
--- a/list_partition_reassignments_response.go
+++ b/list_partition_reassignments_response.go
@@ -37,7 +37,7 @@ func decodeToListPartitionReassignmentsTopicBlock(payload []byte) (r listPartiti
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 
 	return
@@ -85,7 +85,7 @@ func decodeToListPartitionReassignmentsPartitionBlock(payload []byte) (r listPar
 			offset += 4
 		}
 	}
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 	return
 }
@@ -108,15 +108,15 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
+	_, o := DecodeTaggedFields(payload[offset:]) // of the response header
+	offset += o
+
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	offset++ // I do not know what this byte means, always 0x01 , additonal byte after ErrorMessage and before Topics
-
-	var o int
 	r.ErrorMessage, o = compactNullableString(payload[offset:])
 	offset += o
 
@@ -132,7 +132,7 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 
 	return r, err
-- 
2.43.0


From 4df93cd3a59904b42194a1a524fc1fe7f379ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:09 +0000
Subject: [PATCH 43/72] fix: null and non-null strings in metadata, describe
 configs and alter configs responses

---
 alter_config_response.go     |  8 +++++---
 describe_configs_response.go | 16 ++++++----------
 metadata_response.go         |  8 +++++---
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/alter_config_response.go b/alter_config_response.go
index 69d3167..7a85425 100644
--- a/alter_config_response.go
+++ b/alter_config_response.go
@@ -32,10 +32,12 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	l := int(binary.BigEndian.Uint16(payload[offset:]))
+	l := int(int16(binary.BigEndian.Uint16(payload[offset:])))
 	offset += 2
-	r.ErrorMessage = string(payload[offset : offset+l])
-	offset += l
+	if l > 0 {
+		r.ErrorMessage = string(payload[offset : offset+l])
+		offset += l
+	}
 
 	r.ResourceType = payload[offset]
 	offset++
diff --git a/describe_configs_response.go b/describe_configs_response.go
index dbd4db5..36502e7 100644
--- a/describe_configs_response.go
+++ b/describe_configs_response.go
@@ -15,7 +15,7 @@ type DescribeConfigsResponse struct {
 func (r DescribeConfigsResponse) Error() error {
 	for _, resource := range r.Resources {
 		if resource.ErrorCode != 0 {
-			return fmt.Errorf("describe configs failed: %s", KafkaError(resource.ErrorCode))
+			return fmt.Errorf("describe configs failed: %w", KafkaError(resource.ErrorCode))
 		}
 	}
 	return nil
@@ -35,15 +35,11 @@ func decodeToDescribeConfigsResponseResource(payload []byte) (r describeConfigsR
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	if r.ErrorCode != 0 {
-		l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
-		offset += 2
-		if l > 0 {
-			r.ErrorMessage = string(payload[offset : offset+l])
-			offset += l
-		}
-	} else {
-		offset += 2
+	l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
+	offset += 2
+	if l > 0 {
+		r.ErrorMessage = string(payload[offset : offset+l])
+		offset += l
 	}
 
 	r.ResourceType = uint8(payload[offset])
diff --git a/metadata_response.go b/metadata_response.go
index 46b7e8a..976ce73 100644
--- a/metadata_response.go
+++ b/metadata_response.go
@@ -176,9 +176,11 @@ func NewMetadataResponse(payload []byte, version uint16) (r MetadataResponse, er
 	}
 
 	if version >= 4 {
-		l := int(binary.BigEndian.Uint16(payload[offset:]))
-		r.ClusterID = string(payload[offset : offset+l])
-		offset += 2 + l
+		clusterID, o := nullableString(payload[offset:])
+		if clusterID != nil {
+			r.ClusterID = *clusterID
+		}
+		offset += o
 	}
 	// ControllerID
 	r.ControllerID = int32(binary.BigEndian.Uint32(payload[offset:]))
-- 
2.43.0


From e4b6b9c0c3f2671200746490219ba1b5889c242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:46 +0000
Subject: [PATCH 44/72] fix: member metadata and assignments in describe
 groups, user data in member assignments

---
 describe_groups_response.go |  6 +++++-
 group.go                    | 23 ++++++++++++++++-------
 primitive_types_decode.go   | 13 +++++++++++++
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/describe_groups_response.go b/describe_groups_response.go
index 3398e07..73d4dbe 100644
--- a/describe_groups_response.go
+++ b/describe_groups_response.go
@@ -109,6 +109,7 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 
 			l = int(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
+			group.Members[i].MemberMetadata = make([]byte, l)
 			copy(group.Members[i].MemberMetadata, payload[offset:offset+l])
 			offset += l
 
@@ -116,7 +117,10 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 			offset += 4
 			group.Members[i].RawMemberAssignment = make([]byte, l)
 			copy(group.Members[i].RawMemberAssignment, payload[offset:offset+l])
-			group.Members[i].MemberAssignment, err = NewMemberAssignment(group.Members[i].RawMemberAssignment)
+			// the assignment is empty until the group is stable, and opaque if this is not a consumer group
+			if memberAssignment, err := NewMemberAssignment(group.Members[i].RawMemberAssignment); err == nil {
+				group.Members[i].MemberAssignment = memberAssignment
+			}
 			offset += l
 		}
 
diff --git a/group.go b/group.go
index 87debf1..e3ed4dc 100644
--- a/group.go
+++ b/group.go
@@ -1,6 +1,9 @@
 package healer
 
-import "encoding/binary"
+import (
+	"encoding/binary"
+	"fmt"
+)
 
 type PartitionAssignment struct {
 	Topic      string
@@ -49,16 +52,23 @@ func (memberAssignment *MemberAssignment) Encode() []byte {
 			offset += 4
 		}
 	}
+	binary.BigEndian.PutUint32(payload[offset:], uint32(len(memberAssignment.UserData)))
+	offset += 4
 	copy(payload[offset:], memberAssignment.UserData)
 
 	return payload
 }
 
-func NewMemberAssignment(payload []byte) (*MemberAssignment, error) {
+func NewMemberAssignment(payload []byte) (r *MemberAssignment, err error) {
 	if len(payload) == 0 {
 		return nil, &emptyPayload
 	}
-	r := &MemberAssignment{}
+	defer func() {
+		if e := recover(); e != nil {
+			r, err = nil, fmt.Errorf("malformed member assignment: %v", e)
+		}
+	}()
+	r = &MemberAssignment{}
 	var (
 		offset int   = 0
 		count  int32 = 0
@@ -67,7 +77,7 @@ func NewMemberAssignment(payload []byte) (*MemberAssignment, error) {
 	r.Version = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	count = int32(binary.BigEndian.Uint32(payload[offset:]))
+	count = int32(arrayLength(payload[offset:]))
 	offset += 4
 	r.PartitionAssignments = make([]*PartitionAssignment, count)
 
@@ -78,7 +88,7 @@ func NewMemberAssignment(payload []byte) (*MemberAssignment, error) {
 		r.PartitionAssignments[i].Topic = string(payload[offset : offset+topicLength])
 		offset += topicLength
 
-		count := int(binary.BigEndian.Uint32(payload[offset:]))
+		count := arrayLength(payload[offset:])
 		offset += 4
 		r.PartitionAssignments[i].Partitions = make([]int32, count)
 		for j := 0; j < count; j++ {
@@ -93,8 +103,7 @@ func NewMemberAssignment(payload []byte) (*MemberAssignment, error) {
 		return r, nil
 	}
 	offset += 4
-	r.UserData = make([]byte, count)
-	copy(r.UserData, payload[offset:])
+	r.UserData = append([]byte{}, payload[offset:offset+int(count)]...)
 
 	return r, nil
 }
diff --git a/primitive_types_decode.go b/primitive_types_decode.go
index b712328..6ed0c01 100644
--- a/primitive_types_decode.go
+++ b/primitive_types_decode.go
@@ -8,6 +8,19 @@ some types, such as boolean or int32, are easy to be decoded. I don't write them
 I only write the types that are not easy to be decoded, including COMPACT_STRING and COMPACT_BYTES etc.
 ***/
 
+// arrayLength returns the number of elements of an array, which is given as an INT32. -1, a null array, counts as none.
+// An element takes at least one byte: it panics, as reading out of range does, if there are more elements than bytes.
+func arrayLength(payload []byte) int {
+	length := int(int32(binary.BigEndian.Uint32(payload)))
+	if length < 0 {
+		return 0
+	}
+	if length > len(payload)-4 {
+		panic(errShortRead)
+	}
+	return length
+}
+
 func nonnullableString(payload []byte) (r string, offset int) {
 	l := int(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
-- 
2.43.0


From 0e3c36de017ef450e58a818ad3f51959da2af47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:01 +0000
Subject: [PATCH 45/72] fix: error code of SASL handshake and list groups
 responses, correlation id and null arrays of log dirs

---
 describe_logdirs_response.go  | 8 ++++----
 list_groups_response.go       | 2 +-
 sasl_authenticate_response.go | 3 +--
 sasl_handshake_response.go    | 2 +-
 4 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/describe_logdirs_response.go b/describe_logdirs_response.go
index b30bdf3..7c5d535 100644
--- a/describe_logdirs_response.go
+++ b/describe_logdirs_response.go
@@ -38,7 +38,7 @@ func decodeToDescribeLogDirsResponseTopic(payload []byte, version uint16) (r Des
 	r.TopicName = string(payload[offset : offset+l])
 	offset += l
 
-	numPartitions := int(binary.BigEndian.Uint32(payload[offset:]))
+	numPartitions := int(int32(binary.BigEndian.Uint32(payload[offset:])))
 	offset += 4
 	if numPartitions == -1 {
 		r.Partitions = nil
@@ -95,13 +95,13 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 	}
 	offset += 4
 
-	r.CoordinatorID = binary.BigEndian.Uint32(payload)
+	r.CoordinatorID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	numResults := int(binary.BigEndian.Uint32(payload[offset:]))
+	numResults := int(int32(binary.BigEndian.Uint32(payload[offset:])))
 	offset += 4
 	if numResults == -1 {
 		r.Results = nil
@@ -124,7 +124,7 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 		r.Results[i].LogDir = string(payload[offset : offset+l])
 		offset += l
 
-		numTopics := int(binary.BigEndian.Uint32(payload[offset:]))
+		numTopics := int(int32(binary.BigEndian.Uint32(payload[offset:])))
 		offset += 4
 		if numTopics == -1 {
 			r.Results[i].Topics = nil
diff --git a/list_groups_response.go b/list_groups_response.go
index 000ad86..5c03adb 100644
--- a/list_groups_response.go
+++ b/list_groups_response.go
@@ -25,7 +25,7 @@ type ListGroupsResponse struct {
 }
 
 func (r *ListGroupsResponse) Error() error {
-	return nil
+	return getErrorFromErrorCode(int16(r.ErrorCode))
 }
 
 func (g *Group) tags() (fieldsVersions map[string]uint16) {
diff --git a/sasl_authenticate_response.go b/sasl_authenticate_response.go
index 38779e8..e983090 100644
--- a/sasl_authenticate_response.go
+++ b/sasl_authenticate_response.go
@@ -42,8 +42,7 @@ func NewSaslAuthenticateResponse(payload []byte) (r SaslAuthenticateResponse, er
 
 	l = int(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
-	r.SaslAuthBytes = make([]byte, l)
-	copy(r.SaslAuthBytes, payload[offset:])
+	r.SaslAuthBytes = append([]byte{}, payload[offset:offset+l]...)
 
 	return r, err
 }
diff --git a/sasl_handshake_response.go b/sasl_handshake_response.go
index ad222f8..97a3f2d 100644
--- a/sasl_handshake_response.go
+++ b/sasl_handshake_response.go
@@ -32,7 +32,7 @@ func NewSaslHandshakeResponse(payload []byte) (r SaslHandshakeResponse, err erro
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	r.ErrorCode = int16(uint16(binary.BigEndian.Uint32(payload[offset:])))
+	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 	if r.ErrorCode != 0 {
 		err = KafkaError(r.ErrorCode)
-- 
2.43.0


From 4ba5ea5460e97712df282d02e1acf976d8d39d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:22 +0000
Subject: [PATCH 46/72] fix: alter configs responses with several resources
 repeated the first one

---
 alter_config_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alter_config_response.go b/alter_config_response.go
index 7a85425..b5464f5 100644
--- a/alter_config_response.go
+++ b/alter_config_response.go
@@ -46,7 +46,7 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	offset += 2
 	r.ResourceName = string(payload[offset : offset+l])
 	offset += l
-	return
+	return offset
 }
 
 func NewAlterConfigsResponse(payload []byte) (r AlterConfigsResponse, err error) {
-- 
2.43.0


From f4cd9aded851d04bb503303790a5462b4573bf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:35 +0000
Subject: [PATCH 47/72] fix: incremental alter configs responses with several
 resources repeated the first one

---
 incremental_alter_config_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_alter_config_response.go b/incremental_alter_config_response.go
index c78f3c0..2defbb8 100644
--- a/incremental_alter_config_response.go
+++ b/incremental_alter_config_response.go
@@ -50,7 +50,7 @@ func decodeToIncrementalAlterConfigsResponseResource(payload []byte, version uin
 		r.ResourceName = string(payload[offset : offset+int(l)])
 		offset += int(l)
 	}
-	return
+	return r, offset
 }
 
 // NewIncrementalAlterConfigsResponse create a new IncrementalAlterConfigsResponse.
-- 
2.43.0


From 69866cb1884655e8293ab03c6928b04162dd7628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:43 +0000
Subject: [PATCH 48/72] fix: the header version of a request sent again follows
 the version it is sent in

---
 request.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/request.go b/request.go
index 7a94b44..5d15274 100644
--- a/request.go
+++ b/request.go
@@ -60,7 +60,6 @@ var availableVersions map[uint16][]uint16 = map[uint16][]uint16{
 
 // RequestHeader is the request header, which is used in all requests. It contains apiKey, apiVersion, correlationID, clientID
 type RequestHeader struct {
-	hv            *uint16 // header version
 	APIKey        uint16
 	APIVersion    uint16
 	CorrelationID uint32
@@ -216,13 +215,6 @@ func (h *RequestHeader) IsFlexible() bool {
 // The new serialization types start with compact.
 // For example COMPACT_STRING is a more efficient form of STRING.
 func (h *RequestHeader) headerVersion() (r uint16) {
-	if h.hv != nil {
-		return *h.hv
-	}
-	defer func() {
-		h.hv = &r
-	}()
-
 	_version := h.APIVersion
 	switch h.APIKey {
 	case 0: // Produce
-- 
2.43.0


From 845feb7c3f846b0052f0cfd809f114de8e967b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:32 +0000
Subject: [PATCH 49/72] fix: malformed responses panicked or allocated as much
 as their counts said

---
 alter_config_response.go             |  2 +-
 apiversions_response.go              |  4 +--
 create_acls_response.go              |  2 +-
 create_partitions_response.go        |  2 +-
 create_topics_response.go            |  2 +-
 delete_acls_response.go              |  4 +--
 delete_groups_response.go            |  4 +--
 delete_topics_response.go            |  4 +--
 describe_configs_response.go         |  4 +--
 describe_groups_response.go          |  8 +++---
 describe_logdirs_response.go         | 43 ++++------------------------
 desscribe_acls_response.go           | 10 +++----
 elect_leaders_response.go            |  4 +--
 incremental_alter_config_response.go |  2 +-
 joingroup_response.go                |  4 +--
 list_groups_response.go              |  2 +-
 metadata_response.go                 | 22 +++++++-------
 offset_commit_response.go            |  4 +--
 offset_fetch_response.go             |  4 +--
 offset_response.go                   |  6 ++--
 primitive_types_decode.go            | 22 ++++++++++----
 produce_response.go                  |  6 ++--
 response.go                          | 39 +++++++++++++------------
 sasl_handshake_response.go           |  2 +-
 sync_group_response.go               |  2 +-
 tagged_fields.go                     |  6 ++--
 26 files changed, 98 insertions(+), 116 deletions(-)

diff --git a/alter_config_response.go b/alter_config_response.go
index b5464f5..a548ada 100644
--- a/alter_config_response.go
+++ b/alter_config_response.go
@@ -65,7 +65,7 @@ func NewAlterConfigsResponse(payload []byte) (r AlterConfigsResponse, err error)
 	r.ThrottleTimeMS = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	count := binary.BigEndian.Uint32(payload[offset:])
+	count := arrayLength(payload[offset:])
 	offset += 4
 
 	r.Resources = make([]AlterConfigsResponseResource, count)
diff --git a/apiversions_response.go b/apiversions_response.go
index 8ff46f2..3da0d94 100644
--- a/apiversions_response.go
+++ b/apiversions_response.go
@@ -168,11 +168,11 @@ func newAPIVersionsResponse(payload []byte) (r APIVersionsResponse, err error) {
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	apiVersionsCount := binary.BigEndian.Uint32(payload[offset:])
+	apiVersionsCount := arrayLength(payload[offset:])
 	offset += 4
 	r.APIVersions = make([]APIVersion, apiVersionsCount)
 
-	for i := uint32(0); i < apiVersionsCount; i++ {
+	for i := 0; i < apiVersionsCount; i++ {
 		apiVersion := APIVersion{}
 		apiVersion.apiKey = ApiKey(binary.BigEndian.Uint16(payload[offset:]))
 		offset += 2
diff --git a/create_acls_response.go b/create_acls_response.go
index a27eb60..b7ac732 100644
--- a/create_acls_response.go
+++ b/create_acls_response.go
@@ -51,7 +51,7 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 		resultCount, o = compactArrayLength(payload[offset:])
 		offset += o
 	} else {
-		resultCount = int32(binary.BigEndian.Uint32(payload[offset:]))
+		resultCount = int32(arrayLength(payload[offset:]))
 		offset += 4
 	}
 
diff --git a/create_partitions_response.go b/create_partitions_response.go
index 294c986..6b07422 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -58,7 +58,7 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 		offset += o
 		blockCount = int(_blockCount)
 	} else {
-		blockCount = int(binary.BigEndian.Uint32(payload[offset:]))
+		blockCount = arrayLength(payload[offset:])
 		offset += 4
 	}
 
diff --git a/create_topics_response.go b/create_topics_response.go
index 8c1c4d8..4cb19d5 100644
--- a/create_topics_response.go
+++ b/create_topics_response.go
@@ -41,7 +41,7 @@ func NewCreateTopicsResponse(payload []byte) (r CreateTopicsResponse, err error)
 	r.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	count := int32(binary.BigEndian.Uint32(payload[offset:]))
+	count := arrayLength(payload[offset:])
 	offset += 4
 
 	r.TopicErrors = make([]TopicError, count)
diff --git a/delete_acls_response.go b/delete_acls_response.go
index cdddf68..822d528 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -161,7 +161,7 @@ func DecodeDeleteAclsResponse(payload []byte, version uint16) (*DeleteAclsRespon
 		offset += o
 		r.FilterResults = make([]DeleteAclsFilterResult, filterCount)
 	} else {
-		filterCount := int32(binary.BigEndian.Uint32(payload[offset:]))
+		filterCount := arrayLength(payload[offset:])
 		offset += 4
 		r.FilterResults = make([]DeleteAclsFilterResult, filterCount)
 	}
@@ -183,7 +183,7 @@ func DecodeDeleteAclsResponse(payload []byte, version uint16) (*DeleteAclsRespon
 			offset += o
 			r.FilterResults[i].MatchingAcls = make([]DeleteAclsMatchingAcl, matchingAclCount)
 		} else {
-			matchingAclCount := int32(binary.BigEndian.Uint32(payload[offset:]))
+			matchingAclCount := arrayLength(payload[offset:])
 			offset += 4
 			r.FilterResults[i].MatchingAcls = make([]DeleteAclsMatchingAcl, matchingAclCount)
 		}
diff --git a/delete_groups_response.go b/delete_groups_response.go
index df9b6d6..b462d5e 100644
--- a/delete_groups_response.go
+++ b/delete_groups_response.go
@@ -40,14 +40,14 @@ func NewDeleteGroupsResponse(payload []byte) (r DeleteGroupsResponse, err error)
 	r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	count := (binary.BigEndian.Uint32(payload[offset:]))
+	count := arrayLength(payload[offset:])
 	r.Results = make([]struct {
 		GroupID   string `json:"group_id"`
 		ErrorCode int16  `json:"error_code"`
 	}, count)
 	offset += 4
 
-	for i := uint32(0); i < count; i++ {
+	for i := 0; i < count; i++ {
 		groupIDLength := int(binary.BigEndian.Uint16(payload[offset:]))
 		offset += 2
 
diff --git a/delete_topics_response.go b/delete_topics_response.go
index b73a2d3..ea38f30 100644
--- a/delete_topics_response.go
+++ b/delete_topics_response.go
@@ -42,14 +42,14 @@ func NewDeleteTopicsResponse(payload []byte, version uint16) (r DeleteTopicsResp
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	count := (binary.BigEndian.Uint32(payload[offset:]))
+	count := arrayLength(payload[offset:])
 	r.Results = make([]struct {
 		TopicName string `json:"topic_name"`
 		ErrorCode int16  `json:"error_code"`
 	}, count)
 	offset += 4
 
-	for i := uint32(0); i < count; i++ {
+	for i := 0; i < count; i++ {
 		topicNameLength := int(binary.BigEndian.Uint16(payload[offset:]))
 		offset += 2
 
diff --git a/describe_configs_response.go b/describe_configs_response.go
index 36502e7..ba308da 100644
--- a/describe_configs_response.go
+++ b/describe_configs_response.go
@@ -52,7 +52,7 @@ func decodeToDescribeConfigsResponseResource(payload []byte) (r describeConfigsR
 		offset += l
 	}
 
-	count := int(binary.BigEndian.Uint32(payload[offset:]))
+	count := arrayLength(payload[offset:])
 	offset += 4
 
 	r.ConfigEntries = make([]describeConfigsResponseConfigEntry, count)
@@ -115,7 +115,7 @@ func NewDescribeConfigsResponse(payload []byte) (r DescribeConfigsResponse, err
 	r.ThrottleTimeMS = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	count := binary.BigEndian.Uint32(payload[offset:])
+	count := arrayLength(payload[offset:])
 	offset += 4
 
 	r.Resources = make([]describeConfigsResponseResource, count)
diff --git a/describe_groups_response.go b/describe_groups_response.go
index 73d4dbe..96535be 100644
--- a/describe_groups_response.go
+++ b/describe_groups_response.go
@@ -51,7 +51,7 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	groupCount := uint32(binary.BigEndian.Uint32(payload[offset:]))
+	groupCount := arrayLength(payload[offset:])
 	offset += 4
 
 	r.Groups = make([]*GroupDetail, groupCount)
@@ -86,7 +86,7 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 		group.Protocol = string(payload[offset : offset+l])
 		offset += l
 
-		memberCount := int(binary.BigEndian.Uint32(payload[offset:]))
+		memberCount := arrayLength(payload[offset:])
 		offset += 4
 
 		group.Members = make([]MemberDetail, memberCount)
@@ -107,13 +107,13 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 			group.Members[i].ClientHost = string(payload[offset : offset+l])
 			offset += l
 
-			l = int(binary.BigEndian.Uint32(payload[offset:]))
+			l = arrayLength(payload[offset:])
 			offset += 4
 			group.Members[i].MemberMetadata = make([]byte, l)
 			copy(group.Members[i].MemberMetadata, payload[offset:offset+l])
 			offset += l
 
-			l = int(binary.BigEndian.Uint32(payload[offset:]))
+			l = arrayLength(payload[offset:])
 			offset += 4
 			group.Members[i].RawMemberAssignment = make([]byte, l)
 			copy(group.Members[i].RawMemberAssignment, payload[offset:offset+l])
diff --git a/describe_logdirs_response.go b/describe_logdirs_response.go
index 7c5d535..86f22cb 100644
--- a/describe_logdirs_response.go
+++ b/describe_logdirs_response.go
@@ -38,20 +38,9 @@ func decodeToDescribeLogDirsResponseTopic(payload []byte, version uint16) (r Des
 	r.TopicName = string(payload[offset : offset+l])
 	offset += l
 
-	numPartitions := int(int32(binary.BigEndian.Uint32(payload[offset:])))
+	numPartitions := arrayLength(payload[offset:])
 	offset += 4
-	if numPartitions == -1 {
-		r.Partitions = nil
-		return
-	} else if numPartitions == 0 {
-		r.Partitions = []DescribeLogDirsResponsePartition{}
-		return
-	} else if numPartitions < 0 {
-		err = fmt.Errorf("describe_logdirs response numPartitions < 0: %d", numPartitions)
-		return
-	} else {
-		r.Partitions = make([]DescribeLogDirsResponsePartition, numPartitions)
-	}
+	r.Partitions = make([]DescribeLogDirsResponsePartition, numPartitions)
 
 	var o int
 	for i := 0; i < numPartitions; i++ {
@@ -101,19 +90,9 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	numResults := int(int32(binary.BigEndian.Uint32(payload[offset:])))
+	numResults := arrayLength(payload[offset:])
 	offset += 4
-	if numResults == -1 {
-		r.Results = nil
-		return r, nil
-	} else if numResults == 0 {
-		r.Results = []DescribeLogDirsResponseResult{}
-		return r, nil
-	} else if numResults < 0 {
-		return r, fmt.Errorf("describe_logdirs response numResults < 0: %d", numResults)
-	} else {
-		r.Results = make([]DescribeLogDirsResponseResult, numResults)
-	}
+	r.Results = make([]DescribeLogDirsResponseResult, numResults)
 
 	for i := 0; i < numResults; i++ {
 		r.Results[i].ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
@@ -124,19 +103,9 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 		r.Results[i].LogDir = string(payload[offset : offset+l])
 		offset += l
 
-		numTopics := int(int32(binary.BigEndian.Uint32(payload[offset:])))
+		numTopics := arrayLength(payload[offset:])
 		offset += 4
-		if numTopics == -1 {
-			r.Results[i].Topics = nil
-			continue
-		} else if numTopics == 0 {
-			r.Results[i].Topics = []DescribeLogDirsResponseTopic{}
-			continue
-		} else if numTopics < 0 {
-			return r, fmt.Errorf("describe_logdirs response numTopics < 0: %d", numTopics)
-		} else {
-			r.Results[i].Topics = make([]DescribeLogDirsResponseTopic, numTopics)
-		}
+		r.Results[i].Topics = make([]DescribeLogDirsResponseTopic, numTopics)
 
 		var o int
 		for j := 0; j < numTopics; j++ {
diff --git a/desscribe_acls_response.go b/desscribe_acls_response.go
index 76acf7e..2613944 100644
--- a/desscribe_acls_response.go
+++ b/desscribe_acls_response.go
@@ -77,7 +77,7 @@ func NewDescribeAclsResponse(payload []byte, version uint16) (response DescribeA
 		resourceCount int32
 	)
 	if version <= 1 {
-		resourceCount = int32(binary.BigEndian.Uint32(payload[offset:]))
+		resourceCount = int32(arrayLength(payload[offset:]))
 		offset += 4
 	} else {
 		c, o := compactArrayLength(payload[offset:])
@@ -113,18 +113,18 @@ func NewDescribeAclsResponse(payload []byte, version uint16) (response DescribeA
 		}
 
 		// Acls array
-		var aclCount uint32
+		var aclCount int
 		if version <= 1 {
-			aclCount = binary.BigEndian.Uint32(payload[offset:])
+			aclCount = arrayLength(payload[offset:])
 			offset += 4
 		} else {
 			c, o := compactArrayLength(payload[offset:])
-			aclCount = uint32(c)
+			aclCount = int(c)
 			offset += o
 		}
 		response.Resources[i].Acls = make([]Acl, aclCount)
 
-		for j := uint32(0); j < aclCount; j++ {
+		for j := 0; j < aclCount; j++ {
 			if version <= 1 {
 				str, n := nonnullableString(payload[offset:])
 				response.Resources[i].Acls[j].Principal = str
diff --git a/elect_leaders_response.go b/elect_leaders_response.go
index 445882a..0e82a34 100644
--- a/elect_leaders_response.go
+++ b/elect_leaders_response.go
@@ -36,7 +36,7 @@ func newReplicaElectionResult(payload []byte, offset int, version uint16) (r *Re
 	r.Topic = string(payload[offset : offset+length])
 	offset += length
 
-	numPartitionResults := binary.BigEndian.Uint32(payload[offset:])
+	numPartitionResults := arrayLength(payload[offset:])
 	offset += 4
 	r.PartitionResults = make([]*PartitionResult, numPartitionResults)
 	for i := range r.PartitionResults {
@@ -85,7 +85,7 @@ func NewElectLeadersResponse(payload []byte, version uint16) (r *ElectLeadersRes
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	numReplicaElectionResults := binary.BigEndian.Uint32(payload[offset:])
+	numReplicaElectionResults := arrayLength(payload[offset:])
 	offset += 4
 
 	r.ReplicaElectionResults = make([]*ReplicaElectionResult, numReplicaElectionResults)
diff --git a/incremental_alter_config_response.go b/incremental_alter_config_response.go
index 2defbb8..2a6f48b 100644
--- a/incremental_alter_config_response.go
+++ b/incremental_alter_config_response.go
@@ -71,7 +71,7 @@ func NewIncrementalAlterConfigsResponse(payload []byte, version uint16) (r Incre
 	r.ThrottleTimeMs = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	count := binary.BigEndian.Uint32(payload[offset:])
+	count := arrayLength(payload[offset:])
 	offset += 4
 
 	r.Resources = make([]IncrementalAlterConfigsResponseResource, count)
diff --git a/joingroup_response.go b/joingroup_response.go
index 3973d70..751451a 100644
--- a/joingroup_response.go
+++ b/joingroup_response.go
@@ -82,7 +82,7 @@ func NewJoinGroupResponse(payload []byte) (r JoinGroupResponse, err error) {
 	r.MemberID = string(payload[offset : offset+memberIDLength])
 	offset += memberIDLength
 
-	membersLength := int(binary.BigEndian.Uint32(payload[offset:]))
+	membersLength := arrayLength(payload[offset:])
 	offset += 4
 	r.Members = make([]Member, membersLength)
 	for i := range membersLength {
@@ -91,7 +91,7 @@ func NewJoinGroupResponse(payload []byte) (r JoinGroupResponse, err error) {
 		r.Members[i].MemberID = string(payload[offset : offset+l])
 		offset += l
 
-		ll := int(binary.BigEndian.Uint32(payload[offset:]))
+		ll := arrayLength(payload[offset:])
 		offset += 4
 		r.Members[i].MemberMetadata = make([]byte, ll)
 		copy(r.Members[i].MemberMetadata, payload[offset:offset+ll])
diff --git a/list_groups_response.go b/list_groups_response.go
index 5c03adb..d2a9c6b 100644
--- a/list_groups_response.go
+++ b/list_groups_response.go
@@ -116,7 +116,7 @@ func NewListGroupsResponse(payload []byte, version uint16) (r *ListGroupsRespons
 		groupCount, o = compactArrayLength(payload[offset:])
 		offset += o
 	} else {
-		groupCount = int32(binary.BigEndian.Uint32(payload[offset:]))
+		groupCount = int32(arrayLength(payload[offset:]))
 		offset += 4
 	}
 	if groupCount >= 0 {
diff --git a/metadata_response.go b/metadata_response.go
index 976ce73..2b84b2f 100644
--- a/metadata_response.go
+++ b/metadata_response.go
@@ -85,10 +85,10 @@ func decodeToTopicMetadata(payload []byte, version uint16) (tm TopicMetadata, of
 	tm.IsInternal = payload[offset] != 0
 	offset++
 
-	partitionMetadataInfoCount := uint32(binary.BigEndian.Uint32(payload[offset:]))
+	partitionMetadataInfoCount := arrayLength(payload[offset:])
 	offset += 4
 	tm.PartitionMetadatas = make([]*PartitionMetadataInfo, partitionMetadataInfoCount)
-	for j := uint32(0); j < partitionMetadataInfoCount; j++ {
+	for j := 0; j < partitionMetadataInfoCount; j++ {
 		p, o := decodeToPartitionMetadataInfo(payload[offset:], version)
 		tm.PartitionMetadatas[j] = &p
 		offset += o
@@ -118,26 +118,26 @@ func decodeToPartitionMetadataInfo(payload []byte, version uint16) (p PartitionM
 		p.LeaderEpoch = int32(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
 	}
-	replicasCount := uint32(binary.BigEndian.Uint32(payload[offset:]))
+	replicasCount := arrayLength(payload[offset:])
 	offset += 4
 	p.Replicas = make([]int32, replicasCount)
-	for k := uint32(0); k < replicasCount; k++ {
+	for k := 0; k < replicasCount; k++ {
 		p.Replicas[k] = int32(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
 	}
-	isrCount := uint32(binary.BigEndian.Uint32(payload[offset:]))
+	isrCount := arrayLength(payload[offset:])
 	offset += 4
 	p.Isr = make([]int32, isrCount)
-	for k := uint32(0); k < isrCount; k++ {
+	for k := 0; k < isrCount; k++ {
 		p.Isr[k] = int32(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
 	}
 
 	if version >= 7 {
-		count := binary.BigEndian.Uint32(payload[offset:])
+		count := arrayLength(payload[offset:])
 		offset += 4
 		p.OfflineReplicas = make([]int32, count)
-		for k := uint32(0); k < count; k++ {
+		for k := 0; k < count; k++ {
 			p.OfflineReplicas[k] = int32(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
 		}
@@ -166,7 +166,7 @@ func NewMetadataResponse(payload []byte, version uint16) (r MetadataResponse, er
 	}
 
 	// Encode Brokers
-	brokersCount := int(binary.BigEndian.Uint32(payload[offset:]))
+	brokersCount := arrayLength(payload[offset:])
 	offset += 4
 	r.Brokers = make([]*BrokerInfo, brokersCount)
 	for i := 0; i < brokersCount; i++ {
@@ -187,10 +187,10 @@ func NewMetadataResponse(payload []byte, version uint16) (r MetadataResponse, er
 	offset += 4
 
 	// Encode TopicMetadatas
-	topicMetadatasCount := uint32(binary.BigEndian.Uint32(payload[offset:]))
+	topicMetadatasCount := arrayLength(payload[offset:])
 	offset += 4
 	r.TopicMetadatas = make([]TopicMetadata, topicMetadatasCount)
-	for i := uint32(0); i < topicMetadatasCount; i++ {
+	for i := 0; i < topicMetadatasCount; i++ {
 		tm, o := decodeToTopicMetadata(payload[offset:], version)
 		r.TopicMetadatas[i] = tm
 		offset += o
diff --git a/offset_commit_response.go b/offset_commit_response.go
index 61c8fb8..41937c1 100644
--- a/offset_commit_response.go
+++ b/offset_commit_response.go
@@ -52,7 +52,7 @@ func NewOffsetCommitResponse(payload []byte) (r OffsetCommitResponse, err error)
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	l = int(binary.BigEndian.Uint32(payload[offset:]))
+	l = arrayLength(payload[offset:])
 	offset += 4
 	r.Topics = make([]*OffsetCommitResponseTopic, l)
 	for i := range r.Topics {
@@ -64,7 +64,7 @@ func NewOffsetCommitResponse(payload []byte) (r OffsetCommitResponse, err error)
 		topic.Topic = string(payload[offset : offset+l])
 		offset += l
 
-		l = int(binary.BigEndian.Uint32(payload[offset:]))
+		l = arrayLength(payload[offset:])
 		offset += 4
 		topic.Partitions = make([]*OffsetCommitResponsePartition, l)
 		for j := range topic.Partitions {
diff --git a/offset_fetch_response.go b/offset_fetch_response.go
index a8be5f3..7f95869 100644
--- a/offset_fetch_response.go
+++ b/offset_fetch_response.go
@@ -49,7 +49,7 @@ func NewOffsetFetchResponse(payload []byte) (r OffsetFetchResponse, err error) {
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	l = int(binary.BigEndian.Uint32(payload[offset:]))
+	l = arrayLength(payload[offset:])
 	offset += 4
 	r.Topics = make([]*OffsetFetchResponseTopic, l)
 	for i := range r.Topics {
@@ -61,7 +61,7 @@ func NewOffsetFetchResponse(payload []byte) (r OffsetFetchResponse, err error) {
 		topic.Topic = string(payload[offset : offset+l])
 		offset += l
 
-		l = int(binary.BigEndian.Uint32(payload[offset:]))
+		l = arrayLength(payload[offset:])
 		offset += 4
 		topic.Partitions = make([]*OffsetFetchResponsePartition, l)
 		for j := range topic.Partitions {
diff --git a/offset_response.go b/offset_response.go
index bf92db7..8bd6c44 100644
--- a/offset_response.go
+++ b/offset_response.go
@@ -56,7 +56,7 @@ func NewOffsetsResponse(payload []byte, version uint16) (r OffsetsResponse, err
 		r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
 	}
 
-	topicLenght := int(binary.BigEndian.Uint32(payload[offset:]))
+	topicLenght := arrayLength(payload[offset:])
 	offset += 4
 	r.TopicPartitionOffsets = make(map[string][]PartitionOffset)
 	for i := 0; i < topicLenght; i++ {
@@ -65,10 +65,10 @@ func NewOffsetsResponse(payload []byte, version uint16) (r OffsetsResponse, err
 		topicName := string(payload[offset : offset+topicNameLenght])
 		offset += topicNameLenght
 
-		partitionOffsetLength := binary.BigEndian.Uint32(payload[offset:])
+		partitionOffsetLength := arrayLength(payload[offset:])
 		offset += 4
 		r.TopicPartitionOffsets[topicName] = make([]PartitionOffset, partitionOffsetLength)
-		for j := uint32(0); j < partitionOffsetLength; j++ {
+		for j := 0; j < partitionOffsetLength; j++ {
 			p := PartitionOffset{}
 
 			p.Partition = int32(binary.BigEndian.Uint32(payload[offset:]))
diff --git a/primitive_types_decode.go b/primitive_types_decode.go
index 6ed0c01..c1dfe08 100644
--- a/primitive_types_decode.go
+++ b/primitive_types_decode.go
@@ -21,6 +21,15 @@ func arrayLength(payload []byte) int {
 	return length
 }
 
+// uvarint reads an UNSIGNED_VARINT. It panics, as reading out of range does, if it is cut off or too long.
+func uvarint(payload []byte) (uint64, int) {
+	v, n := binary.Uvarint(payload)
+	if n <= 0 {
+		panic(errShortRead)
+	}
+	return v, n
+}
+
 func nonnullableString(payload []byte) (r string, offset int) {
 	l := int(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
@@ -33,7 +42,7 @@ func nonnullableString(payload []byte) (r string, offset int) {
 // First the length N + 1 is given as an UNSIGNED_VARINT.
 // Then N bytes follow which are the UTF-8 encoding of the character sequence.
 func compactString(payload []byte) (r string, offset int) {
-	length, o := binary.Uvarint(payload)
+	length, o := uvarint(payload)
 	length--
 	r = string(payload[o : o+int(length)])
 	return r, o + int(length)
@@ -57,7 +66,7 @@ func nullableString(payload []byte) (r *string, offset int) {
 // Then N bytes follow which are the UTF-8 encoding of the character sequence.
 // A null string is represented with a length of 0.
 func compactNullableString(payload []byte) (r *string, offset int) {
-	length, o := binary.Uvarint(payload)
+	length, o := uvarint(payload)
 	if length == 0 {
 		return nil, o
 	}
@@ -70,7 +79,7 @@ func compactNullableString(payload []byte) (r *string, offset int) {
 // First the length N+1 is given as an UNSIGNED_VARINT.
 // Then N bytes follow.
 func compactBytes(payload []byte) (r []byte, offset int) {
-	length, o := binary.Uvarint(payload)
+	length, o := uvarint(payload)
 	length--
 	r = payload[o : o+int(length)]
 	return r, o + int(length)
@@ -93,7 +102,7 @@ func nullableBytes(payload []byte) (r []byte, offset int) {
 // First the length N+1 is given as an UNSIGNED_VARINT.
 // Then N bytes follow. A null object is represented with a length of 0.
 func compactNullableBytes(payload []byte) (r []byte, offset int) {
-	length, o := binary.Uvarint(payload)
+	length, o := uvarint(payload)
 	length--
 
 	if length == 0 {
@@ -110,6 +119,9 @@ func compactNullableBytes(payload []byte) (r []byte, offset int) {
 // A null array is represented with a length of 0.
 // In protocol documentation an array of T instances is referred to as [T].
 func compactArrayLength(payload []byte) (length int32, offset int) {
-	l, offset := binary.Uvarint(payload)
+	l, offset := uvarint(payload)
+	if l > uint64(len(payload)-offset)+1 { // an element takes at least one byte
+		panic(errShortRead)
+	}
 	return int32(l) - 1, offset
 }
diff --git a/produce_response.go b/produce_response.go
index 341d334..df637e7 100644
--- a/produce_response.go
+++ b/produce_response.go
@@ -66,7 +66,7 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 			p.RecordErrors = make([]produceResponseRecordErrors, count)
 			offset += o
 		} else {
-			count := binary.BigEndian.Uint32(payload[offset:])
+			count := arrayLength(payload[offset:])
 			p.RecordErrors = make([]produceResponseRecordErrors, count)
 			offset += 4
 		}
@@ -127,7 +127,7 @@ func (t *produceResponseT) decode(payload []byte, version uint16, isFlexible boo
 		t.Partitions = make([]produceResponseP, count)
 		offset += o
 	} else {
-		count := binary.BigEndian.Uint32(payload[offset:])
+		count := arrayLength(payload[offset:])
 		offset += 4
 		t.Partitions = make([]produceResponseP, count)
 	}
@@ -184,7 +184,7 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 		r.ProduceResponses = make([]produceResponseT, produceResponseTCount)
 		offset += o
 	} else {
-		produceResponseP := int(binary.BigEndian.Uint32(payload[offset:]))
+		produceResponseP := arrayLength(payload[offset:])
 		offset += 4
 		r.ProduceResponses = make([]produceResponseT, produceResponseP)
 	}
diff --git a/response.go b/response.go
index e967293..cdf38e6 100644
--- a/response.go
+++ b/response.go
@@ -3,8 +3,8 @@ package healer
 import (
 	"bytes"
 	"encoding/binary"
-	"errors"
 	"fmt"
+	"slices"
 	"time"
 )
 
@@ -69,36 +69,37 @@ func (p defaultReadParser) Read() ([]byte, error) {
 		}
 		l += length
 	}
-	responseLength := int(binary.BigEndian.Uint32(responseLengthBuf))
-	resp := make([]byte, 4+responseLength)
+	responseLength := int(int32(binary.BigEndian.Uint32(responseLengthBuf)))
+	if responseLength < 4 {
+		return nil, errShortRead
+	}
 
-	readLength := 0
-	for {
+	resp := responseLengthBuf
+	for len(resp) < 4+responseLength {
 		if p.timeout > 0 {
 			p.broker.conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
 		}
-		length, err := p.broker.conn.Read(resp[4+readLength:])
+		// the length may be wrong, so the buffer grows with what has been received
+		size := min(4+responseLength-len(resp), max(len(resp), 64*1024))
+		resp = slices.Grow(resp, size)
+		length, err := p.broker.conn.Read(resp[len(resp) : len(resp)+size])
 		if err != nil {
 			return nil, err
 		}
-
-		readLength += length
-		if readLength > responseLength {
-			return nil, errors.New("fetch more data than needed while read response")
-		}
-		if readLength == responseLength {
-			break
-		}
-	}
-	copy(resp[0:4], responseLengthBuf)
-	if responseLength < 4 {
-		return nil, errShortRead
+		resp = resp[:len(resp)+length]
 	}
 	logger.V(5).Info("response info", "length", len(resp), "CorrelationID", binary.BigEndian.Uint32(resp[4:]))
 	return resp, nil
 }
 
-func (p defaultReadParser) Parse(data []byte) (Response, error) {
+func (p defaultReadParser) Parse(data []byte) (resp Response, err error) {
+	// the decoders read out of range if the data is cut short or its lengths and counts are wrong
+	defer func() {
+		if e := recover(); e != nil {
+			resp, err = nil, fmt.Errorf("malformed response: %v", e)
+		}
+	}()
+
 	switch p.api {
 	case API_Heartbeat:
 		return NewHeartbeatResponse(data)
diff --git a/sasl_handshake_response.go b/sasl_handshake_response.go
index 97a3f2d..a725131 100644
--- a/sasl_handshake_response.go
+++ b/sasl_handshake_response.go
@@ -38,7 +38,7 @@ func NewSaslHandshakeResponse(payload []byte) (r SaslHandshakeResponse, err erro
 		err = KafkaError(r.ErrorCode)
 	}
 
-	count := int(binary.BigEndian.Uint32(payload[offset:]))
+	count := arrayLength(payload[offset:])
 	offset += 4
 
 	r.EnabledMechanisms = make([]string, count)
diff --git a/sync_group_response.go b/sync_group_response.go
index 55407c6..7dfb6e5 100644
--- a/sync_group_response.go
+++ b/sync_group_response.go
@@ -37,7 +37,7 @@ func NewSyncGroupResponse(payload []byte) (r SyncGroupResponse, err error) {
 		err = KafkaError(r.ErrorCode)
 	}
 
-	memberAssignmentLength := int(binary.BigEndian.Uint32(payload[offset:]))
+	memberAssignmentLength := arrayLength(payload[offset:])
 	offset += 4
 	r.MemberAssignment = make([]byte, memberAssignmentLength)
 	copy(r.MemberAssignment, payload[offset:offset+memberAssignmentLength])
diff --git a/tagged_fields.go b/tagged_fields.go
index f2a7e03..c4787a5 100644
--- a/tagged_fields.go
+++ b/tagged_fields.go
@@ -45,12 +45,12 @@ func (r TaggedFields) Encode() []byte {
 
 func DecodeTaggedFields(payload []byte) (r TaggedFields, length int) {
 	offset := 0
-	taggedFieldsLength, n := binary.Uvarint(payload)
+	taggedFieldsLength, n := uvarint(payload)
 	offset += n
 	for i := uint64(0); i < taggedFieldsLength; i++ {
-		tag, n := binary.Uvarint(payload[offset:])
+		tag, n := uvarint(payload[offset:])
 		offset += n
-		dataLength, n := binary.Uvarint(payload[offset:])
+		dataLength, n := uvarint(payload[offset:])
 		offset += n
 		data := payload[offset : offset+int(dataLength)]
 		offset += int(dataLength)
-- 
2.43.0


From 525991923606439ef09c83d9f76daac52852db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:37 +0000
Subject: [PATCH 50/72] fix: malformed fetch responses, records and group
 metadata panicked or allocated as much as their lengths said

---
 assign.go          |  7 +++--
 broker.go          |  3 ++
 fetch_response.go  | 72 ++++++++++++++++++++++++++++++++++++----------
 group.go           | 21 ++++++++------
 group_consumer.go  |  3 ++
 message.go         | 18 +++++++-----
 offset_response.go |  7 ++---
 record.go          | 23 +++++++++++----
 8 files changed, 111 insertions(+), 43 deletions(-)

diff --git a/assign.go b/assign.go
index 5495a53..0f80d20 100644
--- a/assign.go
+++ b/assign.go
@@ -66,8 +66,11 @@ func (r *rangeAssignmentStrategy) Assign(members []Member, topicMetadatas []Topi
 
 		membersWithTheTopic := []string{}
 		for _, member := range members {
-			subscription := NewProtocolMetadata(member.MemberMetadata).Subscription
-			for _, topic := range subscription {
+			protocolMetadata := NewProtocolMetadata(member.MemberMetadata)
+			if protocolMetadata == nil {
+				continue
+			}
+			for _, topic := range protocolMetadata.Subscription {
 				if topicMetadata.TopicName == topic {
 					membersWithTheTopic = append(membersWithTheTopic, member.MemberID)
 					sort.Sort(ByMemberID(membersWithTheTopic))
diff --git a/broker.go b/broker.go
index 9b97f3b..0d3a937 100644
--- a/broker.go
+++ b/broker.go
@@ -317,6 +317,9 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 
 	responseLength = binary.BigEndian.Uint32(responseHeader)
 	logger.V(5).Info("got responseLength", "responseLength", responseLength)
+	if int32(responseLength) < 4 {
+		return nil, responseLength, errShortRead
+	}
 	if id := binary.BigEndian.Uint32(responseHeader[4:]); id != correlationID {
 		return nil, responseLength, fmt.Errorf("response of correlation id %d to request of correlation id %d", id, correlationID)
 	}
diff --git a/fetch_response.go b/fetch_response.go
index 0ad4136..44e1e7c 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -1,6 +1,7 @@
 package healer
 
 import (
+	"bytes"
 	"compress/gzip"
 	"context"
 	"encoding/binary"
@@ -88,10 +89,25 @@ func (streamDecoder *fetchResponseStreamDecoder) read(n int) (rst []byte, length
 		streamDecoder.offset += length
 	}()
 
-	rst = make([]byte, n)
-	length, err = io.ReadFull(streamDecoder.buffers, rst)
+	rst, err = readFull(streamDecoder.buffers, n)
+	return rst, len(rst), err
+}
 
-	return rst, length, err
+// readFull reads n bytes. n may be wrong, so the buffer of a big one grows with what has been read.
+func readFull(reader io.Reader, n int) ([]byte, error) {
+	if n <= 64*1024 {
+		buf := make([]byte, n)
+		length, err := io.ReadFull(reader, buf)
+		return buf[:length], err
+	}
+	buf, err := io.ReadAll(io.LimitReader(reader, int64(n)))
+	if err == nil && len(buf) < n {
+		err = io.ErrUnexpectedEOF
+		if len(buf) == 0 {
+			err = io.EOF
+		}
+	}
+	return buf, err
 }
 
 // uncompress read all remaining bytes and uncompress them
@@ -115,6 +131,9 @@ func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err
 		if err != nil {
 			return nil, fmt.Errorf("read streamDecoder error: %w", err)
 		}
+		if err = checkSnappyLength(buf); err != nil {
+			return nil, err
+		}
 		uncompressedBytes, err = snappy.Decode(buf)
 		if err != nil {
 			return nil, fmt.Errorf("uncompress snappy records error: %w", err)
@@ -131,6 +150,29 @@ func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err
 	return uncompressedBytes, nil
 }
 
+// checkSnappyLength checks the length of the uncompressed data, which snappy allocates before it looks at the data.
+// A chunk is given as 3 bytes for 64 uncompressed ones at best.
+func checkSnappyLength(buf []byte) error {
+	chunks := [][]byte{buf}
+	if bytes.HasPrefix(buf, []byte("\x82SNAPPY\x00")) && len(buf) >= 16 { // framed chunks, each with its length
+		chunks = nil
+		for buf = buf[16:]; len(buf) >= 4; {
+			length := int(binary.BigEndian.Uint32(buf))
+			if length > len(buf)-4 {
+				break
+			}
+			chunks = append(chunks, buf[4:4+length])
+			buf = buf[4+length:]
+		}
+	}
+	for _, chunk := range chunks {
+		if length, n := binary.Uvarint(chunk); n > 0 && length > 64*uint64(len(chunk)) {
+			return fmt.Errorf("uncompress snappy records error: %d bytes can not hold %d", len(chunk), length)
+		}
+	}
+	return nil
+}
+
 // decode one message (offset(int64) message_size(int32) message), which may be a compressed wrapper of more messages.
 // the next one may have another format, so the caller looks at its magic byte again.
 func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topicName string, partitionID int32, magic int, header17 []byte) (offset int, err error) {
@@ -141,15 +183,13 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topic
 	}
 
 	// value is the bytes of whole record. 12 is the size of offset(int64) & message_size(int32) in header17
-	value := make([]byte, 12+messageSize)
-	copy(value, header17)
-	n, err := io.ReadFull(streamDecoder, value[17:])
-	offset += n
+	value, err := readFull(streamDecoder, 12+messageSize-17)
+	offset += len(value)
 	if err != nil { // remaining bytes is incomplete
 		return offset, err
 	}
 
-	messageSet, err := DecodeToMessageSet(value)
+	messageSet, err := DecodeToMessageSet(append(append([]byte{}, header17...), value...))
 	if err != nil {
 		return offset, err
 	}
@@ -386,20 +426,16 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		}
 		abortedTransactionsCount := int32(binary.BigEndian.Uint32(buf))
 		if abortedTransactionsCount > 0 {
-			p.AbortedTransactions = make([]struct {
-				ProducerID  int64
-				FirstOffset int64
-			}, abortedTransactionsCount)
 			for i := 0; i < int(abortedTransactionsCount); i++ {
 				if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 					return err
 				}
-				p.AbortedTransactions[i].ProducerID = int64(binary.BigEndian.Uint64(buf))
+				// p.AbortedTransactions[i].ProducerID = int64(binary.BigEndian.Uint64(buf))
 
 				if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 					return err
 				}
-				p.AbortedTransactions[i].FirstOffset = int64(binary.BigEndian.Uint64(buf))
+				// p.AbortedTransactions[i].FirstOffset = int64(binary.BigEndian.Uint64(buf))
 			}
 		}
 	}
@@ -482,7 +518,13 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeHeader(version uint16) er
 	return nil
 }
 
-func (streamDecoder *fetchResponseStreamDecoder) streamDecode(ctx context.Context, startOffset int64) error {
+func (streamDecoder *fetchResponseStreamDecoder) streamDecode(ctx context.Context, startOffset int64) (err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("malformed fetch response: %v", e)
+		}
+	}()
+
 	streamDecoder.offset = 0
 	streamDecoder.startOffset = startOffset
 	streamDecoder.hasOneMessage = false
diff --git a/group.go b/group.go
index e3ed4dc..878a3e5 100644
--- a/group.go
+++ b/group.go
@@ -154,14 +154,20 @@ func (m *ProtocolMetadata) Encode() []byte {
 	return payload
 }
 
-func NewProtocolMetadata(payload []byte) *ProtocolMetadata {
-	var (
-		p      = &ProtocolMetadata{}
-		offset = 0
-	)
+// NewProtocolMetadata decodes the subscription of a member. It returns nil if the payload is malformed
+func NewProtocolMetadata(payload []byte) (p *ProtocolMetadata) {
+	defer func() {
+		if e := recover(); e != nil {
+			logger.Error(fmt.Errorf("%v", e), "malformed protocol metadata")
+			p = nil
+		}
+	}()
+
+	offset := 0
+	p = &ProtocolMetadata{}
 	p.Version = binary.BigEndian.Uint16(payload[offset:])
 	offset += 2
-	SubscriptionCount := binary.BigEndian.Uint32(payload[offset:])
+	SubscriptionCount := arrayLength(payload[offset:])
 	offset += 4
 	p.Subscription = make([]string, SubscriptionCount)
 	for i := range p.Subscription {
@@ -174,8 +180,7 @@ func NewProtocolMetadata(payload []byte) *ProtocolMetadata {
 	offset += 4
 
 	if l != -1 {
-		p.UserData = make([]byte, int(l))
-		copy(p.UserData, payload[offset:offset+int(l)])
+		p.UserData = append([]byte{}, payload[offset:offset+int(l)]...)
 	}
 
 	return p
diff --git a/group_consumer.go b/group_consumer.go
index 19dd8e6..075c4cb 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -103,6 +103,9 @@ func (c *GroupConsumer) getTopicPartitionInfo() {
 	)
 	for _, member := range c.members {
 		protocolMetadata := NewProtocolMetadata(member.MemberMetadata)
+		if protocolMetadata == nil {
+			continue
+		}
 		for _, topic := range protocolMetadata.Subscription {
 			_topics[topic] = true
 		}
diff --git a/message.go b/message.go
index 17b5914..38129b4 100644
--- a/message.go
+++ b/message.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"hash/crc32"
 )
 
@@ -104,10 +105,15 @@ func (messageSet *MessageSet) Encode(payload []byte, offset int) int {
 // DecodeToMessageSet creates a MessageSet from a byte array.
 // MessageSet is [offset message_size message], but it only decode one message in healer generally, loops inside decodeMessageSetMagic0or1.
 // if message.Value is compressed, it will uncompress the value and returns an array of messages.
-func DecodeToMessageSet(payload []byte) (MessageSet, error) {
-	messageSet := MessageSet{}
+func DecodeToMessageSet(payload []byte) (messageSet MessageSet, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("malformed message set: %v", e)
+		}
+	}()
+
+	messageSet = MessageSet{}
 	var offset int = 0
-	var err error
 
 	for {
 		if offset == len(payload) {
@@ -141,8 +147,7 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 		if keyLength == -1 {
 			message.Key = nil
 		} else {
-			message.Key = make([]byte, keyLength)
-			copy(message.Key, payload[offset:offset+int(keyLength)])
+			message.Key = append([]byte{}, payload[offset:offset+int(keyLength)]...)
 			offset += int(keyLength)
 		}
 
@@ -151,8 +156,7 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 		if valueLength == -1 {
 			message.Value = nil
 		} else {
-			message.Value = make([]byte, valueLength)
-			copy(message.Value, payload[offset:offset+int(valueLength)])
+			message.Value = append([]byte{}, payload[offset:offset+int(valueLength)]...)
 			offset += int(valueLength)
 		}
 		compression := CompressType(message.Attributes & 0x07)
diff --git a/offset_response.go b/offset_response.go
index 8bd6c44..3c850c1 100644
--- a/offset_response.go
+++ b/offset_response.go
@@ -13,15 +13,12 @@ type PartitionOffset struct {
 	Offset          int64
 }
 
-// get the offset of the given partition from OldStyleOffsets or Offset
+// get the offset of the given partition from OldStyleOffsets, the latest of them comes first, or Offset
 func (p *PartitionOffset) GetOffset() int64 {
 	if len(p.OldStyleOffsets) == 0 {
 		return p.Offset
 	}
-	if len(p.OldStyleOffsets) == 1 {
-		return p.OldStyleOffsets[0]
-	}
-	panic("more than one old style offset found in offset response")
+	return p.OldStyleOffsets[0]
 }
 
 type OffsetsResponse struct {
diff --git a/record.go b/record.go
index 60521b5..77739f5 100644
--- a/record.go
+++ b/record.go
@@ -3,6 +3,8 @@ package healer
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
+	"fmt"
 	"hash/crc32"
 )
 
@@ -23,8 +25,8 @@ func decodeHeader(payload []byte) (header RecordHeader, offset int) {
 	valueLength, o := binary.Varint(payload[offset:])
 	offset += o
 	if valueLength >= 0 { // -1 is null
-		header.Value = make([]byte, valueLength)
-		offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+		header.Value = append([]byte{}, payload[offset:offset+int(valueLength)]...)
+		offset += int(valueLength)
 	}
 	return
 }
@@ -137,6 +139,12 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 // DecodeToRecord decodes the struct Record from the given payload.
 func DecodeToRecord(payload []byte) (record Record, offset int, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("malformed record: %v", e)
+		}
+	}()
+
 	length, o := binary.Varint(payload)
 	if length == 0 || len(payload[o:]) < int(length) {
 		return record, o, errUncompleteRecord
@@ -158,19 +166,22 @@ func DecodeToRecord(payload []byte) (record Record, offset int, err error) {
 	offset += o
 
 	if keyLength >= 0 { // -1 is null
-		record.key = make([]byte, keyLength)
-		offset += copy(record.key, payload[offset:offset+int(keyLength)])
+		record.key = append([]byte{}, payload[offset:offset+int(keyLength)]...)
+		offset += int(keyLength)
 	}
 
 	valueLen, o := binary.Varint(payload[offset:])
 	offset += o
 	if valueLen >= 0 { // -1 is null
-		record.value = make([]byte, valueLen)
-		offset += copy(record.value, payload[offset:offset+int(valueLen)])
+		record.value = append([]byte{}, payload[offset:offset+int(valueLen)]...)
+		offset += int(valueLen)
 	}
 
 	headerCount, o := binary.Varint(payload[offset:])
 	offset += o
+	if headerCount > int64(len(payload)-offset) {
+		return record, offset, errors.New("malformed record: more headers than bytes")
+	}
 	record.Headers = make([]RecordHeader, headerCount)
 	for i := range record.Headers {
 		record.Headers[i], o = decodeHeader(payload[offset:])
-- 
2.43.0


From 43be26bd81281740023bcd63a9f636ac0a43ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:01 +0000
Subject: [PATCH 51/72] fix: cut responses were read beyond their end,
 responses without the requested topic panicked

---
 brokers.go         | 3 +++
 client.go          | 3 ++-
 response.go        | 1 +
 simple_consumer.go | 6 +++++-
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/brokers.go b/brokers.go
index 57c83fc..5a8a3bf 100644
--- a/brokers.go
+++ b/brokers.go
@@ -254,6 +254,9 @@ func (brokers *Brokers) RequestOffsets(clientID, topic string, partitionID int32
 	}
 
 	// TODO only one topic
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return nil, fmt.Errorf("no metadata of topic[%s] in the response", topic)
+	}
 	topicMetadata := metadataResponse.TopicMetadatas[0]
 
 	if partitionID >= 0 {
diff --git a/client.go b/client.go
index 3619d2d..80fa975 100644
--- a/client.go
+++ b/client.go
@@ -157,7 +157,8 @@ func (c *Client) DeleteTopics(topics []string, timeoutMs int32) (r DeleteTopicsR
 	}
 
 	resp, err := controller.RequestAndGet(req)
-	return resp.(DeleteTopicsResponse), err
+	r, _ = resp.(DeleteTopicsResponse) // nil if no response could be read
+	return r, err
 }
 
 // CreateTopic creates a single topic with specified parameters
diff --git a/response.go b/response.go
index cdf38e6..d775f5f 100644
--- a/response.go
+++ b/response.go
@@ -100,6 +100,7 @@ func (p defaultReadParser) Parse(data []byte) (resp Response, err error) {
 		}
 	}()
 
+	data = slices.Clip(data) // nothing may be read beyond the response
 	switch p.api {
 	case API_Heartbeat:
 		return NewHeartbeatResponse(data)
diff --git a/simple_consumer.go b/simple_consumer.go
index c401fc8..d367b9e 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -244,7 +244,11 @@ func (c *SimpleConsumer) getOffset(fromBeginning bool) (int64, error) {
 	if err := offsetsResponse.Error(); err != nil {
 		return -1, err
 	}
-	return int64(offsetsResponse.TopicPartitionOffsets[c.topic][0].GetOffset()), nil
+	partitionOffsets := offsetsResponse.TopicPartitionOffsets[c.topic]
+	if len(partitionOffsets) == 0 {
+		return -1, fmt.Errorf("no offset of %s[%d] in the response", c.topic, c.partitionID)
+	}
+	return int64(partitionOffsets[0].GetOffset()), nil
 }
 
 func (c *SimpleConsumer) getCommitedOffet() error {
-- 
2.43.0


From 6fc9b22e881efc6e12fbf809840c128694549de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:20 +0000
Subject: [PATCH 52/72] fix: closing a consumer before all its partitions were
 started panicked

---
 consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consumer.go b/consumer.go
index 31b5ef7..a6567cf 100644
--- a/consumer.go
+++ b/consumer.go
@@ -106,6 +106,7 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		for _, p := range partitions {
 			simpleConsumer := NewSimpleConsumerWithBrokers(topicName, int32(p), c.config, c.brokers)
 			simpleConsumer.wg = &c.wg
+			c.wg.Add(1) // Stop ends it, also if it has not been started
 
 			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
 		}
@@ -121,7 +122,6 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 	}
 
 	for _, simpleConsumer := range c.simpleConsumers {
-		c.wg.Add(1)
 		simpleConsumer.Consume(offset, messages)
 	}
 
-- 
2.43.0


From 3ceed75ad7958e75cb78facc5d011dac96c19cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:02 +0000
Subject: [PATCH 53/72] fix: reconnecting to a broker with SASL deadlocked, a
 SASL mechanism not supported panicked

---
 broker.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/broker.go b/broker.go
index 0d3a937..a682b5b 100644
--- a/broker.go
+++ b/broker.go
@@ -167,8 +167,13 @@ func (broker *Broker) sendSaslAuthenticate() error {
 		password  = broker.config.Sasl.Password
 	)
 
+	saslAuthenticateRequest := NewSaslAuthenticateRequest(clientID, user, password, mechanism)
+	if saslAuthenticateRequest.RequestHeader == nil {
+		return fmt.Errorf("sasl mechanism %s is not supported", mechanism)
+	}
+
 	saslHandShakeRequest := NewSaslHandShakeRequest(clientID, mechanism)
-	resp, err := broker.RequestAndGet(saslHandShakeRequest)
+	resp, err := broker.requestAndGet(saslHandShakeRequest)
 	if err != nil {
 		return err
 	}
@@ -177,8 +182,7 @@ func (broker *Broker) sendSaslAuthenticate() error {
 	}
 
 	// authenticate
-	saslAuthenticateRequest := NewSaslAuthenticateRequest(clientID, user, password, mechanism)
-	resp, err = broker.RequestAndGet(saslAuthenticateRequest)
+	resp, err = broker.requestAndGet(saslAuthenticateRequest)
 	if err != nil {
 		return err
 	}
@@ -248,6 +252,11 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 		return nil, err
 	}
 
+	return broker.requestAndGet(r)
+}
+
+// requestAndGet does not open the connection and does not lock: it is also used while the connection is initialized
+func (broker *Broker) requestAndGet(r Request) (resp Response, err error) {
 	// after any failure the position in the response stream is unknown: a response that
 	// comes late would be taken for the answer to the next request, so drop the connection
 	rp, err := broker.Request(r)
-- 
2.43.0


From 362e0263db3090f191120b393a1822f2b780687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:07 +0000
Subject: [PATCH 54/72] fix: configurations shared and changed slices, ignored
 timeouts for each API, and accepted values that crash later

---
 config.go          | 116 +++++++++++++++++++++++++++++++++------------
 producer.go        |   3 ++
 simple_consumer.go |   3 ++
 3 files changed, 91 insertions(+), 31 deletions(-)

diff --git a/config.go b/config.go
index 1e0cc76..6ea0f50 100644
--- a/config.go
+++ b/config.go
@@ -3,10 +3,48 @@ package healer
 import (
 	"errors"
 	"fmt"
+	"math"
+	"reflect"
 
 	"github.com/mitchellh/mapstructure"
 )
 
+// decodeConfig is mapstructure.WeakDecode, but refuses numbers which an option can not hold instead of cutting them
+func decodeConfig(config map[string]interface{}, result interface{}) error {
+	decoder, err := mapstructure.NewDecoder(&mapstructure.DecoderConfig{
+		Result:           result,
+		WeaklyTypedInput: true,
+		DecodeHook:       checkConfigNumber,
+	})
+	if err != nil {
+		return err
+	}
+	return decoder.Decode(config)
+}
+
+func checkConfigNumber(from, to reflect.Value) (interface{}, error) {
+	switch to.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+	default:
+		return from.Interface(), nil
+	}
+
+	ok := true
+	switch from.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		ok = !to.OverflowInt(from.Int())
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		ok = from.Uint() <= math.MaxInt64 && !to.OverflowInt(int64(from.Uint()))
+	case reflect.Float32, reflect.Float64:
+		f := from.Float()
+		ok = f == math.Trunc(f) && math.Abs(f) < 1<<63 && !to.OverflowInt(int64(f))
+	}
+	if !ok {
+		return nil, fmt.Errorf("%v is not a valid value of type %s", from.Interface(), to.Type())
+	}
+	return from.Interface(), nil
+}
+
 type NetConfig struct {
 	ConnectTimeoutMS    int   `json:"connect.timeout.ms,string" mapstructure:"connect.timeout.ms"`
 	TimeoutMS           int   `json:"timeout.ms,string" mapstructure:"timeout.ms"`
@@ -106,7 +144,7 @@ type ConsumerConfig struct {
 }
 
 func DefaultConsumerConfig() ConsumerConfig {
-	c := ConsumerConfig{
+	return ConsumerConfig{
 		Net: NetConfig{
 			ConnectTimeoutMS:    30000,
 			TimeoutMS:           30000,
@@ -126,54 +164,66 @@ func DefaultConsumerConfig() ConsumerConfig {
 		AutoCommitIntervalMS: 5000,
 		OffsetsStorage:       1,
 	}
-
-	c.resetTimeoutMSForEachAPI()
-
-	return c
 }
 
+// resetTimeoutMSForEachAPI sets the timeouts which are not given. The given slice belongs to the caller and is not changed.
 func (c *ConsumerConfig) resetTimeoutMSForEachAPI() {
-	if len(c.Net.TimeoutMSForEachAPI) == 0 {
-		c.Net.TimeoutMSForEachAPI = make([]int, 68)
+	given := c.Net.TimeoutMSForEachAPI
+	timeouts := make([]int, max(68, len(given)))
+	for i := range timeouts {
+		timeouts[i] = c.Net.TimeoutMS
 	}
-	for i := range c.Net.TimeoutMSForEachAPI {
-		c.Net.TimeoutMSForEachAPI[i] = c.Net.TimeoutMS
+	timeouts[API_JoinGroup] = int(c.SessionTimeoutMS) + 5000
+	timeouts[API_OffsetCommitRequest] = int(c.SessionTimeoutMS) / 2
+	timeouts[API_FetchRequest] = c.Net.TimeoutMS + int(c.FetchMaxWaitMS)
+	for i, timeout := range given {
+		if timeout > 0 {
+			timeouts[i] = timeout
+		}
 	}
-	c.Net.TimeoutMSForEachAPI[API_JoinGroup] = int(c.SessionTimeoutMS) + 5000
-	c.Net.TimeoutMSForEachAPI[API_OffsetCommitRequest] = int(c.SessionTimeoutMS) / 2
-	c.Net.TimeoutMSForEachAPI[API_FetchRequest] = c.Net.TimeoutMS + int(c.FetchMaxWaitMS)
+	c.Net.TimeoutMSForEachAPI = timeouts
 }
 
 var defaultConsumerConfig = DefaultConsumerConfig()
 
 // create ConsumerConfig from map or return directly if config is ConsumerConfig
-// return defaultConsumerConfig if config is nil
+// return DefaultConsumerConfig() if config is nil
 func createConsumerConfig(config interface{}) (c ConsumerConfig, err error) {
-	defer func() {
-		c.resetTimeoutMSForEachAPI()
-	}()
-
 	switch config := config.(type) {
 	case nil:
-		return defaultConsumerConfig, nil
+		return DefaultConsumerConfig(), nil
 	case map[string]interface{}:
-		c = defaultConsumerConfig
-		if err := mapstructure.WeakDecode(config, &c); err != nil {
-			return defaultConsumerConfig, fmt.Errorf("decode consumer config error: %w", err)
+		c = DefaultConsumerConfig()
+		if err := decodeConfig(config, &c); err != nil {
+			return DefaultConsumerConfig(), fmt.Errorf("decode consumer config error: %w", err)
 		}
 	case ConsumerConfig:
-		return config, nil
+		c = config
 	default:
 		return c, fmt.Errorf("consumer only accept config from map[string]interface{} or ConsumerConfig")
 	}
-	return c, err
+	c.resetTimeoutMSForEachAPI()
+	if c.OffsetsStorage != 0 && c.OffsetsStorage != 1 {
+		return c, errInvallidOffsetsStorageConfig
+	}
+	return c, c.checkAutoCommit()
 }
 
 var (
 	errEmptyGroupID                 = errors.New("group.id is empty")
 	errInvallidOffsetsStorageConfig = errors.New("offsets.storage must be 0 or 1")
+	errSessionTimeoutMS             = errors.New("session.timeout.ms must > 0")
+	errMetadataMaxAgeMS             = errors.New("metadata.max.age.ms must > 0")
+	errAutoCommitIntervalMS         = errors.New("auto.commit.interval.ms must > 0")
 )
 
+func (config *ConsumerConfig) checkAutoCommit() error {
+	if config.AutoCommit && config.GroupID != "" && config.AutoCommitIntervalMS <= 0 {
+		return errAutoCommitIntervalMS
+	}
+	return nil
+}
+
 func (config *ConsumerConfig) checkValid() error {
 	if config.BootstrapServers == "" {
 		return errBootstrapServersNotSet
@@ -184,6 +234,12 @@ func (config *ConsumerConfig) checkValid() error {
 	if config.OffsetsStorage != 0 && config.OffsetsStorage != 1 {
 		return errInvallidOffsetsStorageConfig
 	}
+	if config.SessionTimeoutMS <= 0 {
+		return errSessionTimeoutMS
+	}
+	if config.MetadataMaxAgeMS <= 0 {
+		return errMetadataMaxAgeMS
+	}
 	return nil
 }
 
@@ -250,14 +306,12 @@ func DefaultProducerConfig() ProducerConfig {
 	}
 }
 
-var defaultProducerConfig = DefaultProducerConfig()
-
 // create ProducerConfig from map or return directly if config is ProducerConfig
-// return defaultProducerConfig if config is nil
+// return DefaultProducerConfig() if config is nil
 func createProducerConfig(config interface{}) (c ProducerConfig, err error) {
 	// TODO support magic 0 and 1
 	defer func() {
-		if c.HealerMagicByte < 2 {
+		if c.HealerMagicByte != 2 {
 			c.HealerMagicByte = 2
 			logger.Info("ONLY SUPPORT MAGIC BYTE 2 FOR NOW, CHANGE IT TO 2")
 		}
@@ -265,11 +319,11 @@ func createProducerConfig(config interface{}) (c ProducerConfig, err error) {
 
 	switch v := config.(type) {
 	case nil:
-		return defaultProducerConfig, nil
+		return DefaultProducerConfig(), nil
 	case map[string]interface{}:
-		c = defaultProducerConfig
-		if err := mapstructure.WeakDecode(config, &c); err != nil {
-			return defaultProducerConfig, fmt.Errorf("decode producer config error: %w", err)
+		c = DefaultProducerConfig()
+		if err := decodeConfig(v, &c); err != nil {
+			return DefaultProducerConfig(), fmt.Errorf("decode producer config error: %w", err)
 		}
 	case ProducerConfig:
 		c = v
diff --git a/producer.go b/producer.go
index 0d265c9..067189e 100644
--- a/producer.go
+++ b/producer.go
@@ -44,6 +44,9 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 	if err != nil {
 		return nil, err
 	}
+	if cfg.MetadataMaxAgeMS <= 0 {
+		return nil, errMetadataMaxAgeMS
+	}
 
 	p := &Producer{
 		config:               cfg,
diff --git a/simple_consumer.go b/simple_consumer.go
index d367b9e..2c1d84c 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -393,6 +393,9 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		err      error
 		messages = messageChan
 	)
+	if err = c.config.checkAutoCommit(); err != nil {
+		return nil, err
+	}
 	if messageChan == nil {
 		messages = make(chan *FullMessage, 100)
 	}
-- 
2.43.0


From f5fa78f9d0c29a68e47710e9aec6638c42a3ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:10 +0000
Subject: [PATCH 55/72] fix: closing brokers twice panicked, and closed brokers
 could be opened again or leaked connections

---
 broker.go   | 71 ++++++++++++++++++++++++++++++++++++++++++-----------
 brokers.go  | 64 ++++++++++++++++++++++++++++++++++++++++++++---
 response.go | 12 ++++++---
 3 files changed, 125 insertions(+), 22 deletions(-)

diff --git a/broker.go b/broker.go
index a682b5b..d50e21a 100644
--- a/broker.go
+++ b/broker.go
@@ -25,11 +25,13 @@ type Broker struct {
 	correlationID uint32
 
 	mux       sync.Mutex
-	closeLock sync.Mutex
+	closeLock sync.Mutex // guards conn and shut
+	shut      bool       // it is closed for good and must not be opened again
 }
 
 var (
-	errTLSConfig = errors.New("tls is enabled but either cert or key or ca is not set")
+	errTLSConfig    = errors.New("tls is enabled but either cert or key or ca is not set")
+	errBrokerClosed = errors.New("the connection to the broker is closed")
 )
 
 // NewBroker is only called in NewBrokers, user must always init a Brokers instance by NewBrokers
@@ -69,11 +71,27 @@ func (broker *Broker) createConn() error {
 	if conn, err := newConn(broker.GetAddress(), broker.config); err != nil {
 		return err
 	} else {
+		broker.closeLock.Lock()
+		defer broker.closeLock.Unlock()
+		if broker.shut { // while the connection was made
+			conn.Close()
+			return errBrokerClosed
+		}
 		broker.conn = conn
 		return nil
 	}
 }
 
+// the current connection, it may be closed by others at any time
+func (broker *Broker) getConn() (net.Conn, error) {
+	broker.closeLock.Lock()
+	defer broker.closeLock.Unlock()
+	if broker.conn == nil {
+		return nil, errBrokerClosed
+	}
+	return broker.conn, nil
+}
+
 // create a new connection to the broker, and then do the sasl authenticate if needed
 func (broker *Broker) createConnAndAuth() (err error) {
 	if err := broker.createConn(); err != nil {
@@ -213,10 +231,25 @@ func (broker *Broker) Close() {
 		broker.conn = nil
 	}
 }
+
+// shutdown closes the connection and does not allow to open it again
+func (broker *Broker) shutdown() {
+	broker.closeLock.Lock()
+	broker.shut = true
+	broker.closeLock.Unlock()
+	broker.Close()
+}
+
 func (broker *Broker) ensureOpen() (err error) {
-	if broker.conn != nil {
+	broker.closeLock.Lock()
+	open, shut := broker.conn != nil, broker.shut
+	broker.closeLock.Unlock()
+	if open {
 		return nil
 	}
+	if shut {
+		return errBrokerClosed
+	}
 	return broker.createConnAndAuth()
 }
 
@@ -281,13 +314,17 @@ func (broker *Broker) requestAndGet(r Request) (resp Response, err error) {
 }
 
 func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, error) {
-	logger.V(5).Info("send request", "src", broker.conn.LocalAddr(), "dst", broker.conn.RemoteAddr())
+	conn, err := broker.getConn()
+	if err != nil {
+		return defaultReadParser{}, err
+	}
+	logger.V(5).Info("send request", "src", conn.LocalAddr(), "dst", conn.RemoteAddr())
 	api := ApiKey(binary.BigEndian.Uint16(payload[4:]))
 	apiVersion := binary.BigEndian.Uint16(payload[6:])
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	if _, err := io.Copy(broker.conn, bytes.NewBuffer(payload)); err != nil {
+	if _, err := io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return defaultReadParser{}, err
 	}
 
@@ -306,21 +343,25 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 		}
 	}()
 
-	logger.V(5).Info("send request", "src", broker.conn.LocalAddr(), "dst", broker.conn.RemoteAddr())
+	conn, err := broker.getConn()
+	if err != nil {
+		return nil, responseLength, err
+	}
+	logger.V(5).Info("send request", "src", conn.LocalAddr(), "dst", conn.RemoteAddr())
 	api := ApiKey(binary.BigEndian.Uint16(payload[4:]))
 	apiVersion := binary.BigEndian.Uint16(payload[6:])
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	if _, err = io.Copy(broker.conn, bytes.NewBuffer(payload)); err != nil {
+	if _, err = io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return nil, responseLength, err
 	}
 
 	responseHeader := make([]byte, 8) // length and correlationID
 	if timeout > 0 {
-		broker.conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+		conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
 	}
-	if _, err = io.ReadFull(broker.conn, responseHeader); err != nil {
+	if _, err = io.ReadFull(conn, responseHeader); err != nil {
 		return nil, responseLength, err
 	}
 
@@ -334,7 +375,7 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 	}
 
 	reader := io.MultiReader(bytes.NewReader(responseHeader[4:]), &io.LimitedReader{
-		R: broker.conn,
+		R: conn,
 		N: int64(responseLength) - 4,
 	})
 	return reader, responseLength, nil
@@ -391,13 +432,13 @@ func (broker *Broker) requestOffsets(clientID, topic string, partitionIDs []int3
 }
 
 func (broker *Broker) requestFetchStreamingly(fetchRequest *FetchRequest) (r io.Reader, responseLength uint32, err error) {
+	broker.mux.Lock()
+	defer broker.mux.Unlock()
+
 	if err := broker.ensureOpen(); err != nil {
 		return nil, 0, err
 	}
 
-	broker.mux.Lock()
-	defer broker.mux.Unlock()
-
 	broker.correlationID++
 
 	fetchRequest.SetCorrelationID(broker.correlationID)
@@ -405,7 +446,9 @@ func (broker *Broker) requestFetchStreamingly(fetchRequest *FetchRequest) (r io.
 
 	timeout := broker.config.Net.TimeoutMS
 	if len(broker.config.Net.TimeoutMSForEachAPI) > int(fetchRequest.API()) {
-		timeout = broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()]
+		if broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()] > 0 {
+			timeout = broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()]
+		}
 	}
 
 	return broker.requestStreamingly(payload, timeout)
diff --git a/brokers.go b/brokers.go
index 5a8a3bf..0a79e3e 100644
--- a/brokers.go
+++ b/brokers.go
@@ -10,6 +10,8 @@ import (
 	"time"
 )
 
+var errBrokersClosed = errors.New("brokers are closed")
+
 type Brokers struct {
 	config           *BrokerConfig
 	bootstrapServers string
@@ -21,14 +23,44 @@ type Brokers struct {
 	mutex sync.Locker
 
 	closeChan chan struct{}
+	closeLock sync.Mutex // guards closed and changes of the brokers map
+	closed    bool
 }
 
 // Close close all brokers
 func (brokers *Brokers) Close() {
-	close(brokers.closeChan)
+	brokers.closeLock.Lock()
+	defer brokers.closeLock.Unlock()
+
+	if brokers.closed {
+		return
+	}
+	brokers.closed = true
+	if brokers.closeChan != nil {
+		close(brokers.closeChan)
+	}
 	for _, broker := range brokers.brokers {
-		broker.Close()
+		broker.shutdown()
+	}
+}
+
+func (brokers *Brokers) isClosed() bool {
+	brokers.closeLock.Lock()
+	defer brokers.closeLock.Unlock()
+	return brokers.closed
+}
+
+// put a new broker to the cache, unless the brokers have been closed meanwhile
+func (brokers *Brokers) cacheBroker(nodeID int32, broker *Broker) error {
+	brokers.closeLock.Lock()
+	defer brokers.closeLock.Unlock()
+
+	if brokers.closed {
+		broker.shutdown()
+		return errBrokersClosed
 	}
+	brokers.brokers[nodeID] = broker
+	return nil
 }
 
 // BrokersInfo returns brokers info, it is a private member and should not be changed from outside
@@ -50,6 +82,7 @@ func NewBrokersWithConfig(bootstrapServers string, config *BrokerConfig) (*Broke
 			brokers, err := newBrokersFromOne(broker, clientID, config)
 			if err != nil {
 				logger.Error(err, "could not create broker list", "address", broker)
+				broker.Close()
 			} else {
 				brokers.bootstrapServers = bootstrapServers
 				return brokers, nil
@@ -87,12 +120,17 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 	brokers.mutex.Lock()
 	defer brokers.mutex.Unlock()
 	brokers.controllerID = metadataResponse.ControllerID
+	cached := false
 	for _, brokerInfo := range metadataResponse.Brokers {
 		brokers.brokersInfo[brokerInfo.NodeID] = brokerInfo
 		if broker.GetAddress() == brokerInfo.NetAddress() {
 			brokers.brokers[brokerInfo.NodeID] = broker
+			cached = true
 		}
 	}
+	if !cached { // nobody uses it any more
+		broker.Close()
+	}
 
 	for nodeID, broker := range brokers.brokersInfo {
 		logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
@@ -116,6 +154,9 @@ func (brokers *Brokers) refreshMetadata() bool {
 
 	// from origianl bootstrapServers
 	for _, brokerAddr := range strings.Split(brokers.bootstrapServers, ",") {
+		if brokers.isClosed() {
+			return false
+		}
 		broker, err := NewBroker(brokerAddr, -1, brokers.config)
 		if err != nil {
 			logger.Error(err, "create broker failed", "brokerAddress", brokerAddr)
@@ -123,9 +164,9 @@ func (brokers *Brokers) refreshMetadata() bool {
 		}
 
 		metadataResponse, err := broker.requestMetaData(clientID, topics)
+		broker.Close()
 		if len(metadataResponse.Brokers) == 0 {
 			logger.Info("no broker returned from metadata response")
-			broker.Close()
 			continue
 		}
 
@@ -143,6 +184,9 @@ func (brokers *Brokers) refreshMetadata() bool {
 	logger.Info("update metadata from latest brokersInfo")
 	// from latest brokersinfo
 	for _, brokerInfo := range brokers.brokersInfo {
+		if brokers.isClosed() {
+			return false
+		}
 		brokerAddr := brokerInfo.NetAddress()
 		broker, err := NewBroker(brokerAddr, -1, brokers.config)
 		if err != nil {
@@ -151,6 +195,7 @@ func (brokers *Brokers) refreshMetadata() bool {
 		}
 
 		metadataResponse, err := broker.requestMetaData(clientID, topics)
+		broker.Close()
 		if len(metadataResponse.Brokers) == 0 {
 			logger.Info("no broker returned from metadata response")
 			continue
@@ -172,6 +217,9 @@ func (brokers *Brokers) refreshMetadata() bool {
 
 // TODO merge with GetBroker
 func (brokers *Brokers) NewBroker(nodeID int32) (*Broker, error) {
+	if brokers.isClosed() {
+		return nil, errBrokersClosed
+	}
 	if _, ok := brokers.brokersInfo[nodeID]; !ok {
 		logger.Info("could not get broker from cache, referesh medadata", "nodeID", nodeID)
 		if !brokers.refreshMetadata() {
@@ -196,6 +244,9 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 	brokers.mutex.Lock()
 	defer brokers.mutex.Unlock()
 
+	if brokers.isClosed() {
+		return nil, errBrokersClosed
+	}
 	if broker, ok := brokers.brokers[nodeID]; ok {
 		return broker, nil
 	}
@@ -210,7 +261,9 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 	if brokerInfo, ok := brokers.brokersInfo[nodeID]; ok {
 		broker, err := NewBroker(brokerInfo.NetAddress(), brokerInfo.NodeID, brokers.config)
 		if err == nil {
-			brokers.brokers[nodeID] = broker
+			if err := brokers.cacheBroker(nodeID, broker); err != nil {
+				return nil, err
+			}
 			return broker, nil
 		} else {
 			return nil, fmt.Errorf("could not init broker for node[%d](%s):%w", nodeID, brokerInfo.NetAddress(), err)
@@ -222,6 +275,9 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 
 func (brokers *Brokers) RequestMetaData(clientID string, topics []string) (r MetadataResponse, err error) {
 	for _, brokerInfo := range brokers.brokersInfo {
+		if brokers.isClosed() {
+			return r, errBrokersClosed
+		}
 		broker, err := brokers.GetBroker(brokerInfo.NodeID)
 		if err != nil {
 			logger.Error(err, "get broker failed", "host", brokerInfo.Host, "port", brokerInfo.Port)
diff --git a/response.go b/response.go
index d775f5f..52ee792 100644
--- a/response.go
+++ b/response.go
@@ -52,14 +52,18 @@ func (p defaultReadParser) ReadAndParse() (Response, error) {
 
 // Read read a whole response data from broker. it firstly read length of the response data, then read the whole response data
 func (p defaultReadParser) Read() ([]byte, error) {
+	conn, err := p.broker.getConn()
+	if err != nil {
+		return nil, err
+	}
 	//TODO use LimitedReader
 	l := 0
 	responseLengthBuf := make([]byte, 4)
 	for {
 		if p.timeout > 0 {
-			p.broker.conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
+			conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
 		}
-		length, err := p.broker.conn.Read(responseLengthBuf[l:])
+		length, err := conn.Read(responseLengthBuf[l:])
 		if err != nil {
 			return nil, err
 		}
@@ -77,12 +81,12 @@ func (p defaultReadParser) Read() ([]byte, error) {
 	resp := responseLengthBuf
 	for len(resp) < 4+responseLength {
 		if p.timeout > 0 {
-			p.broker.conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
+			conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
 		}
 		// the length may be wrong, so the buffer grows with what has been received
 		size := min(4+responseLength-len(resp), max(len(resp), 64*1024))
 		resp = slices.Grow(resp, size)
-		length, err := p.broker.conn.Read(resp[len(resp) : len(resp)+size])
+		length, err := conn.Read(resp[len(resp) : len(resp)+size])
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 3481fac87ce689916acde927b65c15667f9afbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:10 +0000
Subject: [PATCH 56/72] fix: consumers left connections open, delivered after
 being closed and could not be closed twice

---
 consumer.go        | 91 +++++++++++++++++++++++++++++-----------------
 simple_consumer.go | 30 ++++++++++++++-
 2 files changed, 86 insertions(+), 35 deletions(-)

diff --git a/consumer.go b/consumer.go
index a6567cf..eaaeaf9 100644
--- a/consumer.go
+++ b/consumer.go
@@ -11,8 +11,12 @@ type Consumer struct {
 	config ConsumerConfig
 
 	brokers *Brokers
+	mutex   sync.Mutex // guards closed and simpleConsumers
 	closed  bool
 
+	closeOnce sync.Once
+	closeDone chan struct{}
+
 	simpleConsumers []*SimpleConsumer
 	wg              sync.WaitGroup // wg is used to tell if all consumer has already stopped
 }
@@ -40,6 +44,8 @@ func NewConsumer(config interface{}, topics ...string) (*Consumer, error) {
 		assign: assign,
 
 		brokers: brokers,
+
+		closeDone: make(chan struct{}),
 	}
 
 	return c, nil
@@ -78,7 +84,7 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		topics = append(topics, topicName)
 	}
 
-	for !c.closed {
+	for !c.isClosed() {
 		if metadataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, topics); err != nil {
 			logger.Error(err, "get metadata failed", "topics", topics)
 			time.Sleep(time.Millisecond * 1000)
@@ -86,12 +92,11 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 			break
 		}
 	}
-	if c.closed {
+	if c.isClosed() {
 		return nil, nil
 	}
 
-	c.simpleConsumers = make([]*SimpleConsumer, 0)
-
+	var simpleConsumers []*SimpleConsumer
 	for _, topicMetadatas := range metadataResponse.TopicMetadatas {
 		topicName := topicMetadatas.TopicName
 		var partitions = make([]int, 0)
@@ -106,13 +111,15 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		for _, p := range partitions {
 			simpleConsumer := NewSimpleConsumerWithBrokers(topicName, int32(p), c.config, c.brokers)
 			simpleConsumer.wg = &c.wg
-			c.wg.Add(1) // Stop ends it, also if it has not been started
-
-			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
+			if !c.addSimpleConsumer(simpleConsumer) { // closed meanwhile
+				simpleConsumer.cancel()
+				return nil, nil
+			}
+			simpleConsumers = append(simpleConsumers, simpleConsumer)
 		}
 	}
 
-	logger.V(4).Info("create simple consumers", "simpleConsumerCount", len(c.simpleConsumers), "consumers", c.simpleConsumers)
+	logger.V(4).Info("create simple consumers", "simpleConsumerCount", len(simpleConsumers), "consumers", simpleConsumers)
 
 	var offset int64
 	if c.config.FromBeginning {
@@ -121,40 +128,58 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		offset = -1
 	}
 
-	for _, simpleConsumer := range c.simpleConsumers {
+	for _, simpleConsumer := range simpleConsumers {
 		simpleConsumer.Consume(offset, messages)
 	}
 
 	return messages, nil
 }
 
-func (c *Consumer) stop() {
-	c.closed = true
-	if c.simpleConsumers != nil {
-		for _, simpleConsumer := range c.simpleConsumers {
-			simpleConsumer.Stop()
-		}
+func (c *Consumer) isClosed() bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	return c.closed
+}
+
+// addSimpleConsumer returns false if the consumer has been closed
+func (c *Consumer) addSimpleConsumer(simpleConsumer *SimpleConsumer) bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	if c.closed {
+		return false
 	}
+	c.wg.Add(1) // Stop ends it, also if it has not been started
+	c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
+	return true
 }
 
-func (consumer *Consumer) AwaitClose(timeout time.Duration) {
-	c := make(chan bool)
-	defer func() {
-		select {
-		case <-c:
-			logger.Info("all simple consumers stopped. return")
-			return
-		case <-time.After(timeout):
-			logger.Info("consumer await timeout. return")
-			return
-		}
-	}()
+func (c *Consumer) stop() {
+	c.mutex.Lock()
+	c.closed = true
+	simpleConsumers := c.simpleConsumers
+	c.mutex.Unlock()
 
-	consumer.stop()
+	for _, simpleConsumer := range simpleConsumers {
+		go simpleConsumer.Stop() // each of them waits for its fetch, do not let the waits add up
+	}
+	c.wg.Wait()
+	c.brokers.Close()
+}
 
-	go func() {
-		consumer.wg.Wait()
-		consumer.brokers.Close()
-		c <- true
-	}()
+// AwaitClose stops consuming and waits until all partitions have been stopped or the timeout is over
+func (c *Consumer) AwaitClose(timeout time.Duration) {
+	c.closeOnce.Do(func() {
+		go func() {
+			c.stop()
+			close(c.closeDone)
+		}()
+	})
+
+	select {
+	case <-c.closeDone:
+		logger.Info("all simple consumers stopped. return")
+	case <-time.After(timeout):
+		logger.Info("consumer await timeout. return")
+	}
 }
diff --git a/simple_consumer.go b/simple_consumer.go
index 2c1d84c..2c84e59 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -20,6 +20,7 @@ type SimpleConsumer struct {
 	config      ConsumerConfig
 
 	brokers      *Brokers
+	ownBrokers   bool // brokers is not shared with others, Stop closes it
 	leaderBroker *Broker
 	coordinator  *Broker
 	partition    PartitionMetadataInfo
@@ -27,6 +28,8 @@ type SimpleConsumer struct {
 	ctx           context.Context
 	cancel        context.CancelFunc
 	stop          bool
+	stopLock      sync.Mutex // no Consume begins while stop is set
+	stopOnce      sync.Once
 	consumeLoopWg sync.WaitGroup
 	commitLoopWg  sync.WaitGroup
 	autoCommit    bool // the position is committed automatically, the last time in Stop
@@ -54,7 +57,7 @@ func NewSimpleConsumerWithBrokers(topic string, partitionID int32, config Consum
 		var err error
 		for {
 			err = c.getCoordinator()
-			if err != nil {
+			if err != nil && !brokers.isClosed() {
 				logger.Error(err, "failed to get coordinator")
 				time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
 				continue
@@ -84,6 +87,7 @@ func newSimpleConsumerWithBrokers(topic string, partitionID int32, config Consum
 
 	go func() {
 		ticker := time.NewTicker(time.Second * 60 * 1)
+		defer ticker.Stop()
 		for {
 			select {
 			case <-ticker.C:
@@ -115,7 +119,9 @@ func NewSimpleConsumer(topic string, partitionID int32, config interface{}) (*Si
 		return nil, err
 	}
 
-	return NewSimpleConsumerWithBrokers(topic, partitionID, cfg, brokers), nil
+	c := NewSimpleConsumerWithBrokers(topic, partitionID, cfg, brokers)
+	c.ownBrokers = true
+	return c, nil
 }
 
 func (c *SimpleConsumer) refreshPartiton() error {
@@ -311,9 +317,15 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 // Stop the consumer and wait for all relating go-routines to exit
 func (c *SimpleConsumer) Stop() {
 	logger.Info("stopping simple consumer", "topic", c.topic, "partitionID", c.partitionID)
+	c.stopOnce.Do(c.doStop) // others wait until it is done
+}
+
+func (c *SimpleConsumer) doStop() {
 	c.cancel()
 
+	c.stopLock.Lock()
 	c.stop = true
+	c.stopLock.Unlock()
 
 	c.consumeLoopWg.Wait()
 
@@ -328,6 +340,10 @@ func (c *SimpleConsumer) Stop() {
 
 	// close(c.messages)
 
+	if c.ownBrokers {
+		c.brokers.Close()
+	}
+
 	if c.wg != nil {
 		c.wg.Done()
 	}
@@ -399,6 +415,16 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	if messageChan == nil {
 		messages = make(chan *FullMessage, 100)
 	}
+
+	c.stopLock.Lock()
+	if c.stop {
+		c.stopLock.Unlock()
+		return messages, nil
+	}
+	c.consumeLoopWg.Add(1) // Stop waits for it
+	c.stopLock.Unlock()
+	defer c.consumeLoopWg.Done()
+
 	c.messages = messages
 
 	c.offset = offset
-- 
2.43.0


From 899683ab8032b735c92f3c0b23068816d32f0bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:10 +0000
Subject: [PATCH 57/72] fix: closing a group consumer twice hung or panicked,
 and the timeout did not bound stopping the partitions

---
 group_consumer.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/group_consumer.go b/group_consumer.go
index 075c4cb..39df61c 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -31,7 +31,9 @@ type GroupConsumer struct {
 	ifLeader             bool
 	joined               bool
 	closed               bool
-	closeChan            chan bool
+	closeChan            chan bool // closed when closing begins
+	closeOnce            sync.Once
+	closeDone            chan bool // closed when closing is done
 	coordinatorAvailable bool
 	topics               []string
 	partitionAssignments []*PartitionAssignment
@@ -85,7 +87,8 @@ func NewGroupConsumer(topic string, config interface{}) (*GroupConsumer, error)
 		joined:               false,
 		coordinatorAvailable: false,
 
-		closeChan: make(chan bool, 1),
+		closeChan: make(chan bool),
+		closeDone: make(chan bool),
 
 		restartLocker: &sync.Mutex{},
 	}
@@ -423,26 +426,23 @@ func (c *GroupConsumer) Close() {
 func (c *GroupConsumer) AwaitClose(timeout time.Duration) {
 	defer c.brokers.Close()
 
-	c.closed = true
-	c.closeChan <- true
+	c.closeOnce.Do(func() {
+		c.closed = true
+		close(c.closeChan)
 
-	c.stop()
-
-	done := make(chan bool)
-	go func() {
-		c.wg.Wait()
-		done <- true
-	}()
+		go func() {
+			defer close(c.closeDone)
+			c.stop()
+			logger.Info("all simple consumers stopped. leave")
+			c.leave()
+		}()
+	})
 
 	select {
-	case <-done:
-		logger.Info("all simple consumers stopped. leave and return")
+	case <-c.closeDone:
 	case <-time.After(timeout):
 		logger.Info("group consumer await timeout. return")
-		return
 	}
-
-	c.leave()
 }
 
 func (c *GroupConsumer) refreshMeta() {
@@ -476,11 +476,12 @@ func (c *GroupConsumer) refreshMeta() {
 // Consume will join group and then cosumes messages from kafka.
 // it return a chan, and client could get messages from the chan
 func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage, error) {
-	c.closed = false
-
 	if messages == nil {
 		messages = make(chan *FullMessage, 100)
 	}
+	if c.closed {
+		return messages, nil
+	}
 	c.messages = messages
 
 	// go heartbeat
-- 
2.43.0


From 223d72e867d220bbffd82ee347cfca80dec5f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:10 +0000
Subject: [PATCH 58/72] fix: a simple producer that could not be created left
 its connections open

---
 simple_producer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simple_producer.go b/simple_producer.go
index bc6a380..8fa70eb 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -108,6 +108,9 @@ func NewSimpleProducer(ctx context.Context, topic string, partition int32, confi
 	} else {
 		p.leader, err = p.createLeader()
 		if err != nil {
+			if p.brokers != nil {
+				p.brokers.Close()
+			}
 			return nil, fmt.Errorf("create producer leader error: %w", err)
 		}
 	}
-- 
2.43.0


From 7a344483475b854159b266ada942ef7a4495962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:32 +0000
Subject: [PATCH 59/72] fix: controller, addresses and lookups did not follow
 the metadata, lookups failed on idle connections, RefreshMetadata did nothing

---
 broker.go  |  21 +++++++++--
 brokers.go | 107 ++++++++++++++++++++++++++++++++++++++++-------------
 client.go  |   3 ++
 3 files changed, 101 insertions(+), 30 deletions(-)

diff --git a/broker.go b/broker.go
index d50e21a..d0da9fc 100644
--- a/broker.go
+++ b/broker.go
@@ -25,7 +25,7 @@ type Broker struct {
 	correlationID uint32
 
 	mux       sync.Mutex
-	closeLock sync.Mutex // guards conn and shut
+	closeLock sync.Mutex // guards conn, shut and address
 	shut      bool       // it is closed for good and must not be opened again
 }
 
@@ -118,11 +118,11 @@ func (broker *Broker) createConnAndAuth() (err error) {
 			versions += fmt.Sprintf("%s:%d-%d,", v.apiKey.String(), v.minVersion, v.maxVersion)
 		}
 	}
-	logger.V(5).Info("broker api versions", "broker", broker.address, "versions", versions)
+	logger.V(5).Info("broker api versions", "broker", broker.GetAddress(), "versions", versions)
 
 	if broker.config.Sasl.Mechanism != "" {
 		if err := broker.sendSaslAuthenticate(); err != nil {
-			logger.Error(err, "sasl authenticate failed", "nodeID", broker.nodeID, "adddress", broker.address)
+			logger.Error(err, "sasl authenticate failed", "nodeID", broker.nodeID, "adddress", broker.GetAddress())
 			return err
 		}
 	}
@@ -212,11 +212,24 @@ func (broker *Broker) sendSaslAuthenticate() error {
 
 // GetAddress returns the broker address
 func (broker *Broker) GetAddress() string {
+	broker.closeLock.Lock()
+	defer broker.closeLock.Unlock()
 	return broker.address
 }
 
+// the broker has moved to another address
+func (broker *Broker) setAddress(address string) {
+	broker.closeLock.Lock()
+	moved := broker.address != address
+	broker.address = address
+	broker.closeLock.Unlock()
+	if moved {
+		broker.Close()
+	}
+}
+
 func (broker *Broker) String() string {
-	return fmt.Sprintf("[%d]%s", broker.nodeID, broker.address)
+	return fmt.Sprintf("[%d]%s", broker.nodeID, broker.GetAddress())
 }
 
 // Close closes the connection to the broker
diff --git a/brokers.go b/brokers.go
index 0a79e3e..dc26fa9 100644
--- a/brokers.go
+++ b/brokers.go
@@ -5,8 +5,10 @@ package healer
 import (
 	"errors"
 	"fmt"
+	"io"
 	"strings"
 	"sync"
+	"syscall"
 	"time"
 )
 
@@ -23,7 +25,7 @@ type Brokers struct {
 	mutex sync.Locker
 
 	closeChan chan struct{}
-	closeLock sync.Mutex // guards closed and changes of the brokers map
+	closeLock sync.Mutex // guards closed, changes of the brokers map, brokersInfo and controllerID
 	closed    bool
 }
 
@@ -65,9 +67,50 @@ func (brokers *Brokers) cacheBroker(nodeID int32, broker *Broker) error {
 
 // BrokersInfo returns brokers info, it is a private member and should not be changed from outside
 func (brokers *Brokers) BrokersInfo() map[int32]*BrokerInfo {
+	brokers.closeLock.Lock()
+	defer brokers.closeLock.Unlock()
 	return brokers.brokersInfo
 }
 
+// take over what the cluster tells in a metadata response
+func (brokers *Brokers) update(metadataResponse MetadataResponse) {
+	if len(metadataResponse.Brokers) == 0 {
+		return
+	}
+	brokersInfo := make(map[int32]*BrokerInfo)
+	for _, brokerInfo := range metadataResponse.Brokers {
+		brokersInfo[brokerInfo.NodeID] = brokerInfo
+	}
+
+	brokers.closeLock.Lock()
+	defer brokers.closeLock.Unlock()
+	brokers.controllerID = metadataResponse.ControllerID
+	brokers.setBrokersInfo(brokersInfo)
+}
+
+// closeLock must be held. the map is replaced, never changed, so it can be read without the lock
+func (brokers *Brokers) setBrokersInfo(brokersInfo map[int32]*BrokerInfo) {
+	brokers.brokersInfo = brokersInfo
+	for nodeID, brokerInfo := range brokersInfo {
+		if broker, ok := brokers.brokers[nodeID]; ok {
+			broker.setAddress(brokerInfo.NetAddress())
+		}
+	}
+}
+
+// take over the address of the coordinator, it may be a new broker or have moved
+func (brokers *Brokers) updateCoordinator(coordinator Coordinator) {
+	brokers.closeLock.Lock()
+	defer brokers.closeLock.Unlock()
+
+	brokersInfo := make(map[int32]*BrokerInfo)
+	for nodeID, brokerInfo := range brokers.brokersInfo {
+		brokersInfo[nodeID] = brokerInfo
+	}
+	brokersInfo[coordinator.NodeID] = &BrokerInfo{NodeID: coordinator.NodeID, Host: coordinator.Host, Port: coordinator.Port}
+	brokers.setBrokersInfo(brokersInfo)
+}
+
 // NewBrokersWithConfig create a new broker with config
 func NewBrokersWithConfig(bootstrapServers string, config *BrokerConfig) (*Brokers, error) {
 	logger.Info("create new brokers", "bootstrapServers", bootstrapServers, "config", config)
@@ -141,6 +184,8 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 
 // Controller return controller broker id
 func (brokers *Brokers) Controller() int32 {
+	brokers.closeLock.Lock()
+	defer brokers.closeLock.Unlock()
 	return brokers.controllerID
 }
 
@@ -170,20 +215,16 @@ func (brokers *Brokers) refreshMetadata() bool {
 			continue
 		}
 
-		brokersInfo := make(map[int32]*BrokerInfo)
-		for _, brokerInfo := range metadataResponse.Brokers {
-			brokersInfo[brokerInfo.NodeID] = brokerInfo
-		}
-		brokers.brokersInfo = brokersInfo
+		brokers.update(metadataResponse)
 
-		for nodeID, broker := range brokers.brokersInfo {
+		for nodeID, broker := range brokers.BrokersInfo() {
 			logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
 		}
 	}
 
 	logger.Info("update metadata from latest brokersInfo")
 	// from latest brokersinfo
-	for _, brokerInfo := range brokers.brokersInfo {
+	for _, brokerInfo := range brokers.BrokersInfo() {
 		if brokers.isClosed() {
 			return false
 		}
@@ -201,13 +242,9 @@ func (brokers *Brokers) refreshMetadata() bool {
 			continue
 		}
 
-		brokersInfo := make(map[int32]*BrokerInfo)
-		for _, brokerInfo := range metadataResponse.Brokers {
-			brokersInfo[brokerInfo.NodeID] = brokerInfo
-		}
-		brokers.brokersInfo = brokersInfo
+		brokers.update(metadataResponse)
 
-		for nodeID, broker := range brokers.brokersInfo {
+		for nodeID, broker := range brokers.BrokersInfo() {
 			logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
 		}
 		return true
@@ -220,7 +257,7 @@ func (brokers *Brokers) NewBroker(nodeID int32) (*Broker, error) {
 	if brokers.isClosed() {
 		return nil, errBrokersClosed
 	}
-	if _, ok := brokers.brokersInfo[nodeID]; !ok {
+	if _, ok := brokers.BrokersInfo()[nodeID]; !ok {
 		logger.Info("could not get broker from cache, referesh medadata", "nodeID", nodeID)
 		if !brokers.refreshMetadata() {
 			logger.Info("failed to refresh metadata")
@@ -228,7 +265,7 @@ func (brokers *Brokers) NewBroker(nodeID int32) (*Broker, error) {
 	}
 
 	// try again after refereshing metadata
-	if brokerInfo, ok := brokers.brokersInfo[nodeID]; ok {
+	if brokerInfo, ok := brokers.BrokersInfo()[nodeID]; ok {
 		broker, err := NewBroker(brokerInfo.NetAddress(), brokerInfo.NodeID, brokers.config)
 		if err == nil {
 			return broker, nil
@@ -251,14 +288,14 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 		return broker, nil
 	}
 
-	if _, ok := brokers.brokersInfo[nodeID]; !ok {
+	if _, ok := brokers.BrokersInfo()[nodeID]; !ok {
 		logger.Info("could not get broker from cache, referesh medadata", "nodeID", nodeID)
 		if !brokers.refreshMetadata() {
 			logger.Info("failed to refresh metadata")
 		}
 	}
 
-	if brokerInfo, ok := brokers.brokersInfo[nodeID]; ok {
+	if brokerInfo, ok := brokers.BrokersInfo()[nodeID]; ok {
 		broker, err := NewBroker(brokerInfo.NetAddress(), brokerInfo.NodeID, brokers.config)
 		if err == nil {
 			if err := brokers.cacheBroker(nodeID, broker); err != nil {
@@ -273,8 +310,14 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 	}
 }
 
+// connectionLost tells if a request failed because the broker had closed the connection, for example since it
+// was idle for too long. a lookup can be sent again then
+func connectionLost(err error) bool {
+	return errors.Is(err, io.EOF) || errors.Is(err, syscall.EPIPE) || errors.Is(err, syscall.ECONNRESET)
+}
+
 func (brokers *Brokers) RequestMetaData(clientID string, topics []string) (r MetadataResponse, err error) {
-	for _, brokerInfo := range brokers.brokersInfo {
+	for _, brokerInfo := range brokers.BrokersInfo() {
 		if brokers.isClosed() {
 			return r, errBrokersClosed
 		}
@@ -284,16 +327,20 @@ func (brokers *Brokers) RequestMetaData(clientID string, topics []string) (r Met
 			continue
 		}
 		r, err = broker.requestMetaData(clientID, topics)
+		if connectionLost(err) {
+			r, err = broker.requestMetaData(clientID, topics)
+		}
+		brokers.update(r)
 
 		if err == nil {
 			return r, nil
 		}
 
 		var e KafkaError
-		if errors.As(err, &e) {
+		if errors.As(err, &e) && len(r.Brokers) > 0 { // the error of a topic, not one of this broker only
 			return r, err
 		}
-		logger.Error(err, "get metadata failed", "topics", topics, "brokerAddress", broker.address)
+		logger.Error(err, "get metadata failed", "topics", topics, "brokerAddress", broker.GetAddress())
 		time.Sleep(time.Millisecond * 200)
 	}
 
@@ -305,7 +352,8 @@ func (brokers *Brokers) RequestOffsets(clientID, topic string, partitionID int32
 	// have to find which leader own the partition by request metadata
 	// TODO cache
 	metadataResponse, err := brokers.RequestMetaData(clientID, []string{topic})
-	if err != nil {
+	var e KafkaError
+	if err != nil && !(partitionID >= 0 && errors.As(err, &e)) { // the error may be that of another partition
 		return nil, fmt.Errorf("could not get metadata of topic[%s]:%w", topic, err)
 	}
 
@@ -314,6 +362,9 @@ func (brokers *Brokers) RequestOffsets(clientID, topic string, partitionID int32
 		return nil, fmt.Errorf("no metadata of topic[%s] in the response", topic)
 	}
 	topicMetadata := metadataResponse.TopicMetadatas[0]
+	if topicMetadata.TopicErrorCode != 0 {
+		return nil, fmt.Errorf("could not get metadata of topic[%s]:%w", topic, err)
+	}
 
 	if partitionID >= 0 {
 		for _, x := range topicMetadata.PartitionMetadatas {
@@ -379,16 +430,20 @@ func (brokers *Brokers) findLeader(clientID, topic string, partitionID int32) (i
 // FindCoordinator try to requests FindCoordinator from all brokers and returns response
 func (brokers *Brokers) FindCoordinator(clientID, groupID string) (r FindCoordinatorResponse, err error) {
 	var broker *Broker
-	for _, brokerInfo := range brokers.brokersInfo {
+	for _, brokerInfo := range brokers.BrokersInfo() {
 		broker, err = brokers.GetBroker(brokerInfo.NodeID)
 		if err != nil {
 			logger.Error(err, "get broker failed", "nodeId", brokerInfo.NodeID)
 			continue
 		}
 		r, err = broker.findCoordinator(clientID, groupID)
+		if connectionLost(err) {
+			r, err = broker.findCoordinator(clientID, groupID)
+		}
 		if err != nil {
-			logger.Error(err, "could not find coordinator", "coordinator", broker.address)
+			logger.Error(err, "could not find coordinator", "coordinator", broker.GetAddress())
 		} else {
+			brokers.updateCoordinator(r.Coordinator)
 			return
 		}
 	}
@@ -424,14 +479,14 @@ func (brokers *Brokers) ElectLeaders(req *ElectLeadersRequest) (r *ElectLeadersR
 
 // Request try to do request from all brokers until get the response
 func (brokers *Brokers) Request(req Request) (Response, error) {
-	for _, brokerInfo := range brokers.brokersInfo {
+	for _, brokerInfo := range brokers.BrokersInfo() {
 		broker, err := brokers.GetBroker(brokerInfo.NodeID)
 		if err != nil {
 			continue
 		}
 		resp, err := broker.RequestAndGet(req)
 		if err != nil {
-			logger.Error(err, "request failed", "request", req.API(), "brokerAddress", broker.address)
+			logger.Error(err, "request failed", "request", req.API(), "brokerAddress", broker.GetAddress())
 			continue
 		} else {
 			return resp, nil
diff --git a/client.go b/client.go
index 80fa975..f55490a 100644
--- a/client.go
+++ b/client.go
@@ -38,6 +38,9 @@ func (c *Client) Close() {
 
 // RefreshMetadata refreshes metadata for c.brokers
 func (c *Client) RefreshMetadata() {
+	if _, err := c.brokers.RequestMetaData(c.clientID, []string{}); err != nil {
+		c.logger.Error(err, "refresh metadata failed")
+	}
 }
 
 // ListGroups lists all consumer groups from all brokers
-- 
2.43.0


From c9b11ca3fa7d9c6ca0e1efbe35d8adafd379ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:06 +0000
Subject: [PATCH 60/72] fix: one partition without leader, or assigned but
 missing, kept a consumer from all others; unsubscribed and doubled partitions
 were consumed

---
 consumer.go        | 31 +++++++++++++++++++++++++++----
 simple_consumer.go |  6 +++++-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/consumer.go b/consumer.go
index eaaeaf9..7dae490 100644
--- a/consumer.go
+++ b/consumer.go
@@ -1,6 +1,7 @@
 package healer
 
 import (
+	"slices"
 	"sync"
 	"time"
 )
@@ -85,7 +86,9 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 	}
 
 	for !c.isClosed() {
-		if metadataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, topics); err != nil {
+		metadataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, topics)
+		// a partition without leader does not keep the others from being consumed
+		if err != nil && !topicsAvailable(topics, metadataResponse) {
 			logger.Error(err, "get metadata failed", "topics", topics)
 			time.Sleep(time.Millisecond * 1000)
 		} else {
@@ -100,12 +103,20 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 	for _, topicMetadatas := range metadataResponse.TopicMetadatas {
 		topicName := topicMetadatas.TopicName
 		var partitions = make([]int, 0)
-		if pids, ok := c.assign[topicName]; !ok || len(pids) == 0 { // consume all partitions
+		pids, ok := c.assign[topicName]
+		if !ok {
+			continue
+		}
+		if len(pids) == 0 { // consume all partitions
 			for _, partitionMetadataInfo := range topicMetadatas.PartitionMetadatas {
 				partitions = append(partitions, int(partitionMetadataInfo.PartitionID))
 			}
 		} else {
-			partitions = pids
+			for _, pid := range pids {
+				if !slices.Contains(partitions, pid) {
+					partitions = append(partitions, pid)
+				}
+			}
 		}
 
 		for _, p := range partitions {
@@ -129,12 +140,24 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 	}
 
 	for _, simpleConsumer := range simpleConsumers {
-		simpleConsumer.Consume(offset, messages)
+		go simpleConsumer.Consume(offset, messages) // it waits until the partition has a leader
 	}
 
 	return messages, nil
 }
 
+// topicsAvailable tells if the partitions of all the topics are known
+func topicsAvailable(topics []string, metadataResponse MetadataResponse) bool {
+	for _, topic := range topics {
+		if !slices.ContainsFunc(metadataResponse.TopicMetadatas, func(t TopicMetadata) bool {
+			return t.TopicName == topic && t.TopicErrorCode == 0
+		}) {
+			return false
+		}
+	}
+	return true
+}
+
 func (c *Consumer) isClosed() bool {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
diff --git a/simple_consumer.go b/simple_consumer.go
index 2c84e59..845fe12 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -126,7 +126,8 @@ func NewSimpleConsumer(topic string, partitionID int32, config interface{}) (*Si
 
 func (c *SimpleConsumer) refreshPartiton() error {
 	metaDataResponse, err := c.brokers.RequestMetaData(c.config.ClientID, []string{c.topic})
-	if err != nil {
+	var e KafkaError
+	if err != nil && !errors.As(err, &e) { // the error of another partition does not matter
 		return err
 	}
 	for _, topic := range metaDataResponse.TopicMetadatas {
@@ -140,6 +141,9 @@ func (c *SimpleConsumer) refreshPartiton() error {
 			}
 		}
 	}
+	if err != nil {
+		return err
+	}
 	return errors.New("partition not found in metadata response")
 }
 func (c *SimpleConsumer) getCoordinator() error {
-- 
2.43.0


From 96d9f408049cb72bf25a5c4f17bbffc428f7fbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:18 +0000
Subject: [PATCH 61/72] fix: a commit retried while another was made could take
 the committed offset back

---
 simple_consumer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simple_consumer.go b/simple_consumer.go
index 845fe12..f14f51b 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -37,6 +37,7 @@ type SimpleConsumer struct {
 	fromBeginning  bool
 	offset         int64
 	offsetCommited int64
+	commitLock     sync.Mutex // one commit at a time: an older offset is never committed after a newer one
 
 	messages chan *FullMessage
 
@@ -387,6 +388,9 @@ func (c *SimpleConsumer) commitOffset(offset int64) bool {
 // if simpleConsumer belong to a GroupConsumer, it uses groupconsumer to commit
 // else if it has GroupId, it use its own coordinator to commit
 func (c *SimpleConsumer) CommitOffset() {
+	c.commitLock.Lock()
+	defer c.commitLock.Unlock()
+
 	if c.offset == c.offsetCommited {
 		logger.V(3).Info("current offset does not change, skip committing", "offset", c.offset, "topic", c.topic, "partitionID", c.partitionID)
 		return
-- 
2.43.0


From 244feeef9d9d385b66b3d10ff1a63e8ff3acf18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:09 +0000
Subject: [PATCH 62/72] fix: admin calls lost the answers that came with an
 error, listed groups under a wrong broker, swallowed failures of log
 directories

---
 brokers.go |   6 ++-
 client.go  | 122 ++++++++++++++++++++++++++---------------------------
 2 files changed, 63 insertions(+), 65 deletions(-)

diff --git a/brokers.go b/brokers.go
index dc26fa9..66ed84d 100644
--- a/brokers.go
+++ b/brokers.go
@@ -458,10 +458,11 @@ func (brokers *Brokers) AlterPartitionReassignments(req *AlterPartitionReassignm
 		return r, fmt.Errorf("could not create controller broker: %w", err)
 	}
 	resp, err := controller.RequestAndGet(req)
+	r, _ = resp.(*AlterPartitionReassignmentsResponse) // tells which partitions failed, nil if there is no response
 	if err != nil {
 		return r, fmt.Errorf("could not get AlterPartitionReassignments response from controller: %w", err)
 	}
-	return resp.(*AlterPartitionReassignmentsResponse), nil
+	return r, nil
 }
 
 // ElectLeaders requests ElectLeaders from controller and returns response
@@ -471,10 +472,11 @@ func (brokers *Brokers) ElectLeaders(req *ElectLeadersRequest) (r *ElectLeadersR
 		return r, fmt.Errorf("could not create controller broker: %w", err)
 	}
 	resp, err := controller.RequestAndGet(req)
+	r, _ = resp.(*ElectLeadersResponse)
 	if err != nil {
 		return r, fmt.Errorf("could not get ElectLeaders response from controller: %w", err)
 	}
-	return resp.(*ElectLeadersResponse), nil
+	return r, nil
 }
 
 // Request try to do request from all brokers until get the response
diff --git a/client.go b/client.go
index f55490a..a2c0c32 100644
--- a/client.go
+++ b/client.go
@@ -59,7 +59,7 @@ func (c *Client) ListGroups() (groups map[int32][]*Group, err error) {
 			return groups, err
 		}
 		if len(response.Groups) > 0 {
-			groups[broker.nodeID] = response.Groups
+			groups[brokerinfo.NodeID] = response.Groups // broker may be the bootstrap one, which does not know its id
 		}
 	}
 	return groups, nil
@@ -102,6 +102,7 @@ func (c *Client) DescribeLogDirs(topics []string) (map[int32]DescribeLogDirsResp
 
 	c.logger.Info("broker partitions", "brokerPartitions", brokerPartitions)
 
+	var firstErr error // the answers of the other brokers are returned too
 	rst := make(map[int32]DescribeLogDirsResponse)
 	for b, topicPartitions := range brokerPartitions {
 		req := NewDescribeLogDirsRequest(c.clientID, nil)
@@ -111,11 +112,25 @@ func (c *Client) DescribeLogDirs(topics []string) (map[int32]DescribeLogDirsResp
 
 		broker, err := c.brokers.GetBroker(b)
 		if err != nil {
-			return nil, err
+			c.logger.Error(err, "get broker failed", "NodeID", b)
+			if firstErr == nil {
+				firstErr = err
+			}
+			continue
 		}
 		resp, err := broker.RequestAndGet(req)
 		if err != nil {
 			c.logger.Error(err, "describe logdirs failed", "broker", broker.String())
+			if firstErr == nil {
+				firstErr = fmt.Errorf("describe logdirs of broker %d failed: %w", b, err)
+			}
+		}
+		r, ok := resp.(DescribeLogDirsResponse)
+		if !ok {
+			continue
+		}
+		if len(topics) == 0 { // all topics are asked for
+			rst[b] = r
 			continue
 		}
 
@@ -123,7 +138,6 @@ func (c *Client) DescribeLogDirs(topics []string) (map[int32]DescribeLogDirsResp
 		for _, t := range topics {
 			topicSet[t] = struct{}{}
 		}
-		r := resp.(DescribeLogDirsResponse)
 		rs := r.Results
 		for i := range rs {
 			theTopics := rs[i].Topics
@@ -135,18 +149,10 @@ func (c *Client) DescribeLogDirs(topics []string) (map[int32]DescribeLogDirsResp
 			}
 			rs[i].Topics = filterdTopics
 		}
-
-		filteredTopicResults := make([]DescribeLogDirsResponseResult, 0)
-		for i := range rs {
-			if len(rs[i].Topics) > 0 {
-				filteredTopicResults = append(filteredTopicResults, rs[i])
-			}
-		}
-		r.Results = filteredTopicResults
-		rst[b] = resp.(DescribeLogDirsResponse)
+		rst[b] = r
 	}
 
-	return rst, nil
+	return rst, firstErr
 }
 
 func (c *Client) DeleteTopics(topics []string, timeoutMs int32) (r DeleteTopicsResponse, err error) {
@@ -180,11 +186,8 @@ func (c *Client) CreateTopic(topic string, numPartitions int32, replicationFacto
 	}
 
 	resp, err := controller.RequestAndGet(req)
-	if err != nil {
-		return CreateTopicsResponse{}, err
-	}
-
-	return resp.(CreateTopicsResponse), nil
+	r, _ := resp.(CreateTopicsResponse) // tells which topics failed, if there is a response
+	return r, err
 }
 
 // CreateTopics creates multiple topics with specified parameters
@@ -205,11 +208,8 @@ func (c *Client) CreateTopics(topics []string, numPartitions int32, replicationF
 	}
 
 	resp, err := controller.RequestAndGet(req)
-	if err != nil {
-		return CreateTopicsResponse{}, err
-	}
-
-	return resp.(CreateTopicsResponse), nil
+	r, _ := resp.(CreateTopicsResponse) // tells which topics failed, if there is a response
+	return r, err
 }
 
 // CreatePartitions creates additional partitions for existing topics
@@ -225,11 +225,8 @@ func (c *Client) CreatePartitions(topic string, totalPartitions int32, timeoutMs
 	}
 
 	resp, err := controller.RequestAndGet(&req)
-	if err != nil {
-		return CreatePartitionsResponse{}, err
-	}
-
-	return resp.(CreatePartitionsResponse), nil
+	r, _ := resp.(CreatePartitionsResponse)
+	return r, err
 }
 
 // CreatePartitionsWithAssignments creates additional partitions for existing topics with custom broker assignments
@@ -245,11 +242,8 @@ func (c *Client) CreatePartitionsWithAssignments(topic string, totalPartitions i
 	}
 
 	resp, err := controller.RequestAndGet(&req)
-	if err != nil {
-		return CreatePartitionsResponse{}, err
-	}
-
-	return resp.(CreatePartitionsResponse), nil
+	r, _ := resp.(CreatePartitionsResponse)
+	return r, err
 }
 
 // DeleteGroups deletes consumer groups from the Kafka cluster
@@ -261,20 +255,26 @@ func (c *Client) DeleteGroups(groups []string) (DeleteGroupsResponse, error) {
 		ErrorCode int16  `json:"error_code"`
 	}
 
+	// what has been deleted so far is returned in any case
+	result := func() DeleteGroupsResponse {
+		return DeleteGroupsResponse{Results: allResults}
+	}
+
+	var firstErr error
 	// Process each group individually to find its coordinator
 	for _, group := range groups {
 		// Find coordinator for the group
 		coordinatorResponse, err := c.brokers.FindCoordinator(c.clientID, group)
 		if err != nil {
 			c.logger.Error(err, "failed to find coordinator for group", "group", group)
-			return DeleteGroupsResponse{}, fmt.Errorf("failed to find coordinator for group %s: %w", group, err)
+			return result(), fmt.Errorf("failed to find coordinator for group %s: %w", group, err)
 		}
 
 		// Get the coordinator broker
 		coordinator, err := c.brokers.GetBroker(coordinatorResponse.Coordinator.NodeID)
 		if err != nil {
 			c.logger.Error(err, "failed to get coordinator broker", "group", group, "nodeID", coordinatorResponse.Coordinator.NodeID)
-			return DeleteGroupsResponse{}, fmt.Errorf("failed to get coordinator broker for group %s: %w", group, err)
+			return result(), fmt.Errorf("failed to get coordinator broker for group %s: %w", group, err)
 		}
 
 		c.logger.Info("coordinator for group", "group", group, "coordinator", coordinator.GetAddress())
@@ -284,7 +284,17 @@ func (c *Client) DeleteGroups(groups []string) (DeleteGroupsResponse, error) {
 		resp, err := coordinator.RequestAndGet(req)
 		if err != nil {
 			c.logger.Error(err, "failed to delete group", "group", group)
-			return DeleteGroupsResponse{}, fmt.Errorf("failed to delete group %s: %w", group, err)
+			err = fmt.Errorf("failed to delete group %s: %w", group, err)
+			deleteResp, ok := resp.(DeleteGroupsResponse)
+			if !ok {
+				return result(), err
+			}
+			// the coordinator refused, go on with the other groups
+			allResults = append(allResults, deleteResp.Results...)
+			if firstErr == nil {
+				firstErr = err
+			}
+			continue
 		}
 
 		// Collect results
@@ -293,11 +303,7 @@ func (c *Client) DeleteGroups(groups []string) (DeleteGroupsResponse, error) {
 	}
 
 	// Return combined response
-	return DeleteGroupsResponse{
-		CorrelationID:  0, // This will be overwritten by the last response
-		ThrottleTimeMs: 0,
-		Results:        allResults,
-	}, nil
+	return result(), firstErr
 }
 
 func (c *Client) DescribeAcls(r DescribeAclsRequestBody) (DescribeAclsResponse, error) {
@@ -315,10 +321,8 @@ func (c *Client) DescribeAcls(r DescribeAclsRequestBody) (DescribeAclsResponse,
 	}
 
 	resp, err := controller.RequestAndGet(&req)
-	if err != nil {
-		return DescribeAclsResponse{}, err
-	}
-	return resp.(DescribeAclsResponse), err
+	rst, _ := resp.(DescribeAclsResponse)
+	return rst, err
 }
 
 func (c *Client) CreateAcls(creations []AclCreation) (*CreateAclsResponse, error) {
@@ -337,10 +341,8 @@ func (c *Client) CreateAcls(creations []AclCreation) (*CreateAclsResponse, error
 	}
 
 	resp, err := controller.RequestAndGet(&req)
-	if err != nil {
-		return nil, err
-	}
-	return resp.(*CreateAclsResponse), err
+	r, _ := resp.(*CreateAclsResponse) // tells which creations failed, nil if there is no response
+	return r, err
 }
 
 func (c *Client) DeleteAcls(filters []*DeleteAclsFilter) (*DeleteAclsResponse, error) {
@@ -352,10 +354,8 @@ func (c *Client) DeleteAcls(filters []*DeleteAclsFilter) (*DeleteAclsResponse, e
 	}
 
 	resp, err := controller.RequestAndGet(req)
-	if err != nil {
-		return nil, err
-	}
-	return resp.(*DeleteAclsResponse), err
+	r, _ := resp.(*DeleteAclsResponse)
+	return r, err
 }
 
 func (c *Client) DescribeConfigs(resourceType, resourceName string, keys []string) (r DescribeConfigsResponse, err error) {
@@ -369,8 +369,8 @@ func (c *Client) DescribeConfigs(resourceType, resourceName string, keys []strin
 	req := NewDescribeConfigsRequest(c.clientID, resources)
 
 	var serverID int32
-	if resourceType == "broker" {
-		if brokerID, e := strconv.Atoi(resourceName); e != nil {
+	if resourceType == "broker" || resourceType == "broker_logger" { // only the broker itself knows
+		if brokerID, e := strconv.ParseInt(resourceName, 10, 32); e != nil {
 			return r, fmt.Errorf("broker id must be a number")
 		} else {
 			serverID = int32(brokerID)
@@ -385,10 +385,8 @@ func (c *Client) DescribeConfigs(resourceType, resourceName string, keys []strin
 	}
 
 	resp, err := server.RequestAndGet(req)
-	if err != nil {
-		return r, err
-	}
-	return resp.(DescribeConfigsResponse), nil
+	r, _ = resp.(DescribeConfigsResponse)
+	return r, err
 }
 
 func (c *Client) ListPartitionReassignments(req *ListPartitionReassignmentsRequest) (*ListPartitionReassignmentsResponse, error) {
@@ -398,8 +396,6 @@ func (c *Client) ListPartitionReassignments(req *ListPartitionReassignmentsReque
 	}
 
 	resp, err := controller.RequestAndGet(req)
-	if err != nil {
-		return nil, err
-	}
-	return resp.(*ListPartitionReassignmentsResponse), nil
+	r, _ := resp.(*ListPartitionReassignmentsResponse)
+	return r, err
 }
-- 
2.43.0


From f59c7640e866ffaa1dc0621e8738f082ca14034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:05 +0000
Subject: [PATCH 63/72] fix: a null value was sent as an empty one, UNKNOWN of
 ACLs was read as ANY, malformed records and messages were accepted

---
 acl_types.go              |  4 +--
 group.go                  |  2 ++
 message.go                | 18 +++++++---
 primitive_type_encode.go  |  2 +-
 primitive_types_decode.go | 12 +++++--
 record.go                 | 74 +++++++++++++++++++++++++++++++--------
 simple_producer.go        |  7 ++--
 7 files changed, 93 insertions(+), 26 deletions(-)

diff --git a/acl_types.go b/acl_types.go
index 65aa854..f99257e 100644
--- a/acl_types.go
+++ b/acl_types.go
@@ -182,7 +182,7 @@ func (o AclsOperation) MarshalText() ([]byte, error) {
 func (o *AclsOperation) UnmarshalText(text []byte) error {
 	switch strings.ToUpper(string(text)) {
 	case "UNKNOWN", "0":
-		*o = AclsOperationAny
+		*o = AclsOperationUnknown
 	case "ANY", "1":
 		*o = AclsOperationAny
 	case "ALL", "2":
@@ -245,7 +245,7 @@ func (p AclsPermissionType) MarshalText() ([]byte, error) {
 func (p *AclsPermissionType) UnmarshalText(text []byte) error {
 	switch strings.ToUpper(string(text)) {
 	case "UNKNOWN", "0":
-		*p = AclsPermissionTypeAny
+		*p = AclsPermissionTypeUnkown
 	case "ANY", "1":
 		*p = AclsPermissionTypeAny
 	case "DENY", "2":
diff --git a/group.go b/group.go
index 878a3e5..096c2b5 100644
--- a/group.go
+++ b/group.go
@@ -68,6 +68,7 @@ func NewMemberAssignment(payload []byte) (r *MemberAssignment, err error) {
 			r, err = nil, fmt.Errorf("malformed member assignment: %v", e)
 		}
 	}()
+	payload = payload[:len(payload):len(payload)] // no reading beyond the end
 	r = &MemberAssignment{}
 	var (
 		offset int   = 0
@@ -163,6 +164,7 @@ func NewProtocolMetadata(payload []byte) (p *ProtocolMetadata) {
 		}
 	}()
 
+	payload = payload[:len(payload):len(payload)] // no reading beyond the end
 	offset := 0
 	p = &ProtocolMetadata{}
 	p.Version = binary.BigEndian.Uint16(payload[offset:])
diff --git a/message.go b/message.go
index 38129b4..6c5a1b7 100644
--- a/message.go
+++ b/message.go
@@ -90,10 +90,15 @@ func (messageSet *MessageSet) Encode(payload []byte, offset int) int {
 			offset += len(message.Key)
 		}
 
-		binary.BigEndian.PutUint32(payload[offset:], uint32(len(message.Value)))
-		offset += 4
-		copy(payload[offset:], message.Value)
-		offset += len(message.Value)
+		if message.Value == nil {
+			binary.BigEndian.PutUint32(payload[offset:], uint32(i))
+			offset += 4
+		} else {
+			binary.BigEndian.PutUint32(payload[offset:], uint32(len(message.Value)))
+			offset += 4
+			copy(payload[offset:], message.Value)
+			offset += len(message.Value)
+		}
 
 		message.Crc = crc32.ChecksumIEEE(payload[crcPosition+4 : offset])
 		binary.BigEndian.PutUint32(payload[crcPosition:], message.Crc)
@@ -112,6 +117,7 @@ func DecodeToMessageSet(payload []byte) (messageSet MessageSet, err error) {
 		}
 	}()
 
+	payload = payload[:len(payload):len(payload)] // no reading beyond the end
 	messageSet = MessageSet{}
 	var offset int = 0
 
@@ -127,6 +133,7 @@ func DecodeToMessageSet(payload []byte) (messageSet MessageSet, err error) {
 
 		message.MessageSize = int32(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
+		end := offset + int(message.MessageSize)
 
 		message.Crc = binary.BigEndian.Uint32(payload[offset:])
 		offset += 4
@@ -159,6 +166,9 @@ func DecodeToMessageSet(payload []byte) (messageSet MessageSet, err error) {
 			message.Value = append([]byte{}, payload[offset:offset+int(valueLength)]...)
 			offset += int(valueLength)
 		}
+		if offset != end {
+			return messageSet, fmt.Errorf("malformed message set: size %d of message does not match its fields", message.MessageSize)
+		}
 		compression := CompressType(message.Attributes & 0x07)
 		if compression != CompressionNone {
 			message.Value, err = message.decompress()
diff --git a/primitive_type_encode.go b/primitive_type_encode.go
index 4361c3b..d70709b 100644
--- a/primitive_type_encode.go
+++ b/primitive_type_encode.go
@@ -116,7 +116,7 @@ func encodeNullableBytes(s []byte) []byte {
 		return binary.BigEndian.AppendUint32(nil, 0xFFFFFFFF)
 	}
 	payload := make([]byte, len(s)+4)
-	binary.BigEndian.AppendUint32(payload, uint32(len(s)))
+	binary.BigEndian.PutUint32(payload, uint32(len(s)))
 	offset := copy(payload[4:], s)
 	return payload[:4+offset]
 }
diff --git a/primitive_types_decode.go b/primitive_types_decode.go
index c1dfe08..1119d30 100644
--- a/primitive_types_decode.go
+++ b/primitive_types_decode.go
@@ -30,6 +30,15 @@ func uvarint(payload []byte) (uint64, int) {
 	return v, n
 }
 
+// varint reads a VARINT or VARLONG. It panics, as reading out of range does, if it is cut off or too long.
+func varint(payload []byte) (int64, int) {
+	v, n := binary.Varint(payload)
+	if n <= 0 {
+		panic(errShortRead)
+	}
+	return v, n
+}
+
 func nonnullableString(payload []byte) (r string, offset int) {
 	l := int(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
@@ -103,11 +112,10 @@ func nullableBytes(payload []byte) (r []byte, offset int) {
 // Then N bytes follow. A null object is represented with a length of 0.
 func compactNullableBytes(payload []byte) (r []byte, offset int) {
 	length, o := uvarint(payload)
-	length--
-
 	if length == 0 {
 		return nil, o
 	}
+	length--
 	r = payload[o : o+int(length)]
 	return r, o + int(length)
 }
diff --git a/record.go b/record.go
index 77739f5..05573aa 100644
--- a/record.go
+++ b/record.go
@@ -17,12 +17,12 @@ type RecordHeader struct {
 }
 
 func decodeHeader(payload []byte) (header RecordHeader, offset int) {
-	keyLength, o := binary.Varint(payload[offset:])
+	keyLength, o := varint(payload[offset:])
 	offset += o
 	header.Key = string(payload[offset : offset+int(keyLength)])
 	offset += int(keyLength)
 
-	valueLength, o := binary.Varint(payload[offset:])
+	valueLength, o := varint(payload[offset:])
 	offset += o
 	if valueLength >= 0 { // -1 is null
 		header.Value = append([]byte{}, payload[offset:offset+int(valueLength)]...)
@@ -78,7 +78,11 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 	// Encode value
 	valueLenBuf := make([]byte, binary.MaxVarintLen64)
-	n = binary.PutVarint(valueLenBuf, int64(len(r.value)))
+	if r.value == nil {
+		n = binary.PutVarint(valueLenBuf, -1)
+	} else {
+		n = binary.PutVarint(valueLenBuf, int64(len(r.value)))
+	}
 	buf.Write(valueLenBuf[:n])
 	buf.Write(r.value)
 
@@ -105,7 +109,11 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 		// Encode Value length
 		valueLenBuf := make([]byte, binary.MaxVarintLen64)
-		n = binary.PutVarint(valueLenBuf, int64(len(header.Value)))
+		if header.Value == nil {
+			n = binary.PutVarint(valueLenBuf, -1)
+		} else {
+			n = binary.PutVarint(valueLenBuf, int64(len(header.Value)))
+		}
 		if _, err := buf.Write(valueLenBuf[:n]); err != nil {
 			return nil, err
 		}
@@ -146,23 +154,28 @@ func DecodeToRecord(payload []byte) (record Record, offset int, err error) {
 	}()
 
 	length, o := binary.Varint(payload)
-	if length == 0 || len(payload[o:]) < int(length) {
+	if length == 0 || int64(len(payload)-max(o, 0)) < length {
 		return record, o, errUncompleteRecord
 	}
+	if o < 0 || length < 0 {
+		return record, 0, errors.New("malformed record: invalid length")
+	}
 	offset += o
+	end := offset + int(length)
+	payload = payload[:end:end] // no reading beyond the end
 
 	record.attributes = int8(payload[offset])
 	offset++
 
-	timestampDelta, o := binary.Varint(payload[offset:])
+	timestampDelta, o := varint(payload[offset:])
 	record.timestampDelta = int64(timestampDelta)
 	offset += o
 
-	offsetDelta, o := binary.Varint(payload[offset:])
+	offsetDelta, o := varint(payload[offset:])
 	record.offsetDelta = int32(offsetDelta)
 	offset += o
 
-	keyLength, o := binary.Varint(payload[offset:])
+	keyLength, o := varint(payload[offset:])
 	offset += o
 
 	if keyLength >= 0 { // -1 is null
@@ -170,14 +183,14 @@ func DecodeToRecord(payload []byte) (record Record, offset int, err error) {
 		offset += int(keyLength)
 	}
 
-	valueLen, o := binary.Varint(payload[offset:])
+	valueLen, o := varint(payload[offset:])
 	offset += o
 	if valueLen >= 0 { // -1 is null
 		record.value = append([]byte{}, payload[offset:offset+int(valueLen)]...)
 		offset += int(valueLen)
 	}
 
-	headerCount, o := binary.Varint(payload[offset:])
+	headerCount, o := varint(payload[offset:])
 	offset += o
 	if headerCount > int64(len(payload)-offset) {
 		return record, offset, errors.New("malformed record: more headers than bytes")
@@ -188,6 +201,9 @@ func DecodeToRecord(payload []byte) (record Record, offset int, err error) {
 		offset += o
 	}
 
+	if offset != end {
+		return record, offset, errors.New("malformed record: its length does not match its fields")
+	}
 	return
 }
 
@@ -224,6 +240,9 @@ func (r *RecordBatch) Encode(version uint16) (payload []byte, err error) {
 
 	// BatchLength is variable, so reserve space for it.
 	defer func() {
+		if err != nil {
+			return
+		}
 		binary.BigEndian.PutUint32(payload[8:], uint32(buf.Len()-12)) // 12 is baseoffset + batchlength
 	}()
 
@@ -244,6 +263,9 @@ func (r *RecordBatch) Encode(version uint16) (payload []byte, err error) {
 	crcOffset := buf.Len()
 	binary.Write(buf, binary.BigEndian, r.CRC)
 	defer func() {
+		if err != nil {
+			return
+		}
 		crc := crc32.Checksum(payload[crcOffset+4:], castagnoliTable)
 		binary.BigEndian.PutUint32(payload[crcOffset:], crc)
 	}()
@@ -276,7 +298,7 @@ func (r *RecordBatch) Encode(version uint16) (payload []byte, err error) {
 		return nil, err
 	}
 
-	compress := CompressType(r.Attributes & 0b11)
+	compress := CompressType(r.Attributes & 0b111)
 
 	if compress == CompressionNone {
 		for _, record := range r.Records {
@@ -290,6 +312,9 @@ func (r *RecordBatch) Encode(version uint16) (payload []byte, err error) {
 		}
 	} else {
 		compressor := NewCompressor(compress.String())
+		if compressor == nil {
+			return nil, fmt.Errorf("unknown compression type %d", compress)
+		}
 		b := new(bytes.Buffer)
 		for _, record := range r.Records {
 			recordBytes, err := record.Encode(version)
@@ -313,9 +338,15 @@ func (r *RecordBatch) Encode(version uint16) (payload []byte, err error) {
 	return buf.Bytes(), nil
 }
 
-// DecodeToRecord decodes the struct Record from the given payload.
+// DecodeToRecordBatch decodes the struct RecordBatch from the given payload.
 // only used in test
 func DecodeToRecordBatch(payload []byte) (r RecordBatch, offset int, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("malformed record batch: %v", e)
+		}
+	}()
+
 	r.BaseOffset = int64(binary.BigEndian.Uint64(payload[offset:]))
 	offset += 8
 
@@ -355,15 +386,28 @@ func DecodeToRecordBatch(payload []byte) (r RecordBatch, offset int, err error)
 	recordCount := binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
+	end := 12 + int(r.BatchLength) // 12 is baseoffset + batchlength
+	records, err := uncompress(int8(r.Attributes&0b111), bytes.NewReader(payload[offset:end:len(payload)]))
+	if err != nil {
+		return r, offset, err
+	}
+	if int(recordCount) > len(records) {
+		return r, offset, errors.New("malformed record batch: more records than bytes")
+	}
+
 	r.Records = make([]*Record, recordCount)
+	recordsOffset := 0
 	for i := range r.Records {
-		record, o, err := DecodeToRecord(payload[offset:])
-		offset += o
+		record, o, err := DecodeToRecord(records[recordsOffset:])
 		if err != nil {
 			return r, offset, err
 		}
+		recordsOffset += o
 		r.Records[i] = &record
 	}
+	if recordsOffset != len(records) {
+		return r, offset, errors.New("malformed record batch: more bytes than records")
+	}
 
-	return r, offset, nil
+	return r, end, nil
 }
diff --git a/simple_producer.go b/simple_producer.go
index 8fa70eb..4f2ada6 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -145,8 +145,11 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 		return ErrProducerClosed
 	}
 
-	valueCopy := make([]byte, len(value))
-	copy(valueCopy, value)
+	var valueCopy []byte // a nil value stays nil
+	if value != nil {
+		valueCopy = make([]byte, len(value))
+		copy(valueCopy, value)
+	}
 
 	var keyCopy []byte // a nil key stays nil
 	if key != nil {
-- 
2.43.0


From 831f4a4a6313e1ce3e37058d56ae8689e9222907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:54 +0000
Subject: [PATCH 64/72] fix: admin commands ignored or misread their flags,
 dropped replica assignments, altered configs at the wrong broker

ACL commands took unknown flag values as UNKNOWN and failed names of their own help, --replica-assignment lost assignments in map order,
create-partitions --assignments panicked, describe-logdirs without topics asked for none, broker configs were altered at the controller.
---
 acl_types.go                            |  8 ++++----
 command/healer/cmd/alter-configs.go     | 21 +++++++++++++++++----
 command/healer/cmd/create-acls.go       | 18 +++++++++++++-----
 command/healer/cmd/create-partitions.go | 18 ++++++++++++------
 command/healer/cmd/create-topic.go      | 17 ++++++++++-------
 command/healer/cmd/delete-acls.go       | 18 +++++++++++++-----
 command/healer/cmd/describe-acls.go     | 18 +++++++++++++-----
 command/healer/cmd/describe-logdirs.go  |  4 ++++
 8 files changed, 86 insertions(+), 36 deletions(-)

diff --git a/acl_types.go b/acl_types.go
index f99257e..2a0644d 100644
--- a/acl_types.go
+++ b/acl_types.go
@@ -199,13 +199,13 @@ func (o *AclsOperation) UnmarshalText(text []byte) error {
 		*o = AclsOperationAlter
 	case "DESCRIBE", "8":
 		*o = AclsOperationDescribe
-	case "CLUSTER_ACTION", "9":
+	case "CLUSTER_ACTION", "CLUSTERACTION", "9":
 		*o = AclsOperationClusterAction
-	case "DESCRIBE_CONFIGS", "10":
+	case "DESCRIBE_CONFIGS", "DESCRIBECONFIGS", "10":
 		*o = AclsOperationDescribeConfigs
-	case "ALTER_CONFIGS", "11":
+	case "ALTER_CONFIGS", "ALTERCONFIGS", "11":
 		*o = AclsOperationAlterConfigs
-	case "IDEMPOTENT_WRITE", "12":
+	case "IDEMPOTENT_WRITE", "IDEMPOTENTWRITE", "12":
 		*o = AclsOperationIdempotentWrite
 	default:
 		return fmt.Errorf("unknown AclsOperation: %s", text)
diff --git a/command/healer/cmd/alter-configs.go b/command/healer/cmd/alter-configs.go
index f2b4a56..2582b26 100644
--- a/command/healer/cmd/alter-configs.go
+++ b/command/healer/cmd/alter-configs.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"encoding/json"
 	"fmt"
+	"strconv"
 
 	"github.com/childe/healer"
 	"github.com/spf13/cobra"
@@ -39,21 +40,33 @@ var alterConfigsCmd = &cobra.Command{
 			return err
 		}
 
+		if healer.ConvertConfigResourceType(resourceType) == 0 {
+			return fmt.Errorf("unknown resource type: %q", resourceType)
+		}
+
 		bs, err := healer.NewBrokers(brokers)
 		if err != nil {
 			return fmt.Errorf("failed to create brokers from %s", brokers)
 		}
 
-		controller, err := bs.GetBroker(bs.Controller())
+		serverID := bs.Controller()
+		if resourceType != "topic" { // a broker changes its own configs only
+			brokerID, err := strconv.ParseInt(resourceName, 10, 32)
+			if err != nil {
+				return fmt.Errorf("broker id must be a number: %w", err)
+			}
+			serverID = int32(brokerID)
+		}
+		server, err := bs.GetBroker(serverID)
 		if err != nil {
-			return fmt.Errorf("failed to create crotroller broker: %w", err)
+			return fmt.Errorf("failed to get broker %d: %w", serverID, err)
 		}
-		klog.V(5).Infof("controller: %s", controller.GetAddress())
+		klog.V(5).Infof("alter configs at %s", server.GetAddress())
 
 		r := healer.NewIncrementalAlterConfigsRequest(client)
 		r.AddConfig(healer.ConvertConfigResourceType(resourceType), resourceName, configName, configValue)
 
-		resp, err := controller.RequestAndGet(r)
+		resp, err := server.RequestAndGet(r)
 		if err != nil {
 			return fmt.Errorf("faild to alter configs: %w", err)
 		}
diff --git a/command/healer/cmd/create-acls.go b/command/healer/cmd/create-acls.go
index 821f007..d300180 100644
--- a/command/healer/cmd/create-acls.go
+++ b/command/healer/cmd/create-acls.go
@@ -31,17 +31,21 @@ var createAclsCmd = &cobra.Command{
 		aclCreation := healer.AclCreation{}
 
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &aclCreation.ResourceType)
+		if err = aclCreation.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &aclCreation.ResourceName)
+			aclCreation.ResourceName = resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
 		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &aclCreation.PatternType)
+			if err = aclCreation.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+				return err
+			}
 		}
 
 		if aclCreation.Principal, err = cmd.Flags().GetString("principal"); err != nil {
@@ -53,10 +57,14 @@ var createAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &aclCreation.Operation)
+		if err = aclCreation.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &aclCreation.PermissionType)
+		if err = aclCreation.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.CreateAcls([]healer.AclCreation{aclCreation})
 		if err != nil {
diff --git a/command/healer/cmd/create-partitions.go b/command/healer/cmd/create-partitions.go
index e2ac44f..4918502 100644
--- a/command/healer/cmd/create-partitions.go
+++ b/command/healer/cmd/create-partitions.go
@@ -10,18 +10,19 @@ import (
 )
 
 func genPartitionAssignments(assignments string) (partitionAssignments [][]int32, err error) {
-	for i, brokerIDs := range strings.Split(assignments, ",") {
+	for _, brokerIDs := range strings.Split(assignments, ",") {
 		if brokerIDs == "" {
 			continue
 		}
-		partitionAssignments = append(partitionAssignments, []int32{})
+		replicas := []int32{}
 		for _, brokerID := range strings.Split(brokerIDs, ":") {
-			if _brokerID, err := strconv.Atoi(brokerID); err == nil {
-				partitionAssignments[i] = append(partitionAssignments[i], int32(_brokerID))
+			if _brokerID, err := strconv.ParseInt(brokerID, 10, 32); err == nil {
+				replicas = append(replicas, int32(_brokerID))
 			} else {
 				return nil, fmt.Errorf("failed to convert %s to int: %w", brokerID, err)
 			}
 		}
+		partitionAssignments = append(partitionAssignments, replicas)
 	}
 	return
 }
@@ -60,6 +61,11 @@ var createPartitionsCmd = &cobra.Command{
 			return err
 		}
 
+		done := "created"
+		if validateOnly {
+			done = "validated"
+		}
+
 		// Use the new Client.CreatePartitions method for simple cases (no assignments)
 		if assignments == "" {
 			// Create client instance
@@ -80,7 +86,7 @@ var createPartitionsCmd = &cobra.Command{
 				return fmt.Errorf("create partitions failed: %w", respErr)
 			}
 
-			fmt.Printf("Successfully created partitions for topic '%s' with total count: %d\n", topic, count)
+			fmt.Printf("Successfully %s partitions for topic '%s' with total count: %d\n", done, topic, count)
 			return nil
 		}
 
@@ -107,7 +113,7 @@ var createPartitionsCmd = &cobra.Command{
 			return fmt.Errorf("create partitions with assignments failed: %w", respErr)
 		}
 
-		fmt.Printf("Successfully created partitions for topic '%s' with total count: %d and custom assignments\n", topic, count)
+		fmt.Printf("Successfully %s partitions for topic '%s' with total count: %d and custom assignments\n", done, topic, count)
 		return nil
 	},
 }
diff --git a/command/healer/cmd/create-topic.go b/command/healer/cmd/create-topic.go
index df8bc36..b7a5588 100644
--- a/command/healer/cmd/create-topic.go
+++ b/command/healer/cmd/create-topic.go
@@ -90,24 +90,27 @@ var createTopicCmd = &cobra.Command{
 
 		r := healer.NewCreateTopicsRequest(client, timeout)
 
-		replicas := make(map[int32][]int32)
-		for pid, nodes := range strings.Split(replicaAssignment, ",") {
-			replicas[int32(pid)] = make([]int32, 0)
+		replicas := make([][]int32, 0)
+		for _, nodes := range strings.Split(replicaAssignment, ",") {
+			nodeids := make([]int32, 0)
 			for _, node := range strings.Split(nodes, ":") {
-				nodeid, err := strconv.Atoi(node)
+				nodeid, err := strconv.ParseInt(node, 10, 32)
 				if err != nil {
 					return fmt.Errorf("invalid replica-assignment: %w", err)
 				}
-				replicas[int32(pid)] = append(replicas[int32(pid)], int32(nodeid))
+				nodeids = append(nodeids, int32(nodeid))
 			}
+			replicas = append(replicas, nodeids)
 		}
 
 		// First add the topic
 		r.AddTopic(topic, partitions, replicationFactor)
 
-		// Then add replica assignments
+		// Then add replica assignments, in the order of partitions
 		for pid, nodes := range replicas {
-			r.AddReplicaAssignment(topic, pid, nodes)
+			if err := r.AddReplicaAssignment(topic, int32(pid), nodes); err != nil {
+				return fmt.Errorf("failed to add replica-assignment of partition %d: %w", pid, err)
+			}
 		}
 
 		if resp, err := controller.RequestAndGet(r); err != nil {
diff --git a/command/healer/cmd/delete-acls.go b/command/healer/cmd/delete-acls.go
index f8409c7..1d81499 100644
--- a/command/healer/cmd/delete-acls.go
+++ b/command/healer/cmd/delete-acls.go
@@ -32,17 +32,21 @@ var deleteAclsCmd = &cobra.Command{
 
 		// 处理所有标志
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &f.ResourceType)
+		if err = f.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &f.ResourceName)
+			f.ResourceName = &resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
 		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &f.PatternType)
+			if err = f.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+				return err
+			}
 		}
 
 		if !cmd.Flags().Changed("principal") {
@@ -66,10 +70,14 @@ var deleteAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &f.Operation)
+		if err = f.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &f.PermissionType)
+		if err = f.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.DeleteAcls([]*healer.DeleteAclsFilter{f})
 		if err != nil {
diff --git a/command/healer/cmd/describe-acls.go b/command/healer/cmd/describe-acls.go
index 1a9113b..3874d0e 100644
--- a/command/healer/cmd/describe-acls.go
+++ b/command/healer/cmd/describe-acls.go
@@ -32,17 +32,21 @@ var describeAclsCmd = &cobra.Command{
 
 		// 处理所有标志
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &req.ResourceType)
+		if err = req.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &req.ResourceName)
+			req.ResourceName = &resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
 		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &req.PatternType)
+			if err = req.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+				return err
+			}
 		}
 
 		if !cmd.Flags().Changed("principal") {
@@ -66,10 +70,14 @@ var describeAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &req.Operation)
+		if err = req.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &req.PermissionType)
+		if err = req.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.DescribeAcls(req)
 		if err != nil {
diff --git a/command/healer/cmd/describe-logdirs.go b/command/healer/cmd/describe-logdirs.go
index bfe5480..60e5dfa 100644
--- a/command/healer/cmd/describe-logdirs.go
+++ b/command/healer/cmd/describe-logdirs.go
@@ -26,6 +26,10 @@ var describeLogdirs = &cobra.Command{
 			return err
 		}
 
+		if len(topics) == 0 {
+			topics = nil // all topics
+		}
+
 		admin, err := healer.NewClient(brokers, clientID)
 
 		if err != nil {
-- 
2.43.0


From 50c2b9a5883c2bb6986226b540581ee26504929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:59 +0000
Subject: [PATCH 65/72] fix: tools accepted unreadable configs and failed
 requests silently, reset-offset committed -1

--config that is no JSON was ignored, get-metadata hid failures, reset-offset committed offset -1 and ignored missing partitions,
get-pending panicked on special characters and hid failures, console-consumer ignored --printoffset and died on error messages,
ListOffsets v0 without an offset read as offset 0, v1 with a throttle time it does not have.
---
 command/healer/cmd/console-consumer.go | 17 ++++++++++++++---
 command/healer/cmd/console-producer.go |  7 ++++---
 command/healer/cmd/get-metadata.go     | 12 ++++++++++++
 command/healer/cmd/get-pending.go      |  9 ++++++---
 command/healer/cmd/group-consumer.go   |  9 +++++++--
 command/healer/cmd/reset-offset.go     | 19 ++++++++++++++-----
 command/healer/cmd/root.go             | 13 +++++++++++++
 command/healer/cmd/simple-consumer.go  |  6 ++++--
 command/healer/cmd/simple-producer.go  | 10 +++++++---
 offset_response.go                     |  6 +++++-
 10 files changed, 86 insertions(+), 22 deletions(-)

diff --git a/command/healer/cmd/console-consumer.go b/command/healer/cmd/console-consumer.go
index 72bd844..980c60f 100644
--- a/command/healer/cmd/console-consumer.go
+++ b/command/healer/cmd/console-consumer.go
@@ -42,6 +42,10 @@ var consoleConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
+		printOffset, err := cmd.Flags().GetBool("printoffset")
+		if err != nil {
+			return err
+		}
 		ifJson, err := cmd.Flags().GetBool("json")
 		if err != nil {
 			return err
@@ -51,7 +55,9 @@ var consoleConsumerCmd = &cobra.Command{
 			return err
 		}
 
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if err := readConfig(config, &consumerConfig); err != nil {
+			return err
+		}
 
 		var (
 			consumer *healer.Consumer
@@ -78,11 +84,16 @@ var consoleConsumerCmd = &cobra.Command{
 
 		for i := 0; i < maxMessages; i++ {
 			message := <-messages
+			if message.Error != nil {
+				return fmt.Errorf("message error: %w", message.Error)
+			}
 			if ifJson {
 				b, _ := json.Marshal(message)
 				fmt.Printf("%s\n", string(b))
-			} else {
+			} else if printOffset {
 				fmt.Printf("%d: %s\n", message.Message.Offset, message.Message.Value)
+			} else {
+				fmt.Printf("%s\n", message.Message.Value)
 			}
 		}
 		return nil
@@ -90,7 +101,7 @@ var consoleConsumerCmd = &cobra.Command{
 }
 
 func init() {
-	consoleConsumerCmd.Flags().String("config", "", `{"xx"="yy","aa"="zz"} refer to https://github.com/childe/healer/blob/master/config.go`)
+	consoleConsumerCmd.Flags().String("config", "", `{"xx":"yy","aa":"zz"} refer to https://github.com/childe/healer/blob/master/config.go`)
 	consoleConsumerCmd.Flags().IntSlice("partitions", nil, "partition ids, comma-separated")
 	consoleConsumerCmd.Flags().Int("max-messages", math.MaxInt, "the number of messages to output")
 	consoleConsumerCmd.Flags().Bool("printoffset", true, "if print offset of each message")
diff --git a/command/healer/cmd/console-producer.go b/command/healer/cmd/console-producer.go
index 7e4e634..2462768 100644
--- a/command/healer/cmd/console-producer.go
+++ b/command/healer/cmd/console-producer.go
@@ -2,7 +2,6 @@ package cmd
 
 import (
 	"bufio"
-	"encoding/json"
 	"errors"
 	"fmt"
 	"os"
@@ -40,7 +39,9 @@ var consoleProducerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &producerConfig)
+		if err := readConfig(config, &producerConfig); err != nil {
+			return err
+		}
 
 		consoleProducer, err := healer.NewProducer(topic, producerConfig)
 		if err != nil {
@@ -66,6 +67,6 @@ var consoleProducerCmd = &cobra.Command{
 }
 
 func init() {
-	consoleProducerCmd.Flags().String("config", "", `{"xx"="yy","aa"="zz"} refer to https://github.com/childe/healer/blob/master/config.go`)
+	consoleProducerCmd.Flags().String("config", "", `{"xx":"yy","aa":"zz"} refer to https://github.com/childe/healer/blob/master/config.go`)
 	consoleProducerCmd.Flags().StringP("topic", "t", "", "topic name")
 }
diff --git a/command/healer/cmd/get-metadata.go b/command/healer/cmd/get-metadata.go
index 582f898..ff5294b 100644
--- a/command/healer/cmd/get-metadata.go
+++ b/command/healer/cmd/get-metadata.go
@@ -18,6 +18,10 @@ var getMetadataCmd = &cobra.Command{
 		topics, err := cmd.Flags().GetStringSlice("topics")
 		format, err := cmd.Flags().GetString("format")
 
+		if format != "json" && format != "cat" {
+			return fmt.Errorf("unknown format %s", format)
+		}
+
 		brokers, err := healer.NewBrokers(bs)
 
 		if err != nil {
@@ -30,6 +34,11 @@ var getMetadataCmd = &cobra.Command{
 		} else {
 			metadataResponse, err = brokers.RequestMetaData(client, topics)
 		}
+		if err == nil {
+			err = metadataResponse.Error()
+		} else if len(metadataResponse.Brokers) == 0 {
+			return fmt.Errorf("failed to get metadata: %w", err)
+		}
 
 		switch format {
 		case "json":
@@ -42,6 +51,9 @@ var getMetadataCmd = &cobra.Command{
 			catResponse(&metadataResponse)
 		}
 
+		if err != nil {
+			return fmt.Errorf("failed to get metadata: %w", err)
+		}
 		return nil
 	},
 }
diff --git a/command/healer/cmd/get-pending.go b/command/healer/cmd/get-pending.go
index d3b1093..f097940 100644
--- a/command/healer/cmd/get-pending.go
+++ b/command/healer/cmd/get-pending.go
@@ -1,6 +1,7 @@
 package cmd
 
 import (
+	"errors"
 	"fmt"
 	"regexp"
 	"sort"
@@ -158,9 +159,8 @@ func getGroups(groupID string) []string {
 		return []string{groupID}
 	}
 
-	var p string = strings.Replace(groupID, ".", `\.`, -1)
-	p = strings.Replace(p, "*", ".*", -1)
-	var groupPattern *regexp.Regexp = regexp.MustCompile("^" + p + "$")
+	var p string = strings.Replace(regexp.QuoteMeta(groupID), `\*`, ".*", -1)
+	var groupPattern *regexp.Regexp = regexp.MustCompile("^(?s:" + p + ")$")
 
 	var (
 		rst      []string = make([]string, 0)
@@ -265,6 +265,9 @@ var getPendingCmd = &cobra.Command{
 		helper = healer.NewHelperFromBrokers(brokers, client)
 
 		groupIDs := getGroups(groupID)
+		if groupIDs == nil {
+			return errors.New("failed to get groups")
+		}
 
 		for i, groupID := range groupIDs {
 			klog.V(5).Infof("%d/%d %s", i, len(groupIDs), groupID)
diff --git a/command/healer/cmd/group-consumer.go b/command/healer/cmd/group-consumer.go
index 5a84994..53f8e04 100644
--- a/command/healer/cmd/group-consumer.go
+++ b/command/healer/cmd/group-consumer.go
@@ -58,7 +58,9 @@ var groupConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if err := readConfig(config, &consumerConfig); err != nil {
+			return err
+		}
 
 		consumer, err := healer.NewGroupConsumer(topic, consumerConfig)
 		if err != nil {
@@ -80,6 +82,9 @@ var groupConsumerCmd = &cobra.Command{
 			case <-sigChan:
 				return nil
 			case message := <-messages:
+				if message.Error != nil {
+					return fmt.Errorf("message error: %w", message.Error)
+				}
 				if jsonFormat {
 					b, err := json.Marshal(message)
 					if err != nil {
@@ -102,7 +107,7 @@ var groupConsumerCmd = &cobra.Command{
 func init() {
 	groupConsumerCmd.Flags().StringP("topic", "t", "", "topic name")
 	groupConsumerCmd.Flags().StringP("group", "g", "", "group id")
-	groupConsumerCmd.Flags().String("config", "", `{"xx"="yy","aa"="zz"} refer to https://github.com/childe/healer/blob/master/config.go`)
+	groupConsumerCmd.Flags().String("config", "", `{"xx":"yy","aa":"zz"} refer to https://github.com/childe/healer/blob/master/config.go`)
 	groupConsumerCmd.Flags().Int("max-messages", math.MaxInt, "the number of messages to output")
 	groupConsumerCmd.Flags().Bool("json", false, "print message in json format")
 }
diff --git a/command/healer/cmd/reset-offset.go b/command/healer/cmd/reset-offset.go
index a1f1269..c63c7c7 100644
--- a/command/healer/cmd/reset-offset.go
+++ b/command/healer/cmd/reset-offset.go
@@ -18,7 +18,7 @@ var resetOffsetCmd = &cobra.Command{
 		topic, err := cmd.Flags().GetString("topic")
 		partitions, err := cmd.Flags().GetInt32Slice("partitions")
 		group, err := cmd.Flags().GetString("group")
-		offsetsStorage, err := cmd.Flags().GetString("offset.storage")
+		offsetsStorage, err := cmd.Flags().GetString("offsets.storage")
 		timestamp, err := cmd.Flags().GetInt64("timestamp")
 
 		userCustomPartitions := make(map[int32]struct{})
@@ -58,6 +58,17 @@ var resetOffsetCmd = &cobra.Command{
 			}
 		}
 
+		if len(userCustomPartitions) == 0 {
+			for partition := range offsets {
+				userCustomPartitions[partition] = struct{}{}
+			}
+		}
+		for partition := range userCustomPartitions {
+			if offset, ok := offsets[partition]; !ok || offset < 0 {
+				return fmt.Errorf("no offset of %s[%d] at timestamp %d", topic, partition, timestamp)
+			}
+		}
+
 		// 1. get coordinator
 		var coordinator *healer.Broker
 		coordinatorResponse, err := brokers.FindCoordinator(client, group)
@@ -85,10 +96,8 @@ var resetOffsetCmd = &cobra.Command{
 		offsetComimtReq.SetGenerationID(-1)
 		offsetComimtReq.SetRetentionTime(-1)
 		for partitionID, offset := range offsets {
-			if len(userCustomPartitions) > 0 {
-				if _, ok := userCustomPartitions[partitionID]; !ok {
-					continue
-				}
+			if _, ok := userCustomPartitions[partitionID]; !ok {
+				continue
 			}
 			offsetComimtReq.AddPartiton(topic, partitionID, offset, "")
 			klog.Infof("commit offset [%s][%d]:%d", topic, partitionID, offset)
diff --git a/command/healer/cmd/root.go b/command/healer/cmd/root.go
index 5a59ebb..52bd8e9 100644
--- a/command/healer/cmd/root.go
+++ b/command/healer/cmd/root.go
@@ -1,6 +1,8 @@
 package cmd
 
 import (
+	"encoding/json"
+	"fmt"
 	"os"
 
 	"github.com/spf13/cobra"
@@ -24,6 +26,17 @@ func Execute() {
 	}
 }
 
+// readConfig adds what is given with --config
+func readConfig(config string, to *map[string]interface{}) error {
+	if config == "" {
+		return nil
+	}
+	if err := json.Unmarshal([]byte(config), to); err != nil {
+		return fmt.Errorf("could not read config: %w", err)
+	}
+	return nil
+}
+
 func init() {
 	rootCmd.PersistentFlags().StringP("brokers", "b", "", "(required) broker list, seperated by comma")
 	rootCmd.PersistentFlags().StringP("client", "c", "healer", "client name")
diff --git a/command/healer/cmd/simple-consumer.go b/command/healer/cmd/simple-consumer.go
index d10f593..bccdd70 100644
--- a/command/healer/cmd/simple-consumer.go
+++ b/command/healer/cmd/simple-consumer.go
@@ -63,7 +63,9 @@ var simpleConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if err := readConfig(config, &consumerConfig); err != nil {
+			return err
+		}
 
 		simpleConsumer, err := healer.NewSimpleConsumer(topic, partition, consumerConfig)
 		if err != nil {
@@ -108,7 +110,7 @@ var simpleConsumerCmd = &cobra.Command{
 }
 
 func init() {
-	simpleConsumerCmd.Flags().String("config", "", `{"xx"="yy","aa"="zz"} refer to https://github.com/childe/healer/blob/master/config.go`)
+	simpleConsumerCmd.Flags().String("config", "", `{"xx":"yy","aa":"zz"} refer to https://github.com/childe/healer/blob/master/config.go`)
 	simpleConsumerCmd.Flags().Int32("partition", 0, "partition id")
 	simpleConsumerCmd.Flags().Int64("offset", -1, "the offset to consume from, -2 which means from beginning; while value -1 means from end")
 	simpleConsumerCmd.Flags().Int32("max-messages", math.MaxInt32, "the number of messages to output")
diff --git a/command/healer/cmd/simple-producer.go b/command/healer/cmd/simple-producer.go
index 1fbb6ce..df99087 100644
--- a/command/healer/cmd/simple-producer.go
+++ b/command/healer/cmd/simple-producer.go
@@ -3,7 +3,6 @@ package cmd
 import (
 	"bufio"
 	"context"
-	"encoding/json"
 	"errors"
 	"fmt"
 	"os"
@@ -45,7 +44,9 @@ var simpleProducerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &producerConfig)
+		if err := readConfig(config, &producerConfig); err != nil {
+			return err
+		}
 
 		simpleProducer, err := healer.NewSimpleProducer(context.Background(), topic, partition, producerConfig)
 		if err != nil {
@@ -65,12 +66,15 @@ var simpleProducerCmd = &cobra.Command{
 			return fmt.Errorf("scan stdin error: %w", err)
 		}
 
+		if err := simpleProducer.Flush(); err != nil {
+			return fmt.Errorf("flush error: %w", err)
+		}
 		return nil
 	},
 }
 
 func init() {
-	simpleProducerCmd.Flags().String("config", "", `{"xx"="yy","aa"="zz"} refer to https://github.com/childe/healer/blob/master/config.go`)
+	simpleProducerCmd.Flags().String("config", "", `{"xx":"yy","aa":"zz"} refer to https://github.com/childe/healer/blob/master/config.go`)
 	simpleProducerCmd.Flags().Int32("partition", 0, "partition id")
 	simpleProducerCmd.Flags().StringP("topic", "t", "", "topic name")
 }
diff --git a/offset_response.go b/offset_response.go
index 3c850c1..9af69ff 100644
--- a/offset_response.go
+++ b/offset_response.go
@@ -49,8 +49,9 @@ func NewOffsetsResponse(payload []byte, version uint16) (r OffsetsResponse, err
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	if version > 0 {
+	if version > 1 {
 		r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+		offset += 4
 	}
 
 	topicLenght := arrayLength(payload[offset:])
@@ -81,6 +82,9 @@ func NewOffsetsResponse(payload []byte, version uint16) (r OffsetsResponse, err
 					p.OldStyleOffsets = append(p.OldStyleOffsets, int64(binary.BigEndian.Uint64(payload[offset:])))
 					offset += 8
 				}
+				if offsetLength == 0 { // as later versions say that there is no offset
+					p.Offset = -1
+				}
 			} else {
 				p.Timestamp = int64(binary.BigEndian.Uint64(payload[offset:]))
 				offset += 8
-- 
2.43.0


From 2a097d8112db50cd0e40ccf7fbbb018133eea3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:17 +0000
Subject: [PATCH 66/72] fix: REST calls left connections open, answered wrong
 lag, took timeouts modulo 2^32 and failed on empty bodies

After an error DescribeGroups, DescribeLogdirs, GetPending, GetTopicConfig, AlterTopicConfig and ListPartitionReassignments went on and
panicked; ListGroups, DescribeGroups and DescribeLogdirs never closed their connections; GetPending answered with offset 0 where the
offsets could not be had; ElectLeaders ignored its timeout; ListPartitionReassignments without a body answered 400.
---
 .../healer/cmd/apicontrollers/create-partitions.go  |  2 +-
 .../healer/cmd/apicontrollers/describe-logdirs.go   |  3 +++
 command/healer/cmd/apicontrollers/elect-leader.go   |  4 ++--
 command/healer/cmd/apicontrollers/group.go          | 11 +++++++++++
 .../cmd/apicontrollers/partition-reassignments.go   | 13 +++++++------
 command/healer/cmd/apicontrollers/topic.go          |  2 ++
 6 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/command/healer/cmd/apicontrollers/create-partitions.go b/command/healer/cmd/apicontrollers/create-partitions.go
index db51485..cc8fb8a 100644
--- a/command/healer/cmd/apicontrollers/create-partitions.go
+++ b/command/healer/cmd/apicontrollers/create-partitions.go
@@ -32,7 +32,7 @@ func CreatePartitions(c *gin.Context, client string) {
 	clientReq := struct {
 		Topic   string `json:"topic"`
 		Count   int32  `json:"count"`
-		Timeout int    `json:"timeout"`
+		Timeout int32  `json:"timeout"`
 	}{}
 	if err := c.BindJSON(&clientReq); err != nil {
 		c.String(http.StatusBadRequest, fmt.Sprintf("reassignments value error: %s", err))
diff --git a/command/healer/cmd/apicontrollers/describe-logdirs.go b/command/healer/cmd/apicontrollers/describe-logdirs.go
index feb0b1e..8bf4977 100644
--- a/command/healer/cmd/apicontrollers/describe-logdirs.go
+++ b/command/healer/cmd/apicontrollers/describe-logdirs.go
@@ -24,7 +24,9 @@ func DescribeLogdirs(c *gin.Context, client string) {
 	admin, err := healer.NewClient(bootstrapServers, client)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
+	defer admin.Close()
 
 	clientReq := struct {
 		Topics []string `json:"topics"`
@@ -37,6 +39,7 @@ func DescribeLogdirs(c *gin.Context, client string) {
 	responses, err := admin.DescribeLogDirs(clientReq.Topics)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	c.JSON(http.StatusOK, responses)
diff --git a/command/healer/cmd/apicontrollers/elect-leader.go b/command/healer/cmd/apicontrollers/elect-leader.go
index 3acf695..7113c2f 100644
--- a/command/healer/cmd/apicontrollers/elect-leader.go
+++ b/command/healer/cmd/apicontrollers/elect-leader.go
@@ -33,7 +33,7 @@ func ElectLeaders(c *gin.Context, client string) {
 	}
 
 	timeout := c.Query("timeout")
-	timeoutMS, err := strconv.Atoi(timeout)
+	timeoutMS, err := strconv.ParseInt(timeout, 10, 32)
 	if err != nil {
 		c.String(http.StatusBadRequest, fmt.Sprintf("timeout value error: %s", err))
 		return
@@ -42,7 +42,7 @@ func ElectLeaders(c *gin.Context, client string) {
 	bootstrapServers := c.Query("bootstrap")
 	config := healer.DefaultBrokerConfig()
 	config.Net.TimeoutMSForEachAPI = make([]int, 68)
-	config.Net.TimeoutMSForEachAPI[healer.API_AlterPartitionReassignments] = timeoutMS
+	config.Net.TimeoutMSForEachAPI[healer.API_ElectLeaders] = int(timeoutMS)
 	bs, err := healer.NewBrokersWithConfig(bootstrapServers, config)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
diff --git a/command/healer/cmd/apicontrollers/group.go b/command/healer/cmd/apicontrollers/group.go
index 5023fd3..13ad79b 100644
--- a/command/healer/cmd/apicontrollers/group.go
+++ b/command/healer/cmd/apicontrollers/group.go
@@ -26,6 +26,8 @@ func ListGroups(c *gin.Context, clientID string) {
 		return
 	}
 
+	defer client.Close()
+
 	groups, err := client.ListGroups()
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
@@ -52,16 +54,21 @@ func DescribeGroups(c *gin.Context, client string) {
 	brokers, err := healer.NewBrokers(bootstrapServers)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
+	defer brokers.Close()
+
 	coordinatorResponse, err := brokers.FindCoordinator(client, group)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	coordinator, err := brokers.GetBroker(coordinatorResponse.Coordinator.NodeID)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	klog.Infof("coordinator for group[%s]:%s", group, coordinator.GetAddress())
@@ -70,6 +77,7 @@ func DescribeGroups(c *gin.Context, client string) {
 	resp, err := coordinator.RequestAndGet(req)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	groups := resp.(healer.DescribeGroupsResponse).Groups
@@ -164,12 +172,15 @@ func GetPending(c *gin.Context, client string) {
 
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	defer bs.Close()
 
 	offsets, err := getOffset(bs, topicName, client)
 	if err != nil {
 		klog.Errorf("get offsets error: %s", err)
+		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	partitions, err := getPartitions(bs, topicName, client)
diff --git a/command/healer/cmd/apicontrollers/partition-reassignments.go b/command/healer/cmd/apicontrollers/partition-reassignments.go
index 5a911be..9e868e5 100644
--- a/command/healer/cmd/apicontrollers/partition-reassignments.go
+++ b/command/healer/cmd/apicontrollers/partition-reassignments.go
@@ -30,10 +30,10 @@ func ListPartitionReassignments(c *gin.Context, client string) {
 
 	config := healer.DefaultBrokerConfig()
 
-	timeoutMS := 30000
+	timeoutMS := int64(30000)
 	timeout := c.Query("timeout")
 	if timeout != "" {
-		timeoutMS, err = strconv.Atoi(timeout)
+		timeoutMS, err = strconv.ParseInt(timeout, 10, 32)
 		if err != nil {
 			c.String(http.StatusBadRequest, fmt.Sprintf("timeout value error: %s", err))
 			return
@@ -41,17 +41,18 @@ func ListPartitionReassignments(c *gin.Context, client string) {
 	}
 
 	config.Net.TimeoutMSForEachAPI = make([]int, 68)
-	config.Net.TimeoutMSForEachAPI[healer.API_ListPartitionReassignments] = timeoutMS
+	config.Net.TimeoutMSForEachAPI[healer.API_ListPartitionReassignments] = int(timeoutMS)
 
 	bootstrapServers := c.Query("bootstrap")
 	admin, err := healer.NewClient(bootstrapServers, client)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	defer admin.Close()
 
 	reassignments := make([]reassignment, 0)
-	if err := c.BindJSON(&reassignments); err != nil {
+	if err := c.ShouldBindJSON(&reassignments); err != nil {
 		if err != io.EOF {
 			c.String(http.StatusBadRequest, fmt.Sprintf("reassignments value error: %s", err))
 			return
@@ -89,7 +90,7 @@ func AlterPartitionReassignments(c *gin.Context, client string) {
 	}
 
 	timeout := c.Query("timeout")
-	timeoutMS, err := strconv.Atoi(timeout)
+	timeoutMS, err := strconv.ParseInt(timeout, 10, 32)
 	if err != nil {
 		c.String(http.StatusBadRequest, fmt.Sprintf("timeout value error: %s", err))
 		return
@@ -98,7 +99,7 @@ func AlterPartitionReassignments(c *gin.Context, client string) {
 	bootstrapServers := c.Query("bootstrap")
 	config := healer.DefaultBrokerConfig()
 	config.Net.TimeoutMSForEachAPI = make([]int, 68)
-	config.Net.TimeoutMSForEachAPI[healer.API_AlterPartitionReassignments] = timeoutMS
+	config.Net.TimeoutMSForEachAPI[healer.API_AlterPartitionReassignments] = int(timeoutMS)
 	bs, err := healer.NewBrokersWithConfig(bootstrapServers, config)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
diff --git a/command/healer/cmd/apicontrollers/topic.go b/command/healer/cmd/apicontrollers/topic.go
index 27cfd8f..729d779 100644
--- a/command/healer/cmd/apicontrollers/topic.go
+++ b/command/healer/cmd/apicontrollers/topic.go
@@ -45,6 +45,7 @@ func GetTopicConfig(c *gin.Context, client string) {
 	controller, err := bs.GetBroker(bs.Controller())
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	resp, err := controller.RequestAndGet(r)
 	if err != nil {
@@ -85,6 +86,7 @@ func AlterTopicConfig(c *gin.Context, client string) {
 	controller, err := bs.GetBroker(bs.Controller())
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	resp, err := controller.RequestAndGet(r)
 	if err != nil {
-- 
2.43.0


From 52fdf9b44bf09beb611080abd2a5e712b5850a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:32 +0000
Subject: [PATCH 67/72] fix: a fetch answered with an error was repeated at
 once, without the retry back-off

---
 simple_consumer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index f14f51b..c122f1e 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -584,10 +584,14 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 				offset, err := c.getOffset(c.fromBeginning)
 				if err != nil {
 					logger.Error(err, "failed to get offset", "topic", c.topic, "partitionID", c.partitionID)
+					time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
 					return err
 				}
 				c.offset = offset
-			} else if errors.Is(message.Error, KafkaError(6)) {
+			} else if message.Error != &maxBytesTooSmall {
+				time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS)) // it may well fail again
+			}
+			if errors.Is(message.Error, KafkaError(6)) {
 				c.changeLeaderBroker()
 			} else if errors.Is(message.Error, KafkaError(74)) {
 				c.refreshPartiton()
-- 
2.43.0


From 9f510e0bb5b31aaa300cf0e252ea2b80d023e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:48 +0000
Subject: [PATCH 68/72] fix: a metadata change while the group was being joined
 started its partitions twice

---
 group_consumer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/group_consumer.go b/group_consumer.go
index 39df61c..b7fc6bd 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -504,6 +504,8 @@ func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage
 		c.refreshMeta()
 	}()
 
+	c.restartLocker.Lock() // no restart before the group has been joined
+	defer c.restartLocker.Unlock()
 	return c.consumeWithoutHeartBeat(c.config.FromBeginning)
 }
 
-- 
2.43.0


From 75fe2e7f85d04715dee04738c5b91064bf5348b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:05 +0000
Subject: [PATCH 69/72] fix: consumers and logging shared state between
 goroutines without synchronisation

---
 group_consumer.go  | 194 +++++++++++++++++++++++++++++++--------------
 producer.go        |   4 +-
 simple_consumer.go | 102 ++++++++++++++----------
 3 files changed, 193 insertions(+), 107 deletions(-)

diff --git a/group_consumer.go b/group_consumer.go
index b7fc6bd..2f36672 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -9,6 +9,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -30,7 +31,7 @@ type GroupConsumer struct {
 	topicMetadatas       []TopicMetadata // may contain some other topics which are consumed by other process with the same group
 	ifLeader             bool
 	joined               bool
-	closed               bool
+	closed               atomic.Bool
 	closeChan            chan bool // closed when closing begins
 	closeOnce            sync.Once
 	closeDone            chan bool // closed when closing is done
@@ -46,6 +47,65 @@ type GroupConsumer struct {
 	assignmentStrategy AssignmentStrategy
 
 	restartLocker sync.Locker
+
+	// guards coordinator, generationID, memberID, ifLeader, joined, topics, topicMetadatas and simpleConsumers.
+	// never held while waiting for something
+	stateLock sync.Mutex
+}
+
+// where and as whom the group is talked to
+func (c *GroupConsumer) membership() (coordinator *Broker, generationID int32, memberID string) {
+	c.stateLock.Lock()
+	defer c.stateLock.Unlock()
+	return c.coordinator, c.generationID, c.memberID
+}
+
+func (c *GroupConsumer) setMemberID(memberID string) {
+	c.stateLock.Lock()
+	defer c.stateLock.Unlock()
+	c.memberID = memberID
+}
+
+func (c *GroupConsumer) isJoined() bool {
+	c.stateLock.Lock()
+	defer c.stateLock.Unlock()
+	return c.joined
+}
+
+func (c *GroupConsumer) setJoined(joined bool) {
+	c.stateLock.Lock()
+	defer c.stateLock.Unlock()
+	c.joined = joined
+}
+
+func (c *GroupConsumer) isLeader() bool {
+	c.stateLock.Lock()
+	defer c.stateLock.Unlock()
+	return c.ifLeader
+}
+
+func (c *GroupConsumer) getSimpleConsumers() []*SimpleConsumer {
+	c.stateLock.Lock()
+	defer c.stateLock.Unlock()
+	return c.simpleConsumers
+}
+
+func (c *GroupConsumer) setSimpleConsumers(simpleConsumers []*SimpleConsumer) {
+	c.stateLock.Lock()
+	defer c.stateLock.Unlock()
+	c.simpleConsumers = simpleConsumers
+}
+
+func (c *GroupConsumer) getTopicMetadatas() (topics []string, topicMetadatas []TopicMetadata) {
+	c.stateLock.Lock()
+	defer c.stateLock.Unlock()
+	return c.topics, c.topicMetadatas
+}
+
+func (c *GroupConsumer) setTopicMetadatas(topics []string, topicMetadatas []TopicMetadata) {
+	c.stateLock.Lock()
+	defer c.stateLock.Unlock()
+	c.topics, c.topicMetadatas = topics, topicMetadatas
 }
 
 // NewGroupConsumer cretae a new GroupConsumer
@@ -114,23 +174,23 @@ func (c *GroupConsumer) getTopicPartitionInfo() {
 		}
 	}
 
-	c.topics = []string{}
+	topics := []string{}
 	for t := range _topics {
-		c.topics = append(c.topics, t)
+		topics = append(topics, t)
 	}
-	for !c.closed {
-		metaDataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, c.topics)
+	for !c.closed.Load() {
+		metaDataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, topics)
 		if err == nil {
 			break
 		} else {
-			logger.Error(err, "failed to get metadata", "topics", c.topics)
+			logger.Error(err, "failed to get metadata", "topics", topics)
 			time.Sleep(1000 * time.Millisecond)
 		}
 	}
 
 	b, _ := json.Marshal(metaDataResponse)
-	logger.Info("got metadata", "topics", c.topics, "metadata", b)
-	c.topicMetadatas = metaDataResponse.TopicMetadatas
+	logger.Info("got metadata", "topics", topics, "metadata", b)
+	c.setTopicMetadatas(topics, metaDataResponse.TopicMetadatas)
 }
 
 // TODO getCoordinator may executed in dead loop and create too many connections to kafka clusters
@@ -145,8 +205,10 @@ func (c *GroupConsumer) getCoordinator() error {
 	if err != nil {
 		return err
 	}
-	logger.Info("create coordinator", "groupId", c.config.GroupID, "address", coordinatorBroker.address)
+	logger.Info("create coordinator", "groupId", c.config.GroupID, "address", coordinatorBroker.GetAddress())
+	c.stateLock.Lock()
 	c.coordinator = coordinatorBroker
+	c.stateLock.Unlock()
 
 	return nil
 }
@@ -169,7 +231,7 @@ func (c *GroupConsumer) parseGroupAssignments(memberAssignmentPayload []byte) er
 			simpleConsumers = append(simpleConsumers, simpleConsumer)
 		}
 	}
-	c.simpleConsumers = simpleConsumers
+	c.setSimpleConsumers(simpleConsumers)
 
 	return nil
 }
@@ -188,14 +250,15 @@ func (c *GroupConsumer) join() error {
 	}
 
 	gps := []*GroupProtocol{{"range", protocolMetadata.Encode()}}
-	joinGroupResponse, err := c.coordinator.requestJoinGroup(
-		c.config.ClientID, c.config.GroupID, int32(c.config.SessionTimeoutMS), c.memberID, protocolType, gps)
+	coordinator, _, memberID := c.membership()
+	joinGroupResponse, err := coordinator.requestJoinGroup(
+		c.config.ClientID, c.config.GroupID, int32(c.config.SessionTimeoutMS), memberID, protocolType, gps)
 
 	if err != nil {
 		logger.Error(err, "join group failed", "groupId", c.config.GroupID)
 
 		if errors.Is(err, KafkaError(25)) {
-			c.memberID = ""
+			c.setMemberID("")
 		}
 
 		if errors.Is(err, io.EOF) || errors.Is(err, KafkaError(15)) || errors.Is(err, KafkaError(16)) {
@@ -216,16 +279,17 @@ func (c *GroupConsumer) join() error {
 		return err
 	}
 
+	ifLeader := joinGroupResponse.LeaderID == joinGroupResponse.MemberID
+	c.stateLock.Lock()
 	c.generationID = joinGroupResponse.GenerationID
 	c.memberID = joinGroupResponse.MemberID
-	logger.Info("got new memberID after (re)join", "memberId", c.memberID)
+	c.ifLeader = ifLeader
+	c.stateLock.Unlock()
+	logger.Info("got new memberID after (re)join", "memberId", joinGroupResponse.MemberID)
 
-	if joinGroupResponse.LeaderID == c.memberID {
-		c.ifLeader = true
+	if ifLeader {
 		c.members = joinGroupResponse.Members
 		logger.Info("I am the leader", "members", c.members)
-	} else {
-		c.ifLeader = false
 	}
 	return nil
 }
@@ -233,16 +297,18 @@ func (c *GroupConsumer) join() error {
 func (c *GroupConsumer) sync() error {
 	logger.Info("try to sync group", "groupId", c.config.GroupID)
 	var groupAssignment GroupAssignment
-	if c.ifLeader {
+	if c.isLeader() {
 		c.getTopicPartitionInfo()
-		groupAssignment = c.assignmentStrategy.Assign(c.members, c.topicMetadatas)
+		_, topicMetadatas := c.getTopicMetadatas()
+		groupAssignment = c.assignmentStrategy.Assign(c.members, topicMetadatas)
 	} else {
 		groupAssignment = nil
 	}
 	logger.Info("create group assignment", "assignment", groupAssignment)
 
-	syncGroupResponse, err := c.coordinator.requestSyncGroup(
-		c.config.ClientID, c.config.GroupID, c.generationID, c.memberID, groupAssignment)
+	coordinator, generationID, memberID := c.membership()
+	syncGroupResponse, err := coordinator.requestSyncGroup(
+		c.config.ClientID, c.config.GroupID, generationID, memberID, groupAssignment)
 
 	b, _ := json.Marshal(syncGroupResponse)
 	logger.Info("sync returns", "response", b)
@@ -253,7 +319,7 @@ func (c *GroupConsumer) sync() error {
 			c.coordinatorAvailable = false
 		}
 		if errors.Is(err, KafkaError(25)) {
-			c.memberID = ""
+			c.setMemberID("")
 		}
 		return err
 	}
@@ -268,7 +334,7 @@ func (c *GroupConsumer) sync() error {
 
 func (c *GroupConsumer) joinAndSync() error {
 	var err error
-	for !c.closed {
+	for !c.closed.Load() {
 		if !c.coordinatorAvailable {
 			err = c.getCoordinator()
 			if err != nil {
@@ -279,13 +345,13 @@ func (c *GroupConsumer) joinAndSync() error {
 		}
 		c.coordinatorAvailable = true
 
-		if c.closed {
+		if c.closed.Load() {
 			return nil
 		}
 
 		err = c.join()
 
-		if c.closed {
+		if c.closed.Load() {
 			return nil
 		}
 
@@ -315,24 +381,26 @@ func (c *GroupConsumer) heartbeat() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if !c.joined {
+	if !c.isJoined() {
 		return nil
 	}
 
-	logger.V(5).Info("heartbeat", "generationID", c.generationID, "memberID", c.memberID)
-	_, err := c.coordinator.requestHeartbeat(c.config.ClientID, c.config.GroupID, c.generationID, c.memberID)
+	coordinator, generationID, memberID := c.membership()
+	logger.V(5).Info("heartbeat", "generationID", generationID, "memberID", memberID)
+	_, err := coordinator.requestHeartbeat(c.config.ClientID, c.config.GroupID, generationID, memberID)
 	return err
 }
 
 // CommitOffset commit offset to kafka server
 func (c *GroupConsumer) CommitOffset() {
-	for _, s := range c.simpleConsumers {
+	for _, s := range c.getSimpleConsumers() {
 		s.CommitOffset()
 	}
 }
 
 func (c *GroupConsumer) commitOffset(topic string, partitionID int32, offset int64) bool {
-	if c.memberID == "" {
+	coordinator, generationID, memberID := c.membership()
+	if memberID == "" {
 		logger.V(3).Info("do not commit offset because memberID is empty now", "topic", topic, "partitionID", partitionID, "offset", offset)
 		return false
 	}
@@ -347,20 +415,20 @@ func (c *GroupConsumer) commitOffset(topic string, partitionID int32, offset int
 		apiVersion = 0
 	}
 	offsetComimtReq := NewOffsetCommitRequest(apiVersion, c.config.ClientID, c.config.GroupID)
-	offsetComimtReq.SetMemberID(c.memberID)
-	offsetComimtReq.SetGenerationID(c.generationID)
+	offsetComimtReq.SetMemberID(memberID)
+	offsetComimtReq.SetGenerationID(generationID)
 	offsetComimtReq.SetRetentionTime(-1)
 	offsetComimtReq.AddPartiton(topic, partitionID, offset, "")
 
-	resp, err := c.coordinator.RequestAndGet(offsetComimtReq)
+	resp, err := coordinator.RequestAndGet(offsetComimtReq)
 	if err == nil {
 		err = resp.Error()
 	}
 	if err == nil {
-		logger.V(3).Info("offset committed", "memberID", c.memberID, "generationID", c.generationID, "topic", topic, "partitionID", partitionID, "offset", offset)
+		logger.V(3).Info("offset committed", "memberID", memberID, "generationID", generationID, "topic", topic, "partitionID", partitionID, "offset", offset)
 		return true
 	}
-	logger.Error(err, "commit offset failed", "memberID", c.memberID, "generationID", c.generationID, "topic", topic, "partitionID", partitionID, "offset", offset)
+	logger.Error(err, "commit offset failed", "memberID", memberID, "generationID", generationID, "topic", topic, "partitionID", partitionID, "offset", offset)
 	return false
 }
 
@@ -371,7 +439,7 @@ func (c *GroupConsumer) restart() {
 
 	c.stop()
 	// stop heartbeat
-	c.joined = false
+	c.setJoined(false)
 	c.consumeWithoutHeartBeat(c.config.FromBeginning)
 
 }
@@ -380,11 +448,13 @@ func (c *GroupConsumer) stop() {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	logger.Info("stop group consumer", "GroupID", c.config.GroupID, "simpleConsumerCount", len(c.simpleConsumers))
+	simpleConsumers := c.getSimpleConsumers()
+	joined := c.isJoined()
+	logger.Info("stop group consumer", "GroupID", c.config.GroupID, "simpleConsumerCount", len(simpleConsumers))
 	var stopping sync.WaitGroup
-	for _, simpleConsumer := range c.simpleConsumers {
+	for _, simpleConsumer := range simpleConsumers {
 		logger.Info("stop simple consumer", "topic", simpleConsumer.topic, "partitionID", simpleConsumer.partitionID)
-		if c.joined { // each of them waits for its fetch, do not let the waits add up
+		if joined { // each of them waits for its fetch, do not let the waits add up
 			stopping.Add(1)
 			go func(simpleConsumer *SimpleConsumer) {
 				defer stopping.Done()
@@ -395,24 +465,25 @@ func (c *GroupConsumer) stop() {
 		}
 	}
 	stopping.Wait()
-	c.simpleConsumers = nil
+	c.setSimpleConsumers(nil)
 
 	c.wg.Wait()
 }
 
 func (c *GroupConsumer) leave() {
-	if c.memberID == "" {
+	coordinator, _, memberID := c.membership()
+	if memberID == "" {
 		logger.Info("not joined yet, leave directly")
 		return
 	}
-	logger.Info("group consumer leaves", "memberID", c.memberID, "GroupID", c.config.GroupID)
-	if _, err := c.coordinator.requestLeaveGroup(c.config.ClientID, c.config.GroupID, c.memberID); err != nil {
-		logger.Error(err, "leave group failed", "groupID", c.config.GroupID, "memberID", c.memberID)
+	logger.Info("group consumer leaves", "memberID", memberID, "GroupID", c.config.GroupID)
+	if _, err := coordinator.requestLeaveGroup(c.config.ClientID, c.config.GroupID, memberID); err != nil {
+		logger.Error(err, "leave group failed", "groupID", c.config.GroupID, "memberID", memberID)
 		return
 	}
 
-	c.memberID = ""
-	c.joined = false
+	c.setMemberID("")
+	c.setJoined(false)
 }
 
 // Close will wait all simple consumers stop and then return
@@ -427,7 +498,7 @@ func (c *GroupConsumer) AwaitClose(timeout time.Duration) {
 	defer c.brokers.Close()
 
 	c.closeOnce.Do(func() {
-		c.closed = true
+		c.closed.Store(true)
 		close(c.closeChan)
 
 		go func() {
@@ -450,24 +521,25 @@ func (c *GroupConsumer) refreshMeta() {
 		ticker *time.Ticker = time.NewTicker(time.Millisecond * time.Duration(c.config.MetadataMaxAgeMS))
 	)
 	for range ticker.C {
-		if c.closed {
+		if c.closed.Load() {
 			return
 		}
-		if !c.ifLeader {
+		if !c.isLeader() {
 			continue
 		}
 
 		logger.Info("refresh metadata (in goroutine)")
 
-		metaDataResponse, err := c.brokers.RequestMetaData(c.config.ClientID, c.topics)
+		topics, topicMetadatas := c.getTopicMetadatas()
+		metaDataResponse, err := c.brokers.RequestMetaData(c.config.ClientID, topics)
 		if err != nil {
 			logger.Error(err, "request metadata (in goroutine) failed")
 			continue
 		}
 
-		if !ifTopicMetadatasSame(c.topicMetadatas, metaDataResponse.TopicMetadatas) {
+		if !ifTopicMetadatasSame(topicMetadatas, metaDataResponse.TopicMetadatas) {
 			logger.Info("metadata changed, restart group consumer")
-			c.topicMetadatas = metaDataResponse.TopicMetadatas
+			c.setTopicMetadatas(topics, metaDataResponse.TopicMetadatas)
 			c.restart()
 		}
 	}
@@ -479,7 +551,7 @@ func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage
 	if messages == nil {
 		messages = make(chan *FullMessage, 100)
 	}
-	if c.closed {
+	if c.closed.Load() {
 		return messages, nil
 	}
 	c.messages = messages
@@ -488,7 +560,7 @@ func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage
 	ticker := time.NewTicker(time.Millisecond * time.Duration(c.config.SessionTimeoutMS) / 10)
 	go func() {
 		for range ticker.C {
-			if c.closed {
+			if c.closed.Load() {
 				return
 			}
 			err := c.heartbeat()
@@ -518,7 +590,7 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 	var err error
 	joinedChan := make(chan bool, 1)
 	go func() {
-		for !c.closed {
+		for !c.closed.Load() {
 			err = c.joinAndSync()
 			if err == nil {
 				break
@@ -538,18 +610,18 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.closed {
-		for _, simpleConsumer := range c.simpleConsumers {
+	if c.closed.Load() {
+		for _, simpleConsumer := range c.getSimpleConsumers() {
 			simpleConsumer.cancel()
 		}
-		c.simpleConsumers = nil
+		c.setSimpleConsumers(nil)
 		return c.messages, nil
 	}
 
-	c.joined = true
+	c.setJoined(true)
 
 	// consume
-	for _, simpleConsumer := range c.simpleConsumers {
+	for _, simpleConsumer := range c.getSimpleConsumers() {
 		var offset int64
 		if fromBeginning {
 			offset = -2
diff --git a/producer.go b/producer.go
index 067189e..b0e85dd 100644
--- a/producer.go
+++ b/producer.go
@@ -155,7 +155,7 @@ func (p *Producer) replaceCurrentSimpleProducer(partitionID int32) (older *Simpl
 		return nil, fmt.Errorf("change current simple producer to %s-%d error: %w", p.topic, partitionID, err)
 	}
 	older = p.currentProducer
-	logger.Info("update current simple producer", "older", older, "new", sp, "newLeader", sp.leader)
+	logger.Info("update current simple producer", "topic", p.topic, "partitionID", partitionID, "newLeader", sp.leader)
 	p.currentProducer = sp
 	return older, nil
 }
@@ -262,7 +262,7 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 		}
 		err = simpleProducer.AddMessage(key, value)
 		if err == ErrProducerClosed { // maybe current simple-producer closed in ticker, retry
-			logger.V(1).Info("simple producer closed, retry", "producer", simpleProducer)
+			logger.V(1).Info("simple producer closed, retry", "topic", p.topic, "partition", simpleProducer.partition)
 			continue
 		}
 		return err
diff --git a/simple_consumer.go b/simple_consumer.go
index c122f1e..337d493 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"os"
 	"sync"
+	"sync/atomic"
 	"syscall"
 	"time"
 )
@@ -22,12 +23,14 @@ type SimpleConsumer struct {
 	brokers      *Brokers
 	ownBrokers   bool // brokers is not shared with others, Stop closes it
 	leaderBroker *Broker
-	coordinator  *Broker
-	partition    PartitionMetadataInfo
+	coordinator  atomic.Pointer[Broker]
+
+	partition     PartitionMetadataInfo
+	partitionLock sync.Mutex // guards partition
 
 	ctx           context.Context
 	cancel        context.CancelFunc
-	stop          bool
+	stop          atomic.Bool
 	stopLock      sync.Mutex // no Consume begins while stop is set
 	stopOnce      sync.Once
 	consumeLoopWg sync.WaitGroup
@@ -35,7 +38,7 @@ type SimpleConsumer struct {
 	autoCommit    bool // the position is committed automatically, the last time in Stop
 
 	fromBeginning  bool
-	offset         int64
+	offset         atomic.Int64
 	offsetCommited int64
 	commitLock     sync.Mutex // one commit at a time: an older offset is never committed after a newer one
 
@@ -66,7 +69,7 @@ func NewSimpleConsumerWithBrokers(topic string, partitionID int32, config Consum
 			break
 		}
 	} else {
-		c.coordinator = nil
+		c.coordinator.Store(nil)
 	}
 
 	return c
@@ -137,7 +140,9 @@ func (c *SimpleConsumer) refreshPartiton() error {
 		}
 		for _, p := range topic.PartitionMetadatas {
 			if p.PartitionID == c.partitionID {
+				c.partitionLock.Lock()
 				c.partition = *p
+				c.partitionLock.Unlock()
 				return nil
 			}
 		}
@@ -147,6 +152,13 @@ func (c *SimpleConsumer) refreshPartiton() error {
 	}
 	return errors.New("partition not found in metadata response")
 }
+
+func (c *SimpleConsumer) leaderEpoch() int32 {
+	c.partitionLock.Lock()
+	defer c.partitionLock.Unlock()
+	return c.partition.LeaderEpoch
+}
+
 func (c *SimpleConsumer) getCoordinator() error {
 	coordinatorResponse, err := c.brokers.FindCoordinator(c.config.ClientID, c.config.GroupID)
 	if err != nil {
@@ -157,8 +169,8 @@ func (c *SimpleConsumer) getCoordinator() error {
 	if err != nil {
 		return err
 	}
-	logger.Info("get coordinator", "GroupID", c.config.GroupID, "coordinator", coordinatorBroker.address)
-	c.coordinator = coordinatorBroker
+	logger.Info("get coordinator", "GroupID", c.config.GroupID, "coordinator", coordinatorBroker.GetAddress())
+	c.coordinator.Store(coordinatorBroker)
 
 	return nil
 }
@@ -203,7 +215,7 @@ func (c *SimpleConsumer) changeLeaderBroker() {
 		c.leaderBroker.Close()
 		c.leaderBroker = nil
 	}
-	for !c.stop {
+	for !c.stop.Load() {
 		if err := c.getLeaderBroker(); err != nil {
 			logger.Error(err, "failer to get leader", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
@@ -215,26 +227,27 @@ func (c *SimpleConsumer) changeLeaderBroker() {
 
 // init offset based on fromBeginning if not got commited offset
 func (c *SimpleConsumer) initOffset() {
-	logger.V(1).Info("init offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+	logger.V(1).Info("init offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset.Load())
 
-	if c.offset >= 0 {
+	if c.offset.Load() >= 0 {
 		return
 	}
 
-	var err error
-	if c.offset == -1 {
+	if c.offset.Load() == -1 {
 		c.fromBeginning = false
-	} else if c.offset == -2 {
+	} else if c.offset.Load() == -2 {
 		c.fromBeginning = true
 	}
 
-	for !c.stop {
-		if c.offset, err = c.getOffset(c.fromBeginning); err != nil {
+	for !c.stop.Load() {
+		offset, err := c.getOffset(c.fromBeginning)
+		c.offset.Store(offset)
+		if err != nil {
 			logger.Error(err, "could not get offset", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
 			c.changeLeaderBroker() // it may have moved
 		} else {
-			logger.Info("fetched offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+			logger.Info("fetched offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset.Load())
 			break
 		}
 	}
@@ -281,12 +294,12 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 	)
 
 	if c.belongTO != nil {
-		coordinator = c.belongTO.coordinator
+		coordinator, _, _ = c.belongTO.membership()
 	} else {
-		coordinator = c.coordinator
+		coordinator = c.coordinator.Load()
 	}
 
-	for !c.stop {
+	for !c.stop.Load() {
 		resp, err := coordinator.RequestAndGet(r)
 		if err != nil {
 			logger.Error(err, "failed to request fetch offset, sleep 500 ms", "topic", c.topic, "partitionID", c.partitionID)
@@ -294,7 +307,7 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 			if err := c.getCoordinator(); err != nil { // the group may have moved to another coordinator
 				logger.Error(err, "failed to get coordinator")
 			} else {
-				coordinator = c.coordinator
+				coordinator = c.coordinator.Load()
 			}
 			continue
 		}
@@ -310,7 +323,7 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 		for _, p := range t.Partitions {
 			if int32(p.PartitionID) == c.partitionID {
 				if p.Offset >= 0 {
-					c.offset = p.Offset
+					c.offset.Store(p.Offset)
 				}
 				break
 			}
@@ -329,7 +342,7 @@ func (c *SimpleConsumer) doStop() {
 	c.cancel()
 
 	c.stopLock.Lock()
-	c.stop = true
+	c.stop.Store(true)
 	c.stopLock.Unlock()
 
 	c.consumeLoopWg.Wait()
@@ -369,11 +382,11 @@ func (c *SimpleConsumer) commitOffset(offset int64) bool {
 	offsetComimtReq.SetRetentionTime(-1)
 	offsetComimtReq.AddPartiton(c.topic, c.partitionID, offset, "")
 
-	_, err := c.coordinator.RequestAndGet(offsetComimtReq)
+	_, err := c.coordinator.Load().RequestAndGet(offsetComimtReq)
 	for i := 0; i < 2 && err != nil; i++ { // the connection may be broken, or the group moved to another coordinator
 		logger.Error(err, "commit offset failed, find coordinator and try again", "GroupID", c.config.GroupID)
 		if err = c.getCoordinator(); err == nil {
-			_, err = c.coordinator.RequestAndGet(offsetComimtReq)
+			_, err = c.coordinator.Load().RequestAndGet(offsetComimtReq)
 		}
 	}
 	if err == nil {
@@ -391,11 +404,11 @@ func (c *SimpleConsumer) CommitOffset() {
 	c.commitLock.Lock()
 	defer c.commitLock.Unlock()
 
-	if c.offset == c.offsetCommited {
-		logger.V(3).Info("current offset does not change, skip committing", "offset", c.offset, "topic", c.topic, "partitionID", c.partitionID)
+	offset := c.offset.Load()
+	if offset == c.offsetCommited {
+		logger.V(3).Info("current offset does not change, skip committing", "offset", offset, "topic", c.topic, "partitionID", c.partitionID)
 		return
 	}
-	offset := c.offset
 	if offset < 0 { // the position is not known yet
 		return
 	}
@@ -425,7 +438,7 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	}
 
 	c.stopLock.Lock()
-	if c.stop {
+	if c.stop.Load() {
 		c.stopLock.Unlock()
 		return messages, nil
 	}
@@ -435,7 +448,7 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 
 	c.messages = messages
 
-	c.offset = offset
+	c.offset.Store(offset)
 	switch offset { // where to go if the offset to start from is out of range
 	case -1:
 		c.fromBeginning = false
@@ -445,9 +458,9 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		c.fromBeginning = c.config.FromBeginning
 	}
 
-	logger.V(5).Info("start consume from offset (before fetch offset)", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+	logger.V(5).Info("start consume from offset (before fetch offset)", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset.Load())
 
-	for !c.stop {
+	for !c.stop.Load() {
 		if err = c.getLeaderBroker(); err != nil {
 			logger.Error(err, "get leader broker error", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
@@ -456,18 +469,18 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		}
 	}
 
-	if c.stop {
+	if c.stop.Load() {
 		return messages, nil
 	}
 
-	if c.config.GroupID != "" && (c.offset == -1 || c.offset == -2) {
+	if c.config.GroupID != "" && (c.offset.Load() == -1 || c.offset.Load() == -2) {
 		c.getCommitedOffet()
 	}
-	logger.V(3).Info("got committed offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+	logger.V(3).Info("got committed offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset.Load())
 
-	if c.offset == -1 || c.offset == -2 {
+	if c.offset.Load() == -1 || c.offset.Load() == -2 {
 		c.initOffset()
-		logger.V(3).Info("offset after init offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+		logger.V(3).Info("offset after init offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset.Load())
 	}
 
 	if c.config.AutoCommit && c.config.GroupID != "" {
@@ -500,13 +513,13 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 	defer logger.Info("consume loop exit", "topic", c.topic, "partitionID", c.partitionID)
 
 	wg := &sync.WaitGroup{}
-	for !c.stop {
+	for !c.stop.Load() {
 		innerMessages := make(chan *FullMessage, 100)
 
 		// fetch
-		logger.V(5).Info("send fetch request", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+		logger.V(5).Info("send fetch request", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset.Load())
 		r := NewFetchRequest(c.config.ClientID, c.config.FetchMaxWaitMS, c.config.FetchMinBytes)
-		r.addPartition(c.topic, c.partitionID, c.offset, c.config.FetchMaxBytes, c.partition.LeaderEpoch)
+		r.addPartition(c.topic, c.partitionID, c.offset.Load(), c.config.FetchMaxBytes, c.leaderEpoch())
 
 		leaderBroker := c.leaderBroker
 		reader, responseLength, err := leaderBroker.requestFetchStreamingly(r)
@@ -530,10 +543,11 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 		}
 
 		ctx, cancel := context.WithCancel(context.Background())
+		offset := c.offset.Load()
 		wg.Add(1)
 		go func() {
 			defer wg.Done()
-			if err := frsd.streamDecode(ctx, c.offset); err != nil {
+			if err := frsd.streamDecode(ctx, offset); err != nil {
 				if err == context.Canceled {
 					return
 				}
@@ -550,8 +564,8 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 		if !frsd.end() && leaderBroker != nil {
 			leaderBroker.Close() // part of the response is still to come, or never will
 		}
-		if err == nil && frsd.nextOffset > c.offset {
-			c.offset = frsd.nextOffset
+		if err == nil && frsd.nextOffset > c.offset.Load() {
+			c.offset.Store(frsd.nextOffset)
 		}
 	}
 }
@@ -587,7 +601,7 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 					time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
 					return err
 				}
-				c.offset = offset
+				c.offset.Store(offset)
 			} else if message.Error != &maxBytesTooSmall {
 				time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS)) // it may well fail again
 			}
@@ -602,7 +616,7 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 			case <-c.ctx.Done():
 				return c.ctx.Err()
 			case messages <- message:
-				c.offset = message.Message.Offset + 1
+				c.offset.Store(message.Message.Offset + 1)
 			}
 		}
 	}
-- 
2.43.0


From b1535b150491ce9848ac2e12a835d1389d679aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:35 +0000
Subject: [PATCH 70/72] fix: a producer did not look for the new leader when
 the old one could not be connected

---
 producer.go        | 16 ++++++++++++++++
 simple_producer.go |  1 +
 2 files changed, 17 insertions(+)

diff --git a/producer.go b/producer.go
index b0e85dd..4f010a3 100644
--- a/producer.go
+++ b/producer.go
@@ -237,6 +237,22 @@ func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
 		return nil, ErrProducerClosed
 	}
 
+	sp, err := p.getSimpleProducerOfKey(key)
+	if err != nil { // the partition may have moved to another leader
+		topicMeta, e := p.requestTopicMeta()
+		if e != nil {
+			return nil, err
+		}
+		p.topicMeta = topicMeta
+		sp, err = p.getSimpleProducerOfKey(key)
+	}
+	return sp, err
+}
+
+func (p *Producer) getSimpleProducerOfKey(key []byte) (*SimpleProducer, error) {
+	if len(p.topicMeta.PartitionMetadatas) == 0 {
+		return nil, fmt.Errorf("no partition of %s in metadata", p.topic)
+	}
 	partitionID := int32(murmur.MurmurHash2(key, 0) % uint32(len(p.topicMeta.PartitionMetadatas)))
 
 	if sp, ok := p.pidToSimpleProducers[partitionID]; ok {
diff --git a/simple_producer.go b/simple_producer.go
index 4f2ada6..7f29321 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -237,6 +237,7 @@ func (p *SimpleProducer) flush(records []*Record) error {
 
 	if err := p.updateLeader(); err != nil {
 		logger.Error(err, "failed to get leader", "topic", p.topic, "partition", p.partition)
+		p.leaderStale = true
 		return err
 	}
 
-- 
2.43.0


From cb579be322c8eb02863bd5523652e5e28d4ac4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:18 +0000
Subject: [PATCH 71/72] fix: a request to a broker that had stopped reading
 hung for ever

---
 broker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/broker.go b/broker.go
index d0da9fc..a0e70ca 100644
--- a/broker.go
+++ b/broker.go
@@ -337,6 +337,9 @@ func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, e
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
+	if timeout > 0 {
+		conn.SetWriteDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+	}
 	if _, err := io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return defaultReadParser{}, err
 	}
@@ -366,6 +369,9 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
+	if timeout > 0 {
+		conn.SetWriteDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+	}
 	if _, err = io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return nil, responseLength, err
 	}
-- 
2.43.0


From 344be430525ceb2cd1941673e11e2d515e2a61da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:22 +0000
Subject: [PATCH 72/72] fix: a request without timeout failed at the deadline
 of an earlier request

---
 broker.go   | 20 +++++++++++---------
 response.go |  9 ++-------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/broker.go b/broker.go
index a0e70ca..c2b16b3 100644
--- a/broker.go
+++ b/broker.go
@@ -337,9 +337,7 @@ func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, e
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	if timeout > 0 {
-		conn.SetWriteDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
-	}
+	conn.SetWriteDeadline(deadlineOf(timeout))
 	if _, err := io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return defaultReadParser{}, err
 	}
@@ -352,6 +350,14 @@ func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, e
 	return rp, nil
 }
 
+// deadlineOf returns when a request of that timeout has to be done, or no deadline if there is no timeout
+func deadlineOf(timeout int) time.Time {
+	if timeout <= 0 {
+		return time.Time{}
+	}
+	return time.Now().Add(time.Duration(timeout) * time.Millisecond)
+}
+
 func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Reader, responseLength uint32, err error) {
 	defer func() {
 		if err != nil {
@@ -369,17 +375,13 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	if timeout > 0 {
-		conn.SetWriteDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
-	}
+	conn.SetWriteDeadline(deadlineOf(timeout))
 	if _, err = io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return nil, responseLength, err
 	}
 
 	responseHeader := make([]byte, 8) // length and correlationID
-	if timeout > 0 {
-		conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
-	}
+	conn.SetReadDeadline(deadlineOf(timeout))
 	if _, err = io.ReadFull(conn, responseHeader); err != nil {
 		return nil, responseLength, err
 	}
diff --git a/response.go b/response.go
index 52ee792..a8a39b2 100644
--- a/response.go
+++ b/response.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"slices"
-	"time"
 )
 
 // Response is the interface of all response. Error() returns the error abstracted from the error code of the response
@@ -60,9 +59,7 @@ func (p defaultReadParser) Read() ([]byte, error) {
 	l := 0
 	responseLengthBuf := make([]byte, 4)
 	for {
-		if p.timeout > 0 {
-			conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
-		}
+		conn.SetReadDeadline(deadlineOf(p.timeout))
 		length, err := conn.Read(responseLengthBuf[l:])
 		if err != nil {
 			return nil, err
@@ -80,9 +77,7 @@ func (p defaultReadParser) Read() ([]byte, error) {
 
 	resp := responseLengthBuf
 	for len(resp) < 4+responseLength {
-		if p.timeout > 0 {
-			conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
-		}
+		conn.SetReadDeadline(deadlineOf(p.timeout))
 		// the length may be wrong, so the buffer grows with what has been received
 		size := min(4+responseLength-len(resp), max(len(resp), 64*1024))
 		resp = slices.Grow(resp, size)
-- 
2.43.0

