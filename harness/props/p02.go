package props

import (
	"time"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

var codecNum = map[string]int{"none": wire.None, "gzip": wire.Gzip, "snappy": wire.Snappy, "lz4": wire.Lz4}

// checkProduceRequests applies the record-batch oracle to every produce request seen.
func checkProduceRequests(r *pbt.R, c prodCase, cl *kafka.Cluster) (batches, multi int) {
	cl.Lock()
	for _, e := range cl.ProtoErrs {
		r.Fail("bad-request", "%s", e)
	}
	cl.Unlock()
	for _, ev := range cl.Events(kafka.Produce) {
		if ev.Err != nil {
			continue
		}
		if got := ev.Req.I("acks"); got != int64(c.Acks) {
			r.Fail("acks", "request carries acks %d, configured %d", got, c.Acks)
		}
		if got := ev.Req.I("timeout_ms"); got != int64(c.Timeout) {
			r.Fail("timeout", "request carries timeout %d, configured %d", got, c.Timeout)
		}
		if ev.Req["transactional_id"] != nil {
			r.Fail("txid", "request carries transactional id %v", ev.Req["transactional_id"])
		}
		if ev.H.Client == nil || *ev.H.Client != c.ClientID {
			r.Fail("client-id", "request header carries client id %v, configured %q", ev.H.Client, c.ClientID)
		}
		for _, t := range ev.Req.Objs("topics") {
			if t.S("name") != "t" {
				r.Fail("topic", "request names topic %q", t.S("name"))
			}
			for _, p := range t.Objs("partitions") {
				pi := p.I("index")
				if c.Simple && pi != int64(c.Part) || pi < 0 || pi >= int64(c.Parts) {
					r.Fail("partition", "request names partition %d (producer of partition %d, topic has %d)", pi, c.Part, c.Parts)
				}
				b, err := wire.ParseBatch(p.B("records"))
				if err != nil {
					r.Fail("batch", "record batch does not parse: %v", err)
					continue
				}
				batches++
				n := len(b.Recs)
				if n > 1 {
					multi++
				}
				if n == 0 {
					r.Fail("empty-batch", "batch without records")
				}
				if b.LastOffsetDelta != int32(n-1) {
					r.Fail("last-delta", "last offset delta %d in a batch of %d records", b.LastOffsetDelta, n)
				}
				if b.Attributes != int16(codecNum[c.Codec]) {
					r.Fail("attributes", "batch attributes %#x, configured codec %s", b.Attributes, c.Codec)
				}
				if b.BaseOffset != 0 {
					r.Fail("base-offset", "base offset %d in a produce request", b.BaseOffset)
				}
				if b.ProducerID != -1 {
					r.Fail("producer-id", "producer id %d without idempotence", b.ProducerID)
				}
				now := cl.T0.Add(ev.T).UnixMilli()
				if b.BaseTS > now || b.BaseTS < cl.T0.UnixMilli() || b.MaxTS < b.BaseTS || b.MaxTS > now {
					r.Fail("timestamps", "base timestamp %d, max timestamp %d; sent at %d", b.BaseTS, b.MaxTS, now)
				}
				for i, rec := range b.Recs {
					if rec.Offset != int64(i) {
						r.Fail("offset-delta", "record %d of %d has offset delta %d", i, n, rec.Offset)
						break
					}
					if rec.TS > b.MaxTS || rec.TS < b.BaseTS {
						r.Fail("timestamps", "record %d has timestamp %d outside [%d, %d]", i, rec.TS, b.BaseTS, b.MaxTS)
						break
					}
					if rec.Attr != 0 {
						r.Fail("record-attributes", "record %d has attributes %#x", i, rec.Attr)
						break
					}
				}
				if n > c.MaxCount {
					r.Fail("batch-size", "batch of %d records, message.max.count is %d", n, c.MaxCount)
				}
			}
		}
	}
	return
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P02",
		Level: "exploration",
		Rule: "case = producer configuration (codec, batch limit, acks, timeout, client id) x add/burst/flush/wait history; every produce request is parsed by an independent strict record-batch reader; " +
			"non-trivial = at least one batch with two or more records",
		Quick: 6000, Deep: 100000, Chunk: 100,
		Gen: func(d *pbt.D) any { return genProdCase(d) },
		Run: func(x any, r *pbt.R) {
			c := x.(prodCase)
			bubble(r, func() {
				cl := newProdCluster(c)
				p := startProducer(r, c, cl)
				if p == nil {
					noteHistory(r, cl)
					return
				}
				runProdHistory(r, c, cl, p)
				if !guarded(r, "close", 5*time.Minute, p.Close) {
					r.Fail("close-hang", "close did not return within 5 virtual minutes")
				}
				time.Sleep(time.Second)
				nb, nm := checkProduceRequests(r, c, cl)
				if nm > 0 {
					r.NonTrivial()
				}
				if nb > 1 {
					r.Class("several batches")
				}
				for _, a := range cl.Topics["t"].Parts {
					for _, ap := range a.Appends {
						if len(ap.Batch.Recs) > 64 {
							r.Class("batch of more than 64 records (offset delta varint > 1 byte)")
						}
					}
				}
				r.Class("codec " + c.Codec)
				noteHistory(r, cl)
			})
		},
		Desc: func(x any) string { return x.(prodCase).String() },
	})
}
