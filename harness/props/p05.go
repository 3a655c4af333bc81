package props

import (
	"fmt"
	"sync/atomic"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

type p05Case struct {
	MaxV     int // fetch versions 0..MaxV advertised
	Chunks   []logChunk
	Live     []logChunk // appended while consuming
	LiveWait []int      // ms before each live chunk
	StartPct int        // start offset as a position in the log
	LogStart int        // per mille of the log that was truncated away
	MaxBytes int
	RespCap  int
	Trunc    bool
	Seg      int
	SegDelay int
	ChanCap  int
	Slow     int // reader pauses every n-th message, 0 never
	MinBytes int
	MaxWait  int
	Seed     uint64
}

func fetchVersion(maxV int) int {
	switch {
	case maxV >= 10:
		return 10
	case maxV >= 7:
		return 7
	}
	return 0
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P05",
		Level: "exploration",
		Rule: "case = log of generated batches, wrapper messages and plain messages (formats 0, 1, 2; none, gzip, snappy raw and framed, lz4; compaction holes before, inside, at head and tail of batches, emptied batches, control and log-append-time batches, null and empty keys and values, headers), start offset, fetch sizes, cut-off tails, byte segmentation, appends while consuming; " +
			"oracle: the messages on the channel are exactly the stored records from the start offset on, field by field, and a record appended last still arrives; " +
			"non-trivial = at least 2 records delivered out of at least 2 fetch answers or a log of at least 2 formats or codecs",
		Quick: 10000, Deep: 500000, Chunk: 150,
		Gen: func(d *pbt.D) any {
			c := p05Case{MaxV: pbt.Pick(d, 11, 11, 11, 9, 6), StartPct: d.N(1001), MaxBytes: pbt.Pick(d, 1<<20, 1<<20, 1, 50, 200, 1000, 5000), Trunc: d.P(1, 2),
				Seg: d.W(3, 2, 1), ChanCap: pbt.Pick(d, 100, 0, 1, 7), MinBytes: pbt.Pick(d, 1, 0, 100), MaxWait: pbt.Pick(d, 500, 0, 50), Seed: uint64(d.N(1 << 30))}
			if d.P(1, 4) {
				c.RespCap = pbt.Pick(d, 100, 300, 2000)
			}
			if d.P(1, 3) {
				c.SegDelay = pbt.Pick(d, 1, 50)
			}
			if d.P(1, 4) {
				c.Slow = 1 + d.N(4)
			}
			if d.P(1, 6) {
				c.LogStart = d.N(1001)
			}
			magics := [][]int{{2}, {1}, {0}, {0, 1, 2}, {1, 2}}[d.W(6, 2, 2, 2, 2)]
			for n := d.Int(0, 7); n > 0; n-- {
				c.Chunks = append(c.Chunks, genChunk(d, magics, 8))
			}
			if len(c.Chunks) > 0 && d.P(1, 250) {
				if k := &c.Chunks[d.N(len(c.Chunks))]; k.Magic == 2 && !k.Control {
					k.Many, c.Slow = pbt.Pick(d, 300, 33000, 66000), 0
					c.MaxBytes = max(c.MaxBytes, 1000)
				}
			}
			for n := d.W(3, 1, 1, 1); n > 0; n-- {
				c.Live = append(c.Live, genChunk(d, magics, 5))
				c.LiveWait = append(c.LiveWait, pbt.Pick(d, 0, 3, 300, 2000))
			}
			return c
		},
		Run: func(x any, r *pbt.R) {
			bubble(r, func() { runP05(r, x.(p05Case)) })
		},
		Desc: func(x any) string {
			c := x.(p05Case)
			s := fmt.Sprintf("fetch versions 0-%d, start %d/1000 of the log, log start %d/1000, fetch.max.bytes %d, min bytes %d, max wait %d, answer cap %d, cut tails %v, segmentation %d (delay %d ms), channel %d, slow %d, seed %d\n",
				c.MaxV, c.StartPct, c.LogStart, c.MaxBytes, c.MinBytes, c.MaxWait, c.RespCap, c.Trunc, c.Seg, c.SegDelay, c.ChanCap, c.Slow, c.Seed)
			for _, k := range c.Chunks {
				s += "  " + k.String() + "\n"
			}
			for i, k := range c.Live {
				s += fmt.Sprintf("  after %d ms: %s\n", c.LiveWait[i], k)
			}
			return s
		},
	})
}

// stored keeps what a log must deliver.
type stored struct {
	Rec   wire.Rec
	Magic int
}

func store(pt *kafka.Part, cs []logChunk) (out []stored) {
	for _, c := range cs {
		for _, r := range appendChunk(pt, c) {
			out = append(out, stored{r, c.Magic})
		}
	}
	return
}

func probeChunk(n int) logChunk {
	return logChunk{Magic: 2, TS: 1800000000000 + int64(n), Recs: []logRec{{Key: []byte("probe"), Value: []byte(fmt.Sprint("probe", n))}}}
}

func runP05(r *pbt.R, c p05Case) {
	cl := kafka.New(2, c.Seed)
	cl.Install()
	cl.AddTopic("other", 1, 1, 1)
	t := cl.AddTopic("logs", 1, 2, 1)
	for _, b := range cl.Brokers {
		b.Ranges[kafka.Fetch] = [2]int{0, c.MaxV}
	}
	cl.TruncTail, cl.Seg, cl.SegDelay, cl.MaxRespBytes = c.Trunc, c.Seg, time.Duration(c.SegDelay)*time.Millisecond, c.RespCap
	if c.MaxWait < 50 {
		cl.MinFetchDelay = 20 * time.Millisecond // an idle poll loop is of no interest
	}
	// neighbours hold other records, which must not appear
	store(t.Parts[0], []logChunk{probeChunk(1)})
	store(t.Parts[2], []logChunk{probeChunk(2)})
	pt := t.Parts[1]
	pt.Start = 0
	all := store(pt, c.Chunks)
	pt.Start = pt.Next * int64(c.LogStart) / 1000
	start := pt.Start + (pt.Next-pt.Start)*int64(c.StartPct)/1000

	cfg := map[string]interface{}{"bootstrap.servers": cl.Bootstrap(), "fetch.max.bytes": c.MaxBytes, "fetch.min.bytes": c.MinBytes, "fetch.max.wait.ms": c.MaxWait}
	var con *healer.SimpleConsumer
	var err error
	if !guarded(r, "NewSimpleConsumer", time.Minute, func() { con, err = healer.NewSimpleConsumer("logs", 1, cfg) }) || err != nil {
		r.Fail("setup", "NewSimpleConsumer did not work on a healthy cluster: %v", err)
		noteHistory(r, cl)
		return
	}
	ch := make(chan *healer.FullMessage, c.ChanCap)
	if !guarded(r, "Consume", time.Minute, func() { _, err = con.Consume(start, ch) }) || err != nil {
		r.Fail("setup", "Consume did not work on a healthy cluster: %v", err)
		noteHistory(r, cl)
		return
	}
	var appended atomic.Bool
	go func() {
		for i, k := range c.Live {
			time.Sleep(time.Duration(c.LiveWait[i])*time.Millisecond + time.Microsecond)
			cl.Lock()
			all = append(all, store(pt, []logChunk{k})...)
			cl.Unlock()
		}
		time.Sleep(2 * time.Second)
		cl.Lock()
		all = append(all, store(pt, []logChunk{probeChunk(9)})...)
		cl.Unlock()
		appended.Store(true)
	}()
	fv := fetchVersion(c.MaxV)
	var w []stored
	seen := 0
	want := func() []stored {
		cl.Lock()
		defer cl.Unlock()
		for ; seen < len(all); seen++ {
			s := all[seen]
			if s.Rec.Offset >= start {
				w = append(w, s)
			}
		}
		return w
	}
	n := 0
	for {
		var m *healer.FullMessage
		wait := 30 * time.Second
		if w := want(); appended.Load() && n >= len(w) {
			wait = 2 * time.Second // nothing more may come
		}
		tm := time.NewTimer(wait)
		select {
		case m = <-ch:
		case <-tm.C:
		}
		tm.Stop()
		w := want()
		if m == nil {
			if n < len(w) {
				r.Fail("lost", "start offset %d: %d of %d records arrived, then nothing for 30 s; next expected %s (format %d)", start, n, len(w), recStr(w[n].Rec), w[n].Magic)
			}
			break
		}
		if n >= len(w) {
			r.Fail("extra", "start offset %d: a message beyond the %d stored records arrived: %s", start, len(w), msgStr(m))
			break
		}
		if df := recordDiff(m, "logs", 1, w[n].Rec, w[n].Magic, fv); df != "" {
			r.Fail("wrong", "start offset %d: message %d of %d: %s (stored format %d)", start, n+1, len(w), df, w[n].Magic)
			break
		}
		n++
		if c.Slow > 0 && n%c.Slow == 0 {
			time.Sleep(20 * time.Millisecond)
		}
	}
	// classes and non-triviality
	kinds := map[string]bool{}
	for _, k := range append(append([]logChunk{}, c.Chunks...), c.Live...) {
		kinds[fmt.Sprintf("magic %d codec %d", k.Magic, k.Codec)] = true
		if len(k.Recs) == 0 {
			r.Class("emptied batch")
		}
		if k.Control {
			r.Class("control batch")
		}
	}
	for k := range kinds {
		r.Class(k)
	}
	r.Class(fmt.Sprintf("fetch v%d", fv))
	fetches := 0
	for _, e := range cl.Events(kafka.Fetch) {
		if e.H.Version != fv {
			r.Class("other fetch version")
		}
		fetches++
	}
	if n >= 2 && (fetches >= 4 || len(kinds) >= 2) {
		r.NonTrivial()
	}
	if len(cl.ProtoErrs) > 0 {
		r.Fail("request", "malformed request: %s", cl.ProtoErrs[0])
	}
	noteHistory(r, cl)
	within(time.Minute, con.Stop)
}

func msgStr(m *healer.FullMessage) string {
	if m.Message == nil {
		return fmt.Sprintf("%s-%d error %v", m.TopicName, m.PartitionID, m.Error)
	}
	return fmt.Sprintf("%s-%d offset %d key %s value %s", m.TopicName, m.PartitionID, m.Message.Offset, q(m.Message.Key), q(m.Message.Value))
}
