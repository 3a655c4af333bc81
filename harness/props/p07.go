package props

import (
	"fmt"
	"sync"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
)

type p07Case struct {
	Via     string // simple, consumer, group
	MaxF    int    // fetch
	MaxL    int    // list offsets
	MaxO    int    // offset fetch / commit
	Storage int
	Lag     int64 // log starts at this offset
	Chunks  []logChunk
	Later   []logChunk
	Expire  int // chunks dropped from the start of the log while the consumer is stuck (0: none)
	Take    int // messages taken before that
	Req     int64
	FromBeg bool
	Group   bool
	Commit  int64 // committed offset; -1 none
	Auto    bool
	Max     int
	Brokers int
	Faults  []kafka.Fault
	Move    int // API at whose first request the partition has just moved to another leader, -1 none
	Seed    uint64
}

func genP07Fault(d *pbt.D) kafka.Fault {
	f := kafka.Fault{Broker: -1, Times: pbt.Pick(d, 1, 1, 2, 3)}
	f.API = pbt.Pick(d, kafka.ListOffsets, kafka.OffsetFetch, kafka.FindCoordinator, kafka.Fetch, kafka.Metadata)
	f.Kind = pbt.Pick(d, kafka.FErr, kafka.FErr, kafka.FClose, kafka.FReset, kafka.FTrunc, kafka.FSwallow, kafka.FDelay)
	switch f.Kind {
	case kafka.FErr:
		switch f.API {
		case kafka.ListOffsets:
			f.Code = pbt.Pick(d, int16(6), 5, 3, -1, 78)
		case kafka.OffsetFetch:
			f.Code = pbt.Pick(d, int16(14), 16, 15, -1)
		case kafka.FindCoordinator:
			f.Code = pbt.Pick(d, int16(15), 14, -1)
		case kafka.Fetch:
			f.Code = pbt.Pick(d, int16(6), 5, 3, -1)
		default:
			f.Code = 5
		}
	case kafka.FTrunc:
		f.Arg = d.N(1000)
	case kafka.FDelay:
		f.Arg = pbt.Pick(d, 50, 3000)
	}
	return f
}

func genP07(d *pbt.D) p07Case {
	c := p07Case{Via: pbt.Pick(d, "simple", "simple", "simple", "consumer", "group"), MaxF: pbt.Pick(d, 11, 11, 8, 5), MaxL: d.N(2), MaxO: pbt.Pick(d, 2, 2, 0, 1), Storage: 1 - d.W(3, 1),
		FromBeg: d.Bool(), Group: d.Bool(), Commit: -1, Auto: d.P(1, 3), Max: pbt.Pick(d, 1<<20, 150), Brokers: d.Int(1, 3), Seed: uint64(d.N(1 << 30))}
	if d.P(2, 3) {
		c.Lag = int64(d.Skew(500))
	}
	end := c.Lag
	for n := d.W(1, 2, 3, 3); n > 0; n-- {
		k := genChunk(d, []int{2, 2, 2, 1}, 6)
		c.Chunks = append(c.Chunks, k)
		end += chunkSpan(k)
	}
	for n := d.Int(1, 2); n > 0; n-- {
		c.Later = append(c.Later, genChunk(d, []int{2}, 4))
	}
	c.Later = append(c.Later, probeChunk(1))
	pos := func() int64 {
		switch d.W(6, 1, 1, 1, 1, 1) {
		case 0:
			return c.Lag + int64(d.N(int(end-c.Lag)+1))
		case 1:
			return c.Lag
		case 2:
			return end
		case 3:
			return max(0, c.Lag-1-int64(d.Skew(30)))
		case 4:
			return end + 1 + int64(d.Skew(1000))
		}
		return 0
	}
	switch {
	case c.Via != "simple":
		c.Req = -1
		if c.FromBeg {
			c.Req = -2
		}
	case d.P(1, 2):
		c.Req = pos()
	default:
		c.Req = pbt.Pick(d, int64(-1), -2)
		if d.P(3, 4) {
			c.FromBeg = c.Req == -2
		}
	}
	if c.Via == "group" {
		c.Group = true
	}
	if c.Group && d.P(2, 3) {
		c.Commit = pos()
	}
	if len(c.Chunks) > 1 && d.P(1, 3) {
		c.Expire = d.Int(1, len(c.Chunks))
		c.Take = d.Skew(4)
		c.Max = 150
	}
	for n := d.W(3, 2, 1); n > 0; n-- {
		c.Faults = append(c.Faults, genP07Fault(d))
	}
	c.Move = -1
	if c.Brokers > 1 && d.P(1, 4) {
		c.Move = pbt.Pick(d, kafka.ListOffsets, kafka.ListOffsets, kafka.OffsetFetch, kafka.Fetch)
	}
	return c
}

// chunkSpan is the number of offsets a chunk takes up.
func chunkSpan(k logChunk) int64 {
	n := int64(k.Gap + k.HeadGap + k.TailGap)
	for _, r := range k.Recs {
		n += int64(r.Hole) + 1
	}
	return n
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P07",
		Level: "exploration",
		Rule: "case = way of consuming (single partition, multi-partition, group), requested offset (explicit anywhere in, below or above the log, earliest, latest), committed offset (none, in, below, above), log start and end, versions of the offset APIs, offsets.storage, transient faults on the lookups, and the log losing its head while the consumer is stuck; " +
			"oracle: the first fetch asks for the position the rule gives, a fetch answered out-of-range is followed by one at the log's start or end as requested, and exactly the records from that position on are delivered; " +
			"non-trivial = the position came from a lookup of committed, earliest or latest offset or had to be corrected",
		Quick: 8000, Deep: 400000, Chunk: 100,
		Gen: func(d *pbt.D) any { return genP07(d) },
		Run: func(x any, r *pbt.R) { bubble(r, func() { runP07(r, x.(p07Case)) }) },
		Desc: func(x any) string {
			c := x.(p07Case)
			s := fmt.Sprintf("via %s, requested %d, from.beginning %v, group %v committed %d storage %d auto %v, log starts at %d, versions fetch %d list %d offset %d, max bytes %d, %d brokers, take %d then drop %d chunks, leader moves at api %d, seed %d\n",
				c.Via, c.Req, c.FromBeg, c.Group, c.Commit, c.Storage, c.Auto, c.Lag, c.MaxF, c.MaxL, c.MaxO, c.Max, c.Brokers, c.Take, c.Expire, c.Move, c.Seed)
			for _, k := range c.Chunks {
				s += "  stored " + k.String() + "\n"
			}
			for _, k := range c.Later {
				s += "  later " + k.String() + "\n"
			}
			for _, f := range c.Faults {
				s += "  fault " + f.String() + "\n"
			}
			return s
		},
	})
}

func runP07(r *pbt.R, c p07Case) {
	cl := kafka.New(c.Brokers, c.Seed)
	cl.Install()
	t := cl.AddTopic("logs", 1+int32(c.Seed)%int32(c.Brokers))
	for _, b := range cl.Brokers {
		b.Ranges[kafka.Fetch] = [2]int{0, c.MaxF}
		b.Ranges[kafka.ListOffsets] = [2]int{0, c.MaxL}
		b.Ranges[kafka.OffsetFetch] = [2]int{0, c.MaxO}
		b.Ranges[kafka.OffsetCommit] = [2]int{0, c.MaxO}
	}
	pt := t.Parts[0]
	pt.Start, pt.Next = c.Lag, c.Lag
	all := store(pt, c.Chunks)
	if c.Commit >= 0 {
		cl.Group("g").Offsets[kafka.OffsetKey{Topic: "logs", Part: 0}] = c.Commit
	}
	cfg := map[string]interface{}{"bootstrap.servers": cl.Bootstrap(), "fetch.max.bytes": c.Max, "fetch.max.wait.ms": 1000, "from.beginning": c.FromBeg,
		"offsets.storage": c.Storage, "auto.commit": c.Auto, "net": map[string]interface{}{"connect.timeout.ms": 1500, "timeout.ms": 2000}}
	if c.Group {
		cfg["group.id"] = "g"
	}
	ch := make(chan *healer.FullMessage)
	var start func() error
	var stop func()
	var err error
	ok := guarded(r, "creating the consumer", time.Minute, func() {
		switch c.Via {
		case "simple":
			var x *healer.SimpleConsumer
			if x, err = healer.NewSimpleConsumer("logs", 0, cfg); err == nil {
				start = func() error { _, e := x.Consume(c.Req, ch); return e }
				stop = x.Stop
			}
		case "consumer":
			var x *healer.Consumer
			if x, err = healer.NewConsumer(cfg, "logs"); err == nil {
				start = func() error { _, e := x.Consume(ch); return e }
				stop = func() { x.AwaitClose(5 * time.Second) }
			}
		case "group":
			var x *healer.GroupConsumer
			if x, err = healer.NewGroupConsumer("logs", cfg); err == nil {
				start = func() error { _, e := x.Consume(ch); return e }
				stop = x.Close
			}
		}
	})
	if !ok || err != nil {
		r.Fail("setup", "creating the consumer failed on a healthy cluster: returned %v, error %v", ok, err)
		noteHistory(r, cl)
		return
	}
	cl.Lock()
	for i := range c.Faults {
		f := c.Faults[i]
		cl.Faults = append(cl.Faults, &f)
	}
	cl.Unlock()
	if c.Move >= 0 {
		var once sync.Once
		cl.OnEvent = func(ev *kafka.Ev) {
			if ev.H.API == c.Move {
				once.Do(func() { cl.MoveLeader("logs", 0, 1+pt.Leader%int32(c.Brokers)) })
			}
		}
	}
	early := c.FromBeg
	if c.Req < 0 {
		early = c.Req == -2
	}
	// the rule
	pos, looked := c.Req, true
	switch {
	case c.Req >= 0:
		looked = false
	case c.Commit >= 0:
		pos = c.Commit
	case early:
		pos = pt.Start
	default:
		pos = pt.Next
	}
	first := pos
	if pos < pt.Start || pos > pt.Next {
		pos = pt.Next
		if early {
			pos = pt.Start
		}
		r.Class("start position out of range")
		looked = true
	}
	var mu sync.Mutex
	var got []*healer.FullMessage
	gate := make(chan struct{})
	take := 1 << 30
	if c.Expire > 0 {
		take = c.Take
	}
	go func() {
		for n := 0; ; n++ {
			if n == take {
				<-gate
			}
			m, ok := <-ch
			if !ok {
				return
			}
			mu.Lock()
			got = append(got, m)
			mu.Unlock()
		}
	}()
	defer func() {
		noteHistory(r, cl)
		within(time.Minute, stop)
	}()
	if !guarded(r, "Consume", 5*time.Minute, func() { err = start() }) || err != nil {
		r.Fail("consume", "Consume did not work: %v", err)
		return
	}
	fetchAt := func(i int) (off int64, bad bool) { // offset of a fetch, and whether it came before any position was known
		ev := cl.Events(kafka.Fetch)
		if i >= len(ev) {
			return -1, true
		}
		return ev[i].Req.Objs("topics")[0].Objs("partitions")[0].I("fetch_offset"), false
	}
	settled := until(3*time.Minute, 50*time.Millisecond, func() bool {
		for i := range cl.Events(kafka.Fetch) {
			if off, _ := fetchAt(i); off >= pt.Start && off <= pt.Next {
				return true
			}
		}
		return false
	})
	if !settled {
		r.Fail("stuck", "no fetch at a valid offset within 3 minutes")
		return
	}
	if off, none := fetchAt(0); none || off != first {
		r.Fail("first", "the first fetch asks for offset %d, expected %d (requested %d, committed %d, log %d to %d)", off, first, c.Req, c.Commit, pt.Start, pt.Next)
		return
	}
	time.Sleep(3 * time.Second)
	var want []stored
	need := map[int64]bool{} // records that must arrive
	for _, s := range all {
		if s.Rec.Offset >= pos {
			want = append(want, s)
			need[s.Rec.Offset] = c.Expire == 0 || len(need) < c.Take
		}
	}
	if c.Expire > 0 {
		if !until(2*time.Minute, 50*time.Millisecond, func() bool {
			mu.Lock()
			defer mu.Unlock()
			return len(got) >= min(c.Take, len(want))
		}) {
			r.Fail("lost", "%d messages arrived within 2 minutes from position %d", len(got), pos)
			return
		}
		cl.Lock()
		next := pt.Next
		pt.Chunks = append([]kafka.Chunk(nil), pt.Chunks[min(c.Expire, len(pt.Chunks)):]...)
		pt.Start = next
		if len(pt.Chunks) > 0 {
			pt.Start = pt.Chunks[0].First
		}
		for off := range need {
			if early && off >= pt.Start {
				need[off] = true
			}
		}
		cl.Unlock()
		close(gate)
		r.Class("log lost its head")
		time.Sleep(20 * time.Second)
	}
	cl.ClearFaults()
	time.Sleep(5 * time.Second)
	cl.Lock()
	for _, s := range store(pt, c.Later) {
		want = append(want, s)
		need[s.Rec.Offset] = true
	}
	cl.Unlock()
	last := want[len(want)-1].Rec.Offset
	arrived := until(5*time.Minute, 100*time.Millisecond, func() bool {
		mu.Lock()
		defer mu.Unlock()
		return len(got) > 0 && got[len(got)-1].Message.Offset >= last
	})
	time.Sleep(2 * time.Second)
	mu.Lock()
	defer mu.Unlock()
	i := 0
	fv := fetchVersion(c.MaxF)
	for n, m := range got {
		for i < len(want) && want[i].Rec.Offset < m.Message.Offset && !need[want[i].Rec.Offset] {
			i++
		}
		if i >= len(want) {
			r.Fail("extra", "message %d is not expected: %s (position %d)", n+1, msgStr(m), pos)
			return
		}
		if df := recordDiff(m, "logs", 0, want[i].Rec, want[i].Magic, fv); df != "" {
			r.Fail("wrong", "message %d (position %d): %s", n+1, pos, df)
			return
		}
		i++
	}
	if !arrived {
		r.Fail("lost", "%d messages arrived, last expected offset is %d; position %d", len(got), last, pos)
	}
	if looked || c.Expire > 0 {
		r.NonTrivial()
	}
	switch {
	case c.Req >= 0:
		r.Class("explicit offset")
	case c.Commit >= 0:
		r.Class("committed offset")
	case early:
		r.Class("earliest")
	default:
		r.Class("latest")
	}
	r.Class("via " + c.Via)
}
