package props

import (
	"fmt"
	"sync"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
)

type p08Op struct {
	Kind string // take, wait, append, commit, fault, move, kill
	N    int
	Part int
	Ch   logChunk
	F    kafka.Fault
}

type p08Run struct {
	Ops    []p08Op
	Settle int // ms between the end of the faults and stop
}

type p08Case struct {
	Via      string
	Auto     bool
	Interval int
	ChanCap  int
	Parts    [][]logChunk
	Runs     []p08Run
	FromBeg  bool
	MaxO     int
	Storage  int
	Brokers  int
	Seed     uint64
	Trunc    *p08Trunc // this history instead
}

func (o p08Op) String() string {
	switch o.Kind {
	case "append":
		return fmt.Sprintf("append to %d: %s", o.Part, o.Ch)
	case "fault":
		return "fault " + o.F.String()
	}
	return fmt.Sprintf("%s %d", o.Kind, o.N)
}

func genP08(d *pbt.D) p08Case {
	c := p08Case{Via: pbt.Pick(d, "simple", "simple", "simple", "consumer", "group"), Auto: d.P(3, 4), Interval: pbt.Pick(d, 200, 1000, 5000, 50), FromBeg: d.P(3, 4), MaxO: pbt.Pick(d, 2, 2, 0),
		Storage: 1 - d.W(4, 1), Brokers: d.Int(1, 3), Seed: uint64(d.N(1 << 30))}
	np := 1
	if c.Via == "simple" {
		c.ChanCap = pbt.Pick(d, 0, 0, 3)
	} else {
		np = d.Int(1, 3)
	}
	if c.Via == "consumer" {
		c.Auto = true
	}
	for i := 0; i < np; i++ {
		var ks []logChunk
		for n := d.Int(0, 3); n > 0; n-- {
			ks = append(ks, genChunk(d, []int{2, 2, 1}, 6))
		}
		c.Parts = append(c.Parts, ks)
	}
	for n := d.Int(2, 3); n > 0; n-- {
		run := p08Run{Settle: pbt.Pick(d, 0, 1, 30, 300, 3000)}
		for k := d.Int(1, 6); k > 0; k-- {
			switch d.W(5, 3, 3, 2, 2, 1, 1) {
			case 0:
				run.Ops = append(run.Ops, p08Op{Kind: "take", N: 1 + d.Skew(9)})
			case 1:
				run.Ops = append(run.Ops, p08Op{Kind: "wait", N: pbt.Pick(d, 1, 3, 50, 199, 1000, 6000)})
			case 2:
				run.Ops = append(run.Ops, p08Op{Kind: "append", Part: d.N(np), Ch: genChunk(d, []int{2}, 4)})
			case 3:
				run.Ops = append(run.Ops, p08Op{Kind: "commit"})
			case 4:
				if c.Via == "group" {
					continue
				}
				f := kafka.Fault{Broker: -1, API: pbt.Pick(d, kafka.OffsetCommit, kafka.OffsetCommit, kafka.FindCoordinator), Times: pbt.Pick(d, 1, 1, 3)}
				f.Kind = pbt.Pick(d, kafka.FErr, kafka.FErr, kafka.FClose, kafka.FCloseAft, kafka.FReset, kafka.FTrunc, kafka.FDelay)
				switch f.Kind {
				case kafka.FErr:
					f.Code = pbt.Pick(d, int16(14), 15, 16, -1, 7, 28)
				case kafka.FTrunc:
					f.Arg = d.N(1000)
				case kafka.FDelay:
					f.Arg = pbt.Pick(d, 20, 800, 20000)
				}
				run.Ops = append(run.Ops, p08Op{Kind: "fault", F: f})
			case 5:
				if c.Via == "group" {
					continue
				}
				run.Ops = append(run.Ops, p08Op{Kind: "move", N: d.Int(1, c.Brokers)})
			case 6:
				if c.Via == "group" {
					continue
				}
				run.Ops = append(run.Ops, p08Op{Kind: "kill", N: d.Int(1, c.Brokers)})
			}
		}
		c.Runs = append(c.Runs, run)
	}
	return c
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P08",
		Level: "exploration",
		Rule: "case = two or three successive runs of a committing consumer (single partition, multi-partition, group member) with takes, waits, appends, explicit commits, commit faults and coordinator moves in between, stopped at a generated moment; " +
			"oracle: at every commit request all records below the offset were handed over, accepted commits never go back within a run, after a clean stop the committed offset covers everything handed over and the next run starts with the record after it; " +
			"non-trivial = at least one record was handed over in a run that a further run followed",
		Quick: 24000, Deep: 300000, Chunk: 100,
		Gen: func(d *pbt.D) any {
			if d.P(1, 50) {
				return p08Case{Trunc: genP08Trunc(d)}
			}
			return genP08(d)
		},
		Run: func(x any, r *pbt.R) {
			bubble(r, func() {
				if c := x.(p08Case); c.Trunc != nil {
					runP08Trunc(r, *c.Trunc)
				} else {
					runP08(r, c)
				}
			})
		},
		Desc: func(x any) string {
			c := x.(p08Case)
			if c.Trunc != nil {
				return c.Trunc.String()
			}
			s := fmt.Sprintf("via %s auto %v interval %d channel %d from.beginning %v offset api %d storage %d brokers %d seed %d\n", c.Via, c.Auto, c.Interval, c.ChanCap, c.FromBeg, c.MaxO, c.Storage, c.Brokers, c.Seed)
			for i, ks := range c.Parts {
				for _, k := range ks {
					s += fmt.Sprintf("  partition %d: %s\n", i, k)
				}
			}
			for i, x := range c.Runs {
				for _, o := range x.Ops {
					s += fmt.Sprintf("  run %d: %s\n", i+1, o)
				}
				s += fmt.Sprintf("  run %d: stop after %d ms\n", i+1, x.Settle)
			}
			return s
		},
	})
}

func runP08(r *pbt.R, c p08Case) {
	cl := kafka.New(c.Brokers, c.Seed)
	cl.Install()
	var leaders []int32
	for i := range c.Parts {
		leaders = append(leaders, 1+int32(i)%int32(c.Brokers))
	}
	t := cl.AddTopic("logs", leaders...)
	coord := cl.Order[int(c.Seed)%len(cl.Order)]
	cl.Coordinator = func(string) int32 { return coord }
	for _, b := range cl.Brokers {
		b.Ranges[kafka.OffsetFetch] = [2]int{0, c.MaxO}
		b.Ranges[kafka.OffsetCommit] = [2]int{0, c.MaxO}
	}
	all := make([][]stored, len(c.Parts))
	for i, ks := range c.Parts {
		all[i] = store(t.Parts[i], ks)
	}
	g := cl.Group("g")
	key := func(i int) kafka.OffsetKey { return kafka.OffsetKey{Topic: "logs", Part: int32(i)} }
	cfg := map[string]interface{}{"bootstrap.servers": cl.Bootstrap(), "fetch.max.wait.ms": 1000, "from.beginning": c.FromBeg, "group.id": "g", "session.timeout.ms": 10000,
		"offsets.storage": c.Storage, "auto.commit": c.Auto, "auto.commit.interval.ms": c.Interval, "net": map[string]interface{}{"connect.timeout.ms": 1500, "timeout.ms": 2000}}

	var mu sync.Mutex
	pos := make([]int64, len(c.Parts))   // one past the last record handed over, or the start position
	next := make([]int, len(c.Parts))    // index of the record to be handed over next
	lastc := make([]int64, len(c.Parts)) // last accepted commit of the run
	handed, runHanded := 0, 0
	var ch chan *healer.FullMessage
	running := false
	cl.OnEvent = func(ev *kafka.Ev) {
		if ev.H.API != kafka.OffsetCommit || ev.Err != nil {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		if !running {
			return
		}
		for _, t := range ev.Req.Objs("topics") {
			for _, p := range t.Objs("partitions") {
				i, off := int(p.I("index")), p.I("offset")
				if t.S("name") != "logs" || i >= len(pos) {
					r.Fail("foreign", "commit for %s-%d, which the consumer does not consume", t.S("name"), i)
					continue
				}
				k := next[i] + len(ch)
				if k < len(all[i]) && off > all[i][k].Rec.Offset {
					r.Fail("ahead", "offset %d of partition %d is committed at %v while the record at %d has not been handed over", off, i, ev.T, all[i][k].Rec.Offset)
				}
				if off < 0 {
					r.Fail("negative", "offset %d is committed for partition %d", off, i)
				}
				if off < lastc[i] {
					r.Fail("back", "offset %d is committed for partition %d after %d", off, i, lastc[i])
				}
				lastc[i] = max(lastc[i], off)
			}
		}
	}
	defer noteHistory(r, cl)
	for ri, run := range c.Runs {
		ch = make(chan *healer.FullMessage, c.ChanCap)
		mu.Lock()
		cl.Lock()
		for i := range pos {
			p := t.Parts[i].Next
			if c.FromBeg {
				p = t.Parts[i].Start
			}
			if o, ok := g.Offsets[key(i)]; ok {
				p = o
			}
			pos[i], lastc[i], next[i] = p, -1, 0
			for next[i] < len(all[i]) && all[i][next[i]].Rec.Offset < p {
				next[i]++
			}
		}
		cl.Unlock()
		running, runHanded = true, 0
		mu.Unlock()
		accept := func(m *healer.FullMessage) {
			mu.Lock()
			defer mu.Unlock()
			handed++
			runHanded++
			i := int(m.PartitionID)
			if m.Error != nil || m.Message == nil || m.TopicName != "logs" || i < 0 || i >= len(pos) {
				r.Fail("odd", "run %d: unexpected message %s", ri+1, msgStr(m))
				return
			}
			if next[i] >= len(all[i]) || all[i][next[i]].Rec.Offset != m.Message.Offset {
				w := int64(-1)
				if next[i] < len(all[i]) {
					w = all[i][next[i]].Rec.Offset
				}
				r.Fail("seq", "run %d: partition %d hands over offset %d, expected %d (run started at %d)", ri+1, i, m.Message.Offset, w, pos[i])
				return
			}
			next[i]++
			pos[i] = m.Message.Offset + 1
		}
		var start, stop, commit func()
		var err error
		ok := guarded(r, "creating the consumer", time.Minute, func() {
			switch c.Via {
			case "simple":
				var x *healer.SimpleConsumer
				if x, err = healer.NewSimpleConsumer("logs", 0, cfg); err == nil {
					req := int64(-1)
					if c.FromBeg {
						req = -2
					}
					start, stop, commit = func() { x.Consume(req, ch) }, x.Stop, x.CommitOffset
				}
			case "consumer":
				var x *healer.Consumer
				if x, err = healer.NewConsumer(cfg, "logs"); err == nil {
					start, stop = func() { x.Consume(ch) }, func() { x.AwaitClose(time.Minute) }
				}
			case "group":
				var x *healer.GroupConsumer
				if x, err = healer.NewGroupConsumer("logs", cfg); err == nil {
					start, stop, commit = func() { x.Consume(ch) }, x.Close, x.CommitOffset
				}
			}
		})
		if !ok || err != nil {
			r.Fail("setup", "creating the consumer failed on a healthy cluster: returned %v, error %v", ok, err)
			return
		}
		if !guarded(r, "Consume", 2*time.Minute, start) {
			r.Fail("setup", "Consume did not return on a healthy cluster")
			return
		}
		time.Sleep(100 * time.Millisecond) // positions are looked up
		clean := true
		for _, o := range run.Ops {
			switch o.Kind {
			case "take":
				for n := 0; n < o.N; n++ {
					select {
					case m := <-ch:
						accept(m)
					case <-time.After(2 * time.Second):
						n = o.N
					}
				}
			case "wait":
				time.Sleep(time.Duration(o.N) * time.Millisecond)
			case "append":
				cl.Lock()
				all[o.Part] = append(all[o.Part], store(t.Parts[o.Part], []logChunk{o.Ch})...)
				cl.Unlock()
				time.Sleep(20 * time.Millisecond)
			case "commit":
				if commit == nil {
					continue
				}
				time.Sleep(time.Millisecond) // the consumer notes that the last record was taken
				mu.Lock()
				want := append([]int64(nil), pos...)
				n := runHanded
				mu.Unlock()
				if !guarded(r, "CommitOffset", 2*time.Minute, commit) {
					r.Fail("hang", "CommitOffset did not return within 2 minutes")
					return
				}
				cl.Lock()
				for i := range want {
					if got, ok := g.Offsets[key(i)]; clean && n > 0 && ok && got < want[i] {
						r.Fail("uncommitted", "after CommitOffset the committed offset of partition %d is %d, but records up to %d were handed over", i, got, want[i]-1)
					}
				}
				cl.Unlock()
			case "fault":
				f := o.F
				cl.Lock()
				cl.Faults = append(cl.Faults, &f)
				cl.Unlock()
				clean = false
			case "move":
				cl.Lock()
				coord = int32(o.N)
				cl.Unlock()
				clean = false
			case "kill":
				cl.KillConns(int32(o.N), false)
				clean = false
			}
			if r.Failed() {
				return
			}
		}
		cl.ClearFaults()
		time.Sleep(time.Duration(run.Settle) * time.Millisecond)
		if !guarded(r, "stopping", 3*time.Minute, stop) {
			r.Fail("hang", "stopping did not return within 3 minutes")
			return
		}
		mu.Lock()
		running = false
		mu.Unlock()
		for n := 0; n <= c.ChanCap; n++ { // what was handed over but not looked at yet
			select {
			case m := <-ch:
				accept(m)
			default:
			}
		}
		if r.Failed() {
			return
		}
		cl.Lock()
		for i := range pos {
			got, ok := g.Offsets[key(i)]
			if c.Auto && runHanded > 0 && (ok && got < pos[i] || !ok && next[i] > 0 && pos[i] > all[i][0].Rec.Offset && c.FromBeg) {
				r.Fail("progress", "run %d: after the stop the committed offset of partition %d is %d (%v), but records up to %d were handed over", ri+1, i, got, ok, pos[i]-1)
			}
			if ok && next[i] < len(all[i]) && got > all[i][next[i]].Rec.Offset {
				r.Fail("ahead", "run %d: after the stop the committed offset of partition %d is %d, but the record at %d was not handed over", ri+1, i, got, all[i][next[i]].Rec.Offset)
			}
		}
		cl.Unlock()
		if r.Failed() {
			return
		}
		if runHanded > 0 && ri+1 < len(c.Runs) {
			r.NonTrivial()
		}
		time.Sleep(time.Minute) // a late answer or an eviction
	}
	if handed > 0 {
		r.Class("records handed over")
	}
	r.Class("via " + c.Via)
	if c.Auto {
		r.Class("automatic commit")
	} else {
		r.Class("explicit commit only")
	}
}
