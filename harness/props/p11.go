package props

import (
	"fmt"
	"sync"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

type p11Op struct {
	Kind string // start, close, append, wait, pause, resume, commit, rebalance, evict, addpart, move, kill, fault
	N    int
	Part int
	F    kafka.Fault
}

func (o p11Op) String() string {
	switch o.Kind {
	case "fault":
		return "fault " + o.F.String()
	case "append":
		return fmt.Sprintf("append %d records to %d", o.N, o.Part)
	}
	return fmt.Sprintf("%s %d", o.Kind, o.N)
}

type p11Case struct {
	Session  int
	Parts    int
	Initial  int
	Brokers  int
	MaxWait  int
	Auto     bool
	Interval int
	MetaAge  int
	Delay    int // ms the application takes per record
	ChanCap  int
	Ops      []p11Op
	Seed     uint64
}

func genP11(d *pbt.D) p11Case {
	c := p11Case{Session: pbt.Pick(d, 6000, 10000), Parts: d.Int(1, 5), Initial: d.N(8), Brokers: d.Int(1, 3), MaxWait: pbt.Pick(d, 500, 1500), Auto: d.P(3, 4), Interval: pbt.Pick(d, 300, 1000, 5000),
		MetaAge: pbt.Pick(d, 300000, 300000, 3000, 700), Delay: pbt.Pick(d, 0, 0, 20, 300), ChanCap: pbt.Pick(d, 0, 0, 4), Seed: uint64(d.N(1 << 30))}
	c.Ops = append(c.Ops, p11Op{Kind: "start"})
	if c.MetaAge <= 3000 && d.P(1, 4) { // the topic grows while the first member joins
		c.Ops = append(c.Ops, p11Op{Kind: "fault", F: kafka.Fault{Broker: -1, API: pbt.Pick(d, kafka.SyncGroup, kafka.JoinGroup), Kind: kafka.FDelay, Arg: pbt.Pick(d, 1400, 900), Times: 1}},
			p11Op{Kind: "wait", N: d.N(700)}, p11Op{Kind: "addpart", N: d.Int(1, 4)})
	}
	net := d.P(1, 3)
	for n := d.Int(2, 18); n > 0; n-- {
		switch d.W(4, 3, 5, 6, 1, 1, 2, 1, 1, 1, 1, 1, 1) {
		case 0:
			c.Ops = append(c.Ops, p11Op{Kind: "start"})
		case 1:
			c.Ops = append(c.Ops, p11Op{Kind: "close", N: d.N(4)})
		case 2:
			c.Ops = append(c.Ops, p11Op{Kind: "append", N: d.Int(1, 6), Part: d.N(c.Parts)})
		case 3:
			c.Ops = append(c.Ops, p11Op{Kind: "wait", N: pbt.Pick(d, 5, 60, 700, 3000, c.Session, d.N(2000))})
		case 4:
			c.Ops = append(c.Ops, p11Op{Kind: "pause", N: d.N(4)})
		case 5:
			c.Ops = append(c.Ops, p11Op{Kind: "resume", N: d.N(4)})
		case 6:
			c.Ops = append(c.Ops, p11Op{Kind: "commit", N: d.N(4)})
		case 7:
			c.Ops = append(c.Ops, p11Op{Kind: "rebalance"})
		case 8:
			c.Ops = append(c.Ops, p11Op{Kind: "evict", N: d.N(4)})
		case 9:
			c.Ops = append(c.Ops, p11Op{Kind: "move", N: d.Int(1, c.Brokers)})
		case 10:
			if net {
				c.Ops = append(c.Ops, p11Op{Kind: "kill", N: d.Int(1, c.Brokers)})
			}
		case 11:
			f := kafka.Fault{Broker: -1, API: pbt.Pick(d, kafka.OffsetCommit, kafka.OffsetFetch, kafka.Heartbeat, kafka.SyncGroup, kafka.JoinGroup, kafka.Fetch), Skip: d.Skew(3), Times: pbt.Pick(d, 1, 2), Kind: kafka.FErr}
			f.Code = pbt.Pick(d, int16(15), 16)
			if f.API == kafka.Fetch {
				f.Code = pbt.Pick(d, int16(6), 3)
			}
			if d.P(1, 4) { // slow, but in time
				f.Kind, f.Code, f.Arg = kafka.FDelay, 0, pbt.Pick(d, 300, 900, 1400)
			}
			if net && d.P(2, 3) {
				f.Kind, f.Code = pbt.Pick(d, kafka.FClose, kafka.FCloseAft, kafka.FReset), 0
			}
			c.Ops = append(c.Ops, p11Op{Kind: "fault", F: f})
		case 12:
			if c.MetaAge <= 3000 {
				c.Ops = append(c.Ops, p11Op{Kind: "addpart", N: d.Int(1, 4)})
			}
		}
	}
	return c
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P11",
		Level: "exploration",
		Rule: "case = a group of up to four healer consumers over up to 5 partitions: members starting, closing, pausing and committing, records being produced, forced rebalances, evictions, coordinator moves, broken connections and failing commits at generated moments; " +
			"oracle: every record is delivered to somebody, a member delivers a partition in order and once per generation and never a record below the offset committed when its generation began, and fetches and delivers only partitions of its current assignment and only between sync and the next join; " +
			"non-trivial = at least two members consumed and records were delivered in at least two generations",
		Quick: 20000, Deep: 500000, Chunk: 50,
		Gen: func(d *pbt.D) any { return genP11(d) },
		Run: func(x any, r *pbt.R) { bubble(r, func() { runP11(r, x.(p11Case)) }) },
		Desc: func(x any) string {
			c := x.(p11Case)
			s := fmt.Sprintf("session %d partitions %d initial records %d brokers %d max wait %d auto %v interval %d metadata age %d delay %d channel %d seed %d\n", c.Session, c.Parts, c.Initial, c.Brokers, c.MaxWait, c.Auto, c.Interval, c.MetaAge, c.Delay, c.ChanCap, c.Seed)
			for _, o := range c.Ops {
				s += fmt.Sprintf("  %s\n", o)
			}
			return s
		},
	})
}

type p11Delivery struct {
	T    time.Duration
	M    int
	Part int32
	Off  int64
}

type p11Member struct {
	client   string
	gc       *healer.GroupConsumer
	ch       chan *healer.FullMessage
	pause    bool
	closed   bool
	closedAt time.Duration
}

func runP11(r *pbt.R, c p11Case) {
	cl := kafka.New(c.Brokers, c.Seed)
	cl.Install()
	var leaders []int32
	for i := 0; i < c.Parts; i++ {
		leaders = append(leaders, 1+int32(i)%int32(c.Brokers))
	}
	t := cl.AddTopic("logs", leaders...)
	coord := cl.Order[int(c.Seed)%len(cl.Order)]
	cl.Coordinator = func(string) int32 { return coord }
	add := func(p, n int) {
		k := logChunk{Magic: 2}
		for j := 0; j < n; j++ {
			k.Recs = append(k.Recs, logRec{Value: []byte(fmt.Sprintf("%d-%d", p, j))})
		}
		if n > 0 {
			store(t.Parts[p], []logChunk{k})
		}
	}
	for i := range t.Parts {
		add(i, c.Initial)
	}
	g := cl.Group("g")
	var mu sync.Mutex
	var log []p11Delivery
	var ms []*p11Member
	defer noteHistory(r, cl)
	start := func() bool {
		m := &p11Member{client: fmt.Sprintf("c%d", len(ms)), ch: make(chan *healer.FullMessage, c.ChanCap)}
		cfg := map[string]interface{}{"bootstrap.servers": cl.Bootstrap(), "client.id": m.client, "fetch.max.wait.ms": c.MaxWait, "from.beginning": true, "group.id": "g", "session.timeout.ms": c.Session,
			"auto.commit": c.Auto, "auto.commit.interval.ms": c.Interval, "metadata.max.age.ms": c.MetaAge, "net": map[string]interface{}{"connect.timeout.ms": 1000, "timeout.ms": 1500}}
		var err error
		if !guarded(r, "NewGroupConsumer", time.Minute, func() { m.gc, err = healer.NewGroupConsumer("logs", cfg) }) || err != nil {
			return false
		}
		n := len(ms)
		ms = append(ms, m)
		go m.gc.Consume(m.ch)
		go func() {
			for {
				mu.Lock()
				p := m.pause
				mu.Unlock()
				if p {
					time.Sleep(50 * time.Millisecond)
					continue
				}
				x := <-m.ch
				mu.Lock()
				if x.Error != nil || x.Message == nil || x.TopicName != "logs" {
					r.Fail("odd", "member %d hands over %s", n, msgStr(x))
				} else {
					log = append(log, p11Delivery{cl.Now(), n, x.PartitionID, x.Message.Offset})
				}
				mu.Unlock()
				if c.Delay > 0 {
					time.Sleep(time.Duration(c.Delay) * time.Millisecond)
				}
			}
		}()
		return true
	}
	alive := func() (l []int) {
		for i, m := range ms {
			if !m.closed {
				l = append(l, i)
			}
		}
		return
	}
	closeM := func(i int) bool {
		m := ms[i]
		m.closed = true
		ok := guarded(r, "Close", 2*time.Minute, m.gc.Close)
		if !ok {
			r.Fail("hang", "Close of member %d did not return within 2 minutes", i)
		}
		m.closedAt = cl.Now()
		return ok
	}
	for _, o := range c.Ops {
		l := alive()
		pick := -1
		if len(l) > 0 {
			pick = l[o.N%len(l)]
		}
		switch o.Kind {
		case "start":
			if len(l) < 4 && !start() && !r.Failed() {
				r.Class("member could not start")
			}
		case "close":
			if pick >= 0 && !closeM(pick) {
				return
			}
		case "append":
			cl.Lock()
			add(o.Part, o.N)
			cl.Unlock()
		case "wait":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		case "pause", "resume":
			if pick >= 0 {
				mu.Lock()
				ms[pick].pause = o.Kind == "pause"
				mu.Unlock()
			}
		case "commit":
			if pick >= 0 && !guarded(r, "CommitOffset", 2*time.Minute, ms[pick].gc.CommitOffset) {
				r.Fail("hang", "CommitOffset did not return within 2 minutes")
				return
			}
		case "rebalance":
			cl.Rebalance("g")
		case "evict":
			if pick >= 0 {
				cl.Lock()
				id := ""
				for k, m := range g.Members {
					if m.Client == ms[pick].client {
						id = k
					}
				}
				cl.Unlock()
				cl.Evict("g", id)
			}
		case "addpart":
			cl.Lock()
			cl.AddPart("logs", 1+int32(len(t.Parts))%int32(c.Brokers))
			add(len(t.Parts)-1, o.N)
			cl.Unlock()
		case "move":
			cl.Lock()
			coord = int32(o.N)
			cl.Unlock()
		case "kill":
			cl.KillConns(int32(o.N), false)
		case "fault":
			f := o.F
			cl.Lock()
			cl.Faults = append(cl.Faults, &f)
			cl.Unlock()
		}
		if r.Failed() {
			return
		}
	}
	cl.ClearFaults()
	mu.Lock()
	for _, m := range ms {
		m.pause = false
	}
	mu.Unlock()
	if len(alive()) == 0 && !start() {
		r.Fail("setup", "a member cannot be created on a healthy cluster")
		return
	}
	missing := func() string {
		mu.Lock()
		defer mu.Unlock()
		cl.Lock()
		defer cl.Unlock()
		seen := map[[2]int64]bool{}
		for _, d := range log {
			seen[[2]int64{int64(d.Part), d.Off}] = true
		}
		for i, p := range t.Parts {
			for o := p.Start; o < p.Next; o++ {
				if !seen[[2]int64{int64(i), o}] {
					return fmt.Sprintf("record %d of partition %d", o, i)
				}
			}
		}
		return ""
	}
	if !until(4*time.Duration(c.Session)*time.Millisecond+90*time.Second, 200*time.Millisecond, func() bool { return missing() == "" }) {
		r.Fail("lost", "%s was delivered to nobody, 90 s and 4 sessions after the last fault", missing())
	}
	time.Sleep(time.Second)
	for _, i := range alive() {
		if r.Failed() {
			break
		}
		closeM(i)
	}
	time.Sleep(5 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	cl.Lock()
	defer cl.Unlock()
	p11Check(r, c, cl, g, ms, log)
}

// p11Check goes over the finished history.
func p11Check(r *pbt.R, c p11Case, cl *kafka.Cluster, g *kafka.Group, ms []*p11Member, log []p11Delivery) {
	genAt := map[int32]time.Duration{}
	for _, e := range g.Log {
		if e.What == "generation" {
			genAt[e.Gen] = e.T
		}
	}
	type span struct { // a member's time in one generation
		from, to time.Duration
		gen      int32
		parts    map[int32]bool
	}
	spans := make([][]span, len(ms))
	for i, m := range ms {
		var gen int32 = -1
		for _, e := range cl.Hist {
			if e.H.Client == nil || *e.H.Client != m.client || e.Err != nil {
				continue
			}
			switch e.H.API {
			case kafka.JoinGroup:
				if n := len(spans[i]); n > 0 && spans[i][n-1].to < 0 {
					spans[i][n-1].to = e.T
				}
				gen = -1
				if e.Done >= 0 && e.Resp.I("error_code") == 0 {
					gen = int32(e.Resp.I("generation_id"))
				}
			case kafka.SyncGroup:
				if e.Done >= 0 && e.Resp.I("error_code") == 0 {
					_, tps, _, err := wire.DecodeAssignment(e.Resp.B("assignment"))
					if err != nil {
						r.Fail("assignment", "the assignment of member %d in generation %d does not decode: %v", i, gen, err)
					}
					s := span{from: e.Done, to: -1, gen: gen, parts: map[int32]bool{}}
					for _, tp := range tps {
						for _, p := range tp.Parts {
							s.parts[p] = true
						}
					}
					spans[i] = append(spans[i], s)
				}
			}
		}
	}
	at := func(i int, t time.Duration) *span {
		for k := len(spans[i]) - 1; k >= 0; k-- {
			s := &spans[i][k]
			if t >= s.from && (s.to < 0 || t <= s.to) {
				return s
			}
		}
		return nil
	}
	for i, m := range ms {
		for _, e := range cl.Hist {
			if e.H.API != kafka.Fetch || e.H.Client == nil || *e.H.Client != m.client || e.Err != nil {
				continue
			}
			s := at(i, e.T)
			for _, t := range e.Req.Objs("topics") {
				for _, p := range t.Objs("partitions") {
					id := int32(p.I("index"))
					if s == nil {
						r.Fail("fetch", "member %d fetches partition %d at %v outside its membership", i, id, e.T)
						return
					} else if !s.parts[id] {
						r.Fail("fetch", "member %d fetches partition %d at %v, which is not assigned to it in generation %d", i, id, e.T, s.gen)
						return
					}
				}
			}
		}
	}
	type key struct {
		m    int
		gen  int32
		part int32
	}
	last := map[key]int64{}
	gens := map[int32]bool{}
	who := map[int]bool{}
	again := false
	seen := map[[2]int64]bool{}
	for _, d := range log {
		if seen[[2]int64{int64(d.Part), d.Off}] {
			again = true
		}
		seen[[2]int64{int64(d.Part), d.Off}] = true
		s := at(d.M, d.T)
		if c.ChanCap > 0 { // the application may look later at what it was given
			who[d.M] = true
			if s != nil {
				gens[s.gen] = true
			}
			continue
		}
		if s == nil {
			r.Fail("deliver", "member %d delivers record %d of partition %d at %v outside its membership", d.M, d.Off, d.Part, d.T)
			return
		}
		if !s.parts[d.Part] {
			r.Fail("deliver", "member %d delivers record %d of partition %d at %v, which is not assigned to it in generation %d", d.M, d.Off, d.Part, d.T, s.gen)
			return
		}
		k := key{d.M, s.gen, d.Part}
		if o, ok := last[k]; ok && d.Off != o+1 {
			r.Fail("order", "member %d delivers record %d of partition %d after %d in generation %d", d.M, d.Off, d.Part, o, s.gen)
			return
		}
		last[k] = d.Off
		committed := int64(0)
		for _, x := range g.Commits {
			if x.Key.Part == d.Part && x.T <= genAt[s.gen] {
				committed = x.Offset
			}
		}
		if d.Off < committed {
			r.Fail("again", "member %d delivers record %d of partition %d at %v in generation %d, before which %d was committed", d.M, d.Off, d.Part, d.T, s.gen, committed)
			return
		}
		gens[s.gen] = true
		who[d.M] = true
	}
	if len(who) >= 2 && len(gens) >= 2 {
		r.NonTrivial()
	}
	calm := c.Auto
	for _, o := range c.Ops {
		switch o.Kind {
		case "evict", "move", "kill", "fault":
			calm = false
		}
	}
	for _, e := range g.Log {
		if e.What == "expire" {
			calm = false
		}
	}
	if calm {
		r.Class("calm, automatic commit")
		if again {
			r.Fail("repeat", "records were delivered again though every member stopped and committed cleanly")
		}
	}
	if again {
		r.Class("records delivered again")
	}
	r.Class(fmt.Sprintf("members that delivered %d", len(who)))
}
