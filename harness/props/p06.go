package props

import (
	"fmt"
	"sync"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

type p06Op struct {
	Kind  string // append, fault, move, down, up, kill, wait, noleader
	Ch    logChunk
	F     kafka.Fault
	N     int
	To    int32
	Reset bool
}

type p06Case struct {
	MaxV    int
	Brokers int
	Chunks  []logChunk
	Pre     []p06Op // before Consume is called
	Ops     []p06Op
	Start   int64 // -2 earliest or 0
	Max     int
	Seg     int
	ChanCap int
	Window  int // bytes a broker may leave unread before a write blocks, 0 without limit
	Seed    uint64
}

// error codes a fetch, offset lookup or metadata request can transiently meet
var fetchCodes = []int16{-1, 2, 3, 5, 6, 7, 8, 9, 13, 56, 72, 74, 75, 76, 78}
var listCodes = []int16{-1, 3, 5, 6, 7, 9, 56, 74, 76, 78}
var metaCodes = []int16{3, 5, -1, 7}

func genConsumeFault(d *pbt.D) kafka.Fault {
	f := kafka.Fault{Broker: -1, Times: pbt.Pick(d, 1, 1, 2, 4), Skip: d.Skew(3)}
	f.API = pbt.Pick(d, kafka.Fetch, kafka.Fetch, kafka.Fetch, kafka.Fetch, kafka.Metadata, kafka.ListOffsets, kafka.ApiVersions)
	f.Kind = pbt.Pick(d, kafka.FErr, kafka.FClose, kafka.FCloseAft, kafka.FReset, kafka.FHang, kafka.FSwallow, kafka.FDelay, kafka.FTrunc, kafka.FTruncRst, kafka.FHalfHang, kafka.FStray, kafka.FWrongCor, kafka.FStall, kafka.FStuck)
	switch f.Kind {
	case kafka.FErr:
		switch f.API {
		case kafka.Fetch:
			f.Code = pbt.Pick(d, fetchCodes...)
		case kafka.ListOffsets:
			f.Code = pbt.Pick(d, listCodes...)
		case kafka.Metadata:
			f.Code = pbt.Pick(d, metaCodes...)
		default:
			f.Code = 35
		}
	case kafka.FDelay, kafka.FStall:
		f.Arg = pbt.Pick(d, 20, 900, 4000, 20000)
	case kafka.FTrunc, kafka.FTruncRst, kafka.FHalfHang:
		f.Arg = d.N(1000)
	case kafka.FWrongCor:
		f.Arg = pbt.Pick(d, 0, -2, kafka.CorZero, kafka.CorOnes)
	}
	return f
}

func genP06Op(d *pbt.D, c *p06Case) p06Op {
	switch d.W(4, 6, 2, 1, 2, 1, 3, 1) {
	case 0:
		return p06Op{Kind: "append", Ch: genChunk(d, []int{2}, 6)}
	case 1:
		return p06Op{Kind: "fault", F: genConsumeFault(d)}
	case 2:
		return p06Op{Kind: "move", To: int32(d.Int(1, c.Brokers)), N: pbt.Pick(d, 0, 0, 50, 3000)}
	case 3:
		return p06Op{Kind: "down", To: int32(d.Int(1, c.Brokers)), N: pbt.Pick(d, kafka.Refuse, kafka.Blackhole)}
	case 4:
		return p06Op{Kind: "up", To: int32(d.Int(1, c.Brokers))}
	case 5:
		return p06Op{Kind: "kill", To: int32(d.Int(1, c.Brokers)), Reset: d.Bool()}
	case 6:
		return p06Op{Kind: "wait", N: pbt.Pick(d, 1, 20, 600, 600, 1, 20, 600, 5000, 70000)}
	}
	return p06Op{Kind: "noleader", N: pbt.Pick(d, 20, 1000)}
}

func (o p06Op) String() string {
	switch o.Kind {
	case "append":
		return "append " + o.Ch.String()
	case "fault":
		return "fault " + o.F.String()
	case "move":
		return fmt.Sprintf("move leader to %d, metadata lags %d ms", o.To, o.N)
	case "noleader":
		return fmt.Sprintf("no leader for %d ms", o.N)
	}
	return fmt.Sprintf("%s broker %d n %d reset %v", o.Kind, o.To, o.N, o.Reset)
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P06",
		Level: "fault_enumeration",
		Rule: "case = a consuming history with injected faults (13 kinds on fetch, metadata, offset lookup and version requests, at generated requests and byte positions; retriable error codes; leader moves with lagging metadata, times without leader, brokers down, connections killed), appends in between; " +
			"oracle: every record arrives once, in order, unchanged, and within 10 minutes of virtual time after the last fault all of them have arrived; " +
			"non-trivial = a fault hit a fetch or its connection while records were still to be delivered",
		Quick: 3500, Deep: 300000, Chunk: 100,
		Gen: func(d *pbt.D) any {
			c := p06Case{MaxV: pbt.Pick(d, 11, 11, 9, 6), Brokers: d.Int(1, 3), Start: pbt.Pick(d, int64(0), -2), Max: pbt.Pick(d, 1<<20, 200, 1000), Seg: d.W(2, 1, 1), ChanCap: pbt.Pick(d, 10, 0), Window: pbt.Pick(d, 0, 0, 0, 30, 2000), Seed: uint64(d.N(1 << 30))}
			for n := d.Int(1, 4); n > 0; n-- {
				c.Chunks = append(c.Chunks, genChunk(d, []int{2, 2, 2, 1}, 8))
			}
			for n := d.W(4, 1, 1); n > 0; n-- {
				c.Pre = append(c.Pre, genP06Op(d, &c))
			}
			for n := d.Int(1, 10); n > 0; n-- {
				c.Ops = append(c.Ops, genP06Op(d, &c))
			}
			return c
		},
		Run:  func(x any, r *pbt.R) { bubble(r, func() { runP06(r, x.(p06Case)) }) },
		Desc: func(x any) string { return x.(p06Case).String() },
	})
}

func (c p06Case) String() string {
	s := fmt.Sprintf("fetch versions 0-%d, %d brokers, start %d, fetch.max.bytes %d, segmentation %d, channel %d, window %d, seed %d\n", c.MaxV, c.Brokers, c.Start, c.Max, c.Seg, c.ChanCap, c.Window, c.Seed)
	for _, k := range c.Chunks {
		s += "  stored " + k.String() + "\n"
	}
	for _, o := range c.Pre {
		s += "  before Consume: " + o.String() + "\n"
	}
	for _, o := range c.Ops {
		s += "  " + o.String() + "\n"
	}
	return s
}

// faultScript applies p06 operations to one partition of a cluster.
type faultScript struct {
	cl    *kafka.Cluster
	topic string
	part  int
	all   *[]stored
	home  int32 // the leader metadata still shows while it lags
	lag   time.Duration
	gone  time.Duration
}

func (s *faultScript) install() {
	s.cl.MetaHook = func(o wire.Obj) { // cluster is locked
		now := s.cl.Now()
		for _, t := range o.Objs("topics") {
			if t.S("name") != s.topic {
				continue
			}
			for _, p := range t.Objs("partitions") {
				if int(p.I("index")) != s.part {
					continue
				}
				if now < s.gone {
					p["leader_id"], p["error_code"] = int64(-1), int64(5)
				} else if now < s.lag {
					p["leader_id"] = int64(s.home)
				}
			}
		}
	}
}

func (s *faultScript) do(o p06Op) {
	cl := s.cl
	switch o.Kind {
	case "append":
		cl.Lock()
		*s.all = append(*s.all, store(cl.Topics[s.topic].Parts[s.part], []logChunk{o.Ch})...)
		cl.Unlock()
	case "fault":
		f := o.F
		cl.Lock()
		cl.Faults = append(cl.Faults, &f)
		cl.Unlock()
	case "move":
		cl.Lock()
		s.home = cl.Topics[s.topic].Parts[s.part].Leader
		s.lag = cl.Now() + time.Duration(o.N)*time.Millisecond
		cl.Unlock()
		cl.MoveLeader(s.topic, s.part, o.To)
	case "down":
		cl.SetMode(o.To, o.N)
	case "up":
		cl.SetMode(o.To, kafka.Up)
	case "kill":
		cl.KillConns(o.To, o.Reset)
	case "wait":
		time.Sleep(time.Duration(o.N) * time.Millisecond)
	case "noleader":
		cl.Lock()
		s.gone = cl.Now() + time.Duration(o.N)*time.Millisecond
		cl.Unlock()
	}
}

// heal ends all faults. Brokers that are down stay down if another one can lead (then it does).
func (s *faultScript) heal() {
	cl := s.cl
	cl.ClearFaults()
	cl.Lock()
	lead := cl.Topics[s.topic].Parts[s.part].Leader
	down := cl.Brokers[lead].Mode != kafka.Up
	var up int32
	for _, id := range cl.Order {
		if cl.Brokers[id].Mode == kafka.Up {
			up = id
		}
	}
	cl.Unlock()
	if up == 0 {
		cl.SetMode(lead, kafka.Up)
	} else if down {
		cl.MoveLeader(s.topic, s.part, up)
	}
}

func runP06(r *pbt.R, c p06Case) {
	cl := kafka.New(c.Brokers, c.Seed)
	cl.Install()
	t := cl.AddTopic("logs", 1)
	for _, b := range cl.Brokers {
		b.Ranges[kafka.Fetch] = [2]int{0, c.MaxV}
	}
	cl.Seg = c.Seg
	cl.Window = c.Window
	pt := t.Parts[0]
	all := store(pt, c.Chunks)
	s := &faultScript{cl: cl, topic: "logs", all: &all}
	s.install()
	cfg := map[string]interface{}{"bootstrap.servers": cl.Bootstrap(), "fetch.max.bytes": c.Max, "fetch.max.wait.ms": 1000,
		"net": map[string]interface{}{"connect.timeout.ms": 1500, "timeout.ms": 2000}}
	var con *healer.SimpleConsumer
	var err error
	if !guarded(r, "NewSimpleConsumer", time.Minute, func() { con, err = healer.NewSimpleConsumer("logs", 0, cfg) }) || err != nil {
		r.Fail("setup", "NewSimpleConsumer did not work on a healthy cluster: %v", err)
		noteHistory(r, cl)
		return
	}
	for _, o := range c.Pre {
		s.do(o)
	}
	fv := fetchVersion(c.MaxV)
	ch := make(chan *healer.FullMessage, c.ChanCap)
	var mu sync.Mutex
	n, bad := 0, false
	go func() { // the application
		for m := range ch {
			mu.Lock()
			cl.Lock()
			w := append([]stored(nil), all...)
			cl.Unlock()
			switch {
			case bad:
			case n >= len(w):
				bad = true
				r.Fail("extra", "a message beyond the %d stored records arrived: %s", len(w), msgStr(m))
			default:
				if df := recordDiff(m, "logs", 0, w[n].Rec, w[n].Magic, fv); df != "" {
					bad = true
					r.Fail("wrong", "message %d of %d: %s", n+1, len(w), df)
				}
				n++
			}
			mu.Unlock()
		}
	}()
	started := make(chan struct{})
	go func() {
		guarded(r, "Consume", time.Hour, func() { con.Consume(c.Start, ch) })
		close(started)
	}()
	hit := false
	for _, o := range c.Ops {
		s.do(o)
		mu.Lock()
		left := n < len(all)
		mu.Unlock()
		cl.Lock()
		hit = hit || left && (cl.FaultsUsed > 0 || o.Kind == "move" || o.Kind == "down" || o.Kind == "kill")
		cl.Unlock()
	}
	time.Sleep(5 * time.Second)
	s.heal()
	cl.Lock()
	all = append(all, store(pt, []logChunk{probeChunk(9)})...)
	total := len(all)
	used := cl.FaultsUsed
	cl.Unlock()
	ok := until(10*time.Minute, 100*time.Millisecond, func() bool {
		mu.Lock()
		defer mu.Unlock()
		return bad || n >= total
	})
	mu.Lock()
	if !ok {
		r.Fail("lost", "%d of %d records arrived; nothing more in the 10 minutes after the last fault; next expected %s", n, total, recStr(all[n].Rec))
	}
	mu.Unlock()
	time.Sleep(3 * time.Second)
	if hit {
		r.NonTrivial()
	}
	if used > 0 {
		r.Class("faults applied")
	}
	cl.Lock()
	kinds := map[string]bool{}
	for _, e := range cl.Hist {
		if e.Fault != "" {
			kinds[fmt.Sprintf("%s on api %d", e.Fault, e.H.API)] = true
		}
	}
	cl.Unlock()
	for k := range kinds {
		r.Class(k)
	}
	noteHistory(r, cl)
	within(time.Minute, con.Stop)
}
