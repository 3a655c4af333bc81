package props

import (
	"fmt"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

type p04Op struct {
	Kind  string // add, flush, fault, move, down, up, kill, wait
	Key   []byte
	F     kafka.Fault
	N     int
	To    int32
	Reset bool
}

type p04Case struct {
	Simple  bool
	Parts   int
	Brokers int
	MaxCnt  int
	Codec   string
	Acks    int16
	ProdV0  bool
	MetaAge int // ms
	Window  int // bytes a broker may leave unread before a write blocks, 0 without limit
	Lost    int // broker that is gone for good at the end, its partitions led by others
	Ops     []p04Op
	Seed    uint64
}

// codes a broker can answer to a produce request
var produceCodes = []int16{-1, 2, 3, 5, 6, 7, 10, 13, 17, 18, 19, 20, 29, 45, 56, 74, 87}

func genProduceFault(d *pbt.D) kafka.Fault {
	f := kafka.Fault{API: kafka.Produce, Broker: -1, Times: pbt.Pick(d, 1, 2)}
	f.Kind = pbt.Pick(d, kafka.FErr, kafka.FClose, kafka.FCloseAft, kafka.FReset, kafka.FHang, kafka.FSwallow, kafka.FDelay, kafka.FTrunc, kafka.FTruncRst, kafka.FHalfHang, kafka.FStray, kafka.FWrongCor, kafka.FStuck)
	switch f.Kind {
	case kafka.FErr:
		f.Code = pbt.Pick(d, produceCodes...)
	case kafka.FDelay:
		f.Arg = pbt.Pick(d, 20, 45000, 200000)
	case kafka.FTrunc, kafka.FTruncRst, kafka.FHalfHang:
		f.Arg = d.N(1000)
	case kafka.FWrongCor:
		f.Arg = pbt.Pick(d, 0, -2, kafka.CorZero, kafka.CorOnes)
	}
	return f
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P04",
		Level: "fault_enumeration",
		Rule: "case = history of adds and flushes with injected faults on the produce path (13 kinds of answer and connection fault, 17 error codes, leader moves, brokers down, connections killed); " +
			"oracle: a call returns nil only if every message it sent was acknowledged before it returned, and a flush leaves nothing accepted unsent; after the last fault the producer delivers again; " +
			"non-trivial = a fault was applied while a call that sends was running",
		Quick: 30000, Deep: 600000, Chunk: 200,
		Gen: func(d *pbt.D) any {
			c := p04Case{Simple: d.P(2, 3), Parts: 1 + d.Skew(3), Brokers: d.Int(1, 3), Codec: pbt.Pick(d, "none", "gzip", "snappy", "lz4"), Acks: pbt.Pick(d, int16(-1), 1),
				ProdV0: d.P(1, 6), Seed: uint64(d.N(1 << 30)), MaxCnt: 1}
			if c.Simple {
				c.MaxCnt = pbt.Pick(d, 1, 2, 3, 1000)
			}
			c.MetaAge = 1 << 40
			c.Window = pbt.Pick(d, 0, 0, 0, 40, 5000)
			if !c.Simple && d.P(1, 4) {
				c.MetaAge = pbt.Pick(d, 2000, 20000)
			}
			if c.Brokers > 1 && d.P(1, 3) {
				c.Lost = d.Int(1, c.Brokers)
			}
			n := d.Int(1, 14)
			for i := 0; i < n; i++ {
				switch d.W(8, 4, 4, 1, 1, 1, 1, 1) {
				case 0:
					c.Ops = append(c.Ops, p04Op{Kind: "add", Key: genKey(d)})
				case 1:
					if c.Simple {
						c.Ops = append(c.Ops, p04Op{Kind: "flush"})
					} else {
						c.Ops = append(c.Ops, p04Op{Kind: "add", Key: genKey(d)})
					}
				case 2:
					c.Ops = append(c.Ops, p04Op{Kind: "fault", F: genProduceFault(d)})
				case 3:
					c.Ops = append(c.Ops, p04Op{Kind: "move", N: d.N(c.Parts), To: int32(d.Int(1, c.Brokers))})
				case 4:
					c.Ops = append(c.Ops, p04Op{Kind: "down", N: d.Int(1, c.Brokers), To: int32(pbt.Pick(d, kafka.Refuse, kafka.Blackhole))})
				case 5:
					c.Ops = append(c.Ops, p04Op{Kind: "up", N: d.Int(1, c.Brokers)})
				case 6:
					c.Ops = append(c.Ops, p04Op{Kind: "kill", N: d.Int(1, c.Brokers), Reset: d.Bool()})
				case 7:
					c.Ops = append(c.Ops, p04Op{Kind: "wait", N: pbt.Pick(d, 5, 500, 60000)})
				}
			}
			return c
		},
		Run: func(x any, r *pbt.R) {
			c := x.(p04Case)
			bubble(r, func() { runP04(r, c) })
		},
		Desc: func(x any) string {
			c := x.(p04Case)
			s := fmt.Sprintf("simple=%v parts=%d brokers=%d maxcount=%d codec=%s acks=%d produce-v0=%v lost=%d metadata age %d window=%d seed=%d\n", c.Simple, c.Parts, c.Brokers, c.MaxCnt, c.Codec, c.Acks, c.ProdV0, c.Lost, c.MetaAge, c.Window, c.Seed)
			for _, o := range c.Ops {
				switch o.Kind {
				case "add":
					s += fmt.Sprintf("  add key %s\n", q(o.Key))
				case "fault":
					s += fmt.Sprintf("  fault %s\n", o.F)
				default:
					s += fmt.Sprintf("  %s n %d to %d reset %v\n", o.Kind, o.N, o.To, o.Reset)
				}
			}
			return s
		},
	})
}

func runP04(r *pbt.R, c p04Case) {
	pc := prodCase{Simple: c.Simple, Parts: c.Parts, Part: 0, Brokers: c.Brokers, Codec: c.Codec, MaxCount: c.MaxCnt, FlushMS: 1 << 40, Acks: c.Acks,
		Timeout: 1500, ClientID: "c", Lanes: 1, Latency: 1, Seed: c.Seed, MetaAge: c.MetaAge}
	cl := newProdCluster(pc)
	cl.Window = c.Window
	if c.ProdV0 {
		for _, b := range cl.Brokers {
			b.Ranges[kafka.Produce] = [2]int{0, 8}
		}
	}
	p := startProducer(r, pc, cl)
	if p == nil {
		noteHistory(r, cl)
		return
	}
	n := 0
	faulty, ending := false, false
	var pending []string // accepted, not yet sent, and not covered by an error return
	// calls the producer and judges what it returned
	call := func(what string, isFlush bool, val string, f func() error) (ok bool, err error) {
		h0 := len(cl.Events())
		used0 := cl.FaultsUsed
		t0 := cl.Now()
		done := guarded(r, what, 20*time.Minute, func() { err = f() })
		if r.Failed() {
			return false, nil
		}
		if !done {
			r.Fail("hang", "%s did not return within 20 virtual minutes", what)
			return false, nil
		}
		now := cl.Now()
		sent, acked := map[string]bool{}, map[string]bool{}
		for _, ev := range cl.Events()[h0:] {
			if ev.H.API != kafka.Produce {
				continue
			}
			for _, t := range ev.Req.Objs("topics") {
				for _, pp := range t.Objs("partitions") {
					b, perr := wire.ParseBatch(pp.B("records"))
					if perr != nil {
						r.Fail("bad-batch", "%v", perr)
						continue
					}
					for _, rec := range b.Recs {
						sent[string(rec.Value)] = true
						if ev.Acked && ev.Done >= 0 && ev.Done <= now {
							acked[string(rec.Value)] = true
						}
					}
				}
			}
		}
		if !ending && (cl.FaultsUsed > used0 || faulty) && len(sent) > 0 {
			r.NonTrivial()
			r.Class("a call that sent under a fault")
		}
		if val != "" {
			pending = append(pending, val)
		}
		if err != nil {
			if !faulty && cl.FaultsUsed == 0 {
				r.Fail("spurious-error", "%s at %v returned %v although nothing has failed yet", what, t0, err)
			}
			r.Class("error returned")
			pending = nil
			return true, err
		}
		for v := range sent {
			if !acked[v] {
				r.Fail("silent-loss", "%s (%v..%v) returned nil although the batch with %q it sent was not acknowledged", what, t0, now, v)
				return false, nil
			}
		}
		var rest []string
		for _, v := range pending {
			if !acked[v] {
				rest = append(rest, v)
			}
		}
		pending = rest
		if len(rest) > 0 && (isFlush || len(rest) >= c.MaxCnt) {
			r.Fail("silent-loss", "%s (%v..%v) returned nil although %q was accepted and never acknowledged", what, t0, now, rest[0])
			return false, nil
		}
		return true, nil
	}
	add := func(k []byte) (bool, error) {
		v := fmt.Sprintf("v%d", n)
		n++
		return call("AddMessage "+v, false, v, func() error { return p.AddMessage(k, []byte(v)) })
	}
	for _, op := range c.Ops {
		ok := true
		switch op.Kind {
		case "add":
			ok, _ = add(op.Key)
		case "flush":
			ok, _ = call("Flush", true, "", p.(*healer.SimpleProducer).Flush)
		case "fault":
			f := op.F
			cl.Lock()
			cl.Faults = append(cl.Faults, &f)
			cl.Unlock()
			r.Class("fault " + f.Kind)
		case "move":
			cl.MoveLeader("t", op.N, op.To)
			faulty = true
			r.Class("leader moved")
		case "down":
			cl.SetMode(int32(op.N), int(op.To))
			faulty = true
			r.Class("broker down")
		case "up":
			cl.SetMode(int32(op.N), kafka.Up)
		case "kill":
			cl.KillConns(int32(op.N), op.Reset)
			faulty = true
		case "wait":
			time.Sleep(time.Duration(op.N) * time.Millisecond)
		}
		if !ok {
			noteHistory(r, cl)
			return
		}
	}
	// the faults clear
	cl.ClearFaults()
	for id := range cl.Brokers {
		cl.SetMode(id, kafka.Up)
	}
	if c.Lost > 0 {
		to := int32(c.Lost%c.Brokers + 1)
		for i, pt := range cl.Topics["t"].Parts {
			if pt.Leader == int32(c.Lost) {
				cl.MoveLeader("t", i, to)
				r.Class("leader lost for good")
			}
		}
		cl.SetMode(int32(c.Lost), kafka.Refuse)
	}
	time.Sleep(5 * time.Second)
	faulty, ending = true, true
	var err error
	okAll := false
	for try := 0; try < 4 && !r.Failed(); try++ {
		v := fmt.Sprintf("v%d", n)
		var ok bool
		ok, err = add([]byte("k"))
		if ok && err == nil && c.Simple {
			ok, err = call("Flush", true, "", p.(*healer.SimpleProducer).Flush)
		}
		if !ok {
			break
		}
		if err == nil {
			found := false
			for _, pt := range cl.Topics["t"].Parts {
				for _, rec := range pt.Records(0) {
					if string(rec.Value) == v {
						found = true
					}
				}
			}
			if !found {
				r.Fail("silent-loss", "after the faults cleared %q was accepted and flushed but is not in the log", v)
			}
			okAll = true
			break
		}
	}
	if !okAll && !r.Failed() {
		r.Fail("unusable", "all faults are gone, but the producer still fails on the 4th attempt: %v", err)
	}
	within(10*time.Minute, p.Close)
	noteHistory(r, cl)
}
