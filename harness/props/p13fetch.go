package props

import (
	"fmt"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
)

// ---- the fetches of a consumer, which do not go the way of the other requests (P12, P13)

// genStream is a consuming history in which the only faults are answers that come late, not at all, or belong to another request.
func genStream(d *pbt.D) *p06Case {
	c := &p06Case{MaxV: pbt.Pick(d, 11, 9, 6), Brokers: 1, Start: pbt.Pick(d, int64(0), -2), Max: pbt.Pick(d, 1<<20, 200), Seg: d.W(2, 1), ChanCap: pbt.Pick(d, 10, 0), Seed: uint64(d.N(1 << 30))}
	for n := d.Int(1, 4); n > 0; n-- {
		c.Chunks = append(c.Chunks, genChunk(d, []int{2, 2, 2, 1}, 8))
	}
	for n := d.Int(1, 5); n > 0; n-- {
		f := kafka.Fault{API: pbt.Pick(d, kafka.Fetch, kafka.Fetch, kafka.Fetch, kafka.Metadata, kafka.ListOffsets), Broker: -1, Skip: d.Skew(3), Times: pbt.Pick(d, 1, 1, 2),
			Kind: pbt.Pick(d, kafka.FWrongCor, kafka.FWrongCor, kafka.FStray, kafka.FDelay, kafka.FStall, kafka.FSwallow)}
		switch f.Kind {
		case kafka.FWrongCor:
			f.Arg = pbt.Pick(d, 0, 1, 1<<20, -2, kafka.CorZero, kafka.CorOnes)
		case kafka.FDelay, kafka.FStall:
			f.Arg = pbt.Pick(d, 20, 900, 2900, 3100, 4000)
		}
		c.Ops = append(c.Ops, p06Op{Kind: "fault", F: f})
		c.Ops = append(c.Ops, p06Op{Kind: "wait", N: pbt.Pick(d, 10, 1100, 5000)})
	}
	return c
}

type p13Fetch struct {
	TimeoutMS int
	PerFetch  int // timeout of fetch requests, 0: not given
	PerLen    int // length of the list it is given in
	MaxWait   int
	Back      int // retry.backoff.ms
	MaxV      int
	Faults    []kafka.Fault
	Gap       int // ms between appended records
	Recs      int
	Window    int
	Seg       int
	Seed      uint64
}

func genP13Fetch(d *pbt.D) *p13Fetch {
	c := &p13Fetch{TimeoutMS: pbt.Pick(d, 1000, 300, 3000), MaxWait: pbt.Pick(d, 100, 500, 2000), Back: pbt.Pick(d, 100, 10, 1000), MaxV: pbt.Pick(d, 11, 10, 7, 4),
		Gap: pbt.Pick(d, 0, 50, 700), Recs: d.Int(1, 8), Window: pbt.Pick(d, 0, 20, 60, 5000), Seg: d.W(3, 1), Seed: uint64(d.N(1 << 30))}
	if d.P(1, 3) {
		c.PerFetch, c.PerLen = c.MaxWait+pbt.Pick(d, 150, 3000, 9000), pbt.Pick(d, 68, 2)
	}
	for n := d.Int(1, 3); n > 0; n-- {
		f := kafka.Fault{API: kafka.Fetch, Broker: -1, Skip: d.Skew(4), Times: pbt.Pick(d, 1, 1, 2),
			Kind: pbt.Pick(d, kafka.FHang, kafka.FHang, kafka.FSwallow, kafka.FHalfHang, kafka.FStall, kafka.FStuck, kafka.FClose, kafka.FReset, kafka.FTrunc, kafka.FTruncRst, kafka.FCloseAft)}
		switch f.Kind {
		case kafka.FStall:
			f.Arg = 30000
		default:
			f.Arg = d.N(1000)
		}
		c.Faults = append(c.Faults, f)
	}
	return c
}

func (c p13Fetch) timeout() time.Duration {
	if c.PerFetch > 0 {
		return time.Duration(c.PerFetch) * time.Millisecond
	}
	return time.Duration(c.TimeoutMS+c.MaxWait) * time.Millisecond
}

func (c p13Fetch) String() string {
	s := fmt.Sprintf("a consumer: timeout=%dms for fetches=%d(len %d) fetch.max.wait=%dms back-off=%dms fetch versions 0-%d, %d records every %dms, window=%d seg=%d seed=%d\n",
		c.TimeoutMS, c.PerFetch, c.PerLen, c.MaxWait, c.Back, c.MaxV, c.Recs, c.Gap, c.Window, c.Seg, c.Seed)
	for _, f := range c.Faults {
		s += "  fault: " + f.String() + "\n"
	}
	return s
}

func runP13Fetch(r *pbt.R, c p13Fetch) {
	cl := kafka.New(1, c.Seed)
	cl.Install()
	t := cl.AddTopic("logs", 1)
	cl.Brokers[1].Ranges[kafka.Fetch] = [2]int{0, c.MaxV}
	cl.Seg, cl.Window = c.Seg, c.Window
	net := map[string]interface{}{"connect.timeout.ms": 1500, "timeout.ms": c.TimeoutMS}
	if c.PerFetch > 0 {
		per := make([]int, c.PerLen)
		per[kafka.Fetch] = c.PerFetch
		net["timeout.ms.for.eachapi"] = per
	}
	cfg := map[string]interface{}{"bootstrap.servers": cl.Bootstrap(), "fetch.max.wait.ms": c.MaxWait, "retry.backoff.ms": c.Back, "net": net}
	con, err := healer.NewSimpleConsumer("logs", 0, cfg)
	if err != nil {
		r.Fail("setup", "NewSimpleConsumer did not work on a healthy cluster: %v", err)
		return
	}
	ch := make(chan *healer.FullMessage, 100)
	go func() {
		for range ch {
		}
	}()
	for _, f := range c.Faults {
		cl.Faults = append(cl.Faults, &f)
	}
	go guarded(r, "Consume", time.Hour, func() { con.Consume(0, ch) })
	for i := 0; i < c.Recs; i++ {
		cl.Lock()
		store(t.Parts[0], []logChunk{probeChunk(i + 1)})
		cl.Unlock()
		time.Sleep(time.Duration(c.Gap) * time.Millisecond)
	}
	time.Sleep(6*(2*c.timeout()+time.Duration(c.Back)*time.Millisecond) + 10*time.Second)
	cl.Lock()
	var fetches []*kafka.Ev
	for _, e := range cl.Hist {
		if e.H.API == kafka.Fetch {
			fetches = append(fetches, e)
		}
	}
	now := cl.Now()
	cl.Unlock()
	slack := time.Second
	for i, e := range fetches {
		if e.Fault == "" {
			continue
		}
		r.NonTrivial()
		r.Class("fetch " + e.Fault)
		bound := c.timeout() + time.Duration(c.Back)*time.Millisecond + slack
		if e.Fault == kafka.FHalfHang || e.Fault == kafka.FStall || e.Fault == kafka.FStuck {
			bound += c.timeout() // the half that came, or the long poll answered first
		}
		next := now
		if i+1 < len(fetches) {
			next = fetches[i+1].T
			if fetches[i+1].Conn == e.Conn {
				r.Fail("same-connection", "the fetch after one with the fault %s, at %v, was sent on the same connection", e.Fault, e.T)
			}
		}
		if next-e.T > bound {
			r.Fail("slow", "no further fetch within %v (next at %v) after one with the fault %s at %v; its timeout is %v, the back-off %d ms", bound, next, e.Fault, e.T, c.timeout(), c.Back)
		}
	}
	noteHistory(r, cl)
	within(time.Minute, con.Stop)
}
