package props

import (
	"fmt"
	"sync"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// ---- one broker connection shared by concurrent callers (P12) or driven by one caller (P13)

type brOp struct {
	Lane int
	Kind int // 0 coordinator, 1 metadata, 2 describe groups, 3 offset fetch
	Gap  int // ms before the call
	Kill int // 0 no, 1 close idle connections, 2 reset them, 3 half-close
}

type brCase struct {
	TimeoutMS int
	ConnectMS int
	PerAPI    map[int]int // overrides; 0 entries fall back to TimeoutMS
	PerLen    int
	Lanes     int
	Ops       []brOp
	Faults    []kafka.Fault
	DialFail  []int // dial numbers refused
	DialHang  []int // dial numbers that time out
	Seg       int
	Window    int // bytes unread before a write blocks, 0 none
	SegDelay  int
	Latency   int
	Seed      uint64
	Stream    *p06Case  // P12: a consumer's fetches instead, with answers of other requests among theirs
	Fetch     *p13Fetch // P13: a consumer's fetches instead
}

var brAPIs = []int{kafka.FindCoordinator, kafka.Metadata, kafka.DescribeGroups, kafka.OffsetFetch}

func genBrCase(d *pbt.D, lanes int, nops int) brCase {
	c := brCase{
		TimeoutMS: pbt.Pick(d, 1000, 200, 5000),
		ConnectMS: pbt.Pick(d, 2000, 300),
		PerAPI:    map[int]int{},
		Lanes:     lanes,
		Seg:       d.W(3, 1, 1),
		Window:    pbt.Pick(d, 0, 0, 0, 5, 40, 5000),
		SegDelay:  pbt.Pick(d, 0, 0, 5),
		Latency:   pbt.Pick(d, 1, 5),
		Seed:      uint64(d.N(1 << 30)),
	}
	if d.P(1, 3) {
		c.PerLen = pbt.Pick(d, 68, 11, 4, 20)
		for i := 0; i < 2; i++ {
			if a := pbt.Pick(d, 3, 10, 15, 9, 18); a < c.PerLen {
				c.PerAPI[a] = pbt.Pick(d, 400, 3000, 60)
			}
		}
	}
	n := d.Int(1, nops)
	for i := 0; i < n; i++ {
		op := brOp{Lane: d.N(c.Lanes), Kind: d.N(4), Gap: pbt.Pick(d, 0, 0, 1, 30, 700)}
		if d.P(1, 12) {
			op.Kill = d.Int(1, 3)
		}
		c.Ops = append(c.Ops, op)
	}
	for k := d.Skew(5); k > 0; k-- {
		f := kafka.Fault{API: -1, Broker: -1, Skip: d.Skew(4)}
		if d.P(1, 8) {
			f.API = kafka.ApiVersions
			f.Skip = d.Int(1, 3) // not the very first connection
		}
		f.Kind = pbt.Pick(d, kafka.FSwallow, kafka.FDelay, kafka.FClose, kafka.FReset, kafka.FHang, kafka.FTrunc,
			kafka.FTruncRst, kafka.FHalfHang, kafka.FStray, kafka.FWrongCor, kafka.FCloseAft, kafka.FDelay, kafka.FStuck)
		switch f.Kind {
		case kafka.FDelay:
			f.Arg = pbt.Pick(d, 50, 210, 1020, 1500, 5100, 9000)
		case kafka.FTrunc, kafka.FTruncRst, kafka.FHalfHang:
			f.Arg = d.N(1000)
		case kafka.FWrongCor:
			f.Arg = pbt.Pick(d, 0, 1, 1<<20, -2, kafka.CorZero, kafka.CorOnes)
		}
		c.Faults = append(c.Faults, f)
	}
	for k := d.Skew(2); k > 0; k-- {
		if d.Bool() {
			c.DialFail = append(c.DialFail, d.Int(1, 4))
		} else {
			c.DialHang = append(c.DialHang, d.Int(1, 4))
		}
	}
	return c
}

func (c brCase) String() string {
	if c.Stream != nil {
		return c.Stream.String()
	}
	if c.Fetch != nil {
		return c.Fetch.String()
	}
	s := fmt.Sprintf("timeout=%dms connect=%dms perapi(len %d)=%v lanes=%d seg=%d/%dms latency=%dms window=%d dialfail=%v dialhang=%v\n", c.TimeoutMS, c.ConnectMS, c.PerLen, c.PerAPI, c.Lanes, c.Seg, c.SegDelay, c.Latency, c.Window, c.DialFail, c.DialHang)
	for _, f := range c.Faults {
		s += "  fault: " + f.String() + "\n"
	}
	for i, o := range c.Ops {
		s += fmt.Sprintf("  %d: lane %d after %dms", i, o.Lane, o.Gap)
		if o.Kill > 0 {
			s += fmt.Sprintf(" (idle connections ended, mode %d)", o.Kill)
		}
		s += fmt.Sprintf(" request api %d\n", brAPIs[o.Kind])
	}
	return s
}

func (c brCase) config() *healer.BrokerConfig {
	cfg := healer.DefaultBrokerConfig()
	cfg.Net.ConnectTimeoutMS = c.ConnectMS
	cfg.Net.TimeoutMS = c.TimeoutMS
	cfg.Net.TimeoutMSForEachAPI = make([]int, c.PerLen)
	for a, v := range c.PerAPI {
		cfg.Net.TimeoutMSForEachAPI[a] = v
	}
	return cfg
}

func (c brCase) timeout(api int) time.Duration {
	if v := c.PerAPI[api]; v > 0 {
		return time.Duration(v) * time.Millisecond
	}
	if c.TimeoutMS == 0 {
		return time.Hour // none
	}
	return time.Duration(c.TimeoutMS) * time.Millisecond
}

func newBrCluster(c brCase) *kafka.Cluster {
	cl := kafka.New(1, c.Seed)
	cl.Window = c.Window
	cl.Seg, cl.SegDelay = c.Seg, time.Duration(c.SegDelay)*time.Millisecond
	cl.Latency = time.Duration(c.Latency) * time.Millisecond
	for i := range c.Faults {
		f := c.Faults[i]
		cl.Faults = append(cl.Faults, &f)
	}
	cl.DialHook = func(addr string, n int) error {
		for _, x := range c.DialFail {
			if x == n {
				return dialRefused()
			}
		}
		for _, x := range c.DialHang {
			if x == n {
				time.Sleep(time.Duration(c.ConnectMS) * time.Millisecond)
				return dialTimeout()
			}
		}
		return nil
	}
	cl.Override = func(b *kafka.Broker, ev *kafka.Ev) (wire.Obj, bool) {
		switch ev.H.API {
		case kafka.FindCoordinator:
			k := ev.Req.S("key")
			return wire.Obj{"error_code": int64(0), "node_id": int64(1), "host": "h-" + k, "port": int64(9)}, true
		case kafka.Metadata:
			var ts []any
			for _, t := range ev.Req.Objs("topics") {
				ts = append(ts, wire.Obj{"error_code": int64(0), "name": t.S("name"), "partitions": []any{}})
			}
			return wire.Obj{"controller_id": int64(1), "cluster_id": "x", "brokers": wire.List(wire.Obj{"node_id": int64(1), "host": "b1", "port": int64(9092)}), "topics": ts}, true
		case kafka.DescribeGroups:
			var gs []any
			for _, g := range ev.Req.A("groups") {
				gs = append(gs, wire.Obj{"error_code": int64(0), "group_id": g, "state": "Empty", "protocol_type": "consumer", "protocol": "", "members": []any{}})
			}
			return wire.Obj{"groups": gs}, true
		case kafka.OffsetFetch:
			g := ev.Req.S("group_id")
			return wire.Obj{"topics": wire.List(wire.Obj{"name": "o-" + g, "partitions": wire.List(wire.Obj{"index": int64(0), "offset": int64(len(g)), "metadata": "", "error_code": int64(0)})})}, true
		}
		return nil, false
	}
	cl.Install()
	return cl
}

// brCall performs one identifiable request; it returns a description of a mismatch ("" if the answer is its own).
func brCall(b *healer.Broker, kind int, name string) (err error, mismatch string) {
	var req healer.Request
	switch kind {
	case 0:
		req = healer.NewFindCoordinatorRequest("c", name)
	case 1:
		req = healer.NewMetadataRequest("c", []string{name})
	case 2:
		req = healer.NewDescribeGroupsRequest("c", []string{name})
	case 3:
		q := healer.NewOffsetFetchRequest(1, "c", name)
		q.AddPartiton("x", 0)
		req = q
	}
	resp, err := b.RequestAndGet(req)
	if err != nil {
		return err, ""
	}
	got := ""
	switch x := resp.(type) {
	case healer.FindCoordinatorResponse:
		if kind == 0 && x.Coordinator.Host == "h-"+name {
			return nil, ""
		}
		got = x.Coordinator.Host
	case healer.MetadataResponse:
		if kind == 1 && len(x.TopicMetadatas) == 1 && x.TopicMetadatas[0].TopicName == name {
			return nil, ""
		}
		got = fmt.Sprintf("%+v", x.TopicMetadatas)
	case healer.DescribeGroupsResponse:
		if kind == 2 && len(x.Groups) == 1 && x.Groups[0].GroupID == name {
			return nil, ""
		}
		got = fmt.Sprintf("%d groups", len(x.Groups))
		if len(x.Groups) > 0 {
			got = x.Groups[0].GroupID
		}
	case healer.OffsetFetchResponse:
		if kind == 3 && len(x.Topics) == 1 && x.Topics[0].Topic == "o-"+name && len(x.Topics[0].Partitions) == 1 && x.Topics[0].Partitions[0].Offset == int64(len(name)) {
			return nil, ""
		}
		got = fmt.Sprintf("%d topics", len(x.Topics))
		if len(x.Topics) > 0 {
			got = x.Topics[0].Topic
		}
	}
	return nil, fmt.Sprintf("api %d for %q was answered by a %T about %q", brAPIs[kind], name, resp, got)
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P12",
		Level: "exploration",
		Rule: "case = 1-4 concurrent callers on one broker connection x request mix x timeouts x faults (unanswered, late, stray, wrong correlation id, closed, reset, cut-off answers) x byte segmentation; every answer carries the identity of its request; " +
			"non-trivial = at least 2 calls and at least one fault applied, or at least 2 concurrent callers",
		Quick: 120000, Deep: 250000, Chunk: 200, CPUs: 4,
		Gen: func(d *pbt.D) any {
			if d.P(1, 150) {
				return brCase{Stream: genStream(d)}
			}
			return genBrCase(d, d.Int(1, 4), 14)
		},
		Run: func(x any, r *pbt.R) {
			c := x.(brCase)
			if c.Stream != nil {
				r.Class("fetches of a consumer")
				bubble(r, func() { runP06(r, *c.Stream) })
				return
			}
			bubble(r, func() {
				cl := newBrCluster(c)
				b, err := healer.NewBroker("b1:9092", 1, c.config())
				if err != nil {
					// a fault can hit the first connection; nothing to check then
					r.Class("first connection failed")
					return
				}
				var wg sync.WaitGroup
				okc, errc := 0, 0
				var mu sync.Mutex
				for lane := 0; lane < c.Lanes; lane++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i, op := range c.Ops {
							if op.Lane != lane {
								continue
							}
							time.Sleep(time.Duration(op.Gap) * time.Millisecond)
							if op.Kill == 1 || op.Kill == 2 {
								cl.KillConns(1, op.Kill == 2)
							}
							name := fmt.Sprintf("n%d-%s", i, "abcdefghijklmnop"[:i%11])
							var mm string
							var err error
							ok := guarded(r, "a request", 10*time.Minute, func() { err, mm = brCall(b, op.Kind, name) })
							if !ok {
								r.Fail("hang", "call %d did not return within 10 virtual minutes", i)
								return
							}
							if mm != "" {
								r.Fail("mismatch", "call %d: %s", i, mm)
							}
							mu.Lock()
							if err == nil {
								okc++
							} else {
								errc++
							}
							mu.Unlock()
						}
					}()
				}
				if !within(2*time.Hour, wg.Wait) {
					r.Fail("hang", "callers did not finish")
				}
				for _, e := range cl.ProtoErrs {
					r.Fail("bad-request", "%s", e)
				}
				if (cl.FaultsUsed > 0 && len(c.Ops) >= 2) || c.Lanes > 1 && len(c.Ops) > 1 {
					r.NonTrivial()
				}
				if okc > 0 {
					r.Class("some calls succeeded")
				}
				if errc > 0 {
					r.Class("some calls failed")
				}
				for _, e := range cl.Events() {
					if e.Fault != "" {
						r.Class("fault " + e.Fault)
					}
				}
				b.Close()
				noteHistory(r, cl)
			})
		},
		Desc: func(x any) string { return x.(brCase).String() },
	})

	pbt.Register(&pbt.Prop{
		ID:    "P13",
		Level: "fault_enumeration",
		Rule: "case = one caller, a sequence of requests on one broker x general and per-API timeouts x faults on requests, on version discovery and on dialling x idle connection loss; " +
			"oracle: virtual duration of every call is bounded by its timeouts; a call during which no fault occurred succeeds; non-trivial = at least one fault applied and at least one later call made",
		Quick: 120000, Deep: 250000, Chunk: 200,
		Gen: func(d *pbt.D) any {
			if d.P(1, 60) {
				return brCase{Fetch: genP13Fetch(d)}
			}
			c := genBrCase(d, 1, 9)
			if d.P(1, 10) { // no general timeout, but one for some of the APIs
				c.TimeoutMS, c.PerLen, c.DialHang = 0, 68, nil
				if len(c.PerAPI) == 0 {
					c.PerAPI[pbt.Pick(d, 3, 10, 15, 9, 18)] = pbt.Pick(d, 100, 900)
				}
				for i := range c.Faults {
					switch c.Faults[i].Kind {
					case kafka.FSwallow, kafka.FHang, kafka.FHalfHang, kafka.FStuck:
						c.Faults[i].Kind = kafka.FReset
					}
				}
				for i := range c.Ops {
					if d.P(1, 3) {
						c.Ops[i].Gap = 1200
					}
				}
			}
			return c
		},
		Run: func(x any, r *pbt.R) {
			c := x.(brCase)
			if c.Fetch != nil {
				r.Class("fetches of a consumer")
				bubble(r, func() { runP13Fetch(r, *c.Fetch) })
				return
			}
			bubble(r, func() {
				cl := newBrCluster(c)
				b, err := healer.NewBroker("b1:9092", 1, c.config())
				if err != nil {
					r.Class("first connection failed")
					return
				}
				slack := time.Duration(20*c.Latency+300*c.SegDelay)*time.Millisecond + 50*time.Millisecond
				suspect := false // the open connection was ended while idle or left unusable by an unreported fault
				faulted := false
				for i, op := range c.Ops {
					time.Sleep(time.Duration(op.Gap) * time.Millisecond)
					if op.Kill > 0 {
						cl.KillConns(1, op.Kill == 2)
						time.Sleep(time.Duration(c.Latency+1) * time.Millisecond)
						suspect = true
						r.Class("idle connection ended by the broker")
					}
					cl.Lock()
					ev0, d0 := len(cl.Hist), len(cl.Dials)
					cl.Unlock()
					api := brAPIs[op.Kind]
					t0 := time.Now()
					name := fmt.Sprintf("n%d", i)
					var mm string
					var err error
					ok := guarded(r, "a request", 10*time.Minute, func() { err, mm = brCall(b, op.Kind, name) })
					took := time.Since(t0)
					if !ok {
						r.Fail("hang", "call %d (api %d) did not return within 10 virtual minutes", i, api)
						noteHistory(r, cl)
						return
					}
					if mm != "" {
						r.Fail("mismatch", "call %d: %s", i, mm)
					}
					cl.Lock()
					evs, dials := cl.Hist[ev0:], cl.Dials[d0:]
					bad := ""
					answered, stuck := false, false
					for _, e := range evs {
						if e.Fault == kafka.FDelay {
							// harmless if the answer came in time
							for _, f := range cl.Faults {
								if f.Kind == kafka.FDelay && time.Duration(f.Arg)*time.Millisecond+slack >= c.timeout(e.H.API) {
									bad = "late answer"
								}
							}
						} else if e.Fault == kafka.FStuck {
							stuck = true // answered as if nothing was wrong
							if e.H.API != api {
								bad = e.Fault // the answered request was one this call went on from
							}
						} else if e.Fault != "" {
							bad = e.Fault
						}
						if e.H.API == api {
							answered = true
						}
					}
					_ = answered
					bound := c.timeout(api)
					if len(dials) > 0 {
						bound += time.Duration(c.ConnectMS)*time.Millisecond + c.timeout(kafka.ApiVersions)
					}
					for _, dl := range dials {
						if !dl.OK {
							bad = "dial failed"
						}
					}
					cl.Unlock()
					if took > bound+slack {
						r.Fail("slow", "call %d (api %d) took %v; its timeouts allow %v", i, api, took, bound)
					}
					if err != nil && bad == "" && !suspect {
						r.Fail("no-recovery", "call %d (api %d) failed although the broker was healthy during it: %v", i, api, err)
					}
					if bad != "" {
						faulted = true
						r.Class("fault " + bad)
					} else if faulted {
						r.NonTrivial()
					}
					suspect = stuck
				}
				for _, e := range cl.ProtoErrs {
					r.Fail("bad-request", "%s", e)
				}
				b.Close()
				noteHistory(r, cl)
			})
		},
		Desc: func(x any) string { return x.(brCase).String() },
	})
}
