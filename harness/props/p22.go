package props

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
)

// P22: stopping and closing at any moment.

type p22Case struct {
	Kind    string // producer, simpleproducer, simple, consumer, group, client, brokers
	Brokers int
	Leaders []int32
	Recs    int
	Size    int
	Cap     int
	Read    int // messages the reader takes before it stops reading; -1 all
	Group   bool
	Auto    bool
	Peer    bool
	Faults  []kafka.Fault
	Window  int // bytes a broker may leave unread before a write blocks, 0 without limit
	Modes   []p22Mode
	// when to close: at the K-th request of API (if API >= 0) plus After, otherwise at After
	API    int
	K      int
	After  int // microseconds
	Twice  int // 0 once, 1 again afterwards, 2 twice at the same time
	Await  int // ms, for AwaitClose
	Adders int
	Every  int // ms between additions or calls
	Count  int // message.max.count
	Seg    int
}

type p22Mode struct {
	At     int // ms
	Broker int32
	Mode   int
	Kill   bool
}

func (c p22Case) String() string {
	s := fmt.Sprintf("%s, %d brokers, partitions led by %v, %d records of %d bytes, channel of %d, reader takes %d, group %v, auto commit %v, peer %v, segmentation %d, window %d\n", c.Kind, c.Brokers, c.Leaders, c.Recs, c.Size, c.Cap, c.Read, c.Group, c.Auto, c.Peer, c.Seg, c.Window)
	if c.Adders > 0 {
		s += fmt.Sprintf("  %d goroutines calling every %d ms, message.max.count %d\n", c.Adders, c.Every, c.Count)
	}
	for _, f := range c.Faults {
		s += fmt.Sprintf("  fault %v\n", f)
	}
	for _, m := range c.Modes {
		s += fmt.Sprintf("  at %d ms broker %d mode %d kill %v\n", m.At, m.Broker, m.Mode, m.Kill)
	}
	if c.API >= 0 {
		s += fmt.Sprintf("  close %d us after request %d of api %d", c.After, c.K, c.API)
	} else {
		s += fmt.Sprintf("  close after %d us", c.After)
	}
	return s + fmt.Sprintf(", twice %d, await %d ms\n", c.Twice, c.Await)
}

func genP22(d *pbt.D) any {
	c := p22Case{Kind: pbt.Pick(d, "producer", "simpleproducer", "simple", "consumer", "consumer", "group", "group", "client", "brokers"),
		Brokers: 1 + d.N(3), Recs: d.Skew(60), Size: pbt.Pick(d, 5, 100, 3000), Cap: pbt.Pick(d, 0, 1, 5, 100, 1000), Read: -1,
		Group: d.P(1, 2), Auto: d.P(2, 3), Peer: d.P(1, 4), Seg: d.W(5, 1), Count: pbt.Pick(d, 1, 3, 1000), Every: pbt.Pick(d, 0, 1, 7, 150)}
	for n := 1 + d.N(4); n > 0; n-- {
		c.Leaders = append(c.Leaders, int32(1+d.N(c.Brokers)))
	}
	if d.P(1, 3) {
		c.Read = d.N(20)
	}
	var apis []int
	switch c.Kind {
	case "producer", "simpleproducer":
		apis = []int{kafka.Produce, kafka.Produce, kafka.Metadata, kafka.ApiVersions}
		c.Adders = 1 + d.N(3)
	case "simple", "consumer":
		apis = []int{kafka.Fetch, kafka.Fetch, kafka.Metadata, kafka.ListOffsets, kafka.ApiVersions}
		if c.Group {
			apis = append(apis, kafka.OffsetCommit, kafka.OffsetFetch, kafka.FindCoordinator)
		}
	case "group":
		c.Group = true
		apis = []int{kafka.Fetch, kafka.Fetch, kafka.Metadata, kafka.ListOffsets, kafka.ApiVersions, kafka.OffsetCommit, kafka.OffsetFetch, kafka.FindCoordinator, kafka.JoinGroup, kafka.SyncGroup, kafka.Heartbeat}
	case "client":
		apis = []int{kafka.ListGroups, kafka.ApiVersions, kafka.DescribeAcls, kafka.Metadata}
		c.Adders = 1 + d.N(2)
	case "brokers":
		apis = []int{kafka.ListOffsets, kafka.ApiVersions, kafka.Metadata, kafka.Metadata}
		c.Adders = 1 + d.N(3)
	}
	for n := d.W(4, 3, 2, 1); n > 0; n-- {
		f := kafka.Fault{API: apis[d.N(len(apis))], Skip: d.N(4), Kind: pbt.Pick(d, kafka.FErr, kafka.FClose, kafka.FReset, kafka.FHang, kafka.FHang, kafka.FSwallow, kafka.FDelay, kafka.FTrunc, kafka.FHalfHang, kafka.FStall, kafka.FStuck), Times: 1 + d.N(4)}
		switch f.Kind {
		case kafka.FErr:
			f.Code = pbt.Pick(d, int16(3), 5, 6, 7, 14, 15, 16, 25, 27, -1)
		case kafka.FDelay, kafka.FStall:
			f.Arg = pbt.Pick(d, 50, 500, 1500, 5000)
		default:
			f.Arg = d.N(1000)
		}
		c.Faults = append(c.Faults, f)
	}
	for n := d.W(5, 2, 1); n > 0; n-- {
		c.Modes = append(c.Modes, p22Mode{At: d.Skew(3000), Broker: int32(1 + d.N(c.Brokers)), Mode: pbt.Pick(d, kafka.Refuse, kafka.Blackhole, kafka.Up), Kill: d.Bool()})
	}
	c.API = -1
	c.After = d.Skew(20_000_000)
	late := d.P(1, 8)
	if late { // around the periodic refreshes
		c.After = 55_000_000 + d.N(20_000_000)
		c.Every = max(c.Every, 150)
		for k := range c.Modes {
			if d.Bool() {
				c.Modes[k].At += 50_000
			}
		}
	}
	if !late && d.P(2, 3) {
		c.API = apis[d.N(len(apis))]
		c.K = 1 + d.Skew(6)
		c.After = d.W(3, 2, 1) * d.Skew(3000)
	}
	c.Twice = d.W(4, 1, 1)
	c.Window = pbt.Pick(d, 0, 0, 30, 3000)
	c.Await = pbt.Pick(d, 60000, 60000, 3000, 100, 1)
	return c
}

const p22Bound = 3 * time.Minute

func runP22(r *pbt.R, c p22Case) {
	cl := kafka.New(c.Brokers, 1)
	t := cl.AddTopic("t", c.Leaders...)
	cl.Seg = c.Seg
	cl.Window = c.Window
	cl.Install()
	n := 1
	for _, p := range t.Parts {
		for k := 0; k < c.Recs; k++ {
			ch := probeChunk(n)
			ch.Recs[0].Value = append(ch.Recs[0].Value, make([]byte, c.Size)...)
			store(p, []logChunk{ch})
			n++
		}
	}
	for i := range c.Faults {
		f := c.Faults[i]
		cl.Faults = append(cl.Faults, &f)
	}
	for _, m := range c.Modes {
		go func() {
			time.Sleep(time.Duration(m.At) * time.Millisecond)
			cl.SetMode(m.Broker, m.Mode)
			if m.Kill {
				cl.KillConns(m.Broker, false)
			}
		}()
	}
	trigger := make(chan struct{})
	var seen int
	var once sync.Once
	if c.API >= 0 {
		cl.OnEvent = func(e *kafka.Ev) {
			if e.H.API == c.API {
				seen++
				if seen == c.K {
					once.Do(func() { close(trigger) })
				}
			}
		}
	} else {
		close(trigger)
	}
	net := map[string]interface{}{"connect.timeout.ms": 1000, "timeout.ms": 2000}
	conf := map[string]interface{}{"bootstrap.servers": cl.Bootstrap(), "net": net, "retry.backoff.ms": 100}
	ch := make(chan *healer.FullMessage, c.Cap)
	var delivered atomic.Int64
	var lastDelivery atomic.Int64
	var stop, start, call func()
	var addClosed func() error
	await := time.Duration(c.Await) * time.Millisecond
	bound := p22Bound
	finite := false // the call has a time limit of its own and may return before all is done
	create := func() error {
		switch c.Kind {
		case "producer":
			conf["message.max.count"] = c.Count
			p, err := healer.NewProducer("t", conf)
			if err != nil {
				return err
			}
			var k atomic.Int64
			call = func() { i := k.Add(1); p.AddMessage([]byte(fmt.Sprint(i%7)), []byte("v")) }
			stop = p.Close
			addClosed = func() error { return p.AddMessage(nil, []byte("late")) }
		case "simpleproducer":
			conf["message.max.count"] = c.Count
			p, err := healer.NewSimpleProducer(context.Background(), "t", 0, conf)
			if err != nil {
				return err
			}
			call = func() { p.AddMessage(nil, []byte("v")) }
			stop = p.Close
			addClosed = func() error { return p.AddMessage(nil, []byte("late")) }
		case "simple", "consumer", "group":
			conf["fetch.max.wait.ms"] = 300
			conf["session.timeout.ms"] = 6000
			conf["auto.commit"] = c.Auto
			conf["auto.commit.interval.ms"] = 700
			conf["from.beginning"] = true
			if c.Group {
				conf["group.id"] = "g"
			}
			switch c.Kind {
			case "simple":
				k, err := healer.NewSimpleConsumer("t", 0, conf)
				if err != nil {
					return err
				}
				start, stop = func() { k.Consume(-2, ch) }, k.Stop
			case "consumer":
				k, err := healer.NewConsumer(conf, "t")
				if err != nil {
					return err
				}
				start, stop = func() { k.Consume(ch) }, func() { k.AwaitClose(await) }
				bound, finite = await+10*time.Second, true
			case "group":
				k, err := healer.NewGroupConsumer("t", conf)
				if err != nil {
					return err
				}
				start, stop = func() { k.Consume(ch) }, func() { k.AwaitClose(await) }
				bound, finite = await+10*time.Second, true
			}
		case "client":
			k, err := healer.NewClient(cl.Bootstrap(), "me")
			if err != nil {
				return err
			}
			call = func() { k.ListGroups() }
			stop = k.Close
		case "brokers":
			bc := healer.DefaultBrokerConfig()
			bc.Net.ConnectTimeoutMS, bc.Net.TimeoutMS = 1000, 2000
			k, err := healer.NewBrokersWithConfig(cl.Bootstrap(), bc)
			if err != nil {
				return err
			}
			call = func() { k.RequestOffsets("me", "t", -1, -1, 1) }
			stop = k.Close
		}
		return nil
	}
	if c.Peer && c.Kind == "group" {
		p := &kafka.Peer{C: cl, Group: "g", Client: "peer", Session: 6 * time.Second, Topics: []string{"t"}}
		go p.Run()
		defer p.Leave()
	}
	var err error
	created := make(chan struct{})
	go func() { err = create(); close(created) }()
	select {
	case <-created:
	case <-time.After(10 * time.Minute):
		r.Class("not created")
		return
	}
	if err != nil {
		r.Class("not created")
		// what a failed creation leaves behind
		time.Sleep(time.Minute)
		checkQuiet(r, c, cl, "a creation that failed", cl.Now())
		if left := libraryGoroutines(); len(left) > 0 {
			r.Fail("goroutines", "%d goroutines are left behind by a creation that failed with %v, one of them\n%s", len(left), err, left[0])
		}
		return
	}
	ended := make(chan struct{})
	if start != nil {
		go func() {
			k := 0
			for {
				if c.Read >= 0 && k >= c.Read {
					return
				}
				select {
				case <-ch:
					k++
					delivered.Add(1)
					lastDelivery.Store(int64(cl.Now()))
				case <-ended:
					return
				}
			}
		}()
		go start()
	}
	var calls sync.WaitGroup
	stopCalls := make(chan struct{})
	for k := 0; k < c.Adders; k++ {
		calls.Add(1)
		go func() {
			defer calls.Done()
			for {
				select {
				case <-stopCalls:
					return
				default:
				}
				call()
				time.Sleep(time.Duration(c.Every)*time.Millisecond + 300*time.Microsecond)
			}
		}()
	}
	select {
	case <-trigger:
		r.Class("closed at a request")
	case <-time.After(20 * time.Second):
		r.Class("no such request")
	}
	time.Sleep(time.Duration(c.After) * time.Microsecond)

	t0 := cl.Now()
	var second sync.WaitGroup
	if c.Twice == 2 {
		second.Add(1)
		go func() { defer second.Done(); stop() }()
	}
	if !guarded(r, "closing", bound, stop) {
		if !r.Failed() {
			r.Fail("hang:close", "closing at %v did not return within %v", t0, bound)
			noteHistory(r, cl)
		}
		return
	}
	t1 := cl.Now()
	close(stopCalls)
	if c.Twice == 1 {
		if !guarded(r, "closing again", bound, stop) && !r.Failed() {
			r.Fail("hang:close again", "closing again at %v did not return within %v", t1, bound)
		}
	}
	if c.Twice == 2 {
		if !within(bound, second.Wait) {
			r.Fail("hang:close twice", "one of two calls to close at %v did not return within %v", t0, bound)
		}
		t1 = cl.Now()
	}
	if !within(p22Bound, calls.Wait) {
		r.Fail("hang:call", "a call in flight at the close at %v did not return within %v", t0, p22Bound)
	}
	if r.Failed() {
		noteHistory(r, cl)
		return
	}
	switch {
	case finite && t1-t0 >= await:
		r.Class("await ended by its time limit")
		time.Sleep(p22Bound) // it goes on ending in the background
		t1 = cl.Now()
	case c.Adders > 0 && (c.Kind == "client" || c.Kind == "brokers"):
		t1 = cl.Now() // calls in flight end first
	}
	got := delivered.Load() + int64(len(ch))
	if c.Kind != "client" && c.Kind != "brokers" {
		r.NonTrivial()
	} else if t1 > t0 {
		r.NonTrivial()
	}
	for _, m := range c.Modes { // what it could still reach must be reachable again
		cl.SetMode(m.Broker, kafka.Up)
	}
	if addClosed != nil {
		var err error
		if !guarded(r, "adding to the closed producer", bound, func() { err = addClosed() }) {
			if !r.Failed() {
				r.Fail("hang:add", "adding to the closed producer did not return")
			}
		} else if err == nil {
			r.Fail("add", "adding to the closed producer was accepted")
		} else if !errors.Is(err, healer.ErrProducerClosed) {
			r.Class("other error for a closed producer")
		}
	}
	time.Sleep(10 * time.Minute)
	checkQuiet(r, c, cl, "the close", t1)
	if g := delivered.Load() + int64(len(ch)); g != got {
		r.Fail("delivered", "%d messages delivered after the close had returned at %v", g-got, t1)
	}
	close(ended)
	time.Sleep(time.Second)
	if left := libraryGoroutines(); len(left) > 0 {
		r.Fail("goroutines", "%d goroutines are still there %v after the close at %v, one of them\n%s", len(left), cl.Now()-t1, t1, left[0])
	}
	if r.Failed() {
		noteHistory(r, cl)
	}
}

// checkQuiet: nothing reached the cluster after t1, and no connection is left open.
func checkQuiet(r *pbt.R, c p22Case, cl *kafka.Cluster, what string, t1 time.Duration) {
	cl.Lock()
	var late []string
	for _, e := range cl.Hist {
		if e.T > t1+3*time.Millisecond {
			late = append(late, fmt.Sprintf("api %d at %v", e.H.API, e.T))
		}
	}
	for _, e := range cl.Dials {
		if e.T > t1+3*time.Millisecond {
			late = append(late, fmt.Sprintf("dial of %s at %v", e.Addr, e.T))
		}
	}
	cl.Unlock()
	if len(late) > 0 {
		if len(late) > 8 {
			late = append(late[:8], "...")
		}
		r.Fail("activity", "after %s had returned at %v: %v", what, t1, late)
	}
	if o := cl.OpenConns(); len(o) > 0 {
		var ids []int
		for _, x := range o {
			ids = append(ids, x.ID)
		}
		r.Fail("connections", "%d connections are still open after %s had returned at %v: %v", len(o), what, t1, ids)
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "P22", Level: "exploration",
		Rule:  "something was running when it was closed: a consumer or producer, or a call in flight",
		Gen:   genP22,
		Quick: 8000, Deep: 200000, Chunk: 60, CPUs: 8,
		Run:  func(x any, r *pbt.R) { bubble(r, func() { runP22(r, x.(p22Case)) }) },
		Desc: func(x any) string { return x.(p22Case).String() },
	})
}
