package props

import (
	"context"
	"fmt"
	"sync/atomic"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
)

// P28: what a client holds and sends stays bounded however often things go wrong.

type p28Case struct {
	Kind    string
	Brokers int
	Leaders []int32
	Topics  int
	Recs    int
	Group   bool
	Auto    bool
	Back    int // retry.backoff.ms
	Every   int // ms between calls
	Dist    []p28Dist
	Cycles  int
	Early   bool // the first disturbance is there from the start
}

// one disturbance of a cycle: it starts at At and lasts for For
type p28Dist struct {
	At, For int // ms
	What    string
	Broker  int32
	Part    int
	API     int
	Kind    string
	Code    int16
	Times   int
}

func (x p28Dist) String() string {
	return fmt.Sprintf("at %d ms for %d ms: %s broker %d partition %d api %d kind %s code %d times %d", x.At, x.For, x.What, x.Broker, x.Part, x.API, x.Kind, x.Code, x.Times)
}

func (c p28Case) String() string {
	s := fmt.Sprintf("%s, %d brokers, partitions led by %v, %d topics, %d records each, group %v, auto commit %v, backoff %d ms, calls every %d ms, disturbed from the start %v\n  %d cycles of\n", c.Kind, c.Brokers, c.Leaders, c.Topics, c.Recs, c.Group, c.Auto, c.Back, c.Every, c.Early, c.Cycles)
	for _, x := range c.Dist {
		s += fmt.Sprintf("  %v\n", x)
	}
	return s
}

func genP28(d *pbt.D) any {
	c := p28Case{Kind: pbt.Pick(d, "producer", "producer", "simpleproducer", "simple", "consumer", "consumer", "group", "group", "group", "client", "brokers"),
		Brokers: 1 + d.N(3), Recs: d.N(4), Group: d.Bool(), Auto: d.P(2, 3), Back: pbt.Pick(d, 500, 1000), Every: pbt.Pick(d, 300, 1000, 5000), Topics: 1, Cycles: pbt.Pick(d, 1, 1, 10), Early: d.P(2, 5)}
	for n := 1 + d.N(4); n > 0; n-- {
		c.Leaders = append(c.Leaders, int32(1+d.N(c.Brokers)))
	}
	apis := []int{kafka.Metadata, kafka.ApiVersions}
	switch c.Kind {
	case "producer", "simpleproducer":
		apis = append(apis, kafka.Produce, kafka.Produce)
	case "simple", "consumer":
		if c.Kind == "consumer" {
			c.Topics = 1 + d.W(3, 1)
		}
		apis = append(apis, kafka.Fetch, kafka.Fetch, kafka.ListOffsets)
		if c.Group {
			apis = append(apis, kafka.OffsetCommit, kafka.OffsetFetch, kafka.FindCoordinator)
		}
	case "group":
		c.Group = true
		apis = append(apis, kafka.Fetch, kafka.ListOffsets, kafka.OffsetCommit, kafka.OffsetFetch, kafka.FindCoordinator, kafka.JoinGroup, kafka.JoinGroup, kafka.SyncGroup, kafka.SyncGroup, kafka.Heartbeat)
	case "client":
		apis = append(apis, kafka.ListGroups, kafka.DescribeAcls)
	case "brokers":
		apis = append(apis, kafka.ListOffsets)
	}
	for n := 1 + d.W(4, 2, 1); n > 0; n-- {
		x := p28Dist{At: d.Skew(3000), For: pbt.Pick(d, 10, 400, 3000, 12000, 12000), Broker: int32(1 + d.N(c.Brokers)), Part: d.N(len(c.Leaders)), API: apis[d.N(len(apis))]}
		x.What = pbt.Pick(d, "fault", "fault", "fault", "fault", "fault", "refuse", "blackhole", "kill", "reset", "all down", "move", "nowhere")
		if c.Kind == "group" && d.P(1, 3) {
			x.What = pbt.Pick(d, "peer", "rebalance", "coordinator", "evict")
		}
		switch c.Kind {
		case "simple", "consumer", "group":
			if d.P(1, 12) {
				x.What = "lost"
			}
		}
		if x.What == "lost" {
			x.Kind = pbt.Pick(d, kafka.FErr, kafka.FErr, kafka.FClose, kafka.FHang)
			x.Code = pbt.Pick(d, int16(6), 5, 3, -1)
		}
		if x.What == "fault" {
			x.Kind = pbt.Pick(d, kafka.FErr, kafka.FErr, kafka.FErr, kafka.FErr, kafka.FClose, kafka.FReset, kafka.FHang, kafka.FSwallow, kafka.FDelay, kafka.FTrunc, kafka.FHalfHang)
			x.Code = pbt.Pick(d, int16(1), 3, 5, 6, 7, 14, 15, 16, 22, 25, 27, -1)
			if x.API == kafka.JoinGroup || x.API == kafka.SyncGroup {
				x.Code = pbt.Pick(d, x.Code, 14, 15, 16)
				if d.P(2, 3) { // it is only sent when the group changes
					c.Dist = append(c.Dist, p28Dist{At: x.At + 200, What: pbt.Pick(d, "rebalance", "evict", "peer"), For: 3000, Broker: 1})
				}
			}
			x.Times = pbt.Pick(d, 1, 2, 1<<20, 1<<20, 1<<20, 1<<20)
			if x.Code == 1 || x.Code == 22 || x.Code == 25 || x.Code == 27 {
				// a broker that denies the very offsets, members and generations it reports is no outage
				x.Times = min(x.Times, 3)
			}
			if d.Bool() {
				x.Broker = 0
			}
		}
		c.Dist = append(c.Dist, x)
	}
	return c
}

const p28Window = 10 * time.Second

func runP28(r *pbt.R, c p28Case) {
	cl := kafka.New(c.Brokers, 1)
	var names []string
	n := 1
	for k := 0; k < c.Topics; k++ {
		name := fmt.Sprintf("t%d", k)
		names = append(names, name)
		for _, p := range cl.AddTopic(name, c.Leaders...).Parts {
			for k := 0; k < c.Recs; k++ {
				store(p, []logChunk{probeChunk(n)})
				n++
			}
		}
	}
	cl.Install()
	net := map[string]interface{}{"connect.timeout.ms": 1000, "timeout.ms": 2000}
	conf := map[string]interface{}{"bootstrap.servers": cl.Bootstrap(), "net": net, "retry.backoff.ms": c.Back}
	ch := make(chan *healer.FullMessage, 100000)
	var stop, start, call func()
	create := func() error {
		switch c.Kind {
		case "producer":
			p, err := healer.NewProducer("t0", conf)
			if err != nil {
				return err
			}
			var k atomic.Int64
			call = func() { i := k.Add(1); p.AddMessage([]byte(fmt.Sprint(i%7)), []byte("v")) }
			stop = p.Close
		case "simpleproducer":
			p, err := healer.NewSimpleProducer(context.Background(), "t0", 0, conf)
			if err != nil {
				return err
			}
			call = func() { p.AddMessage(nil, []byte("v")) }
			stop = p.Close
		case "simple", "consumer", "group":
			conf["fetch.max.wait.ms"] = 1500
			conf["session.timeout.ms"] = 6000
			conf["auto.commit"] = c.Auto
			conf["auto.commit.interval.ms"] = 1000
			conf["from.beginning"] = true
			if c.Group {
				conf["group.id"] = "g"
			}
			switch c.Kind {
			case "simple":
				k, err := healer.NewSimpleConsumer("t0", 0, conf)
				if err != nil {
					return err
				}
				start, stop = func() { k.Consume(-2, ch) }, k.Stop
			case "consumer":
				k, err := healer.NewConsumer(conf, names...)
				if err != nil {
					return err
				}
				start, stop = func() { k.Consume(ch) }, func() { k.AwaitClose(time.Minute) }
			case "group":
				k, err := healer.NewGroupConsumer("t0", conf)
				if err != nil {
					return err
				}
				start, stop = func() { k.Consume(ch) }, func() { k.AwaitClose(time.Minute) }
			}
		case "client":
			k, err := healer.NewClient(cl.Bootstrap(), "me")
			if err != nil {
				return err
			}
			call = func() { k.ListGroups() }
			stop = k.Close
		case "brokers":
			bc := healer.DefaultBrokerConfig()
			bc.Net.ConnectTimeoutMS, bc.Net.TimeoutMS = 1000, 2000
			k, err := healer.NewBrokersWithConfig(cl.Bootstrap(), bc)
			if err != nil {
				return err
			}
			call = func() { k.RequestOffsets("me", "t0", -1, -1, 1) }
			stop = k.Close
		}
		return nil
	}
	// pace
	limit := 300 + 300*len(c.Leaders)*c.Topics // several times what any case needs; a loop without a pause makes thousands
	if c.Kind == "simple" {
		limit = 600
	}
	if c.Kind == "producer" || c.Kind == "simpleproducer" || c.Kind == "client" || c.Kind == "brokers" {
		limit = 1500 // each of the calls makes attempts of its own
	}
	var recent []time.Duration
	worst := 0
	note := func(t time.Duration) {
		recent = append(recent, t)
		for recent[0] < t-p28Window {
			recent = recent[1:]
		}
		worst = max(worst, len(recent))
	}
	storm := make(chan struct{})
	tick := func(t time.Duration) {
		select {
		case <-storm:
			return
		default:
		}
		note(t)
		if len(recent) > limit {
			close(storm)
		}
	}
	cl.OnEvent = func(e *kafka.Ev) { tick(cl.Now()) }
	cl.OnDial = func(string, time.Duration) { cl.Lock(); tick(cl.Now()); cl.Unlock() }
	sleep := func(d time.Duration) bool {
		select {
		case <-storm:
			r.Fail("storm", "%d requests and connections within %v, at %v, with a retry back-off of %d ms", len(recent), p28Window, cl.Now(), c.Back)
			noteHistory(r, cl)
			return false
		case <-time.After(d):
			return true
		}
	}
	begin := func() bool {
		made := make(chan struct{})
		go func() {
			for create() != nil { // as a user would
				time.Sleep(time.Second)
			}
			if start != nil {
				go start()
			}
			close(made)
		}()
		for k := 0; k < 600; k++ {
			select {
			case <-made:
				return true
			default:
			}
			if !sleep(time.Second) {
				return false
			}
		}
		r.Class("not created")
		return false
	}
	disturbAll := func() {
		for _, x := range c.Dist {
			go disturb(cl, c, x, names)
		}
	}
	if c.Early {
		disturbAll()
		sleep(5 * time.Millisecond)
	}
	if !begin() {
		return
	}
	over := make(chan struct{})
	busy := make(chan struct{}, 1)
	busy <- struct{}{}
	if call != nil {
		go func() {
			for {
				select {
				case <-over:
					return
				case <-time.After(time.Duration(c.Every) * time.Millisecond):
				}
				<-busy
				call()
				busy <- struct{}{}
			}
		}()
	}
	var conns, gos []int
	if !sleep(20 * time.Second) {
		return
	}
	for k := 0; k < c.Cycles; k++ {
		disturbAll()
		if !sleep(16 * time.Second) {
			return
		}
		cl.ClearFaults()
		for _, id := range cl.Order {
			cl.SetMode(id, kafka.Up)
		}
		for _, t := range names {
			for i, l := range c.Leaders {
				cl.MoveLeader(t, i, l)
			}
		}
		if !sleep(40 * time.Second) {
			return
		}
		if call != nil {
			select {
			case <-busy:
			case <-time.After(time.Minute):
				r.Class("a call did not end")
				return
			}
			time.Sleep(5 * time.Second)
		}
		conns = append(conns, len(cl.OpenConns()))
		gos = append(gos, len(libraryGoroutines()))
		if call != nil {
			busy <- struct{}{}
		}
	}
	if r.Failed() {
		return
	}
	r.NonTrivial()
	r.Class(fmt.Sprintf("%s: at most %d in ten seconds", c.Kind, (worst+49)/50*50))
	check := func(what string, v []int) {
		m, h := v[3], v[len(v)-4]
		for _, x := range v[2:6] {
			m = max(m, x)
		}
		for _, x := range v[6:] {
			h = min(h, x)
		}
		if h >= m+3 {
			r.Fail(what, "%s keep growing: %v after each cycle", what, v)
			noteHistory(r, cl)
		}
	}
	if c.Cycles >= 10 {
		check("open connections", conns)
		check("goroutines", gos)
	}
	close(over)
	within(2*time.Minute, stop)
}

func disturb(cl *kafka.Cluster, c p28Case, x p28Dist, names []string) {
	time.Sleep(time.Duration(x.At) * time.Millisecond)
	d := time.Duration(x.For) * time.Millisecond
	switch x.What {
	case "fault":
		f := &kafka.Fault{API: x.API, Broker: x.Broker, Kind: x.Kind, Code: x.Code, Times: x.Times, Arg: 700}
		cl.Lock()
		cl.Faults = append(cl.Faults, f)
		cl.Unlock()
		time.Sleep(d)
		cl.ClearFaults()
	case "lost": // the offset is out of range, and nobody tells the range
		cl.Lock()
		cl.Faults = append(cl.Faults, &kafka.Fault{API: kafka.Fetch, Kind: kafka.FErr, Code: 1, Times: 1 << 20},
			&kafka.Fault{API: kafka.ListOffsets, Kind: x.Kind, Code: x.Code, Times: 1 << 20})
		cl.Unlock()
		time.Sleep(d)
		cl.ClearFaults()
	case "refuse":
		cl.SetMode(x.Broker, kafka.Refuse)
		time.Sleep(d)
		cl.SetMode(x.Broker, kafka.Up)
	case "blackhole":
		cl.SetMode(x.Broker, kafka.Blackhole)
		time.Sleep(d)
		cl.SetMode(x.Broker, kafka.Up)
	case "all down":
		for _, id := range cl.Order {
			cl.SetMode(id, kafka.Refuse)
		}
		time.Sleep(d)
		for _, id := range cl.Order {
			cl.SetMode(id, kafka.Up)
		}
	case "kill", "reset":
		cl.KillConns(x.Broker, x.What == "reset")
	case "move":
		for _, t := range names {
			cl.MoveLeader(t, x.Part, x.Broker)
		}
	case "nowhere":
		for _, t := range names {
			cl.MoveLeader(t, x.Part, -1)
		}
		time.Sleep(d)
		for _, t := range names {
			cl.MoveLeader(t, x.Part, c.Leaders[x.Part])
		}
	case "peer":
		p := &kafka.Peer{C: cl, Group: "g", Client: "peer", Session: 6 * time.Second, Topics: names}
		go p.Run()
		time.Sleep(d)
		p.Leave()
	case "rebalance":
		cl.Rebalance("g")
	case "evict":
		cl.Lock()
		id := ""
		for m := range cl.Group("g").Members {
			id = m
		}
		cl.Unlock()
		cl.Evict("g", id)
	case "coordinator":
		cl.Lock()
		cl.Coordinator = func(string) int32 { return x.Broker }
		cl.Unlock()
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "P28", Level: "exploration",
		Rule:  "the client lived through all cycles of the disturbance",
		Gen:   genP28,
		Quick: 4000, Deep: 150000, Chunk: 40, CPUs: 8,
		Run:  func(x any, r *pbt.R) { bubble(r, func() { runP28(r, x.(p28Case)) }) },
		Desc: func(x any) string { return x.(p28Case).String() },
	})
}
