package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/childe/healer"
	"github.com/go-logr/logr"
	"github.com/go-logr/logr/funcr"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// P29: concurrent use. The harness is built with the race detector, which watches every memory access of the library
// while generated histories run: callers sharing one Client, one Brokers, one Broker, one producer or one consumer,
// with the library's own goroutines (refreshing, flushing, fetching, heartbeats) and faults in between. No access of
// the library may conflict with another that it is not ordered with; and on a cluster that stays as it is, every
// concurrent call returns what it returns alone.

type p29Case struct {
	Log  bool   // the library logs everything
	Of   string // the property whose histories are run, or shared, codec
	Sub  any
	Boss p19Case
	Lane []p29Lane
	Ev   []p29Ev
	Body []p29Codec
}

type p29Lane []p29Call

type p29Call struct {
	Kind string
	A    int
	Gap  int // ms
}

type p29Ev struct {
	At int
	Op p19Op
}

type p29Codec struct {
	API, V int
	Resp   wire.Obj
	Codec  int
}

var p29Of = []string{"P01", "P04", "P12", "P22", "P28", "P10", "P11", "P24", "P06", "P08", "P20"}

var p29Calls = []string{"meta", "meta1", "coord", "offsets", "offsetsall", "alter", "elect", "get", "new", "any", "info", "controller",
	"refresh", "listgroups", "deletetopics", "createtopic", "createpartitions", "deletegroups", "describeacls", "createacls", "deleteacls", "brokerconfigs",
	"topicconfigs", "listreassign", "logdirs"}

func genP29(d *pbt.D) any {
	log := d.Bool()
	if d.P(1, 2) {
		of := p29Of[d.N(len(p29Of))]
		return p29Case{Log: log, Of: of, Sub: pbt.Get(of).Gen(d)}
	}
	c := p29Case{Log: log, Of: "shared", Boss: genP19(d).(p19Case)}
	b := &c.Boss
	b.BadID, b.TopErr = -1, 0
	b.Boot = []string{fmt.Sprintf("b%d:9092", b.IDs[d.N(len(b.IDs))])}
	b.Ops = nil
	for k := 2 + d.N(3); k > 0; k-- {
		var l p29Lane
		for n := 1 + d.N(6); n > 0; n-- {
			l = append(l, p29Call{p29Calls[d.N(len(p29Calls))], d.N(6), pbt.Pick(d, 0, 0, 1, 3, 20)})
		}
		c.Lane = append(c.Lane, l)
	}
	if d.Bool() {
		for k := 1 + d.N(5); k > 0; k-- {
			kind := p19Events[d.N(len(p19Events))]
			if d.P(1, 6) {
				kind = "close"
			}
			c.Ev = append(c.Ev, p29Ev{pbt.Pick(d, 0, 1, 5, 15, 40), p19Op{kind, d.N(6), d.N(6)}})
		}
	}
	return c
}

func (c p29Case) String() string {
	if c.Sub != nil {
		return fmt.Sprintf("logging %v, a history of %s: %s", c.Log, c.Of, pbt.Get(c.Of).Desc(c.Sub))
	}
	s := fmt.Sprintf("logging %v, brokers %v, controller %d, leaders %v, coordinators %v, segmentation %d, bootstrap %v", c.Log, c.Boss.IDs, c.Boss.Ctl, c.Boss.Leaders, c.Boss.Coord, c.Boss.Seg, c.Boss.Boot)
	for i, l := range c.Lane {
		s += fmt.Sprintf("\n  caller %d: %v", i, l)
	}
	for _, e := range c.Ev {
		s += fmt.Sprintf("\n  after %d ms: %s %d %d", e.At, e.Op.Kind, e.Op.A, e.Op.B)
	}
	return s + "\n"
}

func runP29Shared(r *pbt.R, c p29Case) {
	b := c.Boss
	cl := kafka.New(0, 1)
	w := &p19World{c: b, cl: cl, coord: map[string]int32{}, nextID: 5000}
	for _, id := range b.IDs {
		cl.AddBroker(id, fmt.Sprintf("b%d", id), 9092)
	}
	cl.Seg = b.Seg
	var ls []int32
	for _, l := range b.Leaders {
		ls = append(ls, b.IDs[l])
	}
	t := cl.AddTopic("t", ls...)
	parts := len(t.Parts)
	for i, p := range t.Parts {
		p.Next = int64(100 + i)
	}
	cl.AddTopic("u", b.IDs[0])
	cl.Controller = b.IDs[b.Ctl]
	for i, g := range p19Groups {
		w.coord[g] = b.IDs[b.Coord[i]]
	}
	cl.Coordinator = func(g string) int32 { return w.coord[g] }
	cl.Override = func(_ *kafka.Broker, ev *kafka.Ev) (wire.Obj, bool) {
		o, ok := b.resps[ev.H.API]
		return o, ok
	}
	cl.Install()
	dial := func() (*healer.Brokers, *healer.Client) {
		bc := healer.DefaultBrokerConfig()
		bc.Net.ConnectTimeoutMS, bc.Net.TimeoutMS = 1000, 2000
		bs, err := healer.NewBrokersWithConfig(strings.Join(b.Boot, ","), bc)
		k, err2 := healer.NewClient(strings.Join(b.Boot, ","), "me")
		if err = errors.Join(err, err2); err != nil {
			r.Fail("create", "creation failed on a healthy cluster: %v", err)
			return nil, nil
		}
		return bs, k
	}
	call := func(bs *healer.Brokers, k *healer.Client, x p29Call) string {
		v, err := p29Do(bs, k, x, b.IDs, parts)
		j, _ := json.Marshal(v)
		return fmt.Sprintf("%s, error %v", corrID.ReplaceAll(j, nil), err)
	}
	alone := map[string]string{}
	if len(c.Ev) == 0 {
		bs, k := dial()
		if bs == nil {
			return
		}
		for _, l := range c.Lane {
			for _, x := range l {
				alone[fmt.Sprint(x.Kind, x.A)] = call(bs, k, x)
			}
		}
		bs.Close()
		k.Close()
	}
	bs, k := dial()
	if bs == nil {
		return
	}
	var wg sync.WaitGroup
	for i, l := range c.Lane {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j, x := range l {
				time.Sleep(time.Duration(x.Gap) * time.Millisecond)
				var got string
				if !guarded(r, x.Kind, time.Hour, func() { got = call(bs, k, x) }) {
					r.Fail("hang", "caller %d: call %d (%s) did not return within an hour", i, j, x.Kind)
					return
				}
				if want, ok := alone[fmt.Sprint(x.Kind, x.A)]; ok && got != want && !r.Failed() {
					r.Fail("result", "caller %d: call %d (%s %d) returned %s, alone it returns %s", i, j, x.Kind, x.A, got, want)
				}
			}
		}()
	}
	for _, e := range c.Ev {
		time.Sleep(time.Duration(e.At) * time.Millisecond)
		if e.Op.Kind == "close" {
			bs.Close()
			k.Close()
		} else {
			w.event(e.Op)
		}
	}
	wg.Wait()
	bs.Close()
	k.Close()
	if len(c.Ev) == 0 {
		r.Class("results compared with those of the same calls alone")
	} else {
		r.Class("with changes of the cluster")
	}
	r.NonTrivial()
}

var corrID = regexp.MustCompile(`(?i)"correlation_?id":-?[0-9]+`)

// p29Do makes one call; its result does not depend on what else is going on.
func p29Do(bs *healer.Brokers, k *healer.Client, x p29Call, ids []int32, parts int) (any, error) {
	id := ids[x.A%len(ids)]
	addr := func(b *healer.Broker, err error) (any, error) {
		if err != nil {
			return nil, err
		}
		return b.GetAddress(), nil
	}
	offsets := func(p int32) (any, error) {
		res, err := bs.RequestOffsets("me", "t", p, -1, 1)
		var s []string
		for _, x := range res {
			for _, ps := range x.TopicPartitionOffsets {
				for _, y := range ps {
					s = append(s, fmt.Sprint(y.Partition, ":", y.GetOffset(), ":", y.ErrorCode))
				}
			}
		}
		sort.Strings(s)
		return s, err
	}
	switch x.Kind {
	case "meta", "meta1":
		m, err := bs.RequestMetaData("me", map[string][]string{"meta": nil, "meta1": {"t"}}[x.Kind])
		return m, err
	case "coord":
		f, err := bs.FindCoordinator("me", p19Groups[x.A%3])
		return f, err
	case "offsets":
		return offsets(int32(x.A % parts))
	case "offsetsall":
		return offsets(-1)
	case "alter":
		q := healer.NewAlterPartitionReassignmentsRequest(1000)
		q.AddAssignment("t", 0, []int32{1, 2})
		a, err := bs.AlterPartitionReassignments(&q)
		return a, err
	case "elect":
		q := healer.NewElectLeadersRequest(1000)
		q.Add("t", 1)
		a, err := bs.ElectLeaders(&q)
		return a, err
	case "get":
		b, err := bs.GetBroker(id)
		return addr(b, err)
	case "new":
		b, err := bs.NewBroker(id)
		if err == nil {
			defer b.Close()
		}
		return addr(b, err)
	case "any":
		_, err := bs.Request(healer.NewListGroupsRequest("me"))
		return nil, err
	case "info":
		for _, b := range bs.BrokersInfo() {
			_ = *b
		}
		return nil, nil
	case "controller":
		bs.Controller()
		b, err := bs.GetController()
		return addr(b, err)
	case "refresh":
		k.RefreshMetadata()
		return nil, nil
	case "listgroups":
		g, err := k.ListGroups()
		return g, err
	case "deletetopics":
		a, err := k.DeleteTopics([]string{"x"}, 1000)
		return a, err
	case "createtopic":
		a, err := k.CreateTopic("x", 3, 1, 1000)
		return a, err
	case "createpartitions":
		a, err := k.CreatePartitions("x", 3, 1000, false)
		return a, err
	case "deletegroups":
		a, err := k.DeleteGroups(p19Groups[:1+x.A%3])
		return a, err
	case "describeacls":
		a, err := k.DescribeAcls(healer.DescribeAclsRequestBody{ResourceType: 2, PatternType: 3, Operation: 2, PermissionType: 3})
		return a, err
	case "createacls":
		a, err := k.CreateAcls([]healer.AclCreation{{ResourceType: 2, ResourceName: "x", PatternType: 3, Principal: "User:a", Host: "*", Operation: 3, PermissionType: 3}})
		return a, err
	case "deleteacls":
		a, err := k.DeleteAcls([]*healer.DeleteAclsFilter{{ResourceType: 2, PatternType: 3, Operation: 3, PermissionType: 3}})
		return a, err
	case "brokerconfigs":
		a, err := k.DescribeConfigs("broker", fmt.Sprint(id), nil)
		return a, err
	case "topicconfigs":
		a, err := k.DescribeConfigs("topic", "t", nil)
		return a, err
	case "listreassign":
		q := healer.NewListPartitionReassignmentsRequest("me", 1000)
		q.AddTP("t", 1)
		a, err := k.ListPartitionReassignments(q)
		return a, err
	case "logdirs":
		a, err := k.DescribeLogDirs([]string{"t"})
		return a, err
	}
	panic(x.Kind)
}

// ---- reports of the race detector

var raceAt int64 // how much of the report file has been read

// raceReports returns the new reports of the race detector in which both accesses, or a write of the library and an
// access of the user's to what it was given, are unordered.
func raceReports() (r []pbt.Failure, all int) {
	path := os.Getenv("VERIF_RACE_LOG")
	f, err := os.Open(fmt.Sprintf("%s.%d", path, os.Getpid()))
	if err != nil {
		return nil, 0
	}
	defer f.Close()
	f.Seek(raceAt, 0)
	var buf bytes.Buffer
	n, _ := buf.ReadFrom(f)
	raceAt += n
	for _, rep := range strings.Split(buf.String(), "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		all++
		secs := strings.Split(strings.TrimSpace(rep), "\n\n")
		if len(secs) < 2 {
			continue
		}
		var where []string
		own := func(s string) (lib, user, write bool) {
			lines := strings.Split(s, "\n")
			for i, l := range lines {
				if strings.Contains(l, " at 0x") {
					write = write || strings.Contains(strings.ToLower(l), "write at")
					continue
				}
				l = strings.TrimSpace(l)
				if i > 0 && strings.HasPrefix(l, "github.com/childe/healer") {
					_, l, _ = strings.Cut(l, "healer.")
					where = append(where, l)
					return true, false, write
				}
				if i > 0 && strings.HasPrefix(l, "verif/") {
					where = append(where, "user")
					return false, true, write
				}
			}
			return false, false, write
		}
		l1, u1, w1 := own(secs[0])
		l2, u2, w2 := own(secs[1])
		if l1 && l2 || l1 && w1 && u2 || l2 && w2 && u1 {
			sort.Strings(where)
			r = append(r, pbt.Failure{Sig: "race:" + strings.Join(where, "/"), Msg: strings.TrimSpace(rep)})
		}
	}
	return
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P29",
		Level: "exploration",
		Rule: "case = concurrent callers of one Brokers and one Client (25 kinds of call) x changes of the cluster, connection losses and Close in between, or a history of the producer, broker, group, consumer, fault, outage and closing properties, under the race detector; " +
			"oracle: no unordered conflicting accesses in the library (or of the library's writes to what it handed to the caller), and without changes every concurrent call returns what it returns alone; non-trivial = at least two goroutines use the object",
		Quick: 4000, Deep: 150000, Chunk: 40, CPUs: 8,
		Gen: genP29,
		Run: func(x any, r *pbt.R) {
			c := x.(p29Case)
			if os.Getenv("VERIF_RACE_LOG") == "" || !raceEnabled {
				panic("P29 needs a binary built with -race")
			}
			if c.Log {
				healer.SetLogger(funcr.New(func(p, a string) {}, funcr.Options{Verbosity: 9}))
				r.Class("everything is logged")
			} else {
				healer.SetLogger(logr.Discard())
			}
			raceReports() // what is left of the case before
			if c.Sub != nil {
				r.Class("history of " + c.Of)
				sub := pbt.NewR()
				pbt.Get(c.Of).Run(c.Sub, sub)
				r.NonTrivial()
			} else {
				bubble(r, func() { runP29Shared(r, c) })
			}
			reps, _ := raceReports()
			for _, rep := range reps {
				r.Fail(rep.Sig, "%s", rep.Msg)
			}
		},
		Desc: func(x any) string { return x.(p29Case).String() },
		Pre: func(r *pbt.R, tier string) { // the detector works and its reports are read
			x := 0
			done := make(chan bool)
			go func() { x++; done <- true }()
			x++
			<-done
			if _, n := raceReports(); n == 0 {
				fmt.Fprintln(os.Stderr, "the race detector does not report a race")
				os.Exit(3)
			}
			r.Class("the race detector reports a planted race of the harness")
		},
	})
}
