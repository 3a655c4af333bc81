package props

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// P19: where requests go. A cluster changes (leaders, controller, coordinators, addresses, membership, outages)
// between the operations of one Brokers or Client. The model keeps what the client was last told by the cluster;
// every request must have gone where that says, and lookups must succeed while any known broker answers.

type p19Op struct {
	Kind string
	A, B int
}

type p19Case struct {
	Client  bool
	IDs     []int32
	Leaders []int // index into IDs, -1 none
	Ctl     int
	Coord   []int // per group
	Boot    []string
	Alias   bool
	BadID   int    // index of a broker that answers uselessly, -1 none
	BadHow  string // verr, nometa
	TopErr  int16
	Ops     []p19Op
	Seg     int
	resps   map[int]wire.Obj
}

func (c p19Case) String() string {
	s := fmt.Sprintf("client %v, brokers %v, leaders %v, controller %d, coordinators %v, bootstrap %v, segmentation %d", c.Client, c.IDs, c.Leaders, c.Ctl, c.Coord, c.Boot, c.Seg)
	if c.BadID >= 0 {
		s += fmt.Sprintf(", broker %d %s", c.IDs[c.BadID], c.BadHow)
	}
	if c.TopErr != 0 {
		s += fmt.Sprintf(", topic u has error %d", c.TopErr)
	}
	for i, o := range c.Ops {
		s += fmt.Sprintf("\n  %d: %s %d %d", i, o.Kind, o.A, o.B)
	}
	return s + "\n"
}

var p19Events = []string{"leader", "controller", "coordinator", "refuse", "blackhole", "up", "kill", "readdress", "swap", "add", "drop"}
var p19BOps = []string{"meta", "meta1", "meta?", "coord", "offsets", "offsetsall", "alter", "elect", "get", "new", "any"}
var p19COps = []string{"refresh", "listgroups", "deletetopics", "createtopic", "createpartitions", "deletegroups", "describeacls", "createacls", "deleteacls", "brokerconfigs", "topicconfigs", "listreassign", "logdirs"}

var p19Admin = []int{kafka.ListGroups, kafka.DeleteTopics, kafka.CreateTopics, kafka.CreatePartitions, kafka.DeleteGroups, kafka.DescribeAcls, kafka.CreateAcls, kafka.DeleteAcls,
	kafka.DescribeConfigs, kafka.ListPartitionReassignments, kafka.AlterPartitionReassignments, kafka.ElectLeaders, kafka.DescribeLogDirs}

var p19Groups = []string{"g0", "g1", "g2"}

func genP19(d *pbt.D) any {
	c := p19Case{Client: d.P(1, 3), BadID: -1, Seg: d.W(5, 1)}
	base := pbt.Pick(d, int32(1), 0, 1001)
	n := 1 + d.N(4)
	for i := 0; i < n; i++ {
		c.IDs = append(c.IDs, base)
		base += int32(1 + d.W(6, 1)*d.N(5))
	}
	for k := 1 + d.N(4); k > 0; k-- {
		c.Leaders = append(c.Leaders, d.N(n))
	}
	c.Ctl = d.N(n)
	for range p19Groups {
		c.Coord = append(c.Coord, d.N(n))
	}
	if n > 1 && d.P(1, 8) {
		c.BadID, c.BadHow = d.N(n), pbt.Pick(d, "verr", "nometa")
	}
	if d.P(1, 8) {
		c.TopErr = pbt.Pick(d, int16(5), 3, 17)
	}
	for k := 1 + d.W(4, 3, 1, 1); k > 0; k-- {
		i := d.N(n)
		switch d.W(6, 2, 1) {
		case 0:
			c.Boot = append(c.Boot, fmt.Sprintf("b%d:9092", c.IDs[i]))
		case 1:
			c.Boot = append(c.Boot, pbt.Pick(d, "nowhere:9092", "b1:9093", "host", "", "a:b:c"))
		case 2:
			c.Boot = append(c.Boot, fmt.Sprintf("lb%d:443", c.IDs[i]))
		}
	}
	for k := d.N(3); k > 0; k-- { // broken from the start
		c.Ops = append(c.Ops, p19Op{pbt.Pick(d, "refuse", "blackhole"), d.N(5), 0})
	}
	c.Ops = append(c.Ops, p19Op{Kind: "create"})
	ops := p19BOps
	if c.Client {
		ops = p19COps
	}
	for k := 1 + d.N(10); k > 0; k-- {
		if d.P(2, 5) {
			c.Ops = append(c.Ops, p19Op{p19Events[d.N(len(p19Events))], d.N(6), d.N(6)})
		} else {
			c.Ops = append(c.Ops, p19Op{ops[d.N(len(ops))], d.N(6), d.N(6)})
		}
	}
	c.resps = map[int]wire.Obj{}
	for _, k := range p19Admin {
		c.resps[k] = genResp(d, wire.Resp(k).Fields, apiByKey(k).vers[0], &genOpt{}, -1)
	}
	return c
}

type p19World struct {
	c      p19Case
	cl     *kafka.Cluster
	coord  map[string]int32
	known  map[int32]string // address by id, as last told
	ctl    int32            // as last told
	seen   int              // events already looked at
	nextID int32
	cured  bool // the broker that answered uselessly has recovered
	nextN  int
}

func (w *p19World) id(k int) int32 { return w.cl.Order[k%len(w.cl.Order)] }

func (w *p19World) bad(id int32) bool {
	return w.c.BadID >= 0 && w.c.IDs[w.c.BadID] == id && !w.cured
}

// listener returns the broker that now answers at an address, -1 none.
func (w *p19World) listener(addr string) int32 {
	for _, id := range w.cl.Order {
		if b := w.cl.Brokers[id]; b.Addr() == addr && b.Mode == kafka.Up {
			return id
		}
	}
	if id, ok := w.cl.Alias[addr]; ok && w.cl.Brokers[id].Mode == kafka.Up {
		return id
	}
	return -1
}

func (w *p19World) answers(addr string) bool {
	id := w.listener(addr)
	return id >= 0 && !w.bad(id)
}

func (w *p19World) anyKnown() bool {
	for _, a := range w.known {
		if w.answers(a) {
			return true
		}
	}
	return false
}

func (w *p19World) anyBoot() bool {
	for _, a := range w.c.Boot {
		if w.answers(a) {
			return true
		}
	}
	return false
}

// current: what the client knows about the broker is true now and the broker answers
func (w *p19World) current(id int32) bool {
	b := w.cl.Brokers[id]
	return b != nil && w.known[id] == b.Addr() && w.listener(b.Addr()) == id && !w.bad(id)
}

func (w *p19World) learn() {
	w.known = map[int32]string{}
	for _, id := range w.cl.Order {
		w.known[id] = w.cl.Brokers[id].Addr()
	}
	w.ctl = w.cl.Controller
}

func (w *p19World) event(o p19Op) {
	cl := w.cl
	switch o.Kind {
	case "leader":
		t := cl.Topics["t"]
		p := o.A % len(t.Parts)
		cl.MoveLeader("t", p, w.id(o.B))
		cl.Lock()
		t.Parts[p].Err = 0
		if o.B == 5 {
			t.Parts[p].Leader, t.Parts[p].Err = -1, 5
		}
		cl.Unlock()
	case "controller":
		cl.Lock()
		cl.Controller = w.id(o.A)
		cl.Unlock()
	case "coordinator":
		cl.Lock()
		w.coord[p19Groups[o.A%3]] = w.id(o.B)
		cl.Unlock()
	case "refuse":
		cl.SetMode(w.id(o.A), kafka.Refuse)
	case "blackhole":
		cl.SetMode(w.id(o.A), kafka.Blackhole)
	case "up":
		cl.SetMode(w.id(o.A), kafka.Up)
	case "kill":
		cl.KillConns(w.id(o.A), o.B%2 == 0)
	case "readdress":
		cl.Lock()
		b := cl.Brokers[w.id(o.A)]
		w.nextN++
		b.Host = fmt.Sprintf("n%d", w.nextN)
		cl.Unlock()
		cl.KillConns(b.ID, false)
	case "swap":
		cl.Lock()
		a, b := cl.Brokers[w.id(o.A)], cl.Brokers[w.id(o.B)]
		a.Host, b.Host = b.Host, a.Host
		cl.Unlock()
		cl.KillConns(a.ID, false)
		cl.KillConns(b.ID, false)
	case "add":
		cl.Lock()
		w.nextN++
		w.nextID++
		cl.AddBroker(w.nextID, fmt.Sprintf("n%d", w.nextN), 9092)
		cl.Unlock()
	case "drop":
		if len(cl.Order) < 2 {
			return
		}
		id := w.id(o.A)
		cl.SetMode(id, kafka.Refuse)
		cl.Lock()
		var rest []int32
		for _, x := range cl.Order {
			if x != id {
				rest = append(rest, x)
			}
		}
		cl.Order = rest
		if cl.Controller == id {
			cl.Controller = rest[o.B%len(rest)]
		}
		for g := range w.coord {
			if w.coord[g] == id {
				w.coord[g] = rest[o.B%len(rest)]
			}
		}
		cl.Unlock()
		for p, x := range cl.Topics["t"].Parts {
			if x.Leader == id {
				cl.MoveLeader("t", p, rest[(p+o.B)%len(rest)])
			}
		}
	}
}

func runP19(r *pbt.R, c p19Case) {
	cl := kafka.New(0, 1)
	w := &p19World{c: c, cl: cl, coord: map[string]int32{}, nextID: 5000}
	cl.Alias = map[string]int32{}
	for _, id := range c.IDs {
		cl.AddBroker(id, fmt.Sprintf("b%d", id), 9092)
		cl.Alias[fmt.Sprintf("lb%d:443", id)] = id
	}
	cl.Seg = c.Seg
	var ls []int32
	for _, l := range c.Leaders {
		ls = append(ls, c.IDs[l])
	}
	t := cl.AddTopic("t", ls...)
	for i, p := range t.Parts {
		p.Next = int64(100 + i)
	}
	u := cl.AddTopic("u", c.IDs[0])
	u.Err = c.TopErr
	cl.Controller = c.IDs[c.Ctl]
	for i, g := range p19Groups {
		w.coord[g] = c.IDs[c.Coord[i]]
	}
	cl.Coordinator = func(g string) int32 { return w.coord[g] }
	cl.Override = func(b *kafka.Broker, ev *kafka.Ev) (wire.Obj, bool) {
		if w.bad(b.ID) {
			switch {
			case c.BadHow == "verr" && ev.H.API == kafka.ApiVersions:
				return wire.Obj{"error_code": int64(35), "api_keys": []any{}}, true
			case c.BadHow == "nometa" && ev.H.API == kafka.Metadata:
				return wire.Obj{"controller_id": int64(-1), "cluster_id": nil, "brokers": []any{}, "topics": []any{}}, true
			}
		}
		o, ok := c.resps[ev.H.API]
		return o, ok
	}
	cl.Install()
	var bs *healer.Brokers
	var k *healer.Client
	for i, o := range c.Ops {
		what := fmt.Sprintf("operation %d (%s)", i, o.Kind)
		switch {
		case o.Kind == "create":
			var err error
			ok := guarded(r, what, time.Hour, func() {
				boot := strings.Join(c.Boot, ",")
				if c.Client {
					k, err = healer.NewClient(boot, "me")
				} else {
					bc := healer.DefaultBrokerConfig()
					bc.Net.ConnectTimeoutMS, bc.Net.TimeoutMS = 1000, 2000
					bs, err = healer.NewBrokersWithConfig(boot, bc)
				}
			})
			if r.Failed() {
				return
			}
			if !ok {
				r.Fail("hang:create", "%s did not return within an hour", what)
				noteHistory(r, cl)
				return
			}
			if err != nil {
				if w.anyBoot() {
					r.Fail("create", "%s failed though one of %v answers: %v", what, c.Boot, err)
					noteHistory(r, cl)
				}
				r.Class("no bootstrap server answers")
				return
			}
			if !w.anyBoot() {
				r.Class("created from a broker that answers badly")
			}
			w.learn()
			if bs != nil {
				w.checkKnown(r, what, bs)
			}
			w.seen = len(cl.Events())
			w.cured = c.BadHow == "nometa"
			r.NonTrivial()
		case bs == nil && k == nil || isEvent(o.Kind):
			w.event(o)
			r.Class(o.Kind)
		default:
			r.Class(o.Kind)
			w.do(r, what, o, bs, k)
		}
		if r.Failed() {
			noteHistory(r, cl)
			return
		}
	}
}

func isEvent(k string) bool {
	for _, e := range p19Events {
		if e == k {
			return true
		}
	}
	return false
}

func (w *p19World) checkKnown(r *pbt.R, what string, bs *healer.Brokers) {
	got := map[int32]string{}
	for id, b := range bs.BrokersInfo() {
		if b.NodeID != id {
			r.Fail("info", "%s: broker %d is listed under id %d", what, b.NodeID, id)
		}
		got[id] = b.NetAddress()
	}
	if fmt.Sprint(got) != fmt.Sprint(w.known) {
		r.Fail("info", "%s: knows the brokers %v, was told %v", what, got, w.known)
	}
	if bs.Controller() != w.ctl {
		r.Fail("controller", "%s: takes %d for the controller, was told %d", what, bs.Controller(), w.ctl)
	}
}

// follow goes through the requests since the last call: each must have gone where the client's knowledge said.
func (w *p19World) follow(r *pbt.R, what string) (evs []*kafka.Ev) {
	all := w.cl.Events()
	evs = all[w.seen:]
	w.seen = len(all)
	t := w.cl.Topics["t"]
	to := func(e *kafka.Ev, id int32, why string) {
		want := w.listener(w.known[id])
		if e.Broker != want {
			r.Fail("route:"+why, "%s: the request of api %d went to broker %d, but %s is broker %d, reached at %q (broker %d)", what, e.H.API, e.Broker, why, id, w.known[id], want)
		}
	}
	for _, e := range evs {
		switch e.H.API {
		case kafka.Metadata:
			if e.Done >= 0 && !w.bad(e.Broker) {
				w.learn()
			}
		case kafka.FindCoordinator:
			if e.Done >= 0 && e.Resp != nil {
				id := int32(e.Resp.I("node_id"))
				if b := w.cl.Brokers[id]; b != nil {
					w.known[id] = b.Addr()
				}
			}
		case kafka.ListOffsets:
			for _, x := range e.Req.A("topics") {
				for _, y := range x.(wire.Obj).A("partitions") {
					p := int(y.(wire.Obj).I("index"))
					if x.(wire.Obj).S("name") != "t" || p >= len(t.Parts) {
						r.Fail("offsets", "%s: asked for %v-%d", what, x.(wire.Obj).S("name"), p)
						continue
					}
					to(e, t.Parts[p].Leader, fmt.Sprintf("the leader of partition %d", p))
				}
			}
		case kafka.DeleteGroups:
			for _, g := range e.Req.A("groups") {
				to(e, w.coord[fmt.Sprint(g)], "the coordinator of "+fmt.Sprint(g))
			}
		case kafka.DeleteTopics, kafka.CreateTopics, kafka.CreatePartitions, kafka.DescribeAcls, kafka.CreateAcls, kafka.DeleteAcls,
			kafka.ListPartitionReassignments, kafka.AlterPartitionReassignments, kafka.ElectLeaders:
			to(e, w.ctl, "the controller")
		}
	}
	return evs
}

func (w *p19World) do(r *pbt.R, what string, o p19Op, bs *healer.Brokers, k *healer.Client) {
	cl := w.cl
	t := cl.Topics["t"]
	var err error
	var evs []*kafka.Ev
	try := func(f func() error) bool {
		ok := guarded(r, what, time.Hour, func() { err = f() })
		if !ok && !r.Failed() {
			r.Fail("hang", "%s did not return within an hour", what)
		}
		if r.Failed() {
			return false
		}
		evs = w.follow(r, what)
		return !r.Failed()
	}
	// the operation may fail on connections that have gone, but not again and again while the broker concerned answers
	thrice := func(due func() bool, f func() error) bool {
		for n := 1; ; n++ {
			if !try(f) {
				return false
			}
			if err == nil {
				return true
			}
			if n >= 3 {
				break
			}
		}
		if due() {
			r.Fail("fails:"+o.Kind, "%s failed three times though the brokers concerned answer: %v", what, err)
		} else {
			r.Class("failed with reason")
		}
		return false
	}
	ctl := func() bool { return w.current(w.ctl) }
	p := o.A % len(t.Parts)
	switch o.Kind {
	case "meta", "meta1", "meta?":
		topics := map[string][]string{"meta": nil, "meta1": {"t"}, "meta?": {"t", "nosuch"}}[o.Kind]
		due := w.anyKnown()
		var m healer.MetadataResponse
		if !try(func() (err error) { m, err = bs.RequestMetaData("me", topics); return }) {
			return
		}
		var ke healer.KafkaError
		if err != nil && !(errors.As(err, &ke) && len(m.Brokers) > 0) {
			if due {
				r.Fail("meta", "%s failed though a known broker answers: %v", what, err)
			} else {
				r.Class("failed with reason")
			}
			return
		}
		if len(m.Brokers) == 0 { // a broker that answers badly was asked
			return
		}
		var names []string
		for _, x := range m.TopicMetadatas {
			names = append(names, x.TopicName)
			if x.TopicName == "t" {
				for _, y := range x.PartitionMetadatas {
					if y.Leader != t.Parts[y.PartitionID].Leader {
						r.Fail("meta", "%s: partition %d led by %d, it is %d", what, y.PartitionID, y.Leader, t.Parts[y.PartitionID].Leader)
					}
				}
				if len(x.PartitionMetadatas) != len(t.Parts) {
					r.Fail("meta", "%s: %d partitions of %d", what, len(x.PartitionMetadatas), len(t.Parts))
				}
			}
		}
		sort.Strings(names)
		if want := map[string]string{"meta": "[t u]", "meta1": "[t]", "meta?": "[nosuch t]"}[o.Kind]; fmt.Sprint(names) != want {
			r.Fail("meta", "%s: metadata of the topics %v instead of %v", what, names, want)
		}
		w.checkKnown(r, what, bs)
	case "coord":
		g := p19Groups[o.A%3]
		due := w.anyKnown()
		var f healer.FindCoordinatorResponse
		if !try(func() (err error) { f, err = bs.FindCoordinator("me", g); return }) {
			return
		}
		if err != nil {
			if due {
				r.Fail("coord", "%s failed though a known broker answers: %v", what, err)
			} else {
				r.Class("failed with reason")
			}
			return
		}
		b := cl.Brokers[w.coord[g]]
		if f.Coordinator.NodeID != b.ID || f.Coordinator.Host != b.Host || int(f.Coordinator.Port) != b.Port {
			r.Fail("coord", "%s: coordinator of %s is %+v instead of %d at %s", what, g, f.Coordinator, b.ID, b.Addr())
		}
	case "offsets":
		var res []healer.OffsetsResponse
		if !thrice(func() bool { return w.anyKnown() && w.current(t.Parts[p].Leader) }, func() (err error) {
			res, err = bs.RequestOffsets("me", "t", int32(p), -1, 1)
			return
		}) {
			return
		}
		w.checkOffsets(r, what, res, p)
	case "offsetsall":
		var res []healer.OffsetsResponse
		if !thrice(func() bool {
			for _, x := range t.Parts {
				if x.Leader < 0 || !w.current(x.Leader) {
					return false
				}
			}
			return w.anyKnown()
		}, func() (err error) {
			res, err = bs.RequestOffsets("me", "t", -1, -1, 1)
			return
		}) {
			return
		}
		w.checkOffsets(r, what, res, -1)
	case "alter":
		q := healer.NewAlterPartitionReassignmentsRequest(1000)
		q.AddAssignment("t", 0, []int32{1, 2})
		thrice(ctl, func() error { _, e := bs.AlterPartitionReassignments(&q); return e })
	case "elect":
		q := healer.NewElectLeadersRequest(1000)
		q.Add("t", 1)
		thrice(ctl, func() error { _, e := bs.ElectLeaders(&q); return e })
	case "get", "new":
		id := w.id(o.A)
		var b *healer.Broker
		if !thrice(func() bool { return w.current(id) && (w.known[id] != "" || w.anyBoot()) }, func() (err error) {
			if o.Kind == "get" {
				b, err = bs.GetBroker(id)
			} else {
				b, err = bs.NewBroker(id)
			}
			return
		}) {
			if !r.Failed() && w.known[id] == "" && w.anyBoot() && w.listener(cl.Brokers[id].Addr()) == id && !w.bad(id) {
				r.Fail("unknown broker", "%s: broker %d is not found though one of %v answers: %v", what, id, w.c.Boot, err)
			}
			return
		}
		if b.GetAddress() != w.known[id] {
			r.Fail("address", "%s: broker %d is expected at %s, was told %s", what, id, b.GetAddress(), w.known[id])
		}
	case "any":
		thrice(w.anyKnown, func() error { _, e := bs.Request(healer.NewListGroupsRequest("me")); return e })
	case "refresh":
		due := w.anyKnown()
		before := w.seen
		if !try(func() error { k.RefreshMetadata(); return nil }) {
			return
		}
		got := false
		for _, e := range w.cl.Events()[before:] {
			if e.H.API == kafka.Metadata && e.Done >= 0 && !w.bad(e.Broker) {
				got = true
			}
		}
		if due && !got {
			r.Fail("refresh", "%s: no metadata was requested though a known broker answers", what)
		}
	case "listgroups":
		all := func() bool {
			for id := range w.known {
				if !w.current(id) {
					return false
				}
			}
			return true
		}
		if thrice(all, func() error { _, e := k.ListGroups(); return e }) {
			asked := map[int32]int{}
			for _, e := range evs {
				if e.H.API == kafka.ListGroups {
					asked[e.Broker]++
				}
			}
			due := map[int32]int{} // an address may be known for two brokers after a swap
			for _, a := range w.known {
				due[w.listener(a)]++
			}
			if fmt.Sprint(asked) != fmt.Sprint(due) {
				r.Fail("listgroups", "%s: the brokers were asked so often: %v, known are %v", what, asked, w.known)
			}
		}
	case "deletetopics":
		thrice(ctl, func() error { _, e := k.DeleteTopics([]string{"x"}, 1000); return e })
	case "createtopic":
		thrice(ctl, func() error { _, e := k.CreateTopic("x", 3, 1, 1000); return e })
	case "createpartitions":
		thrice(ctl, func() error { _, e := k.CreatePartitions("x", 3, 1000, false); return e })
	case "deletegroups":
		gs := p19Groups[:1+o.A%3]
		thrice(func() bool {
			for _, g := range gs {
				if !w.current(w.coord[g]) {
					return false
				}
			}
			return w.anyKnown()
		}, func() error { _, e := k.DeleteGroups(gs); return e })
	case "describeacls":
		thrice(ctl, func() error {
			_, e := k.DescribeAcls(healer.DescribeAclsRequestBody{ResourceType: 2, PatternType: 3, Operation: 2, PermissionType: 3})
			return e
		})
	case "createacls":
		thrice(ctl, func() error {
			_, e := k.CreateAcls([]healer.AclCreation{{ResourceType: 2, ResourceName: "x", PatternType: 3, Principal: "User:a", Host: "*", Operation: 3, PermissionType: 3}})
			return e
		})
	case "deleteacls":
		thrice(ctl, func() error {
			_, e := k.DeleteAcls([]*healer.DeleteAclsFilter{{ResourceType: 2, PatternType: 3, Operation: 3, PermissionType: 3}})
			return e
		})
	case "brokerconfigs":
		id := w.id(o.A)
		if thrice(func() bool { return w.current(id) }, func() error { _, e := k.DescribeConfigs("broker", fmt.Sprint(id), nil); return e }) {
			for _, e := range evs {
				if e.H.API == kafka.DescribeConfigs && e.Broker != w.listener(w.known[id]) {
					r.Fail("route:broker", "%s: asked broker %d for the configuration of %d", what, e.Broker, id)
				}
			}
		}
	case "topicconfigs":
		thrice(ctl, func() error { _, e := k.DescribeConfigs("topic", "t", nil); return e })
	case "listreassign":
		q := healer.NewListPartitionReassignmentsRequest("me", 1000)
		q.AddTP("t", 1)
		thrice(ctl, func() error { _, e := k.ListPartitionReassignments(q); return e })
	case "logdirs":
		if thrice(func() bool {
			for id := range w.known {
				if !w.current(id) {
					return false
				}
			}
			for _, x := range t.Parts {
				if x.Err != 0 {
					return false
				}
			}
			return true
		}, func() error { _, e := k.DescribeLogDirs([]string{"t"}); return e }) {
			for _, e := range evs {
				if e.H.API != kafka.DescribeLogDirs {
					continue
				}
				for _, x := range e.Req.A("topics") {
					for _, y := range x.(wire.Obj).A("partitions") {
						p, ok := y.(int64)
						if !ok || int(p) >= len(t.Parts) {
							r.Fail("logdirs", "%s: asked for partition %v", what, y)
							continue
						}
						is := false
						for _, id := range t.Parts[p].Isr {
							is = is || w.listener(w.known[id]) == e.Broker
						}
						if !is {
							r.Fail("route:logdirs", "%s: broker %d was asked for partition %d, its replicas are %v", what, e.Broker, p, t.Parts[p].Isr)
						}
					}
				}
			}
		}
	}
}

func (w *p19World) checkOffsets(r *pbt.R, what string, res []healer.OffsetsResponse, p int) {
	t := w.cl.Topics["t"]
	got := map[int32]int64{}
	for _, x := range res {
		for name, ps := range x.TopicPartitionOffsets {
			for _, y := range ps {
				if _, dup := got[y.Partition]; dup || name != "t" {
					r.Fail("offsets", "%s: %s-%d comes again or is not asked for", what, name, y.Partition)
				}
				if y.ErrorCode != 0 {
					r.Fail("offsets", "%s: error %d of partition %d", what, y.ErrorCode, y.Partition)
				}
				got[y.Partition] = y.GetOffset()
			}
		}
	}
	want := map[int32]int64{}
	for i, x := range t.Parts {
		if p < 0 || p == i {
			want[int32(i)] = x.Next
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		r.Fail("offsets", "%s: offsets %v, they are %v", what, got, want)
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "P19", Level: "exploration",
		Rule:  "the client was created (so at least one bootstrap server answered) and its knowledge and requests were compared with the cluster's",
		Gen:   genP19,
		Quick: 120000, Deep: 3000000, Chunk: 500, CPUs: 8,
		Run:  func(x any, r *pbt.R) { bubble(r, func() { runP19(r, x.(p19Case)) }) },
		Desc: func(x any) string { return x.(p19Case).String() },
	})
}
