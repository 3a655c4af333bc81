package props

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// P23: administrative calls. A cluster of several brokers, each with its own answers (groups, log directories,
// generated results), some of which fail, is asked through Client, Brokers and Helper. The requests received must be
// exactly those the arguments describe, at the brokers responsible; the value returned must be exactly the union of
// the answers that were delivered; the error must be there exactly when an answer is missing or carries a code.

type p23Op struct {
	Kind   string
	Strs   []string
	N, RF  int32
	TO     int32
	Flag   bool
	As     [][]int32
	Name   string
	Type   string
	NilKey bool
	mk     func() healer.Request // alter, elect, list reassignments, ACLs
	want   wire.Obj
	Salt   int
	Faults []kafka.Fault
	Down   int // index of a broker that refuses connections for this call, -1 none
	Kill   bool
	Slow   int                                          // ms the brokers take to answer, within the timeout of the call
	ext    func(c p23Case) (map[int32][]wire.Obj, bool) // requests due of the calls only the tools have; invalid input
	Args   []string                                     // command line, or method, path and body
	Value  func() any                                   // where the output is read into
}

type p23Case struct {
	IDs    []int32
	Ctl    int
	Topics []p23Topic
	Groups map[string]int // coordinator index
	names  []string
	Listed []int // groups listed at a broker: number per broker
	Vers   map[int][]int
	Errs   int
	Seg    int
	Ops    []p23Op
	resps  map[string]wire.Obj
}

type p23Topic struct {
	Name string
	Reps [][]int // indices of brokers per partition
}

var p23Kinds = []string{"listgroups", "getgroups", "logdirs", "deletetopics", "createtopic", "createtopics", "createpartitions", "createassigned", "deletegroups",
	"describeacls", "createacls", "deleteacls", "describeconfigs", "listreassign", "alterreassign", "elect", "any"}

var p23API = map[string]int{"listgroups": kafka.ListGroups, "getgroups": kafka.ListGroups, "logdirs": kafka.DescribeLogDirs, "deletetopics": kafka.DeleteTopics, "createtopic": kafka.CreateTopics,
	"createtopics": kafka.CreateTopics, "createpartitions": kafka.CreatePartitions, "createassigned": kafka.CreatePartitions, "deletegroups": kafka.DeleteGroups, "describeacls": kafka.DescribeAcls,
	"createacls": kafka.CreateAcls, "deleteacls": kafka.DeleteAcls, "describeconfigs": kafka.DescribeConfigs, "listreassign": kafka.ListPartitionReassignments,
	"alterreassign": kafka.AlterPartitionReassignments, "elect": kafka.ElectLeaders, "any": kafka.DescribeGroups,
	// of the command-line tools and the REST API
	"assignedtopic": kafka.CreateTopics, "alterconfigs": kafka.IncrementalAlterConfigs, "describegroup": kafka.DescribeGroups}

func (c p23Case) String() string {
	s := fmt.Sprintf("brokers %v, controller %d, topics %v, groups %v, listed %v, versions %v, error share %d, segmentation %d", c.IDs, c.IDs[c.Ctl], c.Topics, c.Groups, c.Listed, c.Vers, c.Errs, c.Seg)
	for i, o := range c.Ops {
		s += fmt.Sprintf("\n  %d: %s %q n=%d rf=%d timeout=%d flag=%v %v %s %s faults %v", i, o.Kind, o.Strs, o.N, o.RF, o.TO, o.Flag, o.As, o.Type, o.Name, o.Faults)
		if o.want != nil {
			s += " " + clip(o.want)
		}
		if o.Args != nil {
			s = fmt.Sprintf("%s\n  command %q", s, o.Args)
		}
		if o.Down >= 0 {
			s += fmt.Sprintf(" while broker %d is down", c.IDs[o.Down])
		}
		if o.Kill {
			s += " after its connections were closed"
		}
		if o.Slow > 0 {
			s += fmt.Sprintf(" answered after %d ms", o.Slow)
		}
	}
	return s + "\n"
}

func genP23(d *pbt.D) any { return genAdmin(d, p23Kinds, 4, nil) }

// genAdmin draws a cluster and calls. ext, if set, completes calls made through the tools.
func genAdmin(d *pbt.D, kinds []string, calls int, ext func(d *pbt.D, c *p23Case, o *p23Op)) p23Case {
	c := p23Case{Groups: map[string]int{}, Vers: map[int][]int{}, Seg: d.W(5, 1), resps: map[string]wire.Obj{}}
	n := 1 + d.N(4)
	id := pbt.Pick(d, int32(1), 0, 1001)
	for i := 0; i < n; i++ {
		c.IDs = append(c.IDs, id)
		id += int32(1 + d.W(6, 1)*d.N(5))
	}
	c.Ctl = d.N(n)
	for i := 1 + d.N(4); i > 0; i-- {
		t := p23Topic{Name: fmt.Sprintf("t%d", i)}
		for p := 1 + d.N(4); p > 0; p-- {
			t.Reps = append(t.Reps, d.Perm(n)[:1+d.N(n)])
		}
		c.Topics = append(c.Topics, t)
	}
	ng := d.N(4)
	if d.P(1, 12) {
		ng = d.N(60)
	}
	for i := ng; i > 0; i-- {
		g := fmt.Sprintf("g%d", i)
		if ng > 3 {
			g += d.Name(8)
		}
		c.Groups[g] = d.N(n)
		c.names = append(c.names, g)
	}
	for range c.IDs {
		c.Listed = append(c.Listed, d.W(1, 2, 2, 1))
	}
	for _, k := range []int{kafka.ListGroups, kafka.DescribeAcls, kafka.CreateAcls, kafka.DeleteAcls, kafka.CreatePartitions} {
		vs := apiByKey(k).vers
		for range c.IDs {
			c.Vers[k] = append(c.Vers[k], vs[d.N(len(vs))])
		}
	}
	if d.P(1, 3) {
		c.Errs = 1 + d.N(3)
	}
	for k := 1 + d.N(calls); k > 0; k-- {
		o := p23Op{Kind: kinds[d.N(len(kinds))], Down: -1, Salt: k}
		o.N, o.RF, o.TO, o.Flag = gI32(d), int32(int16(gI32(d))), int32(d.N(1<<20)), d.Bool()
		key := p23API[o.Kind]
		switch o.Kind {
		case "logdirs":
			for _, i := range d.Perm(len(c.Topics))[:d.N(len(c.Topics)+1)] {
				o.Strs = append(o.Strs, c.Topics[i].Name)
			}
		case "deletetopics", "createtopics":
			o.Strs = gNames(d, cnt(d))
		case "createtopic", "createpartitions", "createassigned":
			o.Name = gStr(d)
			for x := d.N(4); x > 0; x-- {
				o.As = append(o.As, gI32s(d, 4))
			}
		case "deletegroups", "any":
			if len(c.names) > 0 {
				x := d.Skew(4)
				if len(c.names) > 3 {
					x = d.N(len(c.names) + 1)
				}
				for ; x > 0; x-- {
					o.Strs = append(o.Strs, c.names[d.N(len(c.names))])
				}
			}
		case "describeconfigs":
			o.Type = pbt.Pick(d, "topic", "broker", "broker_logger", "topic", "broker")
			o.Name = gStr(d)
			if o.Type != "topic" {
				o.Name = fmt.Sprint(c.IDs[d.N(n)])
				if d.P(1, 10) {
					o.Name = pbt.Pick(d, "x", "", "999", fmt.Sprint(int64(c.IDs[0])+1<<32), "1 ")
				}
			}
			if o.NilKey = d.P(1, 3); !o.NilKey {
				o.Strs = gNames(d, d.Skew(3))
				if o.Strs == nil {
					o.Strs = []string{}
				}
			}
		case "listreassign", "alterreassign", "elect", "describeacls", "createacls", "deleteacls":
			if ext == nil {
				o.mk, o.want = apiByKey(key).mk(d, apiByKey(key).vers[0])
			}
		}
		if ext != nil {
			ext(d, &c, &o)
		}
		if d.P(1, 4) && o.Slow == 0 {
			f := kafka.Fault{API: key, Broker: -1, Skip: d.Skew(3), Kind: pbt.Pick(d, kafka.FClose, kafka.FCloseAft, kafka.FReset, kafka.FHang, kafka.FSwallow, kafka.FTrunc), Arg: d.N(1000)}
			if d.P(1, 5) && key == kafka.DeleteGroups {
				f.API = kafka.FindCoordinator
			}
			if d.P(1, 3) {
				f.Times = 2
			}
			o.Faults = append(o.Faults, f)
		}
		if d.P(1, 8) {
			o.Down = d.N(n)
		}
		o.Kill = d.P(1, 10) && ext == nil
		for i := range c.IDs {
			g := &genOpt{}
			if d.P(c.Errs, 4) {
				g.errs = c.Errs
			}
			v := apiByKey(key).vers[0]
			if vs := c.Vers[key]; vs != nil {
				v = vs[i]
			}
			o2 := genResp(d, wire.Resp(key).Fields, v, g, 0)
			if len(d0(o2, "responses")) > 40 || len(d0(o2, "resources")) > 40 {
				o2 = genResp(d, wire.Resp(key).Fields, v, g, 0)
			}
			c.resps[fmt.Sprint(k, "/", i)] = o2
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func d0(o wire.Obj, k string) []any { a, _ := o[k].([]any); return a }

func hash32(x ...any) uint32 {
	h := fnv.New32a()
	fmt.Fprint(h, x...)
	return h.Sum32()
}

type p23World struct {
	c  p23Case
	cl *kafka.Cluster
	op *p23Op
	// connections were closed by a broker and may not have been used since
	stale bool
	// makes the call, if not through the library
	call func(o *p23Op) (any, error)
}

// noValue: the tool does not print the answer.
type noValue struct{}

func (w *p23World) idx(id int32) int {
	for i, x := range w.c.IDs {
		if x == id {
			return i
		}
	}
	return -1
}

// answer of a broker to one of the administrative requests
func (w *p23World) answer(b *kafka.Broker, ev *kafka.Ev) (wire.Obj, bool) {
	o := w.op
	if o == nil || ev.H.API != p23API[o.Kind] {
		return nil, false
	}
	i := w.idx(b.ID)
	r := w.c.resps[fmt.Sprint(o.Salt, "/", i)]
	switch ev.H.API {
	case kafka.ListGroups:
		r = wire.Obj{"throttle_time_ms": int64(i), "error_code": r["error_code"]}
		gs := []any{}
		if r.I("error_code") == 0 {
			for j := 0; j < w.c.Listed[i]; j++ {
				h := hash32("list", i, j)
				gs = append(gs, wire.Obj{"group_id": fmt.Sprintf("g-%d-%d", i, j), "protocol_type": []string{"consumer", "connect", ""}[h%3],
					"group_state": []string{"Stable", "Empty", "Dead"}[h/3%3], "group_type": []string{"classic", "consumer"}[h/9%2]})
			}
		}
		r["groups"] = gs
	case kafka.DescribeLogDirs:
		dirs := []any{}
		nd := 1 + int(hash32("dirs", i)%3)
		parts := make([]map[string][]any, nd)
		for j := range parts {
			parts[j] = map[string][]any{}
		}
		put := func(t string, p int64) {
			h := hash32("size", i, t, p)
			dir := int(h>>8) % nd
			parts[dir][t] = append(parts[dir][t], wire.Obj{"index": p, "size": int64(h) * 1000, "offset_lag": int64(h % 100), "is_future": h%5 == 0})
		}
		for _, x := range ev.Req.A("topics") {
			t := x.(wire.Obj)
			for _, p := range t.A("partitions") {
				put(t.S("name"), p.(int64))
			}
		}
		if hash32("other", i, o.Salt)%4 == 0 { // brokers that report all they have
			put("other", 0)
		}
		for j := range parts {
			ts := []any{}
			var names []string
			for t := range parts[j] {
				names = append(names, t)
			}
			sort.Strings(names)
			for _, t := range names {
				ts = append(ts, wire.Obj{"name": t, "partitions": parts[j][t]})
			}
			code := int64(0)
			if len(ts) == 0 && w.c.Errs > 0 && hash32("bad", i, j)%3 == 0 {
				code = 56
			}
			dirs = append(dirs, wire.Obj{"error_code": code, "log_dir": fmt.Sprintf("/data%d", j), "topics": ts})
		}
		r = wire.Obj{"throttle_time_ms": int64(i), "results": dirs}
	case kafka.DeleteGroups:
		var rs []any
		for _, g := range ev.Req.A("groups") {
			code := int64(0)
			if h := hash32("del", g, o.Salt); w.c.Errs > 0 && h%3 == 0 {
				code = int64([]int16{69, 68, 15, 16, 30}[h/3%5])
			}
			rs = append(rs, wire.Obj{"group_id": g, "error_code": code})
		}
		r = wire.Obj{"throttle_time_ms": int64(i), "results": rs}
	}
	return r, true
}

// adminWorld starts the cluster of a case.
func adminWorld(c p23Case) *p23World {
	cl := kafka.New(0, 1)
	w := &p23World{c: c, cl: cl}
	cl.Seg = c.Seg
	for i, id := range c.IDs {
		b := cl.AddBroker(id, fmt.Sprintf("b%d", id), 9092)
		for k, vs := range c.Vers {
			b.Ranges[k] = [2]int{0, vs[i]}
		}
	}
	for _, t := range c.Topics {
		var ls []int32
		for _, reps := range t.Reps {
			ls = append(ls, c.IDs[reps[0]])
		}
		kt := cl.AddTopic(t.Name, ls...)
		for p, reps := range t.Reps {
			kt.Parts[p].Isr, kt.Parts[p].Reps = nil, []int32{}
			for i, x := range reps {
				kt.Parts[p].Reps = append(kt.Parts[p].Reps, c.IDs[x])
				if i == 0 || (x+p)%2 == 0 { // some have fallen behind
					kt.Parts[p].Isr = append(kt.Parts[p].Isr, c.IDs[x])
				}
			}
		}
	}
	cl.Controller = c.IDs[c.Ctl]
	cl.Coordinator = func(g string) int32 { return c.IDs[c.Groups[g]] }
	cl.Override = w.answer
	cl.Install()
	return w
}

func runP23(r *pbt.R, c p23Case) {
	w := adminWorld(c)
	cl := w.cl
	bc := healer.DefaultBrokerConfig()
	bc.Net.ConnectTimeoutMS, bc.Net.TimeoutMS = 1000, 2000
	var (
		k   *healer.Client
		bs  *healer.Brokers
		h   *healer.Helper
		err error
	)
	if !guarded(r, "creation", time.Hour, func() {
		if k, err = healer.NewClient(cl.Bootstrap(), clientID); err == nil {
			if bs, err = healer.NewBrokersWithConfig(cl.Bootstrap(), bc); err == nil {
				if len(c.Ops)%2 == 0 {
					h, err = healer.NewHelper(cl.Bootstrap(), clientID, bc)
				} else {
					h = healer.NewHelperFromBrokers(bs, clientID)
				}
			}
		}
	}) || err != nil {
		r.Fail("create", "could not create the client: %v", err)
		return
	}
	for i := range c.Ops {
		w.do(r, i, k, bs, h)
		if r.Failed() {
			noteHistory(r, cl)
			return
		}
	}
}

func (w *p23World) do(r *pbt.R, i int, k *healer.Client, bs *healer.Brokers, h *healer.Helper) {
	o, cl, c := &w.c.Ops[i], w.cl, w.c
	what := fmt.Sprintf("call %d (%s)", i, o.Kind)
	key := p23API[o.Kind]
	// requests due: broker -> fields (several only for the groups deleted)
	due := map[int32][]wire.Obj{}
	ctl := c.IDs[c.Ctl]
	tops := func(v ...any) []any { return v }
	invalid := false
	switch o.Kind {
	case "listgroups", "getgroups":
		for _, id := range c.IDs {
			due[id] = []wire.Obj{{"states_filter": []any{}, "types_filter": []any{}}}
		}
	case "logdirs":
		want := map[int32]map[string][]any{}
		for _, t := range c.Topics {
			asked := len(o.Strs) == 0
			for _, s := range o.Strs {
				asked = asked || s == t.Name
			}
			if !asked {
				continue
			}
			for p, reps := range t.Reps {
				for _, x := range reps {
					id := c.IDs[x]
					if want[id] == nil {
						want[id] = map[string][]any{}
					}
					want[id][t.Name] = append(want[id][t.Name], int64(p))
				}
			}
		}
		for id, ts := range want {
			var l []any
			for t, ps := range ts {
				l = append(l, wire.Obj{"name": t, "partitions": ps})
			}
			due[id] = []wire.Obj{{"topics": l}}
		}
	case "deletetopics":
		due[ctl] = []wire.Obj{{"topics": anyStr(o.Strs), "timeout_ms": int64(o.TO)}}
	case "createtopic", "createtopics":
		names := o.Strs
		if o.Kind == "createtopic" {
			names = []string{o.Name}
		}
		l := []any{}
		for _, t := range names {
			l = append(l, wire.Obj{"name": t, "num_partitions": int64(o.N), "replication_factor": int64(o.RF), "assignments": []any{}, "configs": []any{}})
		}
		due[ctl] = []wire.Obj{{"topics": l, "timeout_ms": int64(o.TO)}}
	case "createpartitions", "createassigned":
		var as any
		if o.Kind == "createassigned" && o.As != nil {
			l := []any{}
			for _, x := range o.As {
				l = append(l, wire.Obj{"broker_ids": anyI32(x)})
			}
			as = l
		}
		due[ctl] = []wire.Obj{{"topics": tops(wire.Obj{"name": o.Name, "count": int64(o.N), "assignments": as}), "timeout_ms": int64(o.TO), "validate_only": o.Flag}}
	case "deletegroups":
		for _, g := range o.Strs {
			id := c.IDs[c.Groups[g]]
			due[id] = append(due[id], wire.Obj{"groups": []any{g}})
		}
	case "describeconfigs":
		var keys any
		if !o.NilKey {
			keys = anyStr(o.Strs)
		}
		id := ctl
		if o.Type != "topic" {
			id = -1
			if n, e := strconv.ParseInt(o.Name, 10, 32); e == nil && w.idx(int32(n)) >= 0 {
				id = int32(n)
			}
		}
		if id >= 0 {
			due[id] = []wire.Obj{{"resources": tops(wire.Obj{"resource_type": map[string]int64{"topic": 2, "broker": 4, "broker_logger": 8}[o.Type], "resource_name": o.Name, "config_names": keys})}}
		} else {
			invalid = true
		}
	case "any":
	default:
		due[ctl] = []wire.Obj{o.want}
	}
	if o.ext != nil {
		due, invalid = o.ext(c)
	}
	r.Class(o.Kind)

	w.op = o
	if o.Kill {
		for _, id := range c.IDs {
			cl.KillConns(id, false)
		}
	}
	if o.Down >= 0 {
		cl.SetMode(c.IDs[o.Down], kafka.Refuse)
		cl.KillConns(c.IDs[o.Down], false)
	}
	cl.Lock()
	cl.Faults = nil
	for _, f := range o.Faults {
		cl.Faults = append(cl.Faults, &f)
	}
	if o.Slow > 0 {
		cl.Faults = append(cl.Faults, &kafka.Fault{API: key, Broker: -1, Kind: kafka.FDelay, Arg: o.Slow, Times: 100})
	}
	used := cl.FaultsUsed
	cl.Unlock()
	seen := len(cl.Events())

	var (
		got any
		err error
	)
	if !guarded(r, what, time.Hour, func() {
		if w.call != nil {
			got, err = w.call(o)
			return
		}
		switch o.Kind {
		case "listgroups":
			got, err = k.ListGroups()
		case "getgroups":
			got = h.GetGroups()
		case "logdirs":
			got, err = k.DescribeLogDirs(o.Strs)
		case "deletetopics":
			got, err = k.DeleteTopics(o.Strs, o.TO)
		case "createtopic":
			got, err = k.CreateTopic(o.Name, o.N, int16(o.RF), uint32(o.TO))
		case "createtopics":
			got, err = k.CreateTopics(o.Strs, o.N, int16(o.RF), uint32(o.TO))
		case "createpartitions":
			got, err = k.CreatePartitions(o.Name, o.N, uint32(o.TO), o.Flag)
		case "createassigned":
			got, err = k.CreatePartitionsWithAssignments(o.Name, o.N, o.As, uint32(o.TO), o.Flag)
		case "deletegroups":
			got, err = k.DeleteGroups(o.Strs)
		case "describeacls":
			got, err = k.DescribeAcls(o.mk().(*healer.DescribeAclsRequest).DescribeAclsRequestBody)
		case "createacls":
			got, err = k.CreateAcls(o.mk().(*healer.CreateAclsRequest).Creations)
		case "deleteacls":
			got, err = k.DeleteAcls(o.mk().(*healer.DeleteAclsRequest).Filters)
		case "describeconfigs":
			keys := o.Strs
			if o.NilKey {
				keys = nil
			}
			got, err = k.DescribeConfigs(o.Type, o.Name, keys)
		case "listreassign":
			got, err = k.ListPartitionReassignments(o.mk().(*healer.ListPartitionReassignmentsRequest))
		case "alterreassign":
			got, err = bs.AlterPartitionReassignments(o.mk().(*healer.AlterPartitionReassignmentsRequest))
		case "elect":
			got, err = bs.ElectLeaders(o.mk().(*healer.ElectLeadersRequest))
		case "any":
			got, err = bs.Request(healer.NewDescribeGroupsRequest(clientID, o.Strs))
		}
	}) {
		r.Fail("hang:"+o.Kind, "%s did not return within an hour", what)
		return
	}
	if r.Failed() {
		return
	}
	w.op = nil
	cl.Lock()
	faulty := (cl.FaultsUsed > used && o.Slow == 0) || o.Down >= 0 || o.Kill || w.stale
	w.stale = w.stale || o.Down >= 0 || o.Kill
	cl.Faults = nil
	cl.Unlock()
	if o.Down >= 0 {
		cl.SetMode(c.IDs[o.Down], kafka.Up)
	}
	var evs, done []*kafka.Ev
	for _, e := range cl.Events()[seen:] {
		if e.H.API == key {
			evs = append(evs, e)
			if e.Done >= 0 {
				done = append(done, e)
			}
		}
	}
	for _, e := range cl.ProtoErrs {
		r.Fail("malformed:"+o.Kind, "%s: %s", what, e)
	}
	if len(due) > 0 {
		r.NonTrivial()
	}
	var codes []int16
	for _, e := range done {
		codes = append(codes, codesIn(e.Resp)...)
	}
	if o.Kind == "any" {
		r.NonTrivial()
		w.any(r, what, o, evs, done, got, err, faulty)
		return
	}

	// the requests
	for _, e := range evs {
		list, ok := due[e.Broker], false
		if len(list) == 0 {
			r.Fail("route:"+o.Kind, "%s: broker %d was asked, due are requests to %v", what, e.Broker, keysOf(due))
			return
		}
		why := ""
		for _, want := range list {
			s := sameObj(wire.Req(key).Fields, e.H.Version, e.Req, want, "", o.Kind == "logdirs" || o.Kind == "assignedtopic")
			if s == "" {
				ok = true
			}
			why = s
		}
		if !ok {
			r.Fail("request:"+o.Kind, "%s: broker %d: %s", what, e.Broker, why)
			return
		}
	}
	missing := false
	for id, list := range due {
		for _, want := range list {
			n, need, answered := 0, 0, false
			for _, w2 := range list {
				if reflect.DeepEqual(want, w2) {
					need++
				}
			}
			for _, e := range evs {
				if e.Broker == id && sameObj(wire.Req(key).Fields, e.H.Version, e.Req, want, "", o.Kind == "logdirs" || o.Kind == "assignedtopic") == "" {
					n++
					answered = answered || e.Done >= 0
				}
			}
			if n > need && !faulty {
				r.Fail("again:"+o.Kind, "%s: broker %d was asked %d times", what, id, n)
			}
			if n == 0 && !faulty && err == nil && !(o.Kind == "getgroups" && reflect.ValueOf(got).IsNil()) {
				r.Fail("not asked:"+o.Kind, "%s: broker %d was not asked for %s", what, id, clip(want))
			}
			missing = missing || !answered
		}
	}
	if r.Failed() {
		return
	}

	// the error
	if o.Kind == "getgroups" {
		if missing || len(codes) > 0 {
			if !reflect.ValueOf(got).IsNil() {
				r.Fail("lost:getgroups", "%s: %q is returned though a broker did not answer or answered with an error", what, got)
			}
			return
		}
	} else {
		switch {
		case (missing || invalid) && err == nil:
			r.Fail("silent:"+o.Kind, "%s: no error though an answer is missing (%d of the requests to %v were answered)", what, len(done), keysOf(due))
			return
		case len(codes) > 0 && err == nil:
			r.Fail("silent:"+o.Kind, "%s: no error though the answers carry the codes %v", what, codes)
			return
		case err != nil && !faulty && len(codes) == 0 && !invalid:
			r.Fail("invented:"+o.Kind, "%s: failed though all answered without error: %v", what, err)
			return
		}
		if err != nil && len(codes) > 0 && !faulty && w.call == nil {
			named := false
			for _, x := range codes {
				named = named || errNames(err, x)
			}
			if !named {
				r.Fail("unnamed:"+o.Kind, "%s: the answers carry the codes %v, but the error says %v", what, codes, err)
				return
			}
		}
		if err != nil {
			r.Class("with error")
			if w.call != nil {
				return
			}
		}
	}
	if _, no := got.(noValue); no {
		return
	}

	// the value
	switch o.Kind {
	case "listgroups":
		want := map[int32]string{}
		for _, e := range done {
			if l := groupLines(e); l != "" {
				want[e.Broker] = l
			}
		}
		have := map[int32]string{}
		for id, gs := range got.(map[int32][]*healer.Group) {
			var l []string
			for _, g := range gs {
				l = append(l, fmt.Sprintf("%s/%s/%s/%s", g.GroupID, g.ProtocolType, g.GroupState, g.GroupType))
			}
			sort.Strings(l)
			if len(l) > 0 {
				have[id] = strings.Join(l, " ")
			}
		}
		if fmt.Sprint(have) != fmt.Sprint(want) {
			r.Fail("value:listgroups", "%s: returned %v, answered was %v (error %v)", what, have, want, err)
		}
	case "getgroups":
		var want []string
		for _, e := range done {
			for _, g := range e.Resp.A("groups") {
				want = append(want, g.(wire.Obj).S("group_id"))
			}
		}
		have := append([]string(nil), got.([]string)...)
		sort.Strings(want)
		sort.Strings(have)
		if fmt.Sprint(have) != fmt.Sprint(want) {
			r.Fail("value:getgroups", "%s: returned %q, answered was %q", what, have, want)
		}
	case "logdirs":
		want, have := map[string]string{}, map[string]string{}
		for _, e := range done {
			for _, x := range e.Resp.A("results") {
				dir := x.(wire.Obj)
				for _, y := range dir.A("topics") {
					t := y.(wire.Obj)
					asked := len(o.Strs) == 0 && t.S("name") != "other"
					for _, s := range o.Strs {
						asked = asked || s == t.S("name")
					}
					if !asked {
						continue
					}
					for _, z := range t.A("partitions") {
						p := z.(wire.Obj)
						want[fmt.Sprintf("%d %s %s-%d", e.Broker, dir.S("log_dir"), t.S("name"), p.I("index"))] = fmt.Sprint(p.I("size"), p.I("offset_lag"), p.Bool("is_future"))
					}
				}
			}
		}
		for id, res := range got.(map[int32]healer.DescribeLogDirsResponse) {
			for _, dir := range res.Results {
				for _, t := range dir.Topics {
					if t.TopicName == "other" && len(o.Strs) == 0 {
						continue // all topics were asked for
					}
					for _, p := range t.Partitions {
						key := fmt.Sprintf("%d %s %s-%d", id, dir.LogDir, t.TopicName, p.PartitionID)
						if _, dup := have[key]; dup {
							r.Fail("value:logdirs", "%s: %s comes twice", what, key)
						}
						have[key] = fmt.Sprint(p.Size, p.OffsetLag, p.IsFutureKey)
					}
				}
			}
		}
		if fmt.Sprint(have) != fmt.Sprint(want) {
			r.Fail("value:logdirs", "%s: returned %v, answered was %v (error %v)", what, have, want, err)
		}
	case "deletegroups":
		var want []string
		for _, e := range done {
			for _, x := range e.Resp.A("results") {
				want = append(want, fmt.Sprintf("%s:%d", x.(wire.Obj).S("group_id"), x.(wire.Obj).I("error_code")))
			}
		}
		var have []string
		for _, x := range got.(healer.DeleteGroupsResponse).Results {
			have = append(have, fmt.Sprintf("%s:%d", x.GroupID, x.ErrorCode))
		}
		sort.Strings(want)
		sort.Strings(have)
		if fmt.Sprint(have) != fmt.Sprint(want) {
			r.Fail("value:deletegroups", "%s: returned %v, answered was %v (error %v)", what, have, want, err)
		}
	default:
		if len(done) == 0 {
			if v := reflect.ValueOf(got); v.IsValid() && !v.IsZero() {
				r.Fail("value:"+o.Kind, "%s: returned %s though nothing was answered (error %v)", what, clip(got), err)
			}
			return
		}
		e := done[len(done)-1]
		api := apiByKey(key)
		if o.Kind == "describegroup" { // printed are the assignments decoded
			a := *api
			a.proj = strings.Replace(a.proj, "member_assignment:RawMemberAssignment", "", 1)
			api = &a
		}
		if s := sameResult(api, e.H.Version, e.Resp, got); s != "" {
			r.Fail("value:"+o.Kind, "%s: %s (error %v)", what, s, err)
		}
	}
}

// any: Brokers.Request asks the brokers one after the other until one answers.
func (w *p23World) any(r *pbt.R, what string, o *p23Op, evs, done []*kafka.Ev, got any, err error, faulty bool) {
	for _, e := range evs {
		if s := sameObj(wire.Req(e.H.API).Fields, e.H.Version, e.Req, wire.Obj{"groups": anyStr(o.Strs)}, "", false); s != "" {
			r.Fail("request:any", "%s: %s", what, s)
			return
		}
	}
	var last *kafka.Ev
	for _, e := range done {
		if len(codesIn(e.Resp)) == 0 {
			last = e
		}
	}
	if (last != nil) != (err == nil) {
		r.Fail("error:any", "%s: error %v, answered without error by a broker: %v", what, err, last != nil)
		return
	}
	if last == nil {
		return
	}
	if s := sameResult(apiByKey(last.H.API), last.H.Version, last.Resp, got); s != "" {
		r.Fail("value:any", "%s: %s", what, s)
	}
	if evs[len(evs)-1] != last {
		r.Fail("again:any", "%s: asked again after the answer of broker %d", what, last.Broker)
	}
}

func groupLines(e *kafka.Ev) string {
	var l []string
	for _, x := range e.Resp.A("groups") {
		g := x.(wire.Obj)
		st, ty := "", ""
		if e.H.Version >= 4 {
			st = g.S("group_state")
		}
		if e.H.Version >= 5 {
			ty = g.S("group_type")
		}
		l = append(l, fmt.Sprintf("%s/%s/%s/%s", g.S("group_id"), g.S("protocol_type"), st, ty))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func keysOf(m map[int32][]wire.Obj) (r []int32) {
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "P23", Level: "fault_enumeration",
		Rule: "case = 1-4 brokers with their own groups, log directories, versions and generated results, 1-4 of 17 administrative calls with generated arguments, some with error codes, cut or unanswered requests or a broker down; " +
			"non-trivial = at least one request was due",
		Gen:   genP23,
		Quick: 60000, Deep: 2000000, Chunk: 500,
		Run:  func(x any, r *pbt.R) { bubble(r, func() { runP23(r, x.(p23Case)) }) },
		Desc: func(x any) string { return x.(p23Case).String() },
	})
}
