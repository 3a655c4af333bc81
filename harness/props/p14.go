package props

import (
	"fmt"
	"sort"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// The versions the client implements (documented above availableVersions: version 0 where not listed).
var implemented = map[int][]int{
	kafka.Produce: {9, 0}, kafka.Fetch: {10, 7, 0}, kafka.ListOffsets: {1, 0}, kafka.Metadata: {7, 4, 1},
	kafka.OffsetCommit: {2, 0}, kafka.OffsetFetch: {1, 0}, kafka.ListGroups: {5, 4, 3, 2, 1, 0},
	kafka.SaslHandshake: {1, 0}, kafka.DescribeAcls: {2, 1, 0}, kafka.CreateAcls: {3, 2, 1, 0},
	kafka.DeleteAcls: {3, 2, 1, 0}, kafka.CreatePartitions: {2, 0},
}

// common returns the highest version both sides support, -1 if there is none.
func common(api int, rng [2]int, ok bool) int {
	if !ok {
		return -1
	}
	vs := implemented[api]
	if vs == nil {
		vs = []int{0}
	}
	for _, v := range vs {
		if v >= rng[0] && v <= rng[1] {
			return v
		}
	}
	return -1
}

type vTable struct {
	Rng   map[int][2]int
	Order []int // order of the keys in the answer
}

// genTable generates the advertised ranges of one broker; keep are APIs that must stay usable.
func genTable(d *pbt.D, keep ...int) vTable {
	t := vTable{Rng: map[int][2]int{}}
	base := kafka.DefaultRanges()
	var keys []int
	for k := range base {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	must := map[int]bool{}
	for _, k := range keep {
		must[k] = true
	}
	for _, k := range keys {
		if k == kafka.ApiVersions {
			t.Rng[k] = base[k]
			continue
		}
		vs := implemented[k]
		if vs == nil {
			vs = []int{0}
		}
		v := vs[len(vs)-1-d.N(len(vs))]
		hi := v + pbt.Pick(d, 0, 0, 1, 2, 3, 9)
		lo := v - d.Skew(v+1)
		if lo < 0 {
			lo = 0
		}
		if !must[k] && d.P(1, 30) { // nothing in common: what happens then is not specified
			lo, hi = vs[0]+1, vs[0]+3
		}
		t.Rng[k] = [2]int{lo, hi}
	}
	for n := d.W(4, 1, 1); n > 0; n-- {
		k := pbt.Pick(d, 4, 5, 6, 7, 21, 22, 47, 60, 75, 500, 32767)
		t.Rng[k] = [2]int{d.N(3), 3 + d.N(9)}
	}
	for k := range t.Rng {
		t.Order = append(t.Order, k)
	}
	sort.Ints(t.Order)
	if d.P(1, 3) {
		p := d.Perm(len(t.Order))
		o := make([]int, len(p))
		for i, j := range p {
			o[i] = t.Order[j]
		}
		t.Order = o
	}
	return t
}

func (t vTable) String() string {
	s := ""
	def := kafka.DefaultRanges()
	for _, k := range t.Order {
		if r, ok := def[k]; ok && implemented[k] != nil {
			_ = r
			s += fmt.Sprintf(" %d:%d-%d", k, t.Rng[k][0], t.Rng[k][1])
		}
	}
	return s
}

type p14Op struct {
	Broker int
	A      *apiDef
	Reuse  int // index of an earlier operation whose request object is sent again, -1 for a new one
	Table  int // -1: keep; else the broker restarts with this table first
	Kill   int // with Table: 0 client closes, 1 broker closes, 2 reset
	mk     map[int]func() healer.Request
	want   map[int]wire.Obj
	resp   map[int]wire.Obj
}

type p14Case struct {
	Tables  []vTable
	Start   []int // table per broker
	Ops     []p14Op
	Flow    bool
	N       int // records in the flow
	Switch  []int
	SwTo    []int
	SwHow   []int
	Latency int
}

func genP14(d *pbt.D) any {
	c := p14Case{Flow: d.P(1, 6)}
	n := d.Int(1, 3)
	var keep []int
	if c.Flow {
		n = d.Int(1, 2)
		keep = []int{kafka.Metadata, kafka.Fetch, kafka.ListOffsets, kafka.Produce}
	}
	for i := d.Int(1, 3) + n - 1; i > 0; i-- {
		c.Tables = append(c.Tables, genTable(d, keep...))
	}
	for i := 0; i < n; i++ {
		c.Start = append(c.Start, d.N(len(c.Tables)))
	}
	if c.Flow {
		c.N = d.Int(1, 40)
		for k := d.N(4); k > 0; k-- {
			c.Switch = append(c.Switch, d.N(c.N+1))
			c.SwTo = append(c.SwTo, d.N(len(c.Tables)))
			c.SwHow = append(c.SwHow, d.N(2))
		}
		return c
	}
	for k := d.Int(1, 7); k > 0; k-- {
		o := p14Op{Broker: d.N(n), Reuse: -1, Table: -1, mk: map[int]func() healer.Request{}, want: map[int]wire.Obj{}, resp: map[int]wire.Obj{}}
		o.A = apiTable[d.N(len(apiTable))]
		if d.P(2, 3) { // APIs with several versions
			for o.A.reqOnly || implemented[o.A.key] == nil {
				o.A = apiTable[d.N(len(apiTable))]
			}
		}
		if o.A.reqOnly {
			o.A = apiTable[0]
		}
		if len(c.Ops) > 0 && d.P(1, 3) {
			o.Reuse = d.N(len(c.Ops))
			for c.Ops[o.Reuse].Reuse >= 0 {
				o.Reuse = c.Ops[o.Reuse].Reuse
			}
			o.A = c.Ops[o.Reuse].A
		}
		if d.P(1, 3) {
			o.Table, o.Kill = d.N(len(c.Tables)), d.N(3)
		}
		for _, v := range o.A.vers {
			o.mk[v], o.want[v] = o.A.mk(d, v)
			o.resp[v] = genResp(d, wire.Resp(o.A.key).Fields, v, &genOpt{unique: o.A.key == kafka.Metadata || o.A.key == kafka.ListOffsets}, 2)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func (c p14Case) String() string {
	s := ""
	for i, t := range c.Tables {
		s += fmt.Sprintf("  table %d:%s\n", i, t)
	}
	s += fmt.Sprintf("  brokers start with tables %v\n", c.Start)
	if c.Flow {
		return s + fmt.Sprintf("  produce and consume %d records; after %v of them the brokers restart with tables %v", c.N, c.Switch, c.SwTo)
	}
	for i, o := range c.Ops {
		if o.Table >= 0 {
			s += fmt.Sprintf("  broker %d restarts with table %d (%s)\n", o.Broker+1, o.Table, []string{"closed by the client", "closed", "reset"}[o.Kill])
		}
		s += fmt.Sprintf("  %d: %s to broker %d", i, o.A.name, o.Broker+1)
		if o.Reuse >= 0 {
			s += fmt.Sprintf(" (request object of %d)", o.Reuse)
		}
		s += "\n"
	}
	return s
}

// versionJudge answers version discovery from tables and checks every request against the table of its connection.
type versionJudge struct {
	cl   *kafka.Cluster
	cur  map[int32]vTable
	conn map[int]vTable
}

func newVersionJudge(cl *kafka.Cluster) *versionJudge {
	return &versionJudge{cl, map[int32]vTable{}, map[int]vTable{}}
}

func (j *versionJudge) set(id int32, t vTable) {
	j.cl.Lock()
	j.cur[id] = t
	j.cl.Brokers[id].Ranges = t.Rng
	j.cl.Unlock()
}

func (j *versionJudge) discovery(b *kafka.Broker, e *kafka.Ev) wire.Obj {
	j.cl.Lock()
	defer j.cl.Unlock()
	t := j.cur[b.ID]
	j.conn[e.Conn] = t
	var a []any
	for _, k := range t.Order {
		a = append(a, wire.Obj{"api_key": int64(k), "min_version": int64(t.Rng[k][0]), "max_version": int64(t.Rng[k][1])})
	}
	return wire.Obj{"error_code": int64(0), "api_keys": a}
}

func (j *versionJudge) check(r *pbt.R) {
	first := map[int]bool{}
	j.cl.Lock()
	defer j.cl.Unlock()
	for _, e := range j.cl.Hist {
		if e.H.API == kafka.ApiVersions {
			first[e.Conn] = true
			continue
		}
		if !first[e.Conn] {
			r.Fail("undiscovered", "api %d sent on a connection before version discovery", e.H.API)
			continue
		}
		rg, ok := j.conn[e.Conn].Rng[e.H.API]
		v := common(e.H.API, rg, ok)
		if v < 0 {
			r.Class("no common version (unspecified)")
			continue
		}
		if e.H.Version != v {
			r.Fail(fmt.Sprintf("version:%d", e.H.API), "api %d sent in version %d to broker %d, which advertised %d-%d on this connection: expected %d", e.H.API, e.H.Version, e.Broker, rg[0], rg[1], v)
		}
	}
	for _, e := range j.cl.ProtoErrs {
		r.Fail("malformed", "%s", e)
	}
}

func runP14(r *pbt.R, c p14Case) {
	cl := kafka.New(len(c.Start), 1)
	cl.Latency = time.Millisecond
	j := newVersionJudge(cl)
	for i, t := range c.Start {
		j.set(int32(i+1), c.Tables[t])
	}
	if c.Flow {
		runP14Flow(r, c, cl, j)
		return
	}
	var cur *p14Op
	cl.Override = func(b *kafka.Broker, e *kafka.Ev) (wire.Obj, bool) {
		if e.H.API == kafka.ApiVersions {
			return j.discovery(b, e), true
		}
		if o := cur.resp[e.H.Version]; o != nil && e.H.API == cur.A.key {
			return o, true
		}
		return nil, false
	}
	cl.Install()
	bs := make([]*healer.Broker, len(c.Start))
	for i := range bs {
		cfg := healer.DefaultBrokerConfig()
		cfg.Net.ConnectTimeoutMS, cfg.Net.TimeoutMS = 1000, 3000
		b, err := healer.NewBroker(fmt.Sprintf("b%d:9092", i+1), int32(i+1), cfg)
		if err != nil {
			r.Fail("create", "%v", err)
			return
		}
		bs[i] = b
	}
	tab := append([]int{}, c.Start...)
	objs := make([]healer.Request, len(c.Ops))
	objV := make([]int, len(c.Ops))
	vs := map[int]int{}
	broken := make([]bool, len(bs))
	for i := range c.Ops {
		o := &c.Ops[i]
		cur = o
		b := bs[o.Broker]
		if o.Table >= 0 {
			tab[o.Broker] = o.Table
			j.set(int32(o.Broker+1), c.Tables[o.Table])
			if o.Kill == 0 {
				b.Close()
			} else {
				cl.KillConns(int32(o.Broker+1), o.Kill == 2)
				broken[o.Broker] = true
			}
			r.Class("restart with another table")
		}
		rg, ok := c.Tables[tab[o.Broker]].Rng[o.A.key]
		v := common(o.A.key, rg, ok)
		if v < 0 {
			continue
		}
		req, src := healer.Request(nil), i
		if o.Reuse >= 0 && objs[o.Reuse] != nil {
			req, src = objs[o.Reuse], o.Reuse
			r.Class("request object sent again")
		} else {
			req = o.mk[v]()
			objV[i] = v
		}
		objs[i] = req
		if _, ok := vs[o.A.key]; ok && vs[o.A.key] != v {
			r.NonTrivial()
			r.Class("one API in two versions")
		}
		vs[o.A.key] = v
		var resp healer.Response
		var err error
		before := len(cl.Events(o.A.key))
		for try := 0; try < 2; try++ {
			var pv any
			var stack string
			if !within(time.Hour, func() { pv, stack = call(func() { resp, err = b.RequestAndGet(req) }) }) {
				r.Fail("hang", "operation %d did not return", i)
				return
			}
			if pv != nil {
				r.Fail("panic:"+o.A.name, "operation %d: %v\n%s", i, pv, stack)
				return
			}
			if err == nil || !broken[o.Broker] {
				break // only a broken connection may cost an attempt
			}
			broken[o.Broker] = false
		}
		broken[o.Broker] = false
		at := fmt.Sprintf("%s v%d", o.A.name, v)
		j.check(r)
		if r.Failed() {
			break
		}
		if err != nil {
			r.Fail("error:"+at, "operation %d: %v", i, err)
			break
		}
		evs := cl.Events(o.A.key)
		if len(evs) == before {
			r.Fail("not-sent", "operation %d reached no broker", i)
			break
		}
		ev := evs[len(evs)-1]
		r.Class(at)
		if objV[src] == v {
			if s := sameObj(wire.Req(o.A.key).Fields, v, ev.Req, c.Ops[src].want[v], "", o.A.sortReq); s != "" {
				r.Fail("request:"+at, "operation %d: %s", i, s)
			}
		}
		if s := sameResult(o.A, v, o.resp[v], resp); s != "" {
			r.Fail("response:"+at, "operation %d: answered in version %d, decoded differently: %s", i, v, s)
		}
		if implemented[o.A.key] != nil {
			r.NonTrivial()
		}
	}
	noteHistory(r, cl)
}

func runP14Flow(r *pbt.R, c p14Case, cl *kafka.Cluster, j *versionJudge) {
	leader := int32(len(c.Start))
	cl.AddTopic("t", leader)
	cl.Override = func(b *kafka.Broker, e *kafka.Ev) (wire.Obj, bool) {
		if e.H.API == kafka.ApiVersions {
			return j.discovery(b, e), true
		}
		return nil, false
	}
	cl.Install()
	pc := healer.DefaultProducerConfig()
	pc.BootstrapServers = cl.Bootstrap()
	pc.MessageMaxCount = 1
	pc.Retries = 5
	cc := healer.DefaultConsumerConfig()
	cc.BootstrapServers = cl.Bootstrap()
	cc.FetchMaxWaitMS = 50
	cc.FetchMinBytes = 1
	ok := guarded(r, "the flow", time.Hour, func() {
		cons, err := healer.NewSimpleConsumer("t", 0, cc)
		if err != nil {
			r.Fail("create", "consumer: %v", err)
			return
		}
		ms, err := cons.Consume(0, nil)
		if err != nil {
			r.Fail("consume", "%v", err)
			return
		}
		prod, err := healer.NewProducer("t", pc)
		if err != nil {
			r.Fail("create", "producer: %v", err)
			return
		}
		for i := 0; i < c.N; i++ {
			for k, at := range c.Switch {
				if at == i {
					for id := range c.Start {
						j.set(int32(id+1), c.Tables[c.SwTo[k]])
						cl.KillConns(int32(id+1), c.SwHow[k] == 1)
					}
					time.Sleep(5 * time.Second)
					r.NonTrivial()
					r.Class("flow with restart")
				}
			}
			var err error
			for try := 0; try < 6; try++ { // a message may be refused while connections break
				if err = prod.AddMessage(nil, []byte(fmt.Sprint("m", i))); err == nil {
					break
				}
				time.Sleep(time.Second)
			}
			if err != nil {
				r.Fail("produce", "message %d: %v", i, err)
				return
			}
			want := fmt.Sprint("m", i)
			t := time.NewTimer(10 * time.Minute)
			for got := ""; got != want; {
				select {
				case m := <-ms:
					if m.Error != nil {
						continue
					}
					got = string(m.Message.Value)
					var n int
					fmt.Sscanf(got, "m%d", &n)
					if n > i || n < i-1 { // a message whose answer was lost may be stored twice
						r.Fail("garbled", "received %q while waiting for %q", got, want)
						return
					}
				case <-t.C:
					r.Fail("stuck", "message %d stored but not delivered", i)
					return
				}
			}
			t.Stop()
		}
		r.Class("flow")
		r.NonTrivial()
		within(time.Minute, func() { cons.Stop() })
		within(time.Minute, func() { prod.Close() })
	})
	if !ok {
		r.Fail("hang", "the flow did not end")
	}
	j.check(r)
	noteHistory(r, cl)
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P14",
		Level: "exploration",
		Rule: "case = 1-3 brokers, each advertising a generated table of version ranges (shuffled, with unknown APIs) that may change with a restart, and 1-7 requests of any API to them, some re-sending the same request object, or a produce/consume flow over restarts; " +
			"oracle: on every connection each request is sent in the highest version common to the client's list and that connection's table, decodes completely in it, and the answer encoded in it is returned with equal fields; nothing is claimed where no version is common; " +
			"non-trivial = at least one request of an API with several client versions, or a flow",
		Quick: 20000, Deep: 300000, Chunk: 250,
		Gen:  genP14,
		Run:  func(x any, r *pbt.R) { bubble(r, func() { runP14(r, x.(p14Case)) }) },
		Desc: func(x any) string { return x.(p14Case).String() },
	})
}
