package props

import (
	"fmt"
	"sort"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

type p09Topic struct {
	Name  string
	Parts []int32 // ids in the order the metadata lists them
	Extra bool    // listed in the metadata though nobody subscribes to it
}

type p09Member struct {
	ID       string
	Subs     []string
	Version  int
	UserData []byte
	Trailing []byte
}

type p09Case struct {
	Topics  []p09Topic
	Members []p09Member
	Self    int // the healer consumer's place in the member list
	MaxMeta int
	Seed    uint64
}

func genP09(d *pbt.D) p09Case {
	c := p09Case{MaxMeta: pbt.Pick(d, 7, 7, 4, 1), Seed: uint64(d.N(1 << 30))}
	names := map[string]bool{}
	for n := d.Int(1, 5); n > 0; n-- {
		t := p09Topic{Name: fmt.Sprintf("%s%d", d.Name(4), n)}
		if names[t.Name] {
			continue
		}
		names[t.Name] = true
		np := pbt.Pick(d, d.Int(0, 4), d.Int(1, 12), d.Int(1, 40))
		if len(c.Topics) == 0 && np == 0 {
			np = 1
		}
		ids := make([]int32, np)
		for i := range ids {
			ids[i] = int32(i)
		}
		if d.P(1, 5) { // ids with holes
			x := int32(0)
			for i := range ids {
				x += int32(d.Int(1, 3))
				ids[i] = x
			}
		}
		for i, j := range d.Perm(np) {
			t.Parts = append(t.Parts, ids[j])
			_ = i
		}
		t.Extra = len(c.Topics) > 0 && d.P(1, 10)
		c.Topics = append(c.Topics, t)
	}
	nm := pbt.Pick(d, d.Int(1, 4), d.Int(1, 12))
	ids := map[string]bool{}
	for i := 0; i < nm; i++ {
		m := p09Member{Version: d.W(4, 1, 1, 1)}
		switch d.W(3, 2, 1) {
		case 0:
			m.ID = fmt.Sprintf("m%d", d.N(30))
		case 1:
			m.ID = fmt.Sprintf("client-%d-%04d", d.N(3), d.N(12))
		case 2:
			m.ID = d.Str(12)
		}
		if ids[m.ID] || m.ID == "" {
			m.ID += fmt.Sprintf("x%d", i)
		}
		ids[m.ID] = true
		for _, j := range d.Perm(len(c.Topics)) {
			t := c.Topics[j]
			if !t.Extra && d.P(2, 3) {
				m.Subs = append(m.Subs, t.Name)
				if d.P(1, 12) {
					m.Subs = append(m.Subs, t.Name)
				}
			}
		}
		if d.P(1, 3) {
			m.UserData = d.Bytes(8)
		}
		if m.Version > 0 && d.P(3, 4) {
			m.Trailing = d.Bytes(12)
		}
		c.Members = append(c.Members, m)
	}
	c.Self = d.N(nm)
	c.Members[c.Self].Subs = []string{c.Topics[0].Name}
	return c
}

// p09Model is the range assignment: topic -> member -> partitions.
func p09Model(c p09Case) map[string]map[string][]int32 {
	want := map[string]map[string][]int32{}
	for _, t := range c.Topics {
		var ms []string
		for _, m := range c.Members {
			for _, s := range m.Subs {
				if s == t.Name {
					ms = append(ms, m.ID)
					break
				}
			}
		}
		want[t.Name] = map[string][]int32{}
		if len(ms) == 0 {
			continue
		}
		sort.Strings(ms)
		ps := append([]int32(nil), t.Parts...)
		sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
		for i, p := range ps { // partition i goes to the member whose range [start,end) holds i
			for k := range ms {
				q, x := len(ps)/len(ms), len(ps)%len(ms)
				start := k*q + min(k, x)
				end := (k+1)*q + min(k+1, x)
				if i >= start && i < end {
					want[t.Name][ms[k]] = append(want[t.Name][ms[k]], p)
				}
			}
		}
	}
	return want
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P09",
		Level: "exploration",
		Rule: "case = a group of up to 12 members with generated ids, subscriptions (consumer protocol versions 0-3, user data, repeated topics) over up to 5 topics of up to 40 partitions, listed in generated orders, one of the members being a healer group consumer made leader; " +
			"oracle: the assignment in its sync request, decoded independently, equals the range assignment of a reference model, topic by topic and member by member; non-trivial = some topic with at least two partitions has at least two subscribers",
		Quick: 80000, Deep: 1500000, Chunk: 200,
		Gen: func(d *pbt.D) any { return genP09(d) },
		Run: func(x any, r *pbt.R) { bubble(r, func() { runP09(r, x.(p09Case)) }) },
		Desc: func(x any) string {
			c := x.(p09Case)
			s := ""
			for _, t := range c.Topics {
				s += fmt.Sprintf("  topic %q partitions %v extra %v\n", t.Name, t.Parts, t.Extra)
			}
			for i, m := range c.Members {
				s += fmt.Sprintf("  member %q subscribes %q version %d user data %x trailing %x self %v\n", m.ID, m.Subs, m.Version, m.UserData, m.Trailing, i == c.Self)
			}
			return s
		},
	})
}

func runP09(r *pbt.R, c p09Case) {
	cl := kafka.New(1, c.Seed)
	cl.Install()
	cl.Brokers[1].Ranges[kafka.Metadata] = [2]int{0, c.MaxMeta}
	for _, t := range c.Topics {
		cl.AddTopic(t.Name)
	}
	self := c.Members[c.Self]
	cl.MetaHook = func(o wire.Obj) {
		var ts []any
		for _, t := range c.Topics {
			asked := t.Extra
			for _, x := range o["topics"].([]any) {
				if x.(wire.Obj).S("name") == t.Name {
					asked = true
				}
			}
			if !asked {
				continue
			}
			ps := []any{}
			for _, p := range t.Parts {
				ps = append(ps, wire.Obj{"error_code": int64(0), "index": int64(p), "leader_id": int64(1), "replicas": []any{int64(1)}, "isr": []any{int64(1)}, "offline": []any{}})
			}
			ts = append(ts, wire.Obj{"error_code": int64(0), "name": t.Name, "partitions": ps})
		}
		o["topics"] = ts
	}
	var mine []byte
	synced := make(chan *kafka.Ev, 10)
	cl.Override = func(b *kafka.Broker, ev *kafka.Ev) (wire.Obj, bool) {
		switch ev.H.API {
		case kafka.JoinGroup:
			v, subs, _, err := wire.DecodeSubscription(ev.Req.Objs("protocols")[0].B("metadata"))
			if err != nil || v != 0 || len(subs) != 1 || subs[0] != c.Topics[0].Name {
				r.Fail("subscription", "the join request's subscription is %q version %d (%v), expected %q", subs, v, err, c.Topics[0].Name)
			}
			var ms []any
			for i, m := range c.Members {
				md := wire.EncodeSubscription(m.Version, m.Subs, m.UserData, m.Trailing)
				if i == c.Self {
					md = ev.Req.Objs("protocols")[0].B("metadata")
				}
				ms = append(ms, wire.Obj{"member_id": m.ID, "metadata": md})
			}
			return wire.Obj{"error_code": int64(0), "generation_id": int64(1), "protocol_name": "range", "leader": self.ID, "member_id": self.ID, "members": ms}, true
		case kafka.SyncGroup:
			select {
			case synced <- ev:
			default:
			}
			return wire.Obj{"error_code": int64(0), "assignment": mine}, true
		case kafka.Heartbeat, kafka.LeaveGroup:
			return wire.Obj{"error_code": int64(0)}, true
		}
		return nil, false
	}
	mine = wire.EncodeAssignment(0, nil, nil)
	defer noteHistory(r, cl)
	var g *healer.GroupConsumer
	var err error
	if !guarded(r, "NewGroupConsumer", time.Minute, func() {
		g, err = healer.NewGroupConsumer(c.Topics[0].Name, map[string]interface{}{"bootstrap.servers": cl.Bootstrap(), "group.id": "g", "session.timeout.ms": 30000})
	}) || err != nil {
		r.Fail("setup", "creating the group consumer failed: %v", err)
		return
	}
	go g.Consume(make(chan *healer.FullMessage, 10))
	var ev *kafka.Ev
	select {
	case ev = <-synced:
	case <-time.After(20 * time.Second):
		r.Fail("nosync", "the leader sent no assignment within 20 s")
		return
	}
	time.Sleep(10 * time.Millisecond)
	within(time.Minute, g.Close)

	want := p09Model(c)
	got := map[string]map[string][]int32{}
	seen := map[string]bool{}
	known := map[string]bool{}
	for _, m := range c.Members {
		known[m.ID] = true
	}
	for _, a := range ev.Req.Objs("assignments") {
		id := a.S("member_id")
		if seen[id] || !known[id] {
			r.Fail("members", "the assignment names member %q (known %v, named before %v)", id, known[id], seen[id])
		}
		seen[id] = true
		if len(a.B("assignment")) == 0 {
			continue
		}
		_, tps, _, err := wire.DecodeAssignment(a.B("assignment"))
		if err != nil {
			r.Fail("format", "the assignment of member %q does not decode: %v [% x]", id, err, a.B("assignment"))
			continue
		}
		for _, t := range tps {
			if got[t.Topic] == nil {
				got[t.Topic] = map[string][]int32{}
			}
			got[t.Topic][id] = append(got[t.Topic][id], t.Parts...)
		}
	}
	for t, ms := range got {
		for m, ps := range ms {
			if len(ps) > 0 && want[t] == nil {
				r.Fail("invented", "topic %q, which does not exist, is assigned to %q: %v", t, m, ps)
			}
		}
	}
	for _, t := range c.Topics {
		n := 0
		for _, m := range c.Members {
			w, g := want[t.Name][m.ID], append([]int32(nil), got[t.Name][m.ID]...)
			sort.Slice(g, func(i, j int) bool { return g[i] < g[j] })
			if len(w) > 0 {
				n++
			}
			if fmt.Sprint(w) != fmt.Sprint(g) {
				r.Fail("range", "topic %q partitions %v: member %q gets %v, the range assignment is %v", t.Name, t.Parts, m.ID, g, w)
				return
			}
		}
		if n >= 2 {
			r.NonTrivial()
		}
		if n > 0 && n < len(c.Members) {
			r.Class("topic not for everyone")
		}
		if t.Extra {
			r.Class("topic without subscriber listed")
		}
	}
}
