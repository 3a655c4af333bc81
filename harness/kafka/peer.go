package kafka

import (
	"sort"
	"time"

	"verif/wire"
)

// Peer is another member of a consumer group, speaking the protocol correctly by direct calls to the coordinator.
type Peer struct {
	C       *Cluster
	Group   string
	Client  string
	Session time.Duration
	Topics  []string
	ID      string
	Gen     int32
	stop    bool
	crash   bool
	Assign  []wire.TopicParts
	// AssignFor, when set, makes the assignment if the peer leads the group.
	AssignFor func(members map[string][]string) map[string][]wire.TopicParts
}

func (p *Peer) ev(api int, req wire.Obj) (*Broker, *Ev) {
	p.C.Lock()
	defer p.C.Unlock()
	cl := p.Client
	return p.C.Brokers[p.C.CoordinatorOf(p.Group)], &Ev{H: wire.Header{API: api, Client: &cl}, Req: req}
}

func (p *Peer) stopped() bool {
	p.C.Lock()
	defer p.C.Unlock()
	return p.stop || p.crash
}

// Run takes part in the group until Leave or Crash.
func (p *Peer) Run() {
	for !p.stopped() {
		b, ev := p.ev(JoinGroup, wire.Obj{"group_id": p.Group, "session_timeout_ms": p.Session.Milliseconds(), "member_id": p.ID,
			"protocols": []any{wire.Obj{"name": "range", "metadata": wire.EncodeSubscription(0, p.Topics, nil, nil)}}})
		o := p.C.join(b, ev, 0)
		switch o.I("error_code") {
		case 0:
		case 25:
			p.ID = ""
			time.Sleep(time.Millisecond)
			continue
		default:
			time.Sleep(50 * time.Millisecond)
			continue
		}
		p.ID, p.Gen = o.S("member_id"), int32(o.I("generation_id"))
		as := []any{}
		if o.S("leader") == p.ID {
			ms := map[string][]string{}
			for _, m := range o.Objs("members") {
				_, ts, _, _ := wire.DecodeSubscription(m.B("metadata"))
				ms[m.S("member_id")] = ts
			}
			f := p.AssignFor
			if f == nil {
				f = p.C.assignRange
			}
			for id, tps := range f(ms) {
				as = append(as, wire.Obj{"member_id": id, "assignment": wire.EncodeAssignment(0, tps, nil)})
			}
		}
		time.Sleep(2 * time.Millisecond)
		b, ev = p.ev(SyncGroup, wire.Obj{"group_id": p.Group, "generation_id": int64(p.Gen), "member_id": p.ID, "assignments": as})
		o = p.C.sync(b, ev, 0)
		if e := o.I("error_code"); e != 0 {
			if e == 25 {
				p.ID = ""
			}
			time.Sleep(time.Millisecond)
			continue
		}
		_, p.Assign, _, _ = wire.DecodeAssignment(o.B("assignment"))
		for {
			time.Sleep(p.Session / 6)
			if p.stopped() {
				break
			}
			b, ev = p.ev(Heartbeat, wire.Obj{"group_id": p.Group, "generation_id": int64(p.Gen), "member_id": p.ID})
			e := p.C.heartbeat(b, ev, 0).I("error_code")
			if e == 25 {
				p.ID = ""
			}
			if e != 0 {
				break
			}
		}
	}
	p.C.Lock()
	crash := p.crash
	p.C.Unlock()
	if !crash && p.ID != "" {
		b, ev := p.ev(LeaveGroup, wire.Obj{"group_id": p.Group, "member_id": p.ID})
		p.C.leave(b, ev, 0)
	}
}

// Leave makes the peer leave at its next step.
func (p *Peer) Leave() { p.C.Lock(); p.stop = true; p.C.Unlock() }

// Crash makes the peer fall silent.
func (p *Peer) Crash() { p.C.Lock(); p.crash = true; p.C.Unlock() }

func (c *Cluster) assignRange(members map[string][]string) map[string][]wire.TopicParts {
	c.mu.Lock()
	defer c.mu.Unlock()
	out := map[string][]wire.TopicParts{}
	subs := map[string][]string{}
	for m, ts := range members {
		out[m] = nil
		for _, t := range ts {
			subs[t] = append(subs[t], m)
		}
	}
	for t, ms := range subs {
		sort.Strings(ms)
		tp := c.Topics[t]
		if tp == nil {
			continue
		}
		for k, m := range ms {
			x := wire.TopicParts{Topic: t}
			for i := range tp.Parts {
				if i*len(ms)/max(len(tp.Parts), 1) == k {
					x.Parts = append(x.Parts, int32(i))
				}
			}
			if x.Parts != nil {
				out[m] = append(out[m], x)
			}
		}
	}
	return out
}

// Evict removes a member as the coordinator does when its session ends.
func (c *Cluster) Evict(group, id string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	g := c.Group(group)
	m := g.Members[id]
	if m == nil {
		return false
	}
	g.log(c, "evict", id)
	c.removeMember(g, m)
	return true
}

// Rebalance starts a rebalance of a stable group.
func (c *Cluster) Rebalance(group string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	g := c.Group(group)
	if g.State == Stable || g.State == Completing {
		c.prepare(g)
	}
}
