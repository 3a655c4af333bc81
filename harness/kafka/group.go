package kafka

import (
	"fmt"
	"time"

	"verif/wire"
)

// Group states.
const (
	Empty = iota
	Preparing
	Completing
	Stable
)

type Member struct {
	ID      string
	Client  string
	Meta    []byte
	Proto   string
	Session time.Duration
	timer   *time.Timer
	joinCh  chan wire.Obj
	syncCh  chan wire.Obj
	Assign  []byte
	joined  bool // has (re)joined in the rebalance under way
}

type OffsetKey struct {
	Topic string
	Part  int32
}

// Commit is one accepted offset commit.
type Commit struct {
	T      time.Duration
	Member string
	Gen    int32
	Key    OffsetKey
	Offset int64
}

type Group struct {
	ID       string
	Gen      int32
	State    int
	Members  map[string]*Member
	Order    []string
	Leader   string
	Offsets  map[OffsetKey]int64
	Commits  []Commit
	nextID   int
	deadline *time.Timer
	Log      []GroupEv
}

// GroupEv is a coordinator-side event.
type GroupEv struct {
	T      time.Duration
	What   string // join, sync-leader, stable, leave, expire, rebalance
	Member string
	Gen    int32
	Assign map[string][]byte
}

func (c *Cluster) Group(id string) *Group {
	g := c.Groups[id]
	if g == nil {
		g = &Group{ID: id, Members: map[string]*Member{}, Offsets: map[OffsetKey]int64{}}
		c.Groups[id] = g
	}
	return g
}

func (g *Group) log(c *Cluster, what, m string) {
	g.Log = append(g.Log, GroupEv{T: c.Now(), What: what, Member: m, Gen: g.Gen})
}

func (c *Cluster) touch(g *Group, m *Member) {
	if m.timer != nil {
		m.timer.Stop()
	}
	m.timer = time.AfterFunc(m.Session, func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		if g.Members[m.ID] != m || m.joinCh != nil || m.syncCh != nil {
			return
		}
		g.log(c, "expire", m.ID)
		c.removeMember(g, m)
	})
}

func (c *Cluster) removeMember(g *Group, m *Member) {
	if m.timer != nil {
		m.timer.Stop()
	}
	delete(g.Members, m.ID)
	for i, id := range g.Order {
		if id == m.ID {
			g.Order = append(g.Order[:i:i], g.Order[i+1:]...)
			break
		}
	}
	if m.joinCh != nil {
		m.joinCh <- wire.Obj{"error_code": int64(25)}
		m.joinCh = nil
	}
	if m.syncCh != nil {
		m.syncCh <- wire.Obj{"error_code": int64(25)}
		m.syncCh = nil
	}
	if len(g.Members) == 0 {
		g.State = Empty
		g.Leader = ""
		if g.deadline != nil {
			g.deadline.Stop()
			g.deadline = nil
		}
		return
	}
	if g.State == Stable || g.State == Completing {
		c.prepare(g)
	} else if g.State == Preparing {
		c.maybeComplete(g)
	}
}

// prepare starts a rebalance.
func (c *Cluster) prepare(g *Group) {
	g.log(c, "rebalance", "")
	wasEmpty := g.State == Empty
	g.State = Preparing
	for _, m := range g.Members {
		m.joined = m.joinCh != nil
		if m.syncCh != nil {
			m.syncCh <- wire.Obj{"error_code": int64(27)}
			m.syncCh = nil
			c.touch(g, m)
		}
	}
	d := c.GroupDelay
	if !wasEmpty {
		d = 0
		for _, m := range g.Members {
			d = max(d, m.Session)
		}
	}
	if g.deadline != nil {
		g.deadline.Stop()
	}
	var t *time.Timer
	t = time.AfterFunc(d, func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		if g.State != Preparing || g.deadline != t {
			return
		}
		for _, m := range append([]string(nil), g.Order...) {
			if x := g.Members[m]; x != nil && !x.joined {
				g.log(c, "expire", m)
				if x.timer != nil {
					x.timer.Stop()
				}
				delete(g.Members, m)
				for i, id := range g.Order {
					if id == m {
						g.Order = append(g.Order[:i:i], g.Order[i+1:]...)
						break
					}
				}
			}
		}
		if len(g.Members) == 0 {
			g.State = Empty
			return
		}
		c.complete(g)
	})
	g.deadline = t
	if !wasEmpty {
		c.maybeComplete(g)
	}
}

func (c *Cluster) maybeComplete(g *Group) {
	for _, m := range g.Members {
		if !m.joined {
			return
		}
	}
	c.complete(g)
}

func (c *Cluster) complete(g *Group) {
	if g.deadline != nil {
		g.deadline.Stop()
		g.deadline = nil
	}
	g.Gen++
	g.State = Completing
	if g.Members[g.Leader] == nil {
		g.Leader = g.Order[0]
	}
	g.log(c, "generation", g.Leader)
	var ms []any
	for _, id := range g.Order {
		ms = append(ms, wire.Obj{"member_id": id, "metadata": g.Members[id].Meta})
	}
	for _, id := range g.Order {
		m := g.Members[id]
		o := wire.Obj{"error_code": int64(0), "generation_id": int64(g.Gen), "protocol_name": m.Proto, "leader": g.Leader, "member_id": id, "members": []any{}}
		if id == g.Leader {
			o["members"] = ms
		}
		m.joined = false
		m.Assign = nil
		if m.joinCh != nil {
			m.joinCh <- o
			m.joinCh = nil
		}
		c.touch(g, m)
	}
}

func (c *Cluster) wrongCoordinator(b *Broker, group string) bool {
	return c.CoordinatorOf(group) != b.ID
}

func (c *Cluster) join(b *Broker, ev *Ev, code int16) wire.Obj {
	c.mu.Lock()
	fail := func(e int16) wire.Obj {
		c.mu.Unlock()
		return wire.Obj{"error_code": int64(e), "generation_id": int64(-1), "member_id": ev.Req.S("member_id")}
	}
	if code != 0 {
		return fail(code)
	}
	gid := ev.Req.S("group_id")
	if c.wrongCoordinator(b, gid) {
		return fail(16)
	}
	g := c.Group(gid)
	mid := ev.Req.S("member_id")
	m := g.Members[mid]
	if mid != "" && m == nil {
		return fail(25)
	}
	if len(ev.Req.A("protocols")) == 0 {
		return fail(23)
	}
	if mid == "" {
		g.nextID++
		cl := ""
		if ev.H.Client != nil {
			cl = *ev.H.Client
		}
		mid = fmt.Sprintf("%s-%04d", cl, g.nextID)
		m = &Member{ID: mid, Client: cl}
		g.Members[mid] = m
		g.Order = append(g.Order, mid)
	}
	pr := ev.Req.Objs("protocols")[0]
	m.Proto, m.Meta = pr.S("name"), pr.B("metadata")
	m.Session = time.Duration(ev.Req.I("session_timeout_ms")) * time.Millisecond
	if m.joinCh != nil { // superseded request
		m.joinCh <- wire.Obj{"error_code": int64(25)}
	}
	ch := make(chan wire.Obj, 1)
	m.joinCh = ch
	m.joined = true
	if m.timer != nil {
		m.timer.Stop()
	}
	g.log(c, "join", mid)
	switch g.State {
	case Preparing:
		c.maybeCompleteUnlessInitial(g)
	default:
		c.prepare(g)
	}
	c.mu.Unlock()
	return <-ch
}

// maybeCompleteUnlessInitial lets the initial delay run for a group that was empty.
func (c *Cluster) maybeCompleteUnlessInitial(g *Group) {
	if g.Gen == 0 {
		return
	}
	c.maybeComplete(g)
}

func (c *Cluster) checkMember(b *Broker, ev *Ev, code int16) (*Group, *Member, int16) {
	if code != 0 {
		return nil, nil, code
	}
	gid := ev.Req.S("group_id")
	if c.wrongCoordinator(b, gid) {
		return nil, nil, 16
	}
	g := c.Group(gid)
	m := g.Members[ev.Req.S("member_id")]
	if m == nil {
		return g, nil, 25
	}
	return g, m, 0
}

func (c *Cluster) sync(b *Broker, ev *Ev, code int16) wire.Obj {
	c.mu.Lock()
	g, m, e := c.checkMember(b, ev, code)
	if e == 0 && int64(g.Gen) != ev.Req.I("generation_id") {
		e = 22
	}
	if e == 0 && g.State == Preparing {
		e = 27
	}
	if e != 0 {
		c.mu.Unlock()
		return wire.Obj{"error_code": int64(e), "assignment": []byte{}}
	}
	c.touch(g, m)
	if g.State == Stable {
		a := m.Assign
		c.mu.Unlock()
		return wire.Obj{"error_code": int64(0), "assignment": a}
	}
	ch := make(chan wire.Obj, 1)
	m.syncCh = ch
	if m.timer != nil {
		m.timer.Stop()
	}
	if m.ID == g.Leader {
		as := map[string][]byte{}
		for _, a := range ev.Req.Objs("assignments") {
			as[a.S("member_id")] = a.B("assignment")
		}
		g.State = Stable
		g.Log = append(g.Log, GroupEv{T: c.Now(), What: "stable", Member: m.ID, Gen: g.Gen, Assign: as})
		for _, id := range g.Order {
			x := g.Members[id]
			x.Assign = as[id]
			if x.syncCh != nil {
				x.syncCh <- wire.Obj{"error_code": int64(0), "assignment": x.Assign}
				x.syncCh = nil
			}
			c.touch(g, x)
		}
	}
	c.mu.Unlock()
	return <-ch
}

func (c *Cluster) heartbeat(b *Broker, ev *Ev, code int16) wire.Obj {
	c.mu.Lock()
	defer c.mu.Unlock()
	g, m, e := c.checkMember(b, ev, code)
	if e == 0 && int64(g.Gen) != ev.Req.I("generation_id") {
		e = 22
	}
	if e == 0 {
		c.touch(g, m)
		if g.State == Preparing {
			e = 27
		}
	}
	return wire.Obj{"error_code": int64(e)}
}

func (c *Cluster) leave(b *Broker, ev *Ev, code int16) wire.Obj {
	c.mu.Lock()
	defer c.mu.Unlock()
	g, m, e := c.checkMember(b, ev, code)
	if e == 0 {
		g.log(c, "leave", m.ID)
		c.removeMember(g, m)
	}
	return wire.Obj{"error_code": int64(e)}
}

func (c *Cluster) offsetCommit(b *Broker, ev *Ev, code int16) wire.Obj {
	c.mu.Lock()
	defer c.mu.Unlock()
	gid := ev.Req.S("group_id")
	e := code
	g := c.Group(gid)
	if e == 0 && c.wrongCoordinator(b, gid) {
		e = 16
	}
	if e == 0 && ev.H.Version >= 1 {
		gen := ev.Req.I("generation_id")
		mid := ev.Req.S("member_id")
		if gen < 0 && len(g.Members) == 0 {
			// simple consumer
		} else if m := g.Members[mid]; m == nil {
			e = 25
		} else if int64(g.Gen) != gen {
			e = 22
		} else if g.State == Completing {
			e = 27
			c.touch(g, m)
		} else {
			c.touch(g, m)
		}
	}
	var ts []any
	for _, t := range ev.Req.Objs("topics") {
		var ps []any
		for _, p := range t.Objs("partitions") {
			if e == 0 {
				k := OffsetKey{t.S("name"), int32(p.I("index"))}
				g.Offsets[k] = p.I("offset")
				g.Commits = append(g.Commits, Commit{T: c.Now(), Member: ev.Req.S("member_id"), Gen: int32(ev.Req.I("generation_id")), Key: k, Offset: p.I("offset")})
			}
			ps = append(ps, wire.Obj{"index": p.I("index"), "error_code": int64(e)})
		}
		ts = append(ts, wire.Obj{"name": t.S("name"), "partitions": ps})
	}
	return wire.Obj{"topics": ts}
}

func (c *Cluster) offsetFetch(b *Broker, ev *Ev, code int16) wire.Obj {
	c.mu.Lock()
	defer c.mu.Unlock()
	gid := ev.Req.S("group_id")
	e := code
	if e == 0 && c.wrongCoordinator(b, gid) {
		e = 16
	}
	g := c.Group(gid)
	var ts []any
	for _, t := range ev.Req.Objs("topics") {
		var ps []any
		for _, p := range t.A("partitions") {
			off := int64(-1)
			if e == 0 {
				if o, ok := g.Offsets[OffsetKey{t.S("name"), int32(p.(int64))}]; ok {
					off = o
				}
			}
			var md any = ""
			if c.rng.IntN(2) == 0 {
				md = nil
			}
			ps = append(ps, wire.Obj{"index": p, "offset": off, "metadata": md, "error_code": int64(e)})
		}
		ts = append(ts, wire.Obj{"name": t.S("name"), "partitions": ps})
	}
	return wire.Obj{"topics": ts}
}
