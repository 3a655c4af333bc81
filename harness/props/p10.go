package props

import (
	"fmt"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

type p10Op struct {
	Kind string // wait, peer, leave, crash, evict, rebalance, move, kill, fault, append, addpart
	N    int
	F    kafka.Fault
}

func (o p10Op) String() string {
	if o.Kind == "fault" {
		return "fault " + o.F.String()
	}
	return fmt.Sprintf("%s %d", o.Kind, o.N)
}

type p10Case struct {
	Session  int
	Parts    int
	Brokers  int
	MaxWait  int
	ChanCap  int
	Slow     bool // the application does not read
	Records  int
	MetaAge  int
	PeerLead bool // a peer is in the group first
	Ops      []p10Op
	CloseNow bool // close at the end of the script instead of settling first
	Auto     bool
	Client   string
	Seed     uint64
}

func genP10(d *pbt.D) p10Case {
	c := p10Case{Session: pbt.Pick(d, 6000, 10000, 30000, 3000), Parts: d.Int(1, 4), Brokers: d.Int(1, 3), MaxWait: pbt.Pick(d, 500, 1000, 900, 200), ChanCap: pbt.Pick(d, 0, 3, 100),
		Slow: d.P(1, 3), Records: d.N(12), MetaAge: pbt.Pick(d, 300000, 4000), PeerLead: d.P(1, 3), CloseNow: d.P(1, 2), Auto: d.P(2, 3), Client: pbt.Pick(d, "hc", "", "x y"), Seed: uint64(d.N(1 << 30))}
	net := d.P(1, 3)
	if d.P(5, 6) {
		c.Ops = append(c.Ops, p10Op{Kind: "wait", N: pbt.Pick(d, 60, 200, 1000)})
	}
	for n := d.Int(1, 12); n > 0; n-- {
		switch d.W(7, 3, 2, 1, 1, 2, 2, 2, 4, 1) {
		case 0:
			c.Ops = append(c.Ops, p10Op{Kind: "wait", N: pbt.Pick(d, 1, 30, 400, c.Session/10, c.Session/3, c.Session, 2*c.Session, d.N(c.Session))})
		case 1:
			c.Ops = append(c.Ops, p10Op{Kind: "peer"})
		case 2:
			c.Ops = append(c.Ops, p10Op{Kind: "leave"})
		case 3:
			c.Ops = append(c.Ops, p10Op{Kind: "crash"})
		case 4:
			c.Ops = append(c.Ops, p10Op{Kind: "evict"})
		case 5:
			c.Ops = append(c.Ops, p10Op{Kind: "rebalance"})
		case 6:
			c.Ops = append(c.Ops, p10Op{Kind: "move", N: d.Int(1, c.Brokers)})
		case 7:
			if net {
				c.Ops = append(c.Ops, p10Op{Kind: "kill", N: d.Int(1, c.Brokers)})
			}
		case 8:
			f := kafka.Fault{Broker: -1, API: pbt.Pick(d, kafka.Heartbeat, kafka.Heartbeat, kafka.JoinGroup, kafka.SyncGroup, kafka.FindCoordinator), Skip: d.Skew(3), Times: pbt.Pick(d, 1, 1, 2, 4), Kind: kafka.FErr}
			switch f.API {
			case kafka.Heartbeat:
				f.Code = pbt.Pick(d, int16(27), 22, 25, 15, 16)
			case kafka.JoinGroup:
				f.Code = pbt.Pick(d, int16(25), 15, 16, 14, 22, 27)
			case kafka.SyncGroup:
				f.Code = pbt.Pick(d, int16(27), 22, 25, 15, 16)
			default:
				f.Code = pbt.Pick(d, int16(15), 14, -1)
			}
			if net && d.P(1, 2) {
				f.Kind = pbt.Pick(d, kafka.FClose, kafka.FCloseAft, kafka.FReset, kafka.FTrunc, kafka.FSwallow)
				f.Code = 0
				if f.Kind == kafka.FTrunc {
					f.Arg = d.N(1000)
				}
				if f.Kind == kafka.FSwallow {
					f.Times = 1
				}
			}
			c.Ops = append(c.Ops, p10Op{Kind: "fault", F: f})
		case 9:
			c.Ops = append(c.Ops, p10Op{Kind: "addpart"})
		}
	}
	return c
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P10",
		Level: "exploration",
		Rule: "case = one healer group consumer against a fake coordinator, with peers joining, leaving and falling silent, evictions, forced rebalances, error answers, coordinator moves, partition additions and (a third of the cases) broken connections at generated moments, then a close; " +
			"oracle: a protocol monitor over all join, sync, heartbeat, leave and commit requests (member id, generation, subscription, leader's assignment, heartbeat spacing), no eviction by session timeout without network fault, membership regained after the faults, leave on close; " +
			"non-trivial = at least two generations were joined",
		Quick: 12000, Deep: 300000, Chunk: 60,
		Gen: func(d *pbt.D) any { return genP10(d) },
		Run: func(x any, r *pbt.R) { bubble(r, func() { runP10(r, x.(p10Case)) }) },
		Desc: func(x any) string {
			c := x.(p10Case)
			s := fmt.Sprintf("session %d partitions %d brokers %d max wait %d channel %d slow application %v records %d metadata age %d peer first %v close at once %v auto commit %v client %q seed %d\n", c.Session, c.Parts, c.Brokers, c.MaxWait, c.ChanCap, c.Slow, c.Records, c.MetaAge, c.PeerLead, c.CloseNow, c.Auto, c.Client, c.Seed)
			for _, o := range c.Ops {
				s += fmt.Sprintf("  %s\n", o)
			}
			return s
		},
	})
}

// memberMonitor follows the group requests of one client and checks them against the protocol.
type memberMonitor struct {
	r       *pbt.R
	topic   string
	session int64
	wait    int64 // fetch.max.wait.ms: a member that stops its partitions to rejoin waits for their fetches
	group   string
	ids     map[string]bool // member ids a join may carry now
	id      string          // member id given last
	gen     int64
	joinOK  bool // the last join was answered without error and not superseded
	leader  bool
	synced  time.Duration // time of the last good sync answer, -1 if none in this generation
	beat    time.Duration // last good sign of life
	faulty  bool          // a network fault since
	gens    int
	left    bool
	errAt   time.Duration // a heartbeat was refused then and no join seen since; -1 none
	maxGap  time.Duration
	late    bool
	told    map[string]bool // member ids it was told are unknown
}

func (m *memberMonitor) request(ev *kafka.Ev) {
	r := m.r
	switch ev.H.API {
	case kafka.JoinGroup, kafka.SyncGroup, kafka.Heartbeat, kafka.LeaveGroup, kafka.OffsetCommit:
	default:
		return
	}
	if ev.Err != nil {
		r.Fail("decode", "api %d request does not decode: %v", ev.H.API, ev.Err)
		return
	}
	if g := ev.Req.S("group_id"); g != m.group {
		r.Fail("group", "api %d request names group %q", ev.H.API, g)
	}
	mid := ev.Req.S("member_id")
	switch ev.H.API {
	case kafka.JoinGroup:
		m.gap(ev.T)
		if !m.ids[mid] {
			r.Fail("joinid", "join at %v carries member id %q, acceptable are %v", ev.T, mid, m.ids)
		}
		if t := ev.Req.S("protocol_type"); t != "consumer" {
			r.Fail("join", "protocol type %q", t)
		}
		if s := ev.Req.I("session_timeout_ms"); s != m.session {
			r.Fail("join", "session timeout %d, configured %d", s, m.session)
		}
		ps := ev.Req.Objs("protocols")
		if len(ps) == 0 {
			r.Fail("join", "no protocol offered")
		}
		for _, p := range ps {
			_, ts, _, err := wire.DecodeSubscription(p.B("metadata"))
			if err != nil || len(ts) != 1 || ts[0] != m.topic {
				r.Fail("join", "subscription %q (%v), expected %q", ts, err, m.topic)
			}
		}
		m.joinOK, m.synced, m.errAt = false, -1, -1
	case kafka.SyncGroup:
		if !m.joinOK || mid != m.id || ev.Req.I("generation_id") != m.gen {
			r.Fail("sync", "sync at %v with member %q generation %d; last join gave %q %d (valid %v)", ev.T, mid, ev.Req.I("generation_id"), m.id, m.gen, m.joinOK)
		}
		n := len(ev.Req.A("assignments"))
		if m.leader && n == 0 {
			r.Fail("sync", "the leader's sync at %v carries no assignment", ev.T)
		}
		if !m.leader && n > 0 {
			r.Fail("sync", "a follower's sync at %v carries an assignment", ev.T)
		}
	case kafka.Heartbeat, kafka.OffsetCommit:
		if ev.H.API == kafka.OffsetCommit && ev.H.Version == 0 {
			return
		}
		if mid != m.id || ev.Req.I("generation_id") != m.gen {
			r.Fail("beat", "api %d at %v with member %q generation %d; last join gave %q %d", ev.H.API, ev.T, mid, ev.Req.I("generation_id"), m.id, m.gen)
		}
		if ev.H.API == kafka.Heartbeat {
			m.gap(ev.T)
		}
	case kafka.LeaveGroup:
		if mid != m.id {
			r.Fail("leave", "leave at %v with member %q; last join gave %q", ev.T, mid, m.id)
		}
	}
}

// gap checks the time since the last sign of life.
func (m *memberMonitor) gap(now time.Duration) {
	if m.synced >= 0 && !m.faulty && m.errAt < 0 {
		g := now - m.beat
		m.maxGap = max(m.maxGap, g)
		if g > time.Duration(max(m.session/3, m.wait+m.session/10)+100)*time.Millisecond {
			m.r.Fail("cadence", "no heartbeat between %v and %v with a session timeout of %d ms", m.beat, now, m.session)
		}
	}
	if m.errAt >= 0 && !m.faulty && now-m.errAt > time.Duration(m.session)*time.Millisecond {
		m.late = true
	}
}

func (m *memberMonitor) answer(ev *kafka.Ev) {
	code := ev.Resp.I("error_code")
	mid := ev.Req.S("member_id")
	if code == 25 && mid != "" {
		m.told[mid] = true
		m.ids[""] = true
	}
	switch ev.H.API {
	case kafka.JoinGroup:
		if code == 0 {
			m.id, m.gen, m.joinOK = ev.Resp.S("member_id"), ev.Resp.I("generation_id"), true
			m.ids = map[string]bool{m.id: true}
			m.leader = ev.Resp.S("leader") == m.id
			m.gens++
		}
	case kafka.SyncGroup:
		if code == 0 {
			m.synced, m.beat, m.faulty = ev.Done, ev.Done, false
		} else {
			m.joinOK = false
		}
	case kafka.Heartbeat:
		if code == 0 {
			m.beat, m.faulty = ev.Done, false
		} else if m.errAt < 0 {
			m.errAt = ev.Done
		}
	case kafka.LeaveGroup:
		if code == 0 {
			m.left = true
			m.ids[""] = true
		}
	}
}

func runP10(r *pbt.R, c p10Case) {
	cl := kafka.New(c.Brokers, c.Seed)
	cl.Install()
	var leaders []int32
	for i := 0; i < c.Parts; i++ {
		leaders = append(leaders, 1+int32(i)%int32(c.Brokers))
	}
	t := cl.AddTopic("logs", leaders...)
	coord := cl.Order[int(c.Seed)%len(cl.Order)]
	cl.Coordinator = func(string) int32 { return coord }
	for i := range t.Parts {
		var k logChunk
		for j := 0; j < c.Records; j++ {
			k.Recs = append(k.Recs, logRec{Value: []byte("v")})
		}
		if c.Records > 0 {
			k.Magic = 2
			store(t.Parts[i], []logChunk{k})
		}
	}
	g := cl.Group("g")
	m := &memberMonitor{r: r, topic: "logs", session: int64(c.Session), wait: int64(c.MaxWait), group: "g", ids: map[string]bool{"": true}, told: map[string]bool{}, synced: -1, errAt: -1}
	var pending []*kafka.Ev
	netFaults := false
	settleAnswers := func() {
		for {
			n := 0
			for _, e := range pending {
				if e.Done >= 0 {
					m.answer(e)
				} else if e.Fault != "" && e.Fault != kafka.FErr && e.Fault != kafka.FDelay {
					m.faulty = true
				} else {
					pending[n] = e
					n++
				}
			}
			if n == len(pending) {
				return
			}
			pending = pending[:n]
		}
	}
	cl.OnEvent = func(ev *kafka.Ev) {
		cl.Lock()
		defer cl.Unlock()
		settleAnswers()
		m.request(ev)
		switch ev.H.API {
		case kafka.JoinGroup, kafka.SyncGroup, kafka.Heartbeat, kafka.LeaveGroup:
			pending = append(pending, ev)
		}
	}
	cfg := map[string]interface{}{"bootstrap.servers": cl.Bootstrap(), "fetch.max.wait.ms": c.MaxWait, "from.beginning": true, "group.id": "g", "session.timeout.ms": c.Session,
		"auto.commit": c.Auto, "auto.commit.interval.ms": 1000, "metadata.max.age.ms": c.MetaAge, "net": map[string]interface{}{"connect.timeout.ms": 1000, "timeout.ms": 1500}}
	if c.Client != "" {
		cfg["client.id"] = c.Client
	}
	defer noteHistory(r, cl)
	session := time.Duration(c.Session) * time.Millisecond
	var peers []*kafka.Peer
	addPeer := func() {
		p := &kafka.Peer{C: cl, Group: "g", Client: fmt.Sprintf("peer%d", len(peers)), Session: session, Topics: []string{"logs"}}
		peers = append(peers, p)
		go p.Run()
	}
	if c.PeerLead {
		addPeer()
		time.Sleep(100 * time.Millisecond)
	}
	var gc *healer.GroupConsumer
	var err error
	if !guarded(r, "NewGroupConsumer", time.Minute, func() { gc, err = healer.NewGroupConsumer("logs", cfg) }) || err != nil {
		r.Fail("setup", "creating the group consumer failed: %v", err)
		return
	}
	ch := make(chan *healer.FullMessage, c.ChanCap)
	if !c.Slow {
		go func() {
			for range ch {
			}
		}()
	}
	consumed := make(chan bool, 1)
	go func() { gc.Consume(ch); consumed <- true }()
	gone := 0
	for _, o := range c.Ops {
		switch o.Kind {
		case "wait":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		case "peer":
			if len(peers)-gone < 3 {
				addPeer()
			}
		case "leave", "crash":
			if gone < len(peers) {
				if o.Kind == "leave" {
					peers[gone].Leave()
				} else {
					peers[gone].Crash()
				}
				gone++
			}
		case "evict":
			cl.Evict("g", m.id)
		case "rebalance":
			cl.Rebalance("g")
		case "move":
			cl.Lock()
			coord = int32(o.N)
			cl.Unlock()
		case "kill":
			netFaults = true
			cl.Lock()
			settleAnswers()
			m.faulty = true
			cl.Unlock()
			cl.KillConns(int32(o.N), false)
		case "fault":
			f := o.F
			if f.Kind != kafka.FErr {
				netFaults = true
			}
			cl.Lock()
			cl.Faults = append(cl.Faults, &f)
			cl.Unlock()
		case "addpart":
			cl.Lock()
			cl.AddPart("logs", 1)
			cl.Unlock()
		}
		if r.Failed() {
			return
		}
	}
	cl.ClearFaults()
	if !c.CloseNow {
		// membership is regained and kept
		stable := func() bool {
			cl.Lock()
			defer cl.Unlock()
			settleAnswers()
			return g.State == kafka.Stable && m.synced >= 0 && m.errAt < 0 && g.Members[m.id] != nil && int64(g.Gen) == m.gen
		}
		if !until(4*session+90*time.Second, 100*time.Millisecond, stable) {
			r.Fail("regain", "the consumer is not a stable member 90 s and 4 sessions after the last fault: group state %d generation %d, member id %q generation %d synced %v", g.State, g.Gen, m.id, m.gen, m.synced)
			return
		}
		// zombies of lost joins may still expire; then it has to stay
		time.Sleep(2 * session)
		if !until(4*session+30*time.Second, 100*time.Millisecond, stable) {
			r.Fail("regain", "the consumer does not stay a member")
			return
		}
	}
	cl.Lock()
	settleAnswers()
	inGroup := m.synced >= 0 && m.errAt < 0 && m.joinOK && g.Members[m.id] != nil && !m.faulty && coord == cl.CoordinatorOf("g")
	if c.CloseNow {
		for _, e := range pending { // an answer under way may still change its mind
			_ = e
			inGroup = false
		}
		for _, o := range c.Ops {
			if o.Kind == "move" || o.Kind == "kill" {
				inGroup = false
			}
		}
	}
	id := m.id
	cl.Unlock()
	closing := cl.Now()
	if !guarded(r, "Close", 2*time.Minute, gc.Close) {
		r.Fail("hang", "Close did not return within 2 minutes")
		return
	}
	time.Sleep(5 * time.Millisecond)
	cl.Lock()
	settleAnswers()
	if inGroup && (!m.left || g.Members[id] != nil) {
		r.Fail("noleave", "after Close the consumer %q has not left the group (leave answered %v)", id, m.left)
	}
	for _, e := range g.Log {
		if e.What == "expire" && !netFaults && !isPeer(e.Member) && !m.told[e.Member] && e.T < closing {
			r.Fail("evicted", "the coordinator evicted the consumer %q at %v though it was never out of reach", e.Member, e.T)
		}
	}
	if m.late && !netFaults {
		r.Fail("late", "the consumer did not rejoin within a session timeout after its heartbeat was refused")
	}
	cl.Unlock()
	if m.gens >= 2 {
		r.NonTrivial()
	}
	r.Class(fmt.Sprintf("generations joined %d", min(m.gens, 6)))
	if m.leader {
		r.Class("leader in the last generation")
	}
	if netFaults {
		r.Class("with broken connections")
	}
}

func isPeer(id string) bool { return len(id) > 4 && id[:4] == "peer" }
