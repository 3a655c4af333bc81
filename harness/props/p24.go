package props

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// P24: which partitions a Consumer reads, and that each of them is read in order, once, from its start position.

type p24Topic struct {
	Name    string
	Leaders []int32
	Stored  []int   // chunks stored per partition
	Lag     []int64 // first offset
	Commit  []int64 // committed offset, -1 none
	Later   []int   // records appended while consuming
	Dark    []int   // ms until the partition has a leader: 0 from the start, -1 never
	Err     int     // ms the topic has error 5 (with no partitions listed) from the start
}

type p24Case struct {
	Brokers int
	Topics  []p24Topic
	Via     string // new, subscribe, assign
	Sub     []int  // indexes of topics
	Parts   map[string][]int
	Old     []int // subscribed before
	FromBeg bool
	Group   bool
	Cap     int
	MaxM    int // metadata version
	Faults  []kafka.Fault
	Moves   [][3]int // at ms, topic/partition pick, broker
	Again   bool     // read the list of partitions given to Assign again after it has been changed by the caller
	Seg     int
}

func (c p24Case) String() string {
	s := fmt.Sprintf("%d brokers, via %s %v %v (before %v), from.beginning %v, group %v, channel of %d, metadata up to v%d, segmentation %d\n", c.Brokers, c.Via, c.Sub, c.Parts, c.Old, c.FromBeg, c.Group, c.Cap, c.MaxM, c.Seg)
	for i, t := range c.Topics {
		s += fmt.Sprintf("  topic %d %s leaders %v stored %v from %v committed %v later %v dark %v err %d ms\n", i, t.Name, t.Leaders, t.Stored, t.Lag, t.Commit, t.Later, t.Dark, t.Err)
	}
	for _, f := range c.Faults {
		s += "  fault " + f.String() + "\n"
	}
	for _, m := range c.Moves {
		s += fmt.Sprintf("  at %d ms partition %d moves to broker %d\n", m[0], m[1], m[2])
	}
	return s
}

func genP24(d *pbt.D) any {
	c := p24Case{Brokers: 1 + d.N(3), Via: pbt.Pick(d, "new", "subscribe", "assign", "assign"), FromBeg: d.P(2, 3), Group: d.P(1, 3), Cap: pbt.Pick(d, 0, 1, 100), MaxM: pbt.Pick(d, 7, 7, 4, 1), Seg: d.W(5, 1)}
	for n := 1 + d.N(4); n > 0; n-- {
		t := p24Topic{Name: fmt.Sprintf("t%d", len(c.Topics))}
		if len(c.Topics) > 0 && d.P(1, 4) { // names that share a prefix
			t.Name = c.Topics[len(c.Topics)-1].Name + pbt.Pick(d, "0", ".", "-x")
		}
		for p := pbt.Pick(d, 1, 1, 2, 3, 5); p > 0; p-- {
			t.Leaders = append(t.Leaders, int32(1+d.N(c.Brokers)))
			t.Stored = append(t.Stored, d.W(1, 1, 1)*d.N(6))
			t.Lag = append(t.Lag, int64(d.W(2, 1)*d.Skew(100)))
			cm := int64(-1)
			if d.P(1, 2) {
				cm = t.Lag[len(t.Lag)-1] + int64(d.N(t.Stored[len(t.Stored)-1]+1))
			}
			t.Commit = append(t.Commit, cm)
			t.Later = append(t.Later, d.W(1, 2)*d.N(4))
			dark := 0
			if d.P(1, 8) {
				dark = pbt.Pick(d, -1, 500, 5000, 20000)
			}
			t.Dark = append(t.Dark, dark)
		}
		if d.P(1, 12) {
			t.Err = pbt.Pick(d, 100, 3000)
		}
		c.Topics = append(c.Topics, t)
	}
	pick := func() (s []int) {
		for i := range c.Topics {
			if d.P(3, 5) {
				s = append(s, i)
			}
		}
		return
	}
	c.Sub = pick()
	if len(c.Sub) == 0 && d.P(5, 6) {
		c.Sub = []int{0}
	}
	if c.Via != "new" {
		c.Old = pick()
	}
	if c.Via == "assign" {
		c.Parts = map[string][]int{}
		for _, i := range c.Sub {
			t := c.Topics[i]
			var ps []int
			if !d.P(1, 6) { // an empty list means all
				for p := range t.Leaders {
					if d.P(1, 2) {
						ps = append(ps, p)
						if d.P(1, 10) {
							ps = append(ps, p)
						}
					}
				}
				if d.P(1, 10) {
					ps = append(ps, len(t.Leaders)+d.N(3)) // there is no such partition (yet)
				}
				if len(ps) == 0 {
					ps = append(ps, d.N(len(t.Leaders)))
				}
				pm := d.Perm(len(ps))
				q := make([]int, len(ps))
				for i, k := range pm {
					q[i] = ps[k]
				}
				ps = q
			}
			c.Parts[t.Name] = ps
		}
	}
	for n := d.W(3, 1, 1); n > 0; n-- {
		c.Faults = append(c.Faults, genP07Fault(d))
	}
	for n := d.W(3, 1, 1); n > 0; n-- {
		c.Moves = append(c.Moves, [3]int{d.Skew(4000), d.N(20), 1 + d.N(c.Brokers)})
	}
	return c
}

func runP24(r *pbt.R, c p24Case) {
	cl := kafka.New(c.Brokers, 1)
	cl.Seg = c.Seg
	cl.Install()
	for _, b := range cl.Brokers {
		b.Ranges[kafka.Metadata] = [2]int{0, c.MaxM}
		if c.MaxM < 7 { // leader epochs came to both APIs together
			b.Ranges[kafka.Fetch] = [2]int{0, 8}
		}
	}
	type tp struct {
		t string
		p int
	}
	want := map[tp]int64{} // selected partitions and their start position
	final := map[tp]int64{}
	parts := map[tp]*kafka.Part{}
	bright := map[tp]bool{} // it has a leader at some time
	var all []tp
	n := 1
	for _, t := range c.Topics {
		kt := cl.AddTopic(t.Name, t.Leaders...)
		for i, p := range kt.Parts {
			p.Start, p.Next = t.Lag[i], t.Lag[i]
			for k := 0; k < t.Stored[i]; k++ {
				store(p, []logChunk{probeChunk(n)})
				n++
			}
			k := tp{t.Name, i}
			parts[k] = p
			all = append(all, k)
			if c.Group && t.Commit[i] >= 0 {
				cl.Group("g").Offsets[kafka.OffsetKey{Topic: t.Name, Part: int32(i)}] = t.Commit[i]
			}
			bright[k] = t.Dark[i] >= 0
			if t.Dark[i] != 0 {
				p.Leader, p.Err = -1, 5
				if t.Dark[i] > 0 {
					l := t.Leaders[i]
					go func() {
						time.Sleep(time.Duration(t.Dark[i]) * time.Millisecond)
						cl.MoveLeader(t.Name, i, l)
						cl.Lock()
						p.Err = 0
						cl.Unlock()
					}()
				}
			}
		}
		if t.Err > 0 {
			kt.Err = 5
			kt.Hidden = map[int]bool{}
			for i := range kt.Parts {
				kt.Hidden[i] = true
			}
			go func() {
				time.Sleep(time.Duration(t.Err) * time.Millisecond)
				cl.Lock()
				kt.Err, kt.Hidden = 0, nil
				cl.Unlock()
			}()
		}
	}
	for i := range c.Faults {
		f := c.Faults[i]
		cl.Faults = append(cl.Faults, &f)
	}
	for _, m := range c.Moves {
		go func() {
			time.Sleep(time.Duration(m[0]) * time.Millisecond)
			k := all[m[1]%len(all)]
			if parts[k].Leader >= 0 {
				cl.MoveLeader(k.t, k.p, int32(m[2]))
			}
		}()
	}
	var names, old []string
	assign := map[string][]int{}
	for _, i := range c.Sub {
		t := c.Topics[i]
		names = append(names, t.Name)
		ps := c.Parts[t.Name]
		if len(ps) == 0 {
			for p := range t.Leaders {
				ps = append(ps, p)
			}
		}
		for _, p := range ps {
			if p < len(t.Leaders) {
				pos := t.Lag[p] + int64(t.Stored[p])
				if c.FromBeg {
					pos = t.Lag[p]
				}
				if c.Group && t.Commit[p] >= 0 {
					pos = t.Commit[p]
				}
				want[tp{t.Name, p}] = pos
			} else {
				r.Class("partition that does not exist")
			}
		}
		if c.Parts != nil {
			assign[t.Name] = append([]int{}, c.Parts[t.Name]...)
		}
	}
	for _, i := range c.Old {
		old = append(old, c.Topics[i].Name)
	}
	cfg := map[string]interface{}{"bootstrap.servers": cl.Bootstrap(), "fetch.max.wait.ms": 1000, "from.beginning": c.FromBeg, "retry.backoff.ms": 200, "auto.commit": false,
		"net": map[string]interface{}{"connect.timeout.ms": 1500, "timeout.ms": 2000}}
	if c.Group {
		cfg["group.id"] = "g"
	}
	var k *healer.Consumer
	var err error
	ch := make(chan *healer.FullMessage, c.Cap)
	if !guarded(r, "creating the consumer", time.Minute, func() {
		switch c.Via {
		case "new":
			k, err = healer.NewConsumer(cfg, names...)
		default:
			k, err = healer.NewConsumer(cfg, old...)
			if err == nil && c.Via == "subscribe" {
				k.Subscribe(names...)
			} else if err == nil {
				k.Assign(assign)
			}
		}
	}) || r.Failed() {
		if !r.Failed() {
			r.Fail("hang:create", "creating the consumer did not return")
		}
		return
	}
	if err != nil { // the faults
		r.Class("not created")
		return
	}
	var mu sync.Mutex
	got := map[tp][]*healer.FullMessage{}
	done := make(chan struct{})
	defer close(done)
	go func() {
		for {
			select {
			case m := <-ch:
				mu.Lock()
				x := tp{m.TopicName, int(m.PartitionID)}
				got[x] = append(got[x], m)
				mu.Unlock()
			case <-done:
				return
			}
		}
	}()
	go func() {
		defer func() {
			if e := recover(); e != nil {
				r.Fail("panic", "Consume: %v", e)
			}
		}()
		k.Consume(ch)
	}()
	fetched := func(x tp) bool {
		for _, e := range cl.Events(kafka.Fetch) {
			for _, t := range e.Req.A("topics") {
				for _, p := range t.(wire.Obj).A("partitions") {
					if t.(wire.Obj).S("name") == x.t && int(p.(wire.Obj).I("index")) == x.p {
						return true
					}
				}
			}
		}
		return false
	}
	missing := func() (m []tp) {
		for x := range want {
			if bright[x] && !fetched(x) {
				m = append(m, x)
			}
		}
		return
	}
	if !until(3*time.Minute, 200*time.Millisecond, func() bool { return r.Failed() || len(missing()) == 0 }) {
		r.Fail("starved", "%v of the selected partitions have a leader but nothing was fetched from them", missing())
		noteHistory(r, cl)
		return
	}
	for i, t := range c.Topics {
		_ = i
		for p := range t.Leaders {
			x := tp{t.Name, p}
			for j := 0; j < t.Later[p]; j++ {
				cl.Lock()
				store(parts[x], []logChunk{probeChunk(n)})
				cl.Unlock()
				n++
			}
			final[x] = parts[x].Next
		}
	}
	count := func(x tp) int {
		mu.Lock()
		defer mu.Unlock()
		return len(got[x])
	}
	until(3*time.Minute, 200*time.Millisecond, func() bool {
		for x, pos := range want {
			if bright[x] && count(x) < int(final[x]-pos) {
				return false
			}
		}
		return true
	})
	time.Sleep(20 * time.Second) // what comes too much
	if !guarded(r, "closing", 2*time.Minute, func() { k.AwaitClose(time.Minute) }) && !r.Failed() {
		r.Fail("hang:close", "AwaitClose did not return")
	}
	mu.Lock()
	defer mu.Unlock()
	for x, ms := range got {
		pos, ok := want[x]
		if !ok {
			r.Fail("foreign", "%d messages of %v delivered, which is not selected", len(ms), x)
			continue
		}
		for i, m := range ms {
			if m.Error != nil {
				r.Fail("error", "%v: message with error %v", x, m.Error)
			} else if m.Message.Offset != pos+int64(i) {
				r.Fail("order", "%v: delivery %d has offset %d instead of %d", x, i, m.Message.Offset, pos+int64(i))
				break
			}
		}
	}
	keys := []string{}
	for x, pos := range want {
		if bright[x] && len(got[x]) < int(final[x]-pos) {
			keys = append(keys, fmt.Sprintf("%v: %d of %d", x, len(got[x]), final[x]-pos))
		}
	}
	sort.Strings(keys)
	if len(keys) > 0 {
		r.Fail("lost", "messages delivered: %s", strings.Join(keys, ", "))
	}
	for _, e := range cl.Events(kafka.Fetch) {
		for _, t := range e.Req.A("topics") {
			for _, p := range t.(wire.Obj).A("partitions") {
				x := tp{t.(wire.Obj).S("name"), int(p.(wire.Obj).I("index"))}
				if _, ok := want[x]; !ok {
					r.Fail("foreign", "a fetch of %v, which is not selected", x)
				}
			}
		}
	}
	sel := 0
	for x := range want {
		if bright[x] {
			sel++
		}
	}
	if sel > 1 || sel < len(all) {
		r.NonTrivial()
	}
	r.Class(c.Via)
	if r.Failed() {
		noteHistory(r, cl)
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "P24", Level: "exploration",
		Rule: "case = topics with partitions (some without leader for a time or for ever), stored and later records, committed offsets, the selection (topics at creation, Subscribe after, Assign with any list of partitions), start position, faults on lookups and fetches, leaders moving; " +
			"oracle: the messages delivered are, per selected partition, the records from its start position on, in order and once, and nothing else is fetched or delivered; a partition without leader keeps no other from being consumed; " +
			"non-trivial = more than one partition selected, or not all of the cluster's",
		Quick: 14000, Deep: 400000, Chunk: 60,
		Gen:  genP24,
		Run:  func(x any, r *pbt.R) { bubble(r, func() { runP24(r, x.(p24Case)) }) },
		Desc: func(x any) string { return x.(p24Case).String() },
	})
}
