package props

import (
	"encoding/binary"
	"fmt"
	"time"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// murmur2 is the 32-bit MurmurHash2, written from its definition.
func murmur2(b []byte, seed uint32) uint32 {
	const m = 0x5bd1e995
	h := seed ^ uint32(len(b))
	for len(b) >= 4 {
		k := binary.LittleEndian.Uint32(b)
		k *= m
		k ^= k >> 24
		k *= m
		h *= m
		h ^= k
		b = b[4:]
	}
	switch len(b) {
	case 3:
		h ^= uint32(b[2]) << 16
		fallthrough
	case 2:
		h ^= uint32(b[1]) << 8
		fallthrough
	case 1:
		h ^= uint32(b[0])
		h *= m
	}
	h ^= h >> 13
	h *= m
	h ^= h >> 15
	return h
}

type p03Op struct {
	Kind string // add, wait, move, err, heal, shuffle
	Key  []byte
	N    int
	To   int32
}

type p03Case struct {
	Simple  bool
	Part    int32
	Parts   int
	Brokers int
	MetaAge int
	Acks    int16
	MaxCnt  int
	FlushMS int
	Ops     []p03Op
	Shuffle bool // list partitions and brokers in a different order in every answer
	Seed    uint64
	Bad0    int // partition reported unhealthy from the start, -1 none
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P03",
		Level: "exploration",
		Rule: "case = topic layout (1-7 partitions over 1-4 brokers, listed in any order) x keyed and unkeyed adds x leader moves, unhealthy partitions and metadata refreshes in between; " +
			"oracle: own murmur2 for the partition, and the leader named by the latest metadata answer; non-trivial = at least 2 partitions received messages or a leader moved",
		Quick: 60000, Deep: 600000, Chunk: 200,
		Gen: func(d *pbt.D) any {
			c := p03Case{Simple: d.P(1, 4), Parts: 1 + d.N(7), Brokers: d.Int(1, 4), MetaAge: pbt.Pick(d, 300000, 2000, 700), Acks: pbt.Pick(d, int16(-1), 1),
				MaxCnt: pbt.Pick(d, 1, 3, 1000), FlushMS: pbt.Pick(d, 200, 50), Shuffle: d.Bool(), Seed: uint64(d.N(1 << 30)), Bad0: -1}
			c.Part = int32(d.N(c.Parts))
			if d.P(1, 6) && c.Parts > 1 && !c.Simple {
				c.Bad0 = d.N(c.Parts)
			}
			n := d.Int(1, 16)
			for i := 0; i < n; i++ {
				switch d.W(10, 4, 2, 1) {
				case 0:
					c.Ops = append(c.Ops, p03Op{Kind: "add", Key: genKey(d)})
				case 1:
					c.Ops = append(c.Ops, p03Op{Kind: "wait", N: pbt.Pick(d, 10, 260, 800, 2500)})
				case 2:
					c.Ops = append(c.Ops, p03Op{Kind: "move", N: d.N(c.Parts), To: int32(d.Int(1, c.Brokers))})
				case 3:
					c.Ops = append(c.Ops, p03Op{Kind: pbt.Pick(d, "err", "heal"), N: d.N(c.Parts)})
				}
			}
			return c
		},
		Run: func(x any, r *pbt.R) {
			c := x.(p03Case)
			bubble(r, func() { runP03(r, c) })
		},
		Desc: func(x any) string {
			c := x.(p03Case)
			s := fmt.Sprintf("simple=%v(part %d) parts=%d brokers=%d metaage=%d maxcount=%d flushms=%d shuffle=%v bad0=%d seed=%d\n", c.Simple, c.Part, c.Parts, c.Brokers, c.MetaAge, c.MaxCnt, c.FlushMS, c.Shuffle, c.Bad0, c.Seed)
			for _, o := range c.Ops {
				s += fmt.Sprintf("  %s key %s n %d to %d\n", o.Kind, q(o.Key), o.N, o.To)
			}
			return s
		},
	})
}

func runP03(r *pbt.R, c p03Case) {
	pc := prodCase{Simple: c.Simple, Parts: c.Parts, Part: c.Part, Brokers: c.Brokers, Codec: "none", MaxCount: c.MaxCnt, FlushMS: c.FlushMS, Acks: c.Acks,
		Timeout: 1500, ClientID: "c", Lanes: 1, Latency: 1, Seed: c.Seed, MetaAge: c.MetaAge}
	cl := newProdCluster(pc)
	if c.Bad0 >= 0 {
		cl.Topics["t"].Parts[c.Bad0].Err = 5
		cl.Topics["t"].Parts[c.Bad0].Leader = -1
	}
	// metadata given so far: time and leader per partition
	type given struct {
		t      time.Duration
		leader []int32
		err    []int16
	}
	var metas []given
	rot := 0
	cl.MetaHook = func(o wire.Obj) {
		for _, t := range o.Objs("topics") {
			if t.S("name") != "t" {
				continue
			}
			g := given{t: cl.Now(), leader: make([]int32, c.Parts), err: make([]int16, c.Parts)}
			ps := t.A("partitions")
			for _, p := range t.Objs("partitions") {
				g.leader[p.I("index")] = int32(p.I("leader_id"))
				g.err[p.I("index")] = int16(p.I("error_code"))
			}
			metas = append(metas, g)
			if c.Shuffle && len(ps) > 1 {
				rot++
				k := (int(c.Seed) + rot) % len(ps)
				t["partitions"] = append(append([]any{}, ps[k:]...), ps[:k]...)
			}
		}
		if bs := o.A("brokers"); c.Shuffle && len(bs) > 1 {
			k := rot % len(bs)
			o["brokers"] = append(append([]any{}, bs[k:]...), bs[:k]...)
		}
	}
	p := startProducer(r, pc, cl)
	if p == nil {
		noteHistory(r, cl)
		return
	}
	moved := false
	n := 0
	keyOf := map[string][]byte{}
	for _, op := range c.Ops {
		switch op.Kind {
		case "add":
			v := fmt.Sprintf("v%d", n)
			n++
			keyOf[v] = op.Key
			ok := guarded(r, "AddMessage", 5*time.Minute, func() {
				// an error is fine here (a leader may have moved); P04 judges errors
				p.AddMessage(op.Key, []byte(v))
			})
			if !ok {
				r.Fail("hang", "AddMessage did not return")
				noteHistory(r, cl)
				return
			}
		case "wait":
			time.Sleep(time.Duration(op.N) * time.Millisecond)
		case "move":
			if cl.Topics["t"].Parts[op.N].Err == 0 {
				cl.MoveLeader("t", op.N, op.To)
				moved = true
			}
		case "err":
			if !c.Simple {
				cl.Lock()
				cl.Topics["t"].Parts[op.N].Err = 5
				cl.Unlock()
			}
		case "heal":
			cl.Lock()
			pt := cl.Topics["t"].Parts[op.N]
			pt.Err = 0
			if pt.Leader < 0 {
				pt.Leader = 1
			}
			cl.Unlock()
		}
	}
	guarded(r, "close", 5*time.Minute, p.Close)
	time.Sleep(time.Second)
	for _, e := range cl.ProtoErrs {
		r.Fail("bad-request", "%s", e)
	}
	parts := map[int64]bool{}
	const grace = 30 * time.Millisecond
	for _, ev := range cl.Events(kafka.Produce) {
		for _, t := range ev.Req.Objs("topics") {
			for _, pp := range t.Objs("partitions") {
				pi := pp.I("index")
				if t.S("name") != "t" || pi < 0 || pi >= int64(c.Parts) {
					r.Fail("partition", "produce request to %s-%d, topic t has %d partitions", t.S("name"), pi, c.Parts)
					continue
				}
				parts[pi] = true
				// allowed leaders: from the last metadata answer older than the grace period, and from all newer ones
				ok, healthy := false, false
				names := ""
				for i := len(metas) - 1; i >= 0; i-- {
					if metas[i].t > ev.T {
						continue
					}
					names += fmt.Sprintf(" %d (told at %v, error %d)", metas[i].leader[pi], metas[i].t, metas[i].err[pi])
					if metas[i].leader[pi] == ev.Broker {
						ok = true
					}
					if metas[i].t <= ev.T-grace {
						break
					}
				}
				for _, m := range metas {
					if m.t <= ev.T && m.err[pi] == 0 {
						healthy = true
					}
				}
				if !ok {
					r.Fail("leader", "at %v a produce request for partition %d went to broker %d; leader told last:%s", ev.T, pi, ev.Broker, names)
				}
				if !healthy {
					r.Fail("unhealthy", "at %v a produce request for partition %d, which was never reported healthy", ev.T, pi)
				}
				b, err := wire.ParseBatch(pp.B("records"))
				if err != nil {
					continue
				}
				for _, rec := range b.Recs {
					want := int64(c.Part)
					if !c.Simple {
						if rec.Key == nil {
							continue
						}
						want = int64(murmur2(keyOf[string(rec.Value)], 0) % uint32(c.Parts))
					}
					if pi != want {
						r.Fail("mapping", "message with key %s went to partition %d of %d, want %d", q(rec.Key), pi, c.Parts, want)
					}
				}
			}
		}
	}
	if len(parts) > 1 || moved && len(parts) > 0 {
		r.NonTrivial()
	}
	if moved {
		r.Class("leader moved")
	}
	if len(metas) > 2 {
		r.Class("metadata refreshed")
	}
	if c.Bad0 >= 0 {
		r.Class("a partition unhealthy at start")
	}
	noteHistory(r, cl)
}
