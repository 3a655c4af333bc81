package props

import (
	"bytes"
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// ---- producing histories shared by P01 and P02

type prodMsg struct {
	Key, Val []byte
}

type prodOp struct {
	Kind string // add, burst, flush, wait, close
	Msg  prodMsg
	N    int // burst count or wait ms
	G    int // goroutine (lane)
}

type prodCase struct {
	Simple    bool
	Parts     int
	Part      int32
	Brokers   int
	Codec     string
	MaxCount  int
	FlushMS   int
	Acks      int16
	Timeout   int32
	ClientID  string
	Lanes     int
	Ops       []prodOp
	ProduceV0 bool
	AsMap     bool
	Seg       int
	Latency   int
	Mutate    bool // overwrite the caller's buffers right after each add
	Seed      uint64
	MetaAge   int
}

func genKey(d *pbt.D) []byte {
	switch d.W(80, 80, 20, 20, 1) {
	case 0:
		return nil
	case 1:
		return d.BytesN(d.Int(1, 12))
	case 2:
		return []byte{}
	case 3:
		return d.BytesN(d.Int(50, 300))
	}
	return d.BytesN(d.Int(5000, 70000))
}

func genVal(d *pbt.D) []byte {
	switch d.W(600, 100, 100, 100, 100, 20, 1, 60) {
	case 0:
		return d.Bytes(60)
	case 1:
		return []byte{}
	case 2:
		return d.BytesN(d.Int(55, 70)) // one-to-two byte varint boundary
	case 3:
		return d.BytesN(d.Int(8150, 8200)) // two-to-three byte boundary
	case 5:
		return d.BytesN(pbt.Pick(d, 32767, 32768, 65535, 65536, 20000, 70000))
	case 6:
		return d.BytesN(d.Int(1000000, 1100000)) // three-to-four byte boundary
	case 7:
		return nil // deletes the key in a compacted topic
	}
	return d.BytesN(d.Int(100, 3000))
}

func genProdCase(d *pbt.D) prodCase {
	c := prodCase{
		Simple:   d.Bool(),
		Parts:    1 + d.Skew(5),
		Brokers:  d.Int(1, 3),
		Codec:    pbt.Pick(d, "none", "gzip", "snappy", "lz4"),
		MaxCount: pbt.Pick(d, 1024, 1, 2, 3, 7, 70, 150),
		FlushMS:  pbt.Pick(d, 200, 50, 1000, 100000),
		Acks:     pbt.Pick(d, int16(-1), 1, 0),
		Timeout:  pbt.Pick(d, int32(1500), 1, 30000),
		ClientID: pbt.Pick(d, "healer", "c1", ""),
		Lanes:    1,
		AsMap:    d.Bool(),
		Seg:      d.W(3, 1, 1),
		Latency:  pbt.Pick(d, 1, 3, 40),
		Mutate:   d.Bool(),
		Seed:     uint64(d.N(1 << 30)),
		MetaAge:  pbt.Pick(d, 300000, 700, 2500),
	}
	c.Part = int32(d.N(c.Parts))
	if d.P(1, 4) {
		c.Lanes = d.Int(2, 3)
	}
	if d.P(1, 200) { // one large batch
		c.Lanes, c.MaxCount, c.FlushMS = 1, pbt.Pick(d, 1000, 5000, 70000), 100000
		c.Ops = []prodOp{{Kind: "burst", Msg: prodMsg{genKey(d), d.Bytes(8)}, N: pbt.Pick(d, 1100, 2500, 5100)}, {Kind: "flush"}}
		return c
	}
	n := d.Int(1, 14)
	for i := 0; i < n; i++ {
		op := prodOp{G: d.N(c.Lanes)}
		switch d.W(8, 3, 2, 3) {
		case 0:
			op.Kind = "add"
			op.Msg = prodMsg{genKey(d), genVal(d)}
		case 1:
			op.Kind = "burst"
			op.Msg = prodMsg{genKey(d), d.Bytes(20)}
			op.N = pbt.Pick(d, 2, 5, 64, 65, 130)
		case 2:
			op.Kind = "flush"
		case 3:
			op.Kind = "wait"
			op.N = pbt.Pick(d, 10, 60, 220, 1100)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func (c prodCase) String() string {
	s := fmt.Sprintf("simple=%v parts=%d brokers=%d codec=%s maxcount=%d flushms=%d acks=%d timeout=%d lanes=%d map=%v seg=%d latency=%dms mutate=%v client=%q metaage=%d\n",
		c.Simple, c.Parts, c.Brokers, c.Codec, c.MaxCount, c.FlushMS, c.Acks, c.Timeout, c.Lanes, c.AsMap, c.Seg, c.Latency, c.Mutate, c.ClientID, c.MetaAge)
	for _, o := range c.Ops {
		s += fmt.Sprintf("  lane %d: %s", o.G, o.Kind)
		switch o.Kind {
		case "add":
			s += fmt.Sprintf(" key %s value %s", q(o.Msg.Key), q(o.Msg.Val))
		case "burst":
			s += fmt.Sprintf(" x%d key %s value %s", o.N, q(o.Msg.Key), q(o.Msg.Val))
		case "wait":
			s += fmt.Sprintf(" %dms", o.N)
		}
		s += "\n"
	}
	return s
}

func (c prodCase) config(boot string) any {
	if c.AsMap {
		return map[string]interface{}{
			"bootstrap.servers": boot, "client.id": c.ClientID, "acks": c.Acks, "compress.type": c.Codec,
			"message.max.count": c.MaxCount, "flush.interval.ms": c.FlushMS, "request.timeout.ms": c.Timeout,
			"metadata.max.age.ms": c.MetaAge,
		}
	}
	cfg := healer.DefaultProducerConfig()
	cfg.BootstrapServers, cfg.ClientID, cfg.Acks, cfg.CompressionType = boot, c.ClientID, c.Acks, c.Codec
	cfg.MessageMaxCount, cfg.FlushIntervalMS, cfg.RequestTimeoutMS = c.MaxCount, c.FlushMS, c.Timeout
	cfg.MetadataMaxAgeMS = c.MetaAge
	return cfg
}

type addedMsg struct {
	lane, n  int
	key, val []byte
	t        time.Duration
}

type producerAPI interface {
	AddMessage(key, value []byte) error
	Close()
}

// startProducer creates the producer under test.
func startProducer(r *pbt.R, c prodCase, cl *kafka.Cluster) producerAPI {
	var p producerAPI
	var err error
	cfg := c.config(cl.Bootstrap())
	ok := guarded(r, "creating the producer", 2*time.Minute, func() {
		if c.Simple {
			var sp *healer.SimpleProducer
			sp, err = healer.NewSimpleProducer(context.Background(), "t", c.Part, cfg)
			if err == nil {
				p = sp
			}
		} else {
			var pp *healer.Producer
			pp, err = healer.NewProducer("t", cfg)
			if err == nil {
				p = pp
			}
		}
	})
	if r.Failed() {
		return nil
	}
	if !ok {
		r.Fail("create-hang", "creating the producer did not return within 2 virtual minutes")
		return nil
	}
	if err != nil {
		r.Fail("create-error", "creating the producer failed against a healthy cluster: %v", err)
		return nil
	}
	return p
}

func newProdCluster(c prodCase) *kafka.Cluster {
	cl := kafka.New(c.Brokers, c.Seed)
	cl.Seg = c.Seg
	cl.Latency = time.Duration(c.Latency) * time.Millisecond
	leaders := make([]int32, c.Parts)
	for i := range leaders {
		leaders[i] = int32((int(c.Seed)+i)%c.Brokers) + 1
	}
	cl.AddTopic("t", leaders...)
	cl.Install()
	return cl
}

// runProdHistory drives the history and returns the accepted messages per lane in order.
func runProdHistory(r *pbt.R, c prodCase, cl *kafka.Cluster, p producerAPI) [][]addedMsg {
	added := make([][]addedMsg, c.Lanes)
	var wg sync.WaitGroup
	flushes := 0
	adds := 0
	for lane := 0; lane < c.Lanes; lane++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			add := func(k, v []byte) {
				var kk, vv []byte
				if k != nil {
					kk = append([]byte{}, k...)
				}
				if v != nil {
					vv = append([]byte{}, v...)
				}
				if c.Lanes > 1 || (!c.Simple && k == nil) {
					// identical messages that may go to different partitions or come from different lanes
					// would make the order oracle ambiguous
					vv = append([]byte(fmt.Sprintf("%d.%d|", lane, len(added[lane]))), vv...)
					v = append([]byte{}, vv...)
				}
				m := addedMsg{lane, len(added[lane]), append([]byte(nil), k...), bytes.Clone(v), cl.Now()}
				if k != nil && m.key == nil {
					m.key = []byte{}
				}
				err := p.AddMessage(kk, vv)
				if err != nil {
					r.Fail("add-error", "lane %d: adding a message failed on a healthy cluster: %v", lane, err)
					return
				}
				added[lane] = append(added[lane], m)
				if c.Mutate {
					for i := range kk {
						kk[i] ^= 0x5a
					}
					for i := range vv {
						vv[i] ^= 0xa5
					}
				}
			}
			for _, op := range c.Ops {
				if op.G != lane {
					continue
				}
				switch op.Kind {
				case "add":
					add(op.Msg.Key, op.Msg.Val)
					adds++
				case "burst":
					for i := 0; i < op.N; i++ {
						add(op.Msg.Key, append([]byte(fmt.Sprintf("%d:%d:", lane, i)), op.Msg.Val...))
						adds++
					}
				case "flush":
					if sp, ok := p.(*healer.SimpleProducer); ok {
						flushes++
						if err := sp.Flush(); err != nil {
							r.Fail("flush-error", "flush failed on a healthy cluster: %v", err)
						}
					}
				case "wait":
					time.Sleep(time.Duration(op.N) * time.Millisecond)
				}
			}
		}()
	}
	ok := within(20*time.Minute, func() { wg.Wait() })
	if !ok {
		r.Fail("hang", "the producing history did not finish within 20 virtual minutes")
	}
	if adds > 0 {
		r.Class("adds")
	}
	if flushes > 0 {
		r.Class("explicit flush")
	}
	return added
}

// checkLogs compares the partition logs with the accepted messages.
func checkLogs(r *pbt.R, c prodCase, cl *kafka.Cluster, added [][]addedMsg) {
	cl.Lock()
	defer cl.Unlock()
	t := cl.Topics["t"]
	for _, e := range cl.ProtoErrs {
		r.Fail("bad-request", "%s", e)
	}
	// every record in the logs must be an accepted message; per lane and partition in order, each once
	// (keyed and unkeyed messages of a multi-partition producer are separate order groups)
	type ref struct {
		lane, n int
	}
	grp := func(rf ref) int {
		if !c.Simple && added[rf.lane][rf.n].key == nil {
			return rf.lane + 100
		}
		return rf.lane
	}
	total := 0
	idx := map[string][]ref{}
	for l := range added {
		for i, m := range added[l] {
			k := fmt.Sprintf("%v|%v|%q|%q", m.key == nil, m.val == nil, m.key, m.val)
			idx[k] = append(idx[k], ref{l, i})
			total++
		}
	}
	got := 0
	used := map[ref]bool{}
	for pi, p := range t.Parts {
		last := map[int]int{}
		for l := range added {
			last[l], last[l+100] = -1, -1
		}
		for _, rec := range p.Records(0) {
			got++
			k := fmt.Sprintf("%v|%v|%q|%q", rec.Key == nil, rec.Value == nil, rec.Key, rec.Value)
			refs := idx[k]
			var pick *ref
			// identical messages: take the earliest unused that keeps order, else the earliest unused
			for i := range refs {
				if !used[refs[i]] && refs[i].n > last[grp(refs[i])] {
					pick = &refs[i]
					break
				}
			}
			if pick == nil {
				for i := range refs {
					if !used[refs[i]] {
						pick = &refs[i]
						break
					}
				}
				switch {
				case len(refs) == 0:
					r.Fail("altered", "partition %d holds a record that was never accepted: %s", pi, recStr(rec))
				case pick == nil:
					r.Fail("duplicate", "partition %d holds a record more often than it was accepted: %s", pi, recStr(rec))
				default:
					r.Fail("order", "partition %d: record %s of lane %d is stored after a later accepted message", pi, recStr(rec), pick.lane)
				}
				if pick == nil {
					continue
				}
			}
			used[*pick] = true
			if g := grp(*pick); pick.n > last[g] {
				last[g] = pick.n
			}
		}
	}
	if got < total {
		for l := range added {
			for i, m := range added[l] {
				if !used[ref{l, i}] {
					r.Fail("lost", "%d of %d accepted messages are not in the log after close; first: lane %d #%d key %s value %s", total-got, total, l, i, q(m.key), q(m.val))
					return
				}
			}
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P01",
		Level: "exploration",
		Rule: "case = producer configuration x cluster layout x history of add/burst/flush/wait over 1-3 concurrent lanes, then flush-by-timer or close; " +
			"non-trivial = at least 3 messages accepted and at least 2 produce requests reached the brokers",
		Quick: 8000, Deep: 120000, Chunk: 100, CPUs: 4,
		Gen: func(d *pbt.D) any {
			c := genProdCase(d)
			return struct {
				prodCase
				End string
			}{c, pbt.Pick(d, "close", "timer")}
		},
		Run: func(x any, r *pbt.R) {
			cc := x.(struct {
				prodCase
				End string
			})
			c := cc.prodCase
			bubble(r, func() {
				cl := newProdCluster(c)
				p := startProducer(r, c, cl)
				if p == nil {
					noteHistory(r, cl)
					return
				}
				added := runProdHistory(r, c, cl, p)
				if cc.End == "timer" && c.FlushMS < 100000 {
					time.Sleep(time.Duration(c.FlushMS)*time.Millisecond*2 + time.Second)
					r.Class("completed by timer")
					checkLogs(r, c, cl, added)
				}
				if !guarded(r, "close", 5*time.Minute, p.Close) {
					r.Fail("close-hang", "close did not return within 5 virtual minutes")
				}
				time.Sleep(time.Second)
				if !r.Failed() {
					checkLogs(r, c, cl, added)
				}
				n := len(cl.Events(kafka.Produce))
				tot := 0
				for _, l := range added {
					tot += len(l)
				}
				if tot >= 3 && n >= 2 {
					r.NonTrivial()
				}
				if c.Lanes > 1 {
					r.Class("concurrent lanes")
				}
				r.Class("codec " + c.Codec)
				if tot > 64 {
					r.Class("more than 64 messages")
				}
				noteHistory(r, cl)
			})
		},
		Desc: func(x any) string {
			cc := x.(struct {
				prodCase
				End string
			})
			return cc.prodCase.String() + "end by " + cc.End
		},
	})
}

var _ = wire.None
