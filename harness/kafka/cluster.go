// Package kafka is a fake Kafka cluster living in memory under virtual time. It keeps partition logs,
// groups and committed offsets, records every request, and injects faults from a plan.
package kafka

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"sort"
	"strconv"
	"sync"
	"time"

	"verif/memnet"
	"verif/wire"
)

// API keys.
const (
	Produce                     = 0
	Fetch                       = 1
	ListOffsets                 = 2
	Metadata                    = 3
	OffsetCommit                = 8
	OffsetFetch                 = 9
	FindCoordinator             = 10
	JoinGroup                   = 11
	Heartbeat                   = 12
	LeaveGroup                  = 13
	SyncGroup                   = 14
	DescribeGroups              = 15
	ListGroups                  = 16
	SaslHandshake               = 17
	ApiVersions                 = 18
	CreateTopics                = 19
	DeleteTopics                = 20
	DescribeAcls                = 29
	CreateAcls                  = 30
	DeleteAcls                  = 31
	DescribeConfigs             = 32
	AlterConfigs                = 33
	DescribeLogDirs             = 35
	SaslAuthenticate            = 36
	CreatePartitions            = 37
	DeleteGroups                = 42
	ElectLeaders                = 43
	IncrementalAlterConfigs     = 44
	AlterPartitionReassignments = 45
	ListPartitionReassignments  = 46
)

// AllAPIs lists every API with a schema.
var AllAPIs = []int{0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 29, 30, 31, 32, 33, 35, 36, 37, 42, 43, 44, 45, 46}

// Dial modes of a broker.
const (
	Up = iota
	Refuse
	Blackhole // dial times out
)

type Broker struct {
	ID     int32
	Host   string
	Port   int
	Mode   int
	Ranges map[int][2]int // api -> min,max advertised
	Rack   *string
	conns  map[int]*memnet.Server
	TLS    func(net.Conn) net.Conn
}

func (b *Broker) Addr() string { return net.JoinHostPort(b.Host, strconv.Itoa(b.Port)) }

// Chunk is a run of stored bytes: one batch, one wrapper message or some plain messages.
type Chunk struct {
	First, Last int64
	Magic       int
	Bytes       []byte
	Recs        []wire.Rec
}

type Part struct {
	Leader  int32
	Epoch   int32
	Err     int16
	Start   int64 // log start offset
	Next    int64 // log end offset
	Chunks  []Chunk
	Appends []Append
	changed chan struct{}
	Isr     []int32
	Reps    []int32 // all replicas, if not just Isr
}

// Append is one accepted produce batch.
type Append struct {
	T      time.Duration
	Base   int64
	Batch  wire.Batch
	Broker int32
	Acks   int64
}

type Topic struct {
	Name     string
	Err      int16
	Parts    []*Part
	Internal bool
	Hidden   map[int]bool // partitions left out of metadata
}

// Ev is one request seen by a broker.
type Ev struct {
	T          time.Duration
	Broker     int32
	Conn       int
	Seq        int // request number on the connection
	H          wire.Header
	Req        wire.Obj
	Raw        []byte
	Err        error // the request did not decode
	Fault      string
	Acked      bool // an answer without error was sent for it
	Rejected   bool // the handler refused it with an error code
	Done       time.Duration
	Resp       wire.Obj    // what was answered; delivered in full only if Done >= 0
	Marks      []wire.Mark // positions of the length and count fields of the answer
	CloseAfter bool        // close the connection after the answer
	Sent       int         // bytes of the answer
}

// Fault kinds.
const (
	FErr      = "err"       // answer with error code
	FClose    = "close"     // close before processing
	FCloseAft = "closeaft"  // process, then close without answering
	FReset    = "reset"     // RST before processing
	FHang     = "hang"      // never answer; connection stays open but dead
	FSwallow  = "swallow"   // do not answer this one request
	FDelay    = "delay"     // answer late by Arg ms
	FTrunc    = "trunc"     // send Arg/1000 of the answer, then close
	FTruncRst = "truncrst"  // send Arg/1000 of the answer, then reset
	FHalfHang = "halfhang"  // send Arg/1000 of the answer, then hang
	FStall    = "stall"     // send half of the answer, the rest Arg ms later
	FStray    = "stray"     // send a response with a foreign correlation id first
	FWrongCor = "wrongcorr" // answer with a wrong correlation id
	FStuck    = "stuck"     // answer, then read nothing any more (see Window)
)

// Fault is applied to the (Skip+1)-th request with that API (and broker) that arrives while it is first in line.
type Fault struct {
	API    int   // -1 any (except ApiVersions)
	Broker int32 // -1 any
	Skip   int
	Kind   string
	Code   int16
	Arg    int
	Times  int // repeat on that many consecutive matching requests (0 = 1)
	Topic  string
	seen   int
	used   int
}

func (f Fault) String() string {
	s := fmt.Sprintf("%s on api %d after %d", f.Kind, f.API, f.Skip)
	if f.Kind == FErr {
		s += fmt.Sprintf(" code %d", f.Code)
	}
	if f.Arg != 0 {
		s += fmt.Sprintf(" arg %d", f.Arg)
	}
	if f.Times > 1 {
		s += fmt.Sprintf(" x%d", f.Times)
	}
	return s
}

type SASL struct {
	Mechanism, User, Password string
	FailCode                  int16 // answer to authenticate
	HandshakeCode             int16
	FailFrom                  int // fail authentications from the n-th on (0 never when FailCode==0)
}

type Cluster struct {
	mu                sync.Mutex
	T0                time.Time
	Brokers           map[int32]*Broker
	Order             []int32
	Topics            map[string]*Topic
	Controller        int32
	ClusterID         any // string or nil
	Groups            map[string]*Group
	Hist              []*Ev
	Faults            []*Fault
	FaultsUsed        int
	LastFault         time.Duration
	Seg               int // 0 whole, 1 random pieces, 2 many tiny pieces
	Window            int // of each connection: bytes a broker may leave unread before the client's write blocks, 0 without limit
	SegDelay          time.Duration
	Latency           time.Duration
	TruncTail         bool // fetch answers may end in a cut-off batch
	SASL              *SASL
	Authed            map[int]bool
	rng               *rand.Rand
	nextConn          int
	Conns             []*memnet.Conn
	Coordinator       func(group string) int32
	Override          func(b *Broker, ev *Ev) (wire.Obj, bool)     // custom answer body
	RawAnswer         func(b *Broker, ev *Ev, frame []byte) []byte // edit the encoded frame
	OnEvent           func(ev *Ev)
	ProtoErrs         []string
	Dials             []DialEv
	DialHook          func(addr string, n int) error // injected dial failure
	Tags              func() [][2]any
	GroupDelay        time.Duration // initial rebalance delay
	MinFetchDelay     time.Duration
	MaxRespBytes      int // cap of one fetch answer (0: request's)
	VersionsErr       int16
	NoTopicsWhenEmpty bool
	MetaHook          func(o wire.Obj)
	Tap               func(conn int, b []byte) // raw bytes written by clients
	Alias             map[string]int32         // further addresses of brokers, not advertised
	OnDial            func(addr string, timeout time.Duration)
}

type DialEv struct {
	T    time.Duration
	Addr string
	OK   bool
}

// New makes a cluster of n brokers with ids from 1 and every API advertised at the given maximum table.
func New(n int, seed uint64) *Cluster {
	c := &Cluster{T0: time.Now(), Brokers: map[int32]*Broker{}, Topics: map[string]*Topic{}, Groups: map[string]*Group{},
		rng: rand.New(rand.NewPCG(seed, 11)), Authed: map[int]bool{}, Latency: time.Millisecond, ClusterID: "cluster-x",
		GroupDelay: 20 * time.Millisecond}
	for i := 1; i <= n; i++ {
		c.AddBroker(int32(i), fmt.Sprintf("b%d", i), 9092)
	}
	c.Controller = 1
	return c
}

// DefaultRanges advertises like a current broker.
func DefaultRanges() map[int][2]int {
	r := map[int][2]int{}
	for _, a := range AllAPIs {
		r[a] = [2]int{0, 0}
	}
	r[Produce] = [2]int{0, 9}
	r[Fetch] = [2]int{0, 11}
	r[ListOffsets] = [2]int{0, 5}
	r[Metadata] = [2]int{0, 9}
	r[OffsetCommit] = [2]int{0, 8}
	r[OffsetFetch] = [2]int{0, 7}
	r[FindCoordinator] = [2]int{0, 3}
	r[JoinGroup] = [2]int{0, 7}
	r[Heartbeat] = [2]int{0, 4}
	r[LeaveGroup] = [2]int{0, 4}
	r[SyncGroup] = [2]int{0, 5}
	r[DescribeGroups] = [2]int{0, 5}
	r[ListGroups] = [2]int{0, 5}
	r[SaslHandshake] = [2]int{0, 1}
	r[ApiVersions] = [2]int{0, 3}
	r[CreateTopics] = [2]int{0, 7}
	r[DeleteTopics] = [2]int{0, 6}
	r[DescribeAcls] = [2]int{0, 3}
	r[CreateAcls] = [2]int{0, 3}
	r[DeleteAcls] = [2]int{0, 3}
	r[DescribeConfigs] = [2]int{0, 4}
	r[AlterConfigs] = [2]int{0, 2}
	r[DescribeLogDirs] = [2]int{0, 4}
	r[SaslAuthenticate] = [2]int{0, 2}
	r[CreatePartitions] = [2]int{0, 3}
	r[DeleteGroups] = [2]int{0, 2}
	r[ElectLeaders] = [2]int{0, 2}
	r[IncrementalAlterConfigs] = [2]int{0, 1}
	r[AlterPartitionReassignments] = [2]int{0, 0}
	r[ListPartitionReassignments] = [2]int{0, 0}
	return r
}

func (c *Cluster) AddBroker(id int32, host string, port int) *Broker {
	b := &Broker{ID: id, Host: host, Port: port, Ranges: DefaultRanges(), conns: map[int]*memnet.Server{}}
	c.Brokers[id] = b
	c.Order = append(c.Order, id)
	return b
}

// Lock / Unlock give scripts exclusive access to the state.
func (c *Cluster) Lock()   { c.mu.Lock() }
func (c *Cluster) Unlock() { c.mu.Unlock() }

// Now is the virtual time since the cluster started.
func (c *Cluster) Now() time.Duration { return time.Since(c.T0) }

// AddTopic creates a topic with the given leaders.
func (c *Cluster) AddTopic(name string, leaders ...int32) *Topic {
	t := &Topic{Name: name}
	for _, l := range leaders {
		t.Parts = append(t.Parts, &Part{Leader: l, changed: make(chan struct{}), Isr: []int32{l}})
	}
	c.Topics[name] = t
	return t
}

// AddPart adds a partition to a topic. The caller holds the lock.
func (c *Cluster) AddPart(topic string, leader int32) {
	t := c.Topics[topic]
	t.Parts = append(t.Parts, &Part{Leader: leader, changed: make(chan struct{}), Isr: []int32{leader}})
}

// Install routes all dials of the process to this cluster.
func (c *Cluster) Install() { net.VerifDialHook = c.dial }

// InstallAll routes the dials of the process by address to several clusters.
func InstallAll(cs ...*Cluster) {
	net.VerifDialHook = func(ctx context.Context, timeout time.Duration, network, address string) (net.Conn, error, bool) {
		for _, c := range cs {
			for _, id := range c.Order {
				if c.Brokers[id].Addr() == address {
					return c.dial(ctx, timeout, network, address)
				}
			}
		}
		return cs[0].dial(ctx, timeout, network, address)
	}
}

// Bootstrap returns the addresses of the brokers.
func (c *Cluster) Bootstrap() string {
	s := ""
	for i, id := range c.Order {
		if i > 0 {
			s += ","
		}
		s += c.Brokers[id].Addr()
	}
	return s
}

func (c *Cluster) dial(ctx context.Context, timeout time.Duration, network, address string) (net.Conn, error, bool) {
	time.Sleep(c.Latency)
	c.mu.Lock()
	var b *Broker
	for _, id := range c.Order {
		if c.Brokers[id].Addr() == address {
			b = c.Brokers[id]
			if b.Mode == Up {
				break
			}
		}
	}
	if id, ok := c.Alias[address]; ok && b == nil {
		b = c.Brokers[id]
	}
	n := len(c.Dials)
	c.Dials = append(c.Dials, DialEv{T: c.Now(), Addr: address})
	hook := c.DialHook
	onDial := c.OnDial
	mode := Refuse
	if b != nil {
		mode = b.Mode
	}
	c.mu.Unlock()
	if onDial != nil {
		onDial(address, timeout)
	}
	if hook != nil {
		if err := hook(address, n); err != nil {
			return nil, memnet.DialErr(address, err), true
		}
	}
	switch mode {
	case Refuse:
		return nil, memnet.DialErr(address, memnet.ErrRefused), true
	case Blackhole:
		if timeout <= 0 {
			timeout = 2 * time.Minute
		}
		memnet.SleepOrDone(ctx, timeout)
		return nil, memnet.DialErr(address, memnet.ErrDialTimeout), true
	}
	c.mu.Lock()
	c.Dials[n].OK = true
	c.nextConn++
	id := c.nextConn
	cl, sv := memnet.NewPair(id, address, c.Latency)
	sv.Segment = c.segment
	cl.Window = c.Window
	if tap := c.Tap; tap != nil {
		cl.Tap = func(b []byte) { tap(id, b) }
	}
	b.conns[id] = sv
	c.Conns = append(c.Conns, cl)
	c.mu.Unlock()
	go c.serve(b, sv, id)
	return cl, nil, true
}

func (c *Cluster) segment(b []byte) ([][]byte, []time.Duration) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.Seg == 0 || len(b) == 0 {
		return [][]byte{b}, []time.Duration{0}
	}
	var parts [][]byte
	var ds []time.Duration
	for len(b) > 0 {
		n := len(b)
		if c.Seg == 2 && len(parts) < 200 {
			n = 1 + c.rng.IntN(7)
		} else if len(parts) < 64 {
			switch c.rng.IntN(4) {
			case 0:
				n = 1 + c.rng.IntN(4)
			case 1:
				n = 1 + c.rng.IntN(64)
			case 2:
				n = 1 + c.rng.IntN(len(b))
			}
		}
		n = min(n, len(b))
		parts = append(parts, b[:n])
		var d time.Duration
		if c.SegDelay > 0 && c.rng.IntN(3) == 0 {
			d = time.Duration(c.rng.Int64N(int64(c.SegDelay)))
		}
		ds = append(ds, d)
		b = b[n:]
	}
	return parts, ds
}

func (c *Cluster) takeFault(b *Broker, ev *Ev) *Fault {
	for _, f := range c.Faults {
		n := max(f.Times, 1)
		if f.used >= n {
			continue
		}
		if f.API >= 0 && f.API != ev.H.API || f.API < 0 && ev.H.API == ApiVersions {
			continue
		}
		if f.Broker > 0 && f.Broker != b.ID {
			continue
		}
		f.seen++
		if f.seen <= f.Skip {
			continue
		}
		f.used++
		c.FaultsUsed++
		c.LastFault = c.Now()
		return f
	}
	return nil
}

// PendingFaults counts faults not yet applied.
func (c *Cluster) PendingFaults() int {
	n := 0
	for _, f := range c.Faults {
		if f.used < max(f.Times, 1) {
			n++
		}
	}
	return n
}

var errHang = errors.New("hang")

func (c *Cluster) serve(b *Broker, sv *memnet.Server, id int) {
	var conn io.ReadWriter = sv
	if b.TLS != nil {
		conn = b.TLS(sv)
	}
	defer func() {
		c.mu.Lock()
		delete(b.conns, id)
		c.mu.Unlock()
	}()
	seq := 0
	for {
		var lb [4]byte
		if _, err := io.ReadFull(conn, lb[:]); err != nil {
			sv.CloseGraceful()
			return
		}
		n := int(binary.BigEndian.Uint32(lb[:]))
		if n > 1<<26 {
			c.mu.Lock()
			c.ProtoErrs = append(c.ProtoErrs, fmt.Sprintf("request frame length %d on connection %d", n, id))
			c.mu.Unlock()
			sv.CloseGraceful()
			return
		}
		body := make([]byte, n)
		if _, err := io.ReadFull(conn, body); err != nil {
			c.mu.Lock()
			if c.Window == 0 { // with one, a write blocked half-way is cut by whatever ends the connection
				c.ProtoErrs = append(c.ProtoErrs, fmt.Sprintf("request frame announced %d bytes, connection ended early", n))
			}
			c.mu.Unlock()
			sv.CloseGraceful()
			return
		}
		h, o, err := wire.DecodeRequest(body)
		ev := &Ev{T: c.Now(), Broker: b.ID, Conn: id, Seq: seq, H: h, Req: o, Raw: body, Err: err, Done: -1}
		seq++
		c.mu.Lock()
		c.Hist = append(c.Hist, ev)
		if err != nil {
			c.ProtoErrs = append(c.ProtoErrs, fmt.Sprintf("api %d v%d request does not decode: %v [% x]", h.API, h.Version, err, clipb(body)))
		} else if rg, ok := b.Ranges[h.API]; h.API != ApiVersions && (!ok || h.Version < rg[0] || h.Version > rg[1]) {
			ev.Fault = "unsupported version"
		}
		f := c.takeFault(b, ev)
		if f != nil {
			ev.Fault = f.Kind
		}
		on := c.OnEvent
		c.mu.Unlock()
		if on != nil {
			on(ev)
		}
		if err != nil {
			sv.CloseGraceful()
			return
		}
		if f != nil {
			switch f.Kind {
			case FClose:
				sv.CloseGraceful()
				return
			case FReset:
				sv.Reset()
				return
			case FHang:
				c.drain(sv)
				return
			case FSwallow:
				continue
			}
		}
		code := int16(0)
		if f != nil && f.Kind == FErr {
			code = f.Code
		}
		resp, ok := c.handle(b, ev, code, sv)
		if !ok {
			sv.CloseGraceful()
			return
		}
		c.mu.Lock()
		ev.Resp = resp
		c.mu.Unlock()
		if resp == nil { // no answer expected (acks=0)
			continue
		}
		if f != nil && f.Kind == FCloseAft {
			sv.CloseGraceful()
			return
		}
		stray := resp
		if f != nil && (f.Kind == FStray || f.Kind == FWrongCor) && h.API == Fetch {
			stray = c.strayFetch(ev)
		}
		corr := h.Corr
		if f != nil && f.Kind == FWrongCor {
			switch f.Arg {
			case CorZero:
				corr = 0
			case CorOnes:
				corr = ^uint32(0)
			default:
				corr = corr + 1 + uint32(f.Arg)
			}
			resp = stray
		}
		frame, marks := wire.EncodeResponseMarks(h.API, respVersion(h), corr, resp, c.Tags)
		c.mu.Lock()
		raw := c.RawAnswer
		ev.Marks = marks
		c.mu.Unlock()
		if raw != nil {
			frame = raw(b, ev, frame)
			if frame == nil {
				continue
			}
		}
		if f != nil {
			switch f.Kind {
			case FDelay:
				time.Sleep(time.Duration(f.Arg) * time.Millisecond)
			case FStall:
				k := len(frame) / 2
				conn.Write(frame[:k])
				time.Sleep(time.Duration(f.Arg) * time.Millisecond)
				frame = frame[k:]
			case FTrunc, FTruncRst, FHalfHang:
				k := len(frame) * f.Arg / 1000
				if k >= len(frame) {
					k = len(frame) - 1
				}
				conn.Write(frame[:k])
				switch f.Kind {
				case FTrunc:
					sv.CloseGraceful()
					return
				case FTruncRst:
					time.Sleep(2*c.Latency + c.SegDelay)
					sv.Reset()
					return
				}
				c.drain(sv)
				return
			case FStray:
				st := wire.EncodeResponse(h.API, respVersion(h), corr+1000, stray, nil)
				conn.Write(st)
			}
		}
		c.mu.Lock()
		if sv.Gone() {
			ev.Fault = "lost"
			c.mu.Unlock()
			return
		}
		ev.Done = c.Now()
		ev.Acked = code == 0 && !ev.Rejected && (f == nil || f.Kind == FDelay || f.Kind == FStuck)
		ev.Sent = len(frame)
		c.mu.Unlock()
		conn.Write(frame)
		if f != nil && f.Kind == FStuck {
			sv.WaitClosed()
			return
		}
		if ev.CloseAfter {
			sv.CloseGraceful()
			return
		}
	}
}

// CorZero and CorOnes are arguments of FWrongCor for these ids; others are relative to the right one.
const CorZero, CorOnes = -1 << 30, -1 << 29

// strayFetch is a fetch answer that belongs to no request of this consumer.
func (c *Cluster) strayFetch(ev *Ev) wire.Obj {
	var ts []any
	for _, t := range ev.Req.Objs("topics") {
		var ps []any
		for _, p := range t.Objs("partitions") {
			off := p.I("fetch_offset")
			var recs []byte
			if ev.H.Version >= 4 {
				b := wire.Batch{BaseOffset: off, LastOffsetDelta: 1, ProducerID: -1, ProducerEpoch: -1, BaseSeq: -1, Recs: []wire.Rec{{Offset: off, Key: []byte("stray"), Value: []byte("stray")}, {Offset: off + 1, Value: []byte("stray")}}}
				recs = b.Encode(false)
			} else {
				recs = wire.EncodeMessageV01(0, off, 0, 0, nil, []byte("stray"))
			}
			ps = append(ps, wire.Obj{"index": p.I("index"), "error_code": int64(0), "high_watermark": off + 2, "last_stable_offset": off + 2, "log_start_offset": int64(0), "aborted": []any{}, "records": recs})
		}
		ts = append(ts, wire.Obj{"name": t.S("name"), "partitions": ps})
	}
	return wire.Obj{"topics": ts}
}

func respVersion(h wire.Header) int { return h.Version }

func clipb(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// drain keeps the connection open and ignores everything until the client closes it.
func (c *Cluster) drain(sv *memnet.Server) {
	buf := make([]byte, 4096)
	for {
		if _, err := sv.Read(buf); err != nil {
			sv.CloseGraceful()
			return
		}
	}
}

// KillConns ends all connections of a broker.
func (c *Cluster) KillConns(id int32, reset bool) {
	c.mu.Lock()
	b := c.Brokers[id]
	var cs []*memnet.Server
	for _, s := range b.conns {
		cs = append(cs, s)
	}
	c.mu.Unlock()
	sort.Slice(cs, func(i, j int) bool { return cs[i].C.ID < cs[j].C.ID })
	for _, s := range cs {
		if reset {
			s.Reset()
		} else {
			s.CloseGraceful()
		}
	}
}

// OpenConns lists client connections not closed by the client.
func (c *Cluster) OpenConns() (r []*memnet.Conn) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, x := range c.Conns {
		if !x.IsClosed() {
			r = append(r, x)
		}
	}
	return
}

// Events returns a copy of the history, optionally filtered by API.
func (c *Cluster) Events(apis ...int) (r []*Ev) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, e := range c.Hist {
		if len(apis) == 0 {
			r = append(r, e)
			continue
		}
		for _, a := range apis {
			if e.H.API == a {
				r = append(r, e)
			}
		}
	}
	return
}

// MoveLeader changes the leader of a partition.
func (c *Cluster) MoveLeader(topic string, p int, to int32) {
	c.mu.Lock()
	defer c.mu.Unlock()
	pt := c.Topics[topic].Parts[p]
	if pt.Leader != to {
		pt.Leader = to
		pt.Epoch++
		pt.Isr = []int32{to}
		close(pt.changed)
		pt.changed = make(chan struct{})
	}
}

// ClearFaults drops all faults not yet applied.
func (c *Cluster) ClearFaults() {
	c.mu.Lock()
	c.Faults = nil
	c.mu.Unlock()
}

// SetMode changes how a broker reacts to dials; going down also ends its connections.
func (c *Cluster) SetMode(id int32, mode int) {
	c.mu.Lock()
	c.Brokers[id].Mode = mode
	c.mu.Unlock()
	if mode != Up {
		c.KillConns(id, false)
	}
}
