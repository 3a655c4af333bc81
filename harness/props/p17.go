package props

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"runtime/metrics"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// mutation of one encoded response.
type mut struct {
	Kind string
	At   int // position, per mille or index
	Val  int64
	N    int
	Data []byte
	Sub  *mut // for "nested"
}

func (m mut) String() string {
	s := fmt.Sprintf("%s at %d value %d n %d", m.Kind, m.At, m.Val, m.N)
	if len(m.Data) > 0 {
		s += fmt.Sprintf(" data % x", clipBytes(m.Data, 24))
	}
	if m.Sub != nil {
		s += " (" + m.Sub.String() + ")"
	}
	return s
}

func clipBytes(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

var mutVals = []int64{-1, -2, -1 << 31, 1<<31 - 1, 0xffffff, 0x1000000, 0x7fff, 0xffff, 1 << 20, 100000, 0, 1, 255, 128, 1 << 32, 1 << 35, -1 << 63, 1 << 28}

func genMut(d *pbt.D, nested bool) mut {
	kinds := []string{"cut", "cutclose", "mark", "random", "flip", "insert", "delete", "prefix", "append", "zero", "int32", "valid", "nested"}
	w := []int{6, 2, 10, 2, 3, 2, 2, 2, 2, 1, 3, 3, 4}
	if nested {
		w[1], w[7], w[11], w[12], w[2] = 0, 0, 0, 0, 0
		w[10] = 8
	}
	m := mut{Kind: kinds[d.W(w...)], At: d.N(1001)}
	switch m.Kind {
	case "mark", "int32":
		m.Val = pbt.Pick(d, mutVals...)
		m.N = d.W(4, 1, 1) // 0: absolute, 1: one more, 2: one less
	case "random":
		m.Data = d.Bytes(200)
	case "flip":
		m.N, m.Val = 1+d.N(4), int64(d.N(255)+1)
		m.Data = d.BytesN(m.N * 2)
	case "insert", "append":
		m.Data = d.BytesN(1 + d.N(12))
	case "delete", "zero":
		m.N = 1 + d.Skew(40)
	case "prefix":
		m.Val = pbt.Pick[int64](d, 0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 1<<31-1, 1<<32-1, 1<<30, 1<<24, 1<<31, -1000, -1001, -1002, -999)
	case "cut", "cutclose":
		if d.P(1, 3) {
			m.N = 1 + d.N(9) // from the end
		}
	case "nested":
		sub := genMut(d, true)
		m.Sub = &sub
	}
	return m
}

// apply edits body bytes (no prefix, no correlation id).
func (m mut) apply(b []byte, marks []wire.Mark) []byte {
	b = append([]byte{}, b...)
	pos := func(n int) int {
		if n <= 0 {
			return 0
		}
		return m.At * n / 1001
	}
	switch m.Kind {
	case "cut", "cutclose":
		if len(b) == 0 {
			return b
		}
		if m.N > 0 {
			return b[:max(0, len(b)-m.N)]
		}
		return b[:pos(len(b))]
	case "mark":
		if len(marks) == 0 {
			return b
		}
		k := marks[pos(len(marks))]
		var e []byte
		switch {
		case k.Kind == "varint" || k.Size != 2 && k.Size != 4 && k.Size != 8 || k.Kind == "uv":
			old, _ := binary.Uvarint(b[k.Off:])
			v := uint64(m.Val)
			switch m.N {
			case 1:
				v = old + 1
			case 2:
				v = old - 1
			}
			if m.Val == -1<<63 && m.N == 0 { // overlong
				for i := 0; i < 12; i++ {
					e = append(e, 0xff)
				}
			} else {
				e = binary.AppendUvarint(nil, v)
			}
		default:
			e = append([]byte{}, b[k.Off:k.Off+k.Size]...)
			var old uint64
			for _, x := range e {
				old = old<<8 | uint64(x)
			}
			v := uint64(m.Val)
			switch m.N {
			case 1:
				v = old + 1
			case 2:
				v = old - 1
			}
			for i := k.Size - 1; i >= 0; i-- {
				e[i] = byte(v)
				v >>= 8
			}
		}
		return append(append(append([]byte{}, b[:k.Off]...), e...), b[k.Off+k.Size:]...)
	case "int32":
		if len(b) >= 4 {
			o := pos(len(b) - 3)
			binary.BigEndian.PutUint32(b[o:], uint32(m.Val))
		}
	case "random":
		return append([]byte{}, m.Data...)
	case "flip":
		for i := 0; i < m.N && len(b) > 0; i++ {
			b[(int(m.Data[2*i])<<8|int(m.Data[2*i+1]))*len(b)>>16] ^= byte(m.Val)
		}
	case "insert":
		o := pos(len(b) + 1)
		return append(append(append([]byte{}, b[:o]...), m.Data...), b[o:]...)
	case "delete":
		o := pos(len(b))
		return append(b[:o], b[min(len(b), o+m.N):]...)
	case "append":
		return append(b, m.Data...)
	case "zero":
		o := pos(len(b))
		for i := o; i < len(b) && i < o+m.N; i++ {
			b[i] = 0
		}
	}
	return b
}

// nestedBytes replaces one non-empty byte string of the object by its mutation.
func (m mut) nestedBytes(o wire.Obj) (wire.Obj, bool) {
	n := 0
	var count func(x any)
	count = func(x any) {
		switch t := x.(type) {
		case wire.Obj:
			for _, k := range sortedKeys(t) {
				count(t[k])
			}
		case []any:
			for _, y := range t {
				count(y)
			}
		case []byte:
			if len(t) > 0 {
				n++
			}
		}
	}
	count(o)
	if n == 0 {
		return o, false
	}
	target := m.At * n / 1001
	i := 0
	var cp func(x any) any
	cp = func(x any) any {
		switch t := x.(type) {
		case wire.Obj:
			r := wire.Obj{}
			for _, k := range sortedKeys(t) {
				r[k] = cp(t[k])
			}
			return r
		case []any:
			if t == nil {
				return t
			}
			r := make([]any, len(t))
			for j, y := range t {
				r[j] = cp(y)
			}
			return r
		case []byte:
			if len(t) > 0 {
				if i++; i-1 == target {
					return m.Sub.apply(t, nil)
				}
			}
		}
		return x
	}
	return cp(o).(wire.Obj), true
}

func sortedKeys(o wire.Obj) []string {
	ks := make([]string, 0, len(o))
	for k := range o {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// frame applies the mutation to a whole frame; cut tells that the body misses bytes for certain.
func (m mut) frame(ev *kafka.Ev, f []byte, tags func() [][2]any) (out []byte, cut bool) {
	switch m.Kind {
	case "prefix":
		out = append([]byte{}, f...)
		v := m.Val
		if v <= -900 {
			v = int64(len(f)-4) + v + 1000 // -1000: right, -1001: one less, -999: one more
		}
		binary.BigEndian.PutUint32(out, uint32(v))
		return out, v >= 0 && v < int64(len(f)-4)
	case "valid": // the answer was replaced in Override
		return f, false
	case "nested":
		o, ok := m.nestedBytes(ev.Resp)
		if !ok {
			return f, false
		}
		return wire.EncodeResponse(ev.H.API, ev.H.Version, ev.H.Corr, o, nil), false
	}
	skip := 8
	if (m.Kind == "cut" || m.Kind == "cutclose") && m.At < 30 && m.N == 0 {
		skip = 4 // into the correlation id
	}
	var marks []wire.Mark
	for _, k := range ev.Marks {
		if k.Kind != "int" && k.Off >= skip {
			k.Off -= skip
			marks = append(marks, k)
		}
	}
	body := m.apply(f[skip:], marks)
	out = append(append([]byte{}, f[:skip]...), body...)
	cut = (m.Kind == "cut" || m.Kind == "cutclose") && len(out) < len(f)
	if m.Kind == "cutclose" {
		ev.CloseAfter = true
	} else {
		binary.BigEndian.PutUint32(out, uint32(len(out)-4))
	}
	return out, cut
}

type p17Case struct {
	Mode  string
	W     wireCase
	M     mut
	API   int // flow: the API whose answer is mutated
	Skip  int
	Times int
	Op    int
	Resps map[int]wire.Obj
	Alt   wire.Obj // "valid": replacement answer
	Log   []logChunk
	Bad   []badChunk
	MaxV  int
	Seg   int
}

// badChunk is a stored chunk whose inner records are malformed while its outside is in order.
type badChunk struct {
	Magic, Codec int
	Recs         []logRec
	M            mut
	Count        int
}

func (b badChunk) put(pt *kafka.Part) {
	var recs []wire.Rec
	off := pt.Next
	for _, r := range b.Recs {
		recs = append(recs, wire.Rec{Offset: off, Key: r.Key, Value: r.Value, Headers: r.Headers, TS: 1700000000000})
		off++
	}
	first, last := recs[0].Offset, recs[len(recs)-1].Offset
	ch := kafka.Chunk{First: first, Last: last, Magic: b.Magic, Recs: recs}
	if b.Magic == 2 {
		x := wire.Batch{BaseOffset: first, LastOffsetDelta: int32(last - first), BaseTS: 1700000000000, MaxTS: 1700000000000, ProducerID: -1, ProducerEpoch: -1, BaseSeq: -1, Recs: recs}
		e := x.Encode(false)
		inner := wire.Compress(b.Codec, b.M.apply(e[61:], nil), false)
		e = append(append([]byte{}, e[:61]...), inner...)
		e[22] = byte(b.Codec)
		if b.Count != 0 {
			binary.BigEndian.PutUint32(e[57:], uint32(b.Count))
		}
		binary.BigEndian.PutUint32(e[8:], uint32(len(e)-12))
		binary.BigEndian.PutUint32(e[17:], crc32.Checksum(e[21:], crc32.MakeTable(crc32.Castagnoli)))
		ch.Bytes = e
	} else {
		inner := b.M.apply(wire.EncodeSetV01(b.Magic, 0, recs, false), nil)
		ch.Bytes = wire.EncodeMessageV01(b.Magic, last, 1700000000000, int8(b.Codec), nil, wire.Compress(b.Codec, inner, false))
	}
	pt.AppendRaw(ch)
}

var p17Ops = []struct {
	name string
	apis []int
	run  func(c *healer.Client, bs *healer.Brokers) error
}{
	{"ListGroups", []int{kafka.ListGroups, kafka.Metadata}, func(c *healer.Client, bs *healer.Brokers) error { _, e := c.ListGroups(); return e }},
	{"DescribeLogDirs", []int{kafka.DescribeLogDirs, kafka.Metadata}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := c.DescribeLogDirs([]string{"logs"})
		return e
	}},
	{"DeleteTopics", []int{kafka.DeleteTopics, kafka.Metadata}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := c.DeleteTopics([]string{"x", "y"}, 1000)
		return e
	}},
	{"CreateTopics", []int{kafka.CreateTopics, kafka.Metadata}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := c.CreateTopics([]string{"x", "y"}, 3, 1, 1000)
		return e
	}},
	{"CreateTopic", []int{kafka.CreateTopics, kafka.Metadata}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := c.CreateTopic("x", 3, 1, 1000)
		return e
	}},
	{"CreatePartitions", []int{kafka.CreatePartitions, kafka.Metadata}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := c.CreatePartitions("x", 3, 1000, false)
		return e
	}},
	{"DeleteGroups", []int{kafka.DeleteGroups, kafka.FindCoordinator, kafka.Metadata}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := c.DeleteGroups([]string{"g1", "g2"})
		return e
	}},
	{"DescribeAcls", []int{kafka.DescribeAcls}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := c.DescribeAcls(healer.DescribeAclsRequestBody{ResourceType: 2, PatternType: 3, Operation: 2, PermissionType: 3})
		return e
	}},
	{"CreateAcls", []int{kafka.CreateAcls}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := c.CreateAcls([]healer.AclCreation{{ResourceType: 2, ResourceName: "x", PatternType: 3, Principal: "User:a", Host: "*", Operation: 3, PermissionType: 3}})
		return e
	}},
	{"DeleteAcls", []int{kafka.DeleteAcls}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := c.DeleteAcls([]*healer.DeleteAclsFilter{{ResourceType: 2, PatternType: 3, Operation: 3, PermissionType: 3}})
		return e
	}},
	{"DescribeConfigs", []int{kafka.DescribeConfigs}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := c.DescribeConfigs("topic", "x", nil)
		return e
	}},
	{"ListPartitionReassignments", []int{kafka.ListPartitionReassignments}, func(c *healer.Client, bs *healer.Brokers) error {
		q := healer.NewListPartitionReassignmentsRequest("c", 1000)
		q.AddTP("x", 1)
		_, e := c.ListPartitionReassignments(q)
		return e
	}},
	{"AlterPartitionReassignments", []int{kafka.AlterPartitionReassignments}, func(c *healer.Client, bs *healer.Brokers) error {
		q := healer.NewAlterPartitionReassignmentsRequest(1000)
		q.AddAssignment("x", 0, []int32{1, 2})
		_, e := bs.AlterPartitionReassignments(&q)
		return e
	}},
	{"ElectLeaders", []int{kafka.ElectLeaders}, func(c *healer.Client, bs *healer.Brokers) error {
		q := healer.NewElectLeadersRequest(1000)
		q.Add("x", 1)
		_, e := bs.ElectLeaders(&q)
		return e
	}},
	{"RequestOffsets", []int{kafka.ListOffsets, kafka.Metadata}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := bs.RequestOffsets("c", "logs", -1, -1, 1)
		return e
	}},
	{"RequestOffsets 1", []int{kafka.ListOffsets, kafka.Metadata}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := bs.RequestOffsets("c", "logs", 1, -2, 1)
		return e
	}},
	{"RequestMetaData", []int{kafka.Metadata}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := bs.RequestMetaData("c", []string{"logs"})
		return e
	}},
	{"FindCoordinator", []int{kafka.FindCoordinator}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := bs.FindCoordinator("c", "g")
		return e
	}},
	{"Request", []int{kafka.DescribeGroups}, func(c *healer.Client, bs *healer.Brokers) error {
		_, e := bs.Request(healer.NewDescribeGroupsRequest("c", []string{"g"}))
		return e
	}},
	{"GetGroups", []int{kafka.ListGroups, kafka.Metadata}, func(c *healer.Client, bs *healer.Brokers) error {
		if healer.NewHelperFromBrokers(bs, "c").GetGroups() == nil {
			return fmt.Errorf("nil")
		}
		return nil
	}},
	{"producer", []int{kafka.Produce, kafka.Metadata}, func(c *healer.Client, bs *healer.Brokers) error {
		p, e := healer.NewProducer("logs", map[string]interface{}{"bootstrap.servers": "b1:9092,b2:9092", "message.max.count": 2, "net": map[string]interface{}{"connect.timeout.ms": 1000, "timeout.ms": 3000}})
		if e != nil {
			return e
		}
		for i := 0; i < 6; i++ {
			if e2 := p.AddMessage([]byte{byte(i)}, []byte("v")); e2 != nil {
				e = e2
			}
		}
		p.Close()
		return e
	}},
	{"consumer", []int{kafka.Metadata, kafka.OffsetFetch, kafka.FindCoordinator, kafka.ListOffsets, kafka.OffsetCommit}, func(c *healer.Client, bs *healer.Brokers) error {
		k, e := healer.NewConsumer(map[string]interface{}{"bootstrap.servers": "b1:9092,b2:9092", "group.id": "g", "from.beginning": true, "auto.commit.interval.ms": 500, "net": map[string]interface{}{"connect.timeout.ms": 1000, "timeout.ms": 3000}}, "logs")
		if e != nil {
			return e
		}
		ch := make(chan *healer.FullMessage, 100)
		go k.Consume(ch)
		time.Sleep(5 * time.Second)
		k.AwaitClose(time.Minute)
		return nil
	}},
	{"group", []int{kafka.JoinGroup, kafka.SyncGroup, kafka.Heartbeat, kafka.LeaveGroup, kafka.FindCoordinator, kafka.Metadata, kafka.JoinGroup, kafka.SyncGroup, kafka.JoinGroup, kafka.SyncGroup}, func(c *healer.Client, bs *healer.Brokers) error {
		k, e := healer.NewGroupConsumer("logs", map[string]interface{}{"bootstrap.servers": "b1:9092,b2:9092", "group.id": "g", "from.beginning": true, "session.timeout.ms": 6000, "auto.commit.interval.ms": 500, "net": map[string]interface{}{"connect.timeout.ms": 1000, "timeout.ms": 3000}})
		if e != nil {
			return e
		}
		ch := make(chan *healer.FullMessage, 100)
		go k.Consume(ch)
		time.Sleep(20 * time.Second)
		k.Close()
		return nil
	}},
}

func genP17(d *pbt.D) any {
	c := p17Case{Mode: []string{"call", "consume", "flow"}[d.W(8, 4, 4)], Times: 1, Seg: d.W(3, 1)}
	switch c.Mode {
	case "call":
		c.W = genWireCase(d, 1, true, false)
		c.M = genMut(d, false)
		for c.M.Kind == "valid" {
			c.M = mut{Kind: "random", Data: d.Bytes(200)}
		}
		if d.P(1, 3) {
			c.W.Tags = nil
		}
	case "consume":
		c.MaxV = pbt.Pick(d, 10, 7, 0, 11)
		magics := [][]int{{2}, {1}, {0}, {0, 1, 2}}[d.W(6, 2, 2, 2)]
		for n := d.Int(1, 4); n > 0; n-- {
			c.Log = append(c.Log, genChunk(d, magics, 6))
		}
		if d.P(1, 2) {
			c.M = genMut(d, false)
			c.Skip, c.Times = d.N(3), 1+d.N(3)
			if c.M.Kind == "valid" {
				c.Alt = genResp(d, wire.Resp(kafka.Fetch).Fields, fetchVersion(c.MaxV), &genOpt{}, 0)
			}
		} else {
			c.M.Kind = "append"
			b := badChunk{Magic: pbt.Pick(d, magics...), Codec: d.N(4), M: genMut(d, true)}
			for n := 1 + d.N(4); n > 0; n-- {
				r := logRec{Key: genLogBytes(d), Value: genLogBytes(d)}
				if b.Magic == 2 {
					for h := d.Skew(3); h > 0; h-- {
						r.Headers = append(r.Headers, wire.KV{K: d.Name(5), V: d.Bytes(6)})
					}
				} else if b.Codec == 0 {
					b.Codec = 1 + d.N(3)
				}
				b.Recs = append(b.Recs, r)
			}
			if d.P(1, 3) {
				b.Count = int(pbt.Pick(d, mutVals...))
			}
			c.Bad = append(c.Bad, b)
		}
	case "flow":
		c.Op = d.N(len(p17Ops))
		o := p17Ops[c.Op]
		c.API = o.apis[d.N(len(o.apis))]
		if d.P(1, 12) {
			c.API = kafka.ApiVersions
		}
		c.Skip, c.Times = pbt.Pick(d, 0, 0, 0, 1, 2, 3), pbt.Pick(d, 1, 1, 3, 1000)
		c.M = genMut(d, false)
		if d.P(1, 3) {
			c.M = mut{Kind: "valid"}
		}
		c.Resps = map[int]wire.Obj{}
		for _, k := range o.apis {
			if k > kafka.SyncGroup {
				a := apiByKey(k)
				c.Resps[k] = genResp(d, wire.Resp(k).Fields, a.vers[0], &genOpt{}, 0)
			}
		}
		if c.M.Kind == "valid" {
			v := 0
			if c.API != kafka.ApiVersions {
				v = apiByKey(c.API).vers[0]
			}
			opt := &genOpt{}
			if d.P(1, 4) {
				opt.errs = 2
			}
			c.Alt = genResp(d, wire.Resp(c.API).Fields, v, opt, 0)
		}
	}
	return c
}

func (c p17Case) String() string {
	switch c.Mode {
	case "call":
		return fmt.Sprintf("%s\n  mutation: %s", c.W, c.M)
	case "consume":
		s := fmt.Sprintf("consumer, fetch up to v%d, mutation of answers %d..%d: %s\n", c.MaxV, c.Skip, c.Skip+c.Times-1, c.M)
		for _, k := range c.Log {
			s += "  " + k.String() + "\n"
		}
		for _, b := range c.Bad {
			s += fmt.Sprintf("  malformed chunk magic %d codec %d count %d, %d records, %s\n", b.Magic, b.Codec, b.Count, len(b.Recs), b.M)
		}
		return s
	}
	s := fmt.Sprintf("%s, answers %d..%d of api %d: %s\n", p17Ops[c.Op].name, c.Skip, c.Skip+c.Times-1, c.API, c.M)
	if c.Alt != nil {
		s += "  replaced by " + clip(fmt.Sprintf("%q", fmt.Sprint(c.Alt))) + "\n"
	}
	return s
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

const allocBase, allocPer, allocFetch = 48 << 20, 1200, 24 << 20

func runP17(r *pbt.R, c p17Case) {
	a0 := allocated()
	var cl *kafka.Cluster
	what := ""
	switch c.Mode {
	case "call":
		cl, what = p17Call(r, c)
	case "consume":
		cl, what = p17Consume(r, c)
	case "flow":
		cl, what = p17Flow(r, c)
	}
	if cl == nil {
		return
	}
	bytes, fetches := 0, 0
	cl.Lock()
	for _, e := range cl.Hist {
		bytes += e.Sent
		if e.H.API == kafka.Fetch {
			fetches++ // decompression has a working area of its own
		}
	}
	cl.Unlock()
	if used := allocated() - a0; used > allocBase+allocPer*uint64(bytes)+allocFetch*uint64(fetches) && !r.Failed() {
		r.Fail("memory:"+what, "%d MB allocated for %d bytes of responses", used>>20, bytes)
	}
	noteHistory(r, cl)
}

func p17Call(r *pbt.R, c p17Case) (*kafka.Cluster, string) {
	w := c.W
	at := fmt.Sprintf("%s v%d", w.A.name, w.V)
	cl := kafka.New(1, 1)
	cl.Seg, cl.Tags = w.Seg, w.Tags
	cl.Brokers[1].Ranges[w.A.key] = w.Rng
	cl.Override = func(b *kafka.Broker, e *kafka.Ev) (wire.Obj, bool) {
		if e.H.API == w.A.key {
			return w.Resp, true
		}
		return nil, false
	}
	cut, changed := false, false
	cl.RawAnswer = func(b *kafka.Broker, e *kafka.Ev, f []byte) []byte {
		if e.H.API != w.A.key {
			return f
		}
		out, k := c.M.frame(e, f, w.Tags)
		cut, changed = k, string(out) != string(f)
		return out
	}
	cl.Install()
	cfg := healer.DefaultBrokerConfig()
	cfg.Net.ConnectTimeoutMS, cfg.Net.TimeoutMS = 1000, 3000
	b, err := healer.NewBroker("b1:9092", 1, cfg)
	if err != nil {
		if w.A.key == kafka.ApiVersions {
			r.Class(at + " " + c.M.Kind)
			return cl, at // the discovery itself failed
		}
		r.Fail("setup", "NewBroker failed on a healthy broker: %v", err)
		return cl, at
	}
	var pv any
	var stack string
	if !within(10*time.Minute, func() {
		pv, stack = call(func() { _, err = b.RequestAndGet(w.Mk()) })
	}) {
		r.Fail("hang:"+at, "the call did not return")
		return cl, at
	}
	if pv != nil {
		r.Fail("panic:"+at, "panic on a malformed response: %v\n%s", pv, stack)
		return cl, at
	}
	if !changed {
		r.Class("unchanged")
		b.Close()
		return cl, at
	}
	r.NonTrivial()
	r.Class(c.M.Kind)
	if cut && err == nil {
		r.Fail("cut:"+at, "the response was cut short, yet the call returned no error")
	}
	if err != nil {
		r.Class("error returned")
	}
	b.Close()
	return cl, at
}

func p17Consume(r *pbt.R, c p17Case) (*kafka.Cluster, string) {
	cl := kafka.New(1, 7)
	cl.Seg = c.Seg
	t := cl.AddTopic("logs", 1)
	cl.Brokers[1].Ranges[kafka.Fetch] = [2]int{0, c.MaxV}
	cl.MinFetchDelay = 200 * time.Millisecond
	pt := t.Parts[0]
	store(pt, c.Log)
	for _, b := range c.Bad {
		b.put(pt)
	}
	store(pt, []logChunk{probeChunk(1)})
	n, hit := 0, false
	active := func(k int) bool { return len(c.Bad) == 0 && k >= c.Skip && k < c.Skip+c.Times }
	cl.Override = func(b *kafka.Broker, e *kafka.Ev) (wire.Obj, bool) {
		if e.H.API == kafka.Fetch && c.Alt != nil && active(n) {
			return c.Alt, true
		}
		return nil, false
	}
	cl.RawAnswer = func(b *kafka.Broker, e *kafka.Ev, f []byte) []byte {
		if e.H.API != kafka.Fetch {
			return f
		}
		n++
		if !active(n - 1) {
			return f
		}
		out, _ := c.M.frame(e, f, nil)
		hit = hit || string(out) != string(f) || c.Alt != nil
		return out
	}
	cl.Install()
	con, err := healer.NewSimpleConsumer("logs", 0, map[string]interface{}{"bootstrap.servers": cl.Bootstrap(), "fetch.max.wait.ms": 200, "from.beginning": true,
		"net": map[string]interface{}{"connect.timeout.ms": 1000, "timeout.ms": 3000}})
	if err != nil {
		r.Fail("setup", "NewSimpleConsumer: %v", err)
		return cl, "consumer"
	}
	ch := make(chan *healer.FullMessage, 10)
	if _, err = con.Consume(0, ch); err != nil {
		r.Fail("setup", "Consume: %v", err)
		return cl, "consumer"
	}
	go func() {
		for range ch {
		}
	}()
	time.Sleep(3 * time.Second)
	until(time.Minute, time.Second, func() bool { return len(c.Bad) > 0 || n > c.Skip+c.Times })
	before := len(cl.Events(kafka.Fetch))
	if !until(time.Minute, 100*time.Millisecond, func() bool { return len(cl.Events(kafka.Fetch)) > before }) {
		r.Fail("stuck:consumer", "no further fetch request within a minute (%d fetches so far)", before)
	}
	if !guarded(r, "Stop", 2*time.Minute, con.Stop) {
		r.Fail("hang:stop", "Stop did not return within two minutes")
	}
	if hit || len(c.Bad) > 0 {
		r.NonTrivial()
		r.Class("consumer " + c.M.Kind)
		if len(c.Bad) > 0 {
			r.Class("malformed inner records")
		}
	}
	return cl, "consumer"
}

func p17Flow(r *pbt.R, c p17Case) (*kafka.Cluster, string) {
	o := p17Ops[c.Op]
	cl := kafka.New(2, 7)
	cl.Seg = c.Seg
	cl.Controller = 2
	t := cl.AddTopic("logs", 1, 2)
	cl.MinFetchDelay = 100 * time.Millisecond
	for i, p := range t.Parts {
		store(p, []logChunk{probeChunk(i), probeChunk(i + 5)})
	}
	n, hit := 0, false
	active := func(api, k int) bool { return api == c.API && k >= c.Skip && k < c.Skip+c.Times }
	cl.Override = func(b *kafka.Broker, e *kafka.Ev) (wire.Obj, bool) {
		if c.Alt != nil && active(e.H.API, n) {
			return c.Alt, true
		}
		if x, ok := c.Resps[e.H.API]; ok {
			return x, true
		}
		return nil, false
	}
	cl.RawAnswer = func(b *kafka.Broker, e *kafka.Ev, f []byte) []byte {
		if e.H.API != c.API {
			return f
		}
		n++
		if !active(e.H.API, n-1) {
			return f
		}
		out, _ := c.M.frame(e, f, nil)
		hit = hit || string(out) != string(f) || c.Alt != nil
		return out
	}
	cl.Install()
	what := "flow " + o.name
	var err error
	limit := time.Hour
	waits := o.name == "producer" && c.API == kafka.Metadata
	if waits {
		limit = 3 * time.Minute
	}
	if !within(limit, func() {
		pv, stack := call(func() {
			var cli *healer.Client
			if cli, err = healer.NewClient(cl.Bootstrap(), "c"); err != nil {
				return
			}
			cfg := healer.DefaultBrokerConfig()
			cfg.Net.ConnectTimeoutMS, cfg.Net.TimeoutMS = 1000, 3000
			var bs *healer.Brokers
			if bs, err = healer.NewBrokersWithConfig(cl.Bootstrap(), cfg); err != nil {
				return
			}
			err = o.run(cli, bs)
			cli.Close()
			bs.Close()
		})
		if pv != nil {
			r.Fail("panic:"+what, "panic on a malformed response: %v\n%s", pv, stack)
		}
	}) {
		if waits {
			r.Class("NewProducer waits for its topic") // it retries until the metadata names a usable partition
			return nil, what
		} else {
			r.Fail("hang:"+what, "the call did not return within an hour")
		}
	}
	if hit {
		r.NonTrivial()
		r.Class(what)
		r.Class("flow " + c.M.Kind)
		if err != nil {
			r.Class("flow error returned")
		}
	}
	return cl, what
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P17",
		Level: "fault_enumeration",
		Rule: "case = a valid response of one of 28 APIs, a fetch answer (all formats, codecs, malformed records inside valid compressed batches) or an answer within one of 23 client flows, mutated by one of 13 edits (cut with and without matching prefix, length/count/varint fields set to extreme or off-by-one values, random bytes, flips, inserted/deleted bytes, wrong frame length, schema-valid but unrelated content, edits inside nested byte fields); " +
			"no panic, the call returns, a cut body gives an error, allocations stay below 48 MB + 1200 x bytes received + 24 MB per fetch (decompressor working area); non-trivial = the bytes sent differ from the valid answer",
		Quick: 60000, Deep: 900000, Chunk: 250,
		Gen: genP17,
		Run: func(x any, r *pbt.R) {
			c := x.(p17Case)
			bubble(r, func() { runP17(r, c) })
		},
		Desc: func(x any) string { return x.(p17Case).String() },
	})
}
