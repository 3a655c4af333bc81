//go:build cli

package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/childe/healer"
	"github.com/go-logr/logr"
	"k8s.io/klog/v2"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// The commands that read and write offsets, metadata and messages.

type p25Part struct {
	Leader  int // index of the broker, -1 none
	Start   int64
	N       int // records stored
	Later   int // appended while the command runs
	TS      int64
	Commits map[string]int64
}

type p25Topic struct {
	Name  string
	Err   int16
	Parts []p25Part
}

type p25Group struct {
	Name    string
	Coord   int
	Listed  bool
	Members []map[string][]int32 // topic -> partitions
}

type p25Data struct {
	Kind   string
	IDs    []int32
	Ctl    int
	Topics []p25Topic
	Groups []p25Group
	MaxM   int
	MaxL   int
	Args   []string
	Faults []kafka.Fault
	Down   int

	Format string
	Asked  []string
	Topic  string
	Part   int32
	Parts  []int32
	TS     int64
	Group  string
	Total  bool
	Header bool
	Max    int
	Stop   int64
	Offset int64
	JSON   bool
	PrintO bool
	BadCfg bool
	Lines  [][]byte
	Codec  string
}

func (c p25Data) String() string {
	s := fmt.Sprintf("%s: brokers %v, controller %d, metadata up to v%d, list offsets up to v%d\n", c.Kind, c.IDs, c.IDs[c.Ctl], c.MaxM, c.MaxL)
	for _, t := range c.Topics {
		s += fmt.Sprintf("  topic %s err %d %+v\n", t.Name, t.Err, t.Parts)
	}
	for _, g := range c.Groups {
		s += fmt.Sprintf("  group %+v\n", g)
	}
	s += fmt.Sprintf("  command %q", c.Args)
	if len(c.Lines) > 0 {
		s += fmt.Sprintf(" with %d lines", len(c.Lines))
		for i, l := range c.Lines {
			if i < 5 {
				s += " " + q(l)
			}
		}
	}
	for _, f := range c.Faults {
		s += "\n  fault " + f.String()
	}
	if c.Down >= 0 {
		s += fmt.Sprintf("\n  broker %d is down", c.IDs[c.Down])
	}
	return s + "\n"
}

func (c *p25Data) topic(name string) *p25Topic {
	for i := range c.Topics {
		if c.Topics[i].Name == name {
			return &c.Topics[i]
		}
	}
	return nil
}

// the value of a record; unique, with a terminator
func p25Value(t string, p int, off int64) []byte {
	h := hash32("value", t, p, off)
	v := fmt.Sprintf("%s/%d/%d", t, p, off)
	switch h % 8 {
	case 1:
		v += "\nnext line"
	case 2:
		v += " é\x00\x80"
	case 3:
		v += strings.Repeat("=", int(h/8%300))
	}
	return []byte(v + ";")
}

var p25Kinds = []string{"metadata", "offsets", "reset", "pending", "simpleconsumer", "consoleconsumer", "groupconsumer", "simpleproducer", "consoleproducer"}

func genP25Data(d *pbt.D) *p25Data { return genTools(d, p25Kinds) }

func genTools(d *pbt.D, kinds []string) *p25Data {
	c := &p25Data{Kind: kinds[d.N(len(kinds))], Down: -1, MaxM: pbt.Pick(d, 7, 7, 4, 1), MaxL: d.N(2)}
	n := 1 + d.N(3)
	id := pbt.Pick(d, int32(1), 0, 1001)
	for i := 0; i < n; i++ {
		c.IDs = append(c.IDs, id)
		id += int32(1 + d.W(6, 1)*d.N(5))
	}
	c.Ctl = d.N(n)
	moving := strings.Contains(c.Kind, "consumer") || strings.Contains(c.Kind, "producer")
	for i := range d.N(3) {
		c.Groups = append(c.Groups, p25Group{Name: fmt.Sprintf("g%d%s", i, pbt.Pick(d, "", "", ".x", "-a", "+(", "[")), Coord: d.N(n), Listed: d.P(4, 5)})
	}
	for range 1 + d.N(3) {
		t := p25Topic{Name: fmt.Sprintf("t%d", len(c.Topics))}
		if len(c.Topics) > 0 && d.P(1, 4) {
			t.Name = c.Topics[len(c.Topics)-1].Name + pbt.Pick(d, "0", ".", "-x")
		}
		for range 1 + d.N(4) {
			p := p25Part{Leader: d.N(n), Start: int64(d.W(2, 1) * d.Skew(1000)), N: d.W(1, 3) * d.Skew(12), TS: 1700000000000 + int64(d.N(1000)), Commits: map[string]int64{}}
			if moving {
				p.Later = d.W(2, 1) * d.N(4)
			} else if d.P(1, 25) {
				p.Leader = -1
			}
			for _, g := range c.Groups {
				switch d.W(1, 2, 1) {
				case 1:
					p.Commits[g.Name] = p.Start + int64(d.N(p.N+1))
				case 2:
					p.Commits[g.Name] = int64(d.N(2000))
				}
			}
			t.Parts = append(t.Parts, p)
		}
		if !moving && d.P(1, 25) {
			t.Err = pbt.Pick(d, int16(5), 29, 3)
		}
		c.Topics = append(c.Topics, t)
	}
	for i := range c.Groups {
		for range d.W(1, 2, 2, 1) {
			m := map[string][]int32{}
			idle := d.P(1, 4)
			for _, t := range c.Topics {
				if d.Bool() && !idle {
					m[t.Name] = []int32{}
				}
			}
			c.Groups[i].Members = append(c.Groups[i].Members, m)
		}
		if k := len(c.Groups[i].Members); k > 0 {
			for _, t := range c.Topics {
				for p := range t.Parts {
					if m := c.Groups[i].Members[d.N(k)]; m[t.Name] != nil {
						m[t.Name] = append(m[t.Name], int32(p))
					}
				}
			}
		}
	}
	c.Topic = c.Topics[d.N(len(c.Topics))].Name
	tp := c.topic(c.Topic)
	flag := func(name, val string) {
		if d.Bool() {
			c.Args = append(c.Args, "--"+name+"="+val)
		} else {
			c.Args = append(c.Args, "--"+name, val)
		}
	}
	onOff := func(name string, v, def bool) {
		if v != def || d.Bool() {
			c.Args = append(c.Args, fmt.Sprintf("--%s=%v", name, v))
		}
	}
	var apis []int
	cfg := map[string]any{}
	switch c.Kind {
	case "metadata":
		c.Args = []string{"get-metadata"}
		c.Format = pbt.Pick(d, "json", "json", "cat")
		if d.P(1, 12) {
			c.Format = "yaml"
		}
		if c.Format != "json" || d.Bool() {
			flag("format", c.Format)
		}
		for _, i := range d.Perm(len(c.Topics))[:d.N(len(c.Topics)+1)] {
			c.Asked = append(c.Asked, c.Topics[i].Name)
		}
		if d.P(1, 8) {
			c.Asked = append(c.Asked, "missing")
		}
		if len(c.Asked) > 0 {
			flag("topics", csvOf(c.Asked))
		}
		apis = []int{kafka.Metadata}
	case "offsets", "reset":
		if d.P(1, 15) {
			c.Topic, tp = "missing", nil
		}
		c.TS = pbt.Pick(d, int64(-1), -2, 1700000000000+int64(d.N(1000)), 1700000000000, 1700000001000, 1800000000000)
		if c.Kind == "offsets" {
			c.Args = []string{"get-offsets"}
		} else {
			c.Args = []string{"reset-offset"}
			c.Group = fmt.Sprintf("g%d", d.N(2))
			if len(c.Groups) > 0 {
				c.Group = c.Groups[d.N(len(c.Groups))].Name
			}
			flag("group", c.Group)
			if tp != nil && d.P(2, 3) {
				for p := range tp.Parts {
					if d.Bool() {
						c.Parts = append(c.Parts, int32(p))
					}
				}
				if d.P(1, 10) {
					c.Parts = append(c.Parts, int32(len(tp.Parts)+d.N(3)))
				}
				for _, p := range c.Parts {
					flag("partitions", fmt.Sprint(p))
				}
			}
		}
		flag("topic", c.Topic)
		flag("timestamp", fmt.Sprint(c.TS))
		apis = []int{kafka.Metadata, kafka.ListOffsets, kafka.ListOffsets}
		if c.Kind == "reset" {
			apis = append(apis, kafka.FindCoordinator, kafka.OffsetCommit, kafka.OffsetCommit)
		}
	case "pending":
		c.Args = []string{"get-pending"}
		c.Group = fmt.Sprintf("g%d", d.N(2))
		if len(c.Groups) > 0 {
			c.Group = c.Groups[d.N(len(c.Groups))].Name
		}
		if d.P(1, 3) {
			c.Group = pbt.Pick(d, "", "*", "g*", "g0*", "*x", "g1", "g+*", "*[*", "g.*")
		}
		if c.Group != "" || d.Bool() {
			flag("group", c.Group)
		}
		if d.P(1, 3) {
			c.Topic = ""
		} else {
			if d.P(1, 20) {
				c.Topic = "missing"
			}
			flag("topic", c.Topic)
		}
		c.Total, c.Header = d.Bool(), d.P(3, 4)
		onOff("total", c.Total, false)
		onOff("header", c.Header, true)
		apis = []int{kafka.Metadata, kafka.ListOffsets, kafka.FindCoordinator, kafka.OffsetFetch, kafka.DescribeGroups, kafka.ListGroups}
	case "simpleconsumer":
		c.Args = []string{"simple-consumer"}
		c.Part = int32(d.N(len(tp.Parts)))
		p := tp.Parts[c.Part]
		flag("topic", c.Topic)
		flag("partition", fmt.Sprint(c.Part))
		c.Offset = pbt.Pick(d, int64(-2), -2, -1, p.Start+int64(d.N(p.N+1)))
		flag("offset", fmt.Sprint(c.Offset))
		c.Max = 1<<31 - 1
		if d.P(2, 3) {
			c.Max = d.N(p.N + p.Later + 2)
			flag("max-messages", fmt.Sprint(c.Max))
		}
		if d.P(1, 3) {
			c.Stop = p.Start + int64(d.N(p.N+p.Later+1))
			flag("stopoffset", fmt.Sprint(c.Stop))
		}
		c.JSON, c.PrintO = d.P(1, 3), d.P(1, 2)
		onOff("json", c.JSON, false)
		onOff("printoffset", c.PrintO, true)
	case "consoleconsumer", "groupconsumer":
		flag("topic", c.Topic)
		total := 0
		if c.Kind == "consoleconsumer" {
			for p := range tp.Parts {
				if d.P(1, 3) {
					c.Parts = append(c.Parts, int32(p))
				}
			}
			for i, k := 0, len(c.Parts); i < k; i++ {
				flag("partitions", fmt.Sprint(c.Parts[i]))
			}
			c.PrintO = d.P(1, 2)
			onOff("printoffset", c.PrintO, true)
		} else {
			c.Group = "cg"
			flag("group", c.Group)
		}
		for p := range tp.Parts {
			if c.wants(p) {
				total += tp.Parts[p].N + tp.Parts[p].Later
			}
		}
		c.Max = 1 << 40
		if d.P(3, 4) {
			c.Max = 1 + d.N(total+1)
			flag("max-messages", fmt.Sprint(c.Max))
		}
		c.JSON = d.P(1, 3)
		onOff("json", c.JSON, false)
		cfg["from.beginning"] = true
		c.Args = append([]string{map[string]string{"consoleconsumer": "console-consumer", "groupconsumer": "group-consumer"}[c.Kind]}, c.Args...)
	case "simpleproducer", "consoleproducer":
		c.Args = []string{map[string]string{"simpleproducer": "simple-producer", "consoleproducer": "console-producer"}[c.Kind]}
		flag("topic", c.Topic)
		if c.Kind == "simpleproducer" {
			c.Part = int32(d.N(len(tp.Parts)))
			flag("partition", fmt.Sprint(c.Part))
		}
		for i := range d.Skew(40) {
			l := []byte(fmt.Sprintf("%d:", i))
			switch d.W(6, 1, 1, 1) {
			case 0:
				l = append(l, d.Str(20)...)
			case 1:
				l = nil
			case 2:
				l = append(l, bytes.Repeat([]byte("long"), d.N(4000))...)
			case 3:
				l = append(l, d.Bytes(30)...)
			}
			l = bytes.ReplaceAll(bytes.ReplaceAll(l, []byte("\n"), []byte(".")), []byte("\r"), []byte("."))
			c.Lines = append(c.Lines, l)
		}
		if d.P(1, 25) {
			c.Lines = append(c.Lines, bytes.Repeat([]byte("x"), pbt.Pick(d, 65534, 65535, 65536, 70000, 200000)), []byte("last"))
		}
		cfg["message.max.count"] = pbt.Pick(d, 1, 2, 5, 1000)
		if d.P(1, 3) {
			cfg["compress.type"] = pbt.Pick(d, "gzip", "snappy", "lz4", "none")
		}
		apis = []int{kafka.Produce}
	}
	if moving {
		if c.BadCfg = d.P(1, 15); c.BadCfg {
			flag("config", pbt.Pick(d, "{", `{"from.beginning"=true}`, "x", `["a"]`))
		} else if len(cfg) > 0 {
			b, _ := json.Marshal(cfg)
			flag("config", string(b))
		} else if d.Bool() {
			flag("config", `{}`)
		}
	}
	flag("brokers", "")
	if d.Bool() {
		flag("client", d.Name(8))
	}
	if len(apis) > 0 && d.P(1, 4) {
		f := kafka.Fault{API: apis[d.N(len(apis))], Broker: -1, Skip: d.Skew(4), Kind: pbt.Pick(d, kafka.FErr, kafka.FErr, kafka.FClose, kafka.FCloseAft, kafka.FReset, kafka.FHang, kafka.FSwallow, kafka.FTrunc), Arg: d.N(1000), Times: pbt.Pick(d, 1, 1, 2, 5)}
		if f.Kind == kafka.FErr {
			f.Code = map[int]int16{kafka.Metadata: 5, kafka.ListOffsets: 6, kafka.FindCoordinator: 15, kafka.OffsetCommit: 28, kafka.OffsetFetch: 14, kafka.DescribeGroups: 15, kafka.ListGroups: 15, kafka.Produce: 10}[f.API]
		}
		c.Faults = append(c.Faults, f)
	} else if !moving && d.P(1, 10) {
		c.Down = d.N(n)
	} else if strings.HasSuffix(c.Kind, "consumer") && d.P(1, 4) {
		c.Faults = append(c.Faults, kafka.Fault{API: kafka.Fetch, Broker: -1, Skip: d.Skew(3), Kind: pbt.Pick(d, kafka.FClose, kafka.FReset, kafka.FTrunc), Arg: d.N(1000)})
	}
	return c
}

func (c *p25Data) wants(p int) bool {
	if c.Kind == "simpleconsumer" {
		return p == int(c.Part)
	}
	if len(c.Parts) == 0 {
		return true
	}
	for _, x := range c.Parts {
		if int(x) == p {
			return true
		}
	}
	return false
}

func p25Recs(t string, p int, from int64, n int, ts int64) (r []wire.Rec) {
	for i := range n {
		x := wire.Rec{Offset: from + int64(i), TS: ts + int64(i)*100, Value: p25Value(t, p, from+int64(i))}
		if h := hash32("key", t, p, x.Offset); h%3 == 0 {
			x.Key = []byte(fmt.Sprintf("k%d", h))
		}
		r = append(r, x)
	}
	return
}

// toolWorld starts the cluster of a case.
func toolWorld(c *p25Data) *kafka.Cluster {
	cl := kafka.New(0, 1)
	for _, id := range c.IDs {
		b := cl.AddBroker(id, fmt.Sprintf("b%d", id), 9092)
		b.Ranges[kafka.Metadata] = [2]int{0, c.MaxM}
		b.Ranges[kafka.ListOffsets] = [2]int{0, c.MaxL}
	}
	for _, t := range c.Topics {
		var ls []int32
		for _, p := range t.Parts {
			if p.Leader < 0 {
				ls = append(ls, -1)
			} else {
				ls = append(ls, c.IDs[p.Leader])
			}
		}
		kt := cl.AddTopic(t.Name, ls...)
		kt.Err = t.Err
		for i, p := range t.Parts {
			kp := kt.Parts[i]
			if p.Leader < 0 {
				kp.Err = 5
			}
			kp.Start, kp.Next = p.Start, p.Start
			for _, rs := range p25Recs(t.Name, i, p.Start, p.N, p.TS) {
				kp.AppendRecs([]wire.Rec{rs}, 2, 0, false, 0)
			}
			for g, off := range p.Commits {
				cl.Group(g).Offsets[kafka.OffsetKey{Topic: t.Name, Part: int32(i)}] = off
			}
		}
	}
	cl.Controller = c.IDs[c.Ctl]
	cl.Coordinator = func(g string) int32 {
		for _, x := range c.Groups {
			if x.Name == g {
				return c.IDs[x.Coord]
			}
		}
		return c.IDs[0]
	}
	cl.Override = func(b *kafka.Broker, ev *kafka.Ev) (wire.Obj, bool) {
		code := int64(0)
		if strings.HasPrefix(ev.Fault, kafka.FErr) {
			code = 15
		}
		switch ev.H.API {
		case kafka.ListGroups:
			l := []any{}
			for _, g := range c.Groups {
				if g.Listed && c.IDs[g.Coord] == b.ID && code == 0 {
					l = append(l, wire.Obj{"group_id": g.Name, "protocol_type": "consumer", "group_state": "Stable", "group_type": "classic"})
				}
			}
			return wire.Obj{"error_code": code, "groups": l}, true
		case kafka.DescribeGroups:
			l := []any{}
			for _, x := range ev.Req.A("groups") {
				ms := []any{}
				for _, g := range c.Groups {
					if g.Name != x.(string) || code != 0 {
						continue
					}
					for i, m := range g.Members {
						var as []byte
						if len(m) > 0 || hash32(g.Name, i)%2 == 0 {
							var tps []wire.TopicParts
							for _, t := range c.Topics {
								if ps := m[t.Name]; ps != nil {
									tps = append(tps, wire.TopicParts{Topic: t.Name, Parts: ps})
								}
							}
							as = wire.EncodeAssignment(0, tps, nil)
						}
						ms = append(ms, wire.Obj{"member_id": fmt.Sprintf("m%d", i), "client_id": "c", "client_host": "/h", "member_metadata": []byte{}, "member_assignment": as})
					}
				}
				l = append(l, wire.Obj{"error_code": code, "group_id": x, "group_state": "Stable", "protocol_type": "consumer", "protocol_data": "range", "members": ms})
			}
			return wire.Obj{"groups": l}, true
		case kafka.ListOffsets: // with the timestamps of the records
			return nil, false
		}
		return nil, false
	}
	for _, f := range c.Faults {
		cl.Faults = append(cl.Faults, &f)
	}
	if c.Down >= 0 {
		cl.SetMode(c.IDs[c.Down], kafka.Refuse)
	}
	cl.Install()
	return cl
}

func runP25Data(r *pbt.R, c p25Data) {
	cl := toolWorld(&c)
	moving := strings.HasSuffix(c.Kind, "consumer") || strings.HasSuffix(c.Kind, "producer")
	if moving { // as the program does; what the library logs is printed
		if strings.HasSuffix(c.Kind, "producer") {
			healer.SetLogger(klog.NewKlogr())
			defer healer.SetLogger(logr.Discard())
		}
		go func() {
			time.Sleep(20 * time.Second)
			cl.Lock()
			defer cl.Unlock()
			for _, t := range c.Topics {
				for i, p := range t.Parts {
					kp := cl.Topics[t.Name].Parts[i]
					if strings.HasSuffix(c.Kind, "consumer") {
						for _, rs := range p25Recs(t.Name, i, p.Start+int64(p.N), p.Later, p.TS) {
							kp.AppendRecs([]wire.Rec{rs}, 2, 0, false, 0)
						}
					}
				}
			}
		}()
	}
	before := map[kafka.OffsetKey]int64{}
	if c.Group != "" {
		cl.Lock()
		for k, v := range cl.Group(c.Group).Offsets {
			before[k] = v
		}
		cl.Unlock()
	}
	var stdin []byte
	for _, l := range c.Lines {
		stdin = append(append(stdin, l...), '\n')
	}
	limit := time.Hour
	if strings.HasSuffix(c.Kind, "consumer") {
		limit = 5 * time.Minute
	}
	res := runCLI(stdin, limit, bootArgs(c.Args, cl))
	r.Note("%s", res)
	r.Class(c.Kind)
	if res.Panic != "" {
		r.Fail("panic", "the command panicked: %s", res.Panic)
		return
	}
	cl.Lock()
	faulty := cl.FaultsUsed > 0 || c.Down >= 0
	cl.Unlock()
	if res.failed() {
		r.Class("reported failure")
	}
	switch c.Kind {
	case "metadata":
		c.metadata(r, cl, res, faulty)
	case "offsets":
		c.offsets(r, cl, res, faulty)
	case "reset":
		c.reset(r, cl, res, faulty, before)
	case "pending":
		c.pending(r, cl, res, faulty)
	case "simpleconsumer", "consoleconsumer", "groupconsumer":
		c.consume(r, cl, res)
	default:
		c.produce(r, cl, res, faulty)
	}
	for _, e := range cl.ProtoErrs {
		r.Fail("malformed:"+c.Kind, "%s", e)
	}
	noteHistory(r, cl)
}

func (c *p25Data) ended(r *pbt.R, res cliRun) bool {
	if !res.Ended {
		r.Fail("hang:"+c.Kind, "the command %q did not end within an hour", c.Args)
	}
	return res.Ended
}

func lastDone(cl *kafka.Cluster, api int) (last *kafka.Ev) {
	for _, e := range cl.Events(api) {
		if e.Done >= 0 {
			last = e
		}
	}
	return
}

func (c *p25Data) metadata(r *pbt.R, cl *kafka.Cluster, res cliRun, faulty bool) {
	if !c.ended(r, res) {
		return
	}
	r.NonTrivial()
	if c.Format != "json" && c.Format != "cat" {
		if !res.failed() {
			r.Fail("silent:metadata", "format %q is accepted: %s", c.Format, res)
		}
		return
	}
	evs := cl.Events(kafka.Metadata)
	var last *kafka.Ev
	if len(evs) > 0 {
		last = evs[len(evs)-1]
	}
	if last == nil || last.Done < 0 {
		if !res.failed() {
			r.Fail("silent:metadata", "success though the request was not answered: %s", res)
		}
		return
	}
	codes := codesIn(last.Resp)
	if res.failed() {
		if len(codes) == 0 && !faulty {
			r.Fail("invented:metadata", "a failure is reported though the answer has no error: %s", res)
		}
		return
	}
	if len(codes) > 0 && c.Format == "cat" {
		r.Fail("silent:metadata", "success though the answer carries the codes %v: %s", codes, res)
		return
	}
	var asked []any
	for _, t := range c.Asked {
		asked = append(asked, t)
	}
	var got []any
	for _, t := range last.Req.A("topics") {
		got = append(got, t.(wire.Obj).S("name"))
	}
	if fmt.Sprint(asked) != fmt.Sprint(got) || (len(asked) == 0 && last.Req["topics"] != nil && last.H.Version > 0) {
		r.Fail("request:metadata", "asked for %v (null %v) instead of %q", got, last.Req["topics"] == nil, c.Asked)
		return
	}
	if c.Format == "json" {
		var v healer.MetadataResponse
		if err := json.Unmarshal(res.Out, &v); err != nil {
			r.Fail("output:metadata", "the output cannot be read: %v: %s", err, res)
		} else if s := sameResult(apiByKey(kafka.Metadata), last.H.Version, last.Resp, v); s != "" {
			r.Fail("value:metadata", "%s: %s", s, res)
		}
		return
	}
	want := "brokers:\n"
	for _, id := range c.IDs {
		want += fmt.Sprintf("%d b%d:9092\n", id, id)
	}
	want += "topics:\n"
	names := c.Asked
	if len(names) == 0 {
		for _, t := range c.Topics {
			names = append(names, t.Name)
		}
		sort.Strings(names)
	}
	for _, n := range names {
		for i, p := range c.topic(n).Parts {
			want += fmt.Sprintf("%s %d b%d:9092\n", n, i, c.IDs[p.Leader])
		}
	}
	if sortLines(string(res.Out)) != sortLines(want) {
		r.Fail("value:metadata", "printed %s instead of %s", clipN(string(res.Out), 500), clipN(want, 500))
	}
}

func sortLines(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// offsetAt is the offset the cluster has for a timestamp, -1 if none.
func (c *p25Data) offsetAt(p p25Part, ts int64) int64 {
	switch ts {
	case -1:
		return p.Start + int64(p.N)
	case -2:
		return p.Start
	}
	for i := range p.N {
		if p.TS+int64(i)*100 >= ts {
			return p.Start + int64(i)
		}
	}
	return -1
}

// dark: something that is needed for the offsets of the topic cannot be had
func (c *p25Data) dark(topic string) bool {
	t := c.topic(topic)
	if t == nil || t.Err != 0 {
		return true
	}
	for _, p := range t.Parts {
		if p.Leader < 0 || p.Leader == c.Down {
			return true
		}
	}
	return false
}

func (c *p25Data) offsets(r *pbt.R, cl *kafka.Cluster, res cliRun, faulty bool) {
	if !c.ended(r, res) {
		return
	}
	r.NonTrivial()
	if c.dark(c.Topic) {
		if !res.failed() {
			r.Fail("silent:offsets", "success though not all offsets can be had: %s", res)
		}
		return
	}
	if res.failed() {
		if !faulty {
			r.Fail("invented:offsets", "a failure is reported though all brokers answered: %s", res)
		}
		return
	}
	want := ""
	ver := 0
	for _, e := range cl.Events(kafka.ListOffsets) {
		ver = e.H.Version
	}
	for i, p := range c.topic(c.Topic).Parts {
		ts := int64(-1)
		if ver == 0 {
			ts = 0
		}
		want += fmt.Sprintf("%s:%d:%d %d\n", c.Topic, i, ts, c.offsetAt(p, c.TS))
	}
	if string(res.Out) != want {
		r.Fail("value:offsets", "printed %s instead of %s", clipN(string(res.Out), 500), clipN(want, 500))
	}
}

func (c *p25Data) reset(r *pbt.R, cl *kafka.Cluster, res cliRun, faulty bool, before map[kafka.OffsetKey]int64) {
	if !c.ended(r, res) {
		return
	}
	r.NonTrivial()
	t := c.topic(c.Topic)
	want := map[kafka.OffsetKey]int64{}
	for k, v := range before {
		want[k] = v
	}
	impossible := t == nil || t.Err != 0
	if t != nil {
		for i, p := range t.Parts {
			if !c.wants(i) {
				continue
			}
			off := c.offsetAt(p, c.TS)
			want[kafka.OffsetKey{Topic: c.Topic, Part: int32(i)}] = off
			impossible = impossible || off < 0 || p.Leader < 0 || p.Leader == c.Down
		}
		for _, p := range c.Parts {
			impossible = impossible || int(p) >= len(t.Parts)
		}
	}
	cl.Lock()
	after := map[kafka.OffsetKey]int64{}
	for k, v := range cl.Group(c.Group).Offsets {
		after[k] = v
	}
	for g, x := range cl.Groups {
		if g == c.Group {
			continue
		}
		for _, cm := range x.Commits {
			r.Fail("change:reset", "offset %d of %v of group %s was committed; asked was for group %s", cm.Offset, cm.Key, g, c.Group)
		}
	}
	cl.Unlock()
	for k, v := range after {
		if b, ok := before[k]; ok && b == v {
			continue
		}
		if w, ok := want[k]; !ok || w != v || v < 0 {
			r.Fail("change:reset", "the offset of %v became %d; asked was for partitions %v of %s at timestamp %d, there it is %d", k, v, c.Parts, c.Topic, c.TS, w)
			return
		}
	}
	if impossible {
		if !res.failed() {
			r.Fail("silent:reset", "success though the offsets asked for do not exist: %s", res)
		}
		return
	}
	if res.failed() {
		if !faulty && !c.dark(c.Topic) {
			r.Fail("invented:reset", "a failure is reported though all brokers answered: %s", res)
		}
		return
	}
	for k, w := range want {
		if after[k] != w {
			r.Fail("silent:reset", "success, but the offset of %v is %d instead of %d: %s", k, after[k], w, res)
			return
		}
	}
}

func wildcard(pat, s string) bool {
	if pat == "" {
		return s == ""
	}
	if pat[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if wildcard(pat[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && s[0] == pat[0] && wildcard(pat[1:], s[1:])
}

// pendingLine is what is due for one partition.
func (c *p25Data) pendingRow(g string, t *p25Topic, i int) (off, com, lag int64, exact bool) {
	p := t.Parts[i]
	off = p.Start + int64(p.N)
	com, ok := p.Commits[g]
	if !ok {
		com = -1
	}
	return off, com, off - com, ok
}

func (c *p25Data) pending(r *pbt.R, cl *kafka.Cluster, res cliRun, faulty bool) {
	if !c.ended(r, res) {
		return
	}
	var groups []string
	switch {
	case c.Group == "" || strings.Contains(c.Group, "*"):
		for _, g := range c.Groups {
			if g.Listed && (c.Group == "" || wildcard(c.Group, g.Name)) {
				groups = append(groups, g.Name)
			}
		}
	default:
		groups = []string{c.Group}
	}
	type gt struct{ g, t string }
	due := map[gt]bool{}
	dark := false
	members := map[gt]map[int32]string{}
	for _, g := range groups {
		if c.Topic != "" {
			due[gt{g, c.Topic}] = true
			continue
		}
		for _, x := range c.Groups {
			if x.Name != g {
				continue
			}
			for i, m := range x.Members {
				for t, ps := range m {
					k := gt{g, t}
					due[k] = true
					if members[k] == nil {
						members[k] = map[int32]string{}
					}
					for _, p := range ps {
						members[k][p] = fmt.Sprintf("m%d", i)
					}
				}
			}
		}
	}
	for k := range due {
		dark = dark || c.dark(k.t)
	}
	if len(due) > 0 {
		r.NonTrivial()
	}
	if res.failed() {
		if !faulty && !dark {
			r.Fail("invented:pending", "a failure is reported though all brokers answered: %s", res)
		}
	} else if dark {
		r.Fail("silent:pending", "success though not all offsets can be had: %s", res)
		return
	}
	// the lines
	blocks := map[gt]int{}
	rows := map[string]int{}
	sums := map[gt][]string{}
	for _, l := range strings.Split(strings.TrimSuffix(string(res.Out), "\n"), "\n") {
		f := strings.Fields(l)
		switch {
		case len(f) == 0:
		case f[0] == "timestamp":
			if !c.Header {
				r.Fail("value:pending", "a header is printed: %s", res)
			}
		case f[0] == "TOTAL":
			if !c.Total || len(f) < 6 {
				r.Fail("value:pending", "line %q", l)
				return
			}
			sums[gt{f[2], f[1]}] = f[3:]
		default:
			if len(f) < 7 {
				r.Fail("value:pending", "line %q", l)
				return
			}
			k := gt{f[2], f[1]}
			t := c.topic(f[1])
			pid := -1
			fmt.Sscan(f[3], &pid)
			if !due[k] || t == nil || pid < 0 || pid >= len(t.Parts) {
				r.Fail("value:pending", "line %q is about something not asked for (due: %v)", l, due)
				return
			}
			blocks[k]++
			rows[fmt.Sprint(k, pid)]++
			off, com, lag, exact := c.pendingRow(f[2], t, pid)
			if f[4] != fmt.Sprint(off) || f[5] != fmt.Sprint(com) || (exact && f[6] != fmt.Sprint(lag)) {
				r.Fail("value:pending", "line %q: the cluster has offset %d, committed %d, lag %d", l, off, com, lag)
				return
			}
			if c.Topic == "" {
				m := ""
				if len(f) > 7 {
					m = f[7]
				}
				if m != members[k][int32(pid)] {
					r.Fail("value:pending", "line %q: the partition is assigned to %q", l, members[k][int32(pid)])
					return
				}
			}
			if rows[fmt.Sprint(k, pid)] > 1 {
				r.Fail("value:pending", "line %q comes twice", l)
				return
			}
		}
	}
	if res.failed() {
		return
	}
	for k := range due {
		t := c.topic(k.t)
		if blocks[k] != len(t.Parts) {
			r.Fail("value:pending", "%d lines for group %s and topic %s with %d partitions: %s", blocks[k], k.g, k.t, len(t.Parts), res)
			return
		}
		if c.Total {
			var a, b, l int64
			all := true
			for i := range t.Parts {
				off, com, lag, exact := c.pendingRow(k.g, t, i)
				a, b, l, all = a+off, b+com, l+lag, all && exact
			}
			if s := sums[k]; s == nil || (all && strings.Join(s, " ") != fmt.Sprint(a, " ", b, " ", l)) {
				r.Fail("value:pending", "total of %v is %v instead of %d %d %d", k, s, a, b, l)
			}
		}
	}
}

func (c *p25Data) consume(r *pbt.R, cl *kafka.Cluster, res cliRun) {
	if c.BadCfg {
		r.NonTrivial()
		if !res.failed() {
			r.Fail("silent:"+c.Kind, "an unreadable --config is accepted: %s", res)
		}
		return
	}
	t := c.topic(c.Topic)
	var lists [][]wire.Rec
	var pids []int32
	total := 0
	for i, p := range t.Parts {
		if !c.wants(i) {
			continue
		}
		recs := p25Recs(c.Topic, i, p.Start, p.N, p.TS)
		later := p25Recs(c.Topic, i, p.Start+int64(p.N), p.Later, p.TS)
		if c.Kind == "simpleconsumer" {
			switch {
			case c.Offset == -1:
				recs = nil
			case c.Offset >= 0:
				recs = recs[c.Offset-p.Start:]
			}
		}
		recs = append(recs, later...)
		lists = append(lists, recs)
		pids = append(pids, int32(i))
		total += len(recs)
	}
	wantN := min(c.Max, total)
	waits := c.Max > total
	if c.Kind == "simpleconsumer" && c.Stop > 0 {
		n := 0
		for n < len(lists[0]) && lists[0][n].Offset < c.Stop {
			n++
		}
		if n < wantN || (n == wantN && n < c.Max && n < len(lists[0])) {
			wantN, waits = n, false
		}
	}
	if wantN > 0 {
		r.NonTrivial()
	}
	// take the output apart
	rem := string(res.Out)
	pos := make([]int, len(lists))
	n := 0
next:
	for rem != "" {
		for i, l := range lists {
			if pos[i] >= len(l) {
				continue
			}
			rec := l[pos[i]]
			if c.JSON {
				nl := strings.IndexByte(rem, '\n')
				if nl < 0 {
					break
				}
				var m healer.Message
				var fm healer.FullMessage
				var err error
				if c.Kind == "simpleconsumer" {
					err = json.Unmarshal([]byte(rem[:nl]), &m)
					fm.Message, fm.TopicName, fm.PartitionID = &m, c.Topic, pids[i]
				} else {
					err = json.Unmarshal([]byte(rem[:nl]), &fm)
				}
				if err != nil || fm.Message == nil || fm.PartitionID != pids[i] {
					continue
				}
				m = *fm.Message
				if fm.TopicName != c.Topic || m.Offset != rec.Offset || string(m.Value) != string(rec.Value) || string(m.Key) != string(rec.Key) || (m.Key == nil) != (rec.Key == nil) || m.Timestamp != uint64(rec.TS) {
					r.Fail("value:"+c.Kind, "printed %s, the next message of partition %d is %s", clipN(rem[:nl], 300), pids[i], recStr(rec))
					return
				}
				rem = rem[nl+1:]
				pos[i]++
				n++
				continue next
			}
			s := ""
			switch {
			case c.Kind == "groupconsumer":
				s = fmt.Sprintf("%s:%d:%d: %s\n", c.Topic, pids[i], rec.Offset, rec.Value)
			case c.PrintO:
				s = fmt.Sprintf("%d: %s\n", rec.Offset, rec.Value)
			default:
				s = fmt.Sprintf("%s\n", rec.Value)
			}
			if strings.HasPrefix(rem, s) {
				rem = rem[len(s):]
				pos[i]++
				n++
				continue next
			}
		}
		if res.failed() || strings.HasPrefix(rem, "message error:") {
			return
		}
		var nx []string
		for i, l := range lists {
			if pos[i] < len(l) {
				nx = append(nx, recStr(l[pos[i]]))
			}
		}
		r.Fail("value:"+c.Kind, "after %d messages %s is printed, next could come %s", n, clipN(rem, 200), nx)
		return
	}
	if res.failed() {
		if len(c.Faults) == 0 {
			r.Fail("invented:"+c.Kind, "a failure is reported: %s", res)
		}
		return
	}
	if n != wantN || res.Ended == waits {
		r.Fail("value:"+c.Kind, "%d messages printed, ended %v; there are %d, to be printed %d, then waiting %v (%s)", n, res.Ended, total, wantN, waits, res)
	}
}

func (c *p25Data) produce(r *pbt.R, cl *kafka.Cluster, res cliRun, faulty bool) {
	if !c.ended(r, res) {
		return
	}
	if c.BadCfg || len(c.Lines) > 0 {
		r.NonTrivial()
	}
	cl.Lock()
	defer cl.Unlock()
	got := map[string]int{}
	all := 0
	for name, t := range cl.Topics {
		for i, p := range t.Parts {
			pos := 0
			for _, x := range p.Records(c.topic(name).Parts[i].Start + int64(c.topic(name).Parts[i].N)) {
				if name != c.Topic || (c.Kind == "simpleproducer" && i != int(c.Part)) {
					r.Fail("change:"+c.Kind, "%s was written to partition %d of %s", recStr(x), i, name)
					return
				}
				if x.Key != nil || x.Value == nil {
					r.Fail("value:"+c.Kind, "partition %d has %s", i, recStr(x))
					return
				}
				if !faulty { // in the order of the lines
					for pos < len(c.Lines) && string(c.Lines[pos]) != string(x.Value) {
						pos++
					}
					if pos == len(c.Lines) {
						r.Fail("value:"+c.Kind, "partition %d has %s, which is not a line or not in order", i, recStr(x))
						return
					}
					pos++
				}
				got[string(x.Value)]++
				all++
			}
		}
	}
	if c.BadCfg {
		if !res.failed() {
			r.Fail("silent:"+c.Kind, "an unreadable --config is accepted: %s", res)
		}
		return
	}
	want := map[string]int{}
	long := false
	for _, l := range c.Lines {
		want[string(l)]++
		long = long || len(l) >= 65000
	}
	for v, n := range got {
		if want[v] == 0 || (n > want[v] && !faulty) {
			r.Fail("value:"+c.Kind, "%s was written %d times, the input has it %d times", q([]byte(v)), n, want[v])
			return
		}
	}
	if res.failed() {
		if !faulty && !long {
			r.Fail("invented:"+c.Kind, "a failure is reported: %s", res)
		}
		return
	}
	for v, n := range want {
		if got[v] < n {
			r.Fail("silent:"+c.Kind, "success, but %s was written %d times, the input has it %d times: %s", q([]byte(v)), got[v], n, res)
			return
		}
	}
}
