package props

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"net"
	"path/filepath"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// P21: configuration maps and structs. Every instance has a cluster of its own, so what it sends and when
// shows which options it works with.

// defaults are the documented values of the options that can be observed.
var p21Defaults = map[string]any{
	"c/net.connect.timeout.ms": 30000, "c/net.timeout.ms": 30000, "c/client.id": "healer", "c/session.timeout.ms": 30000,
	"c/retry.backoff.ms": 100, "c/metadata.max.age.ms": 300000, "c/fetch.max.wait.ms": 500, "c/fetch.max.bytes": 10 << 20,
	"c/fetch.min.bytes": 1, "c/from.beginning": false, "c/auto.commit": true, "c/auto.commit.interval.ms": 5000, "c/offsets.storage": 1,
	"p/net.connect.timeout.ms": 30000, "p/net.timeout.ms": 30000, "p/client.id": "healer", "p/acks": -1, "p/compress.type": "none",
	"p/message.max.count": 1024, "p/flush.interval.ms": 200, "p/metadata.max.age.ms": 300000, "p/retry.backoff.ms": 200,
	"p/request.timeout.ms": 1500, "p/healer.magicbyte": 2,
}

type p21Opt struct {
	Key  string // "net.x" is the key x of the map "net"
	V    any    // int, bool, string, or nil: present without a value
	Form int
}

type p21Inst struct {
	Kind    string // producer, simpleproducer, simple, consumer, group
	Via     string // map, struct
	Opts    []p21Opt
	Each    bool // the case's per-API timeouts
	Bad     *p21Opt
	BadConf int // configuration of a wrong type
	Probe   string
	API     int
	N       int
	Delay   int
	SASL    int // 1: credentials of its own; 2: user and password, but no mechanism
	TLS     int // 1: options, but not enabled; 2: enabled, without verification; 3: verified; 4: other host name; 5: unknown authority
}

type p21Case struct {
	Insts []p21Inst
	Each  []int
	EForm int
	NForm int // form of the net map
}

func (o p21Opt) value() any { return formed(o.V, o.Form) }

// formed gives a value in one of the forms a configuration file or a program may hold.
func formed(v any, form int) any {
	switch x := v.(type) {
	case int:
		switch form % 8 {
		case 1:
			return strconv.Itoa(x)
		case 2:
			return float64(x)
		case 3:
			return int64(x)
		case 4:
			if x == int(int32(x)) {
				return int32(x)
			}
		case 5:
			if x >= 0 {
				return uint(x)
			}
		case 6:
			return json.Number(strconv.Itoa(x))
		case 7:
			if x == int(float32(x)) && x < 1<<24 && x > -1<<24 {
				return float32(x)
			}
		}
		return x
	case bool:
		switch form % 8 {
		case 1:
			return strconv.FormatBool(x)
		case 2:
			return map[bool]int{true: 1, false: 0}[x]
		case 3:
			return map[bool]string{true: "1", false: "0"}[x]
		case 4:
			return map[bool]float64{true: 1, false: 0}[x]
		case 5:
			return strings.ToUpper(strconv.FormatBool(x))
		}
		return x
	}
	return v
}

func (c p21Case) String() string {
	s := ""
	for i, in := range c.Insts {
		s += fmt.Sprintf("#%d %s by %s after %d ms, probe %s api %d n %d", i, in.Kind, in.Via, in.Delay, in.Probe, in.API, in.N)
		if in.Each {
			s += fmt.Sprintf(" timeout.ms.for.eachapi=%v", c.Each)
		}
		for _, o := range in.Opts {
			s += fmt.Sprintf(" %s=%#v", o.Key, o.value())
		}
		if in.SASL+in.TLS > 0 {
			s += fmt.Sprintf(" sasl %d tls %d", in.SASL, in.TLS)
		}
		if in.Bad != nil {
			s += fmt.Sprintf(" INVALID %s=%#v", in.Bad.Key, in.Bad.V)
		}
		if in.BadConf > 0 {
			s += fmt.Sprintf(" WRONG TYPE %d", in.BadConf)
		}
		s += "\n"
	}
	return s
}

func (in p21Inst) producing() bool { return in.Kind == "producer" || in.Kind == "simpleproducer" }

func genP21(d *pbt.D) any {
	c := p21Case{NForm: d.N(3), EForm: d.N(4)}
	c.Each = make([]int, pbt.Pick(d, 68, 3, 12, 20, 1, 70))
	for k := 1 + d.N(6); k > 0; k-- {
		api := pbt.Pick(d, 0, 1, 2, 3, 8, 9, 10, 11, 12, 14) % len(c.Each)
		c.Each[api] = 500 + 100*d.N(100)
		if api == kafka.Fetch { // longer than fetch.max.wait.ms
			c.Each[api] += 5000
		}
	}
	for n := 1 + d.W(2, 3, 2); n > 0; n-- {
		in := p21Inst{Kind: pbt.Pick(d, "producer", "simpleproducer", "simple", "consumer", "group", "group"), Via: pbt.Pick(d, "map", "map", "struct"), Each: d.P(1, 4)}
		if len(c.Insts) > 0 {
			in.Delay = pbt.Pick(d, 0, 0, 1, 300, 5000)
		}
		opt := func(key string, vs ...any) {
			if d.P(2, 5) {
				in.Opts = append(in.Opts, p21Opt{key, pbt.Pick(d, vs...), d.N(8)})
			} else if in.Via == "map" && d.P(1, 30) {
				in.Opts = append(in.Opts, p21Opt{key, nil, 0})
			}
		}
		opt("net.connect.timeout.ms", 500, 1500, 7000, 29000, 45000)
		opt("net.timeout.ms", 800, 3000, 12000, 29000, 40000)
		opt("net.keepalive.ms", 1000, 60000)
		opt("client.id", "me", "client ü 1", "x"+d.Name(6))
		opt("retry.backoff.ms", 1, 10, 99, 350, 2000, 7000)
		opt("metadata.refresh.interval.ms", 1000, 60000)
		opt("tls.enabled", false)
		if in.producing() {
			opt("acks", -1, 1, 0, 1)
			opt("compress.type", "none", "gzip", "snappy", "lz4")
			opt("batch.size", 1, 100000)
			opt("message.max.count", 1, 2, 3, 7, 20, 1500)
			opt("flush.interval.ms", 40, 100, 199, 333, 1000, 5000)
			opt("metadata.max.age.ms", 300, 1000, 4000, 10000)
			opt("fetch.topic.metadata.retrys", 0, 1, 5)
			opt("connections.max.idle.ms", 10, 100000)
			opt("retries", 0, 3)
			opt("request.timeout.ms", 1, 100, 3000, 60000)
			opt("healer.magicbyte", 0, 1, 2, 3, 7)
			in.Probe = pbt.Pick(d, "batch", "batch", "backoff", "age", "timeout", "connect")
			in.API = pbt.Pick(d, 0, 0, 3)
			if in.Kind == "simpleproducer" && (in.Probe == "backoff" || in.Probe == "age") {
				in.Probe = "batch"
			}
		} else {
			opt("session.timeout.ms", 3000, 6000, 10000, 29000, 45000)
			opt("fetch.max.wait.ms", 50, 100, 499, 2000, 5000)
			opt("fetch.max.bytes", 2000, 65536, 10485759, 50<<20)
			opt("fetch.min.bytes", 0, 1, 2, 60)
			opt("from.beginning", true, false)
			opt("auto.commit", true, false, false)
			opt("auto.commit.interval.ms", 200, 700, 3000, 6000, 20000)
			opt("offsets.storage", 0, 1)
			opt("metadata.max.age.ms", 300, 1000, 4000, 10000)
			in.Opts = append(in.Opts, p21Opt{"group.id", pbt.Pick(d, "g", "a group ü", "g"+d.Name(5)), 0})
			in.Probe = pbt.Pick(d, "consume", "consume", "backoff", "age", "timeout", "timeout", "connect")
			in.API = pbt.Pick(d, 1, 1, 2, 3, 8, 8, 9, 10, 11, 11, 12, 14)
			if in.Kind != "group" {
				if in.Probe == "age" {
					in.Probe = "consume"
				}
				if in.API >= 11 {
					in.API = 1
				}
			}
		}
		in.N = 1 + d.N(40)
		if d.P(1, 4) {
			in.SASL = d.W(0, 4, 1)
		}
		if d.P(1, 4) {
			in.TLS = 1 + d.N(5)
			in.Opts = slices.DeleteFunc(in.Opts, func(o p21Opt) bool { return o.Key == "tls.enabled" })
			if in.TLS > 1 {
				in.Opts = append(in.Opts, p21Opt{"tls.enabled", true, d.N(8)})
			}
			if in.TLS == 4 || in.TLS == 5 {
				in.Probe = "connect"
			}
		}
		if d.P(1, 6) {
			in.Bad = in.genBad(d)
		} else if d.P(1, 30) {
			in.BadConf = 1 + d.N(5)
		}
		c.Insts = append(c.Insts, in)
	}
	return c
}

// genBad gives one option an invalid value.
func (in p21Inst) genBad(d *pbt.D) *p21Opt {
	type bad struct {
		key string
		vs  []any
	}
	pos := func(k string) bad { return bad{k, []any{0, -1, -1000, "0", "-5"}} }
	ints := []string{"net.connect.timeout.ms", "net.timeout.ms", "retry.backoff.ms", "metadata.max.age.ms"}
	int32s := []string{}
	bools := []string{"tls.enabled"}
	bads := []bad{{"bootstrap.servers", []any{""}}}
	if in.producing() {
		ints = append(ints, "message.max.count", "flush.interval.ms", "acks", "request.timeout.ms", "healer.magicbyte", "batch.size")
		int32s = append(int32s, "request.timeout.ms", "acks")
		bads = append(bads, pos("message.max.count"), pos("flush.interval.ms"),
			bad{"compress.type", []any{"zstd", "GZIP!", "", "brotli", 5}})
		if in.Kind == "producer" {
			bads = append(bads, pos("metadata.max.age.ms"))
		}
	} else {
		ints = append(ints, "session.timeout.ms", "fetch.max.wait.ms", "fetch.max.bytes", "fetch.min.bytes", "auto.commit.interval.ms", "offsets.storage")
		int32s = append(int32s, "session.timeout.ms", "fetch.max.wait.ms", "fetch.max.bytes", "fetch.min.bytes")
		bools = append(bools, "from.beginning", "auto.commit")
		bads = append(bads, bad{"offsets.storage", []any{2, -1, "7", 256}}, pos("auto.commit.interval.ms"))
		if in.Kind == "group" {
			bads = append(bads, bad{"group.id", []any{""}}, pos("session.timeout.ms"), pos("metadata.max.age.ms"))
		}
	}
	if in.Via == "map" {
		for _, k := range ints {
			bads = append(bads, bad{k, []any{"abc", "12x", "1.5", 1.5, " 7", map[string]interface{}{"a": 1}, []int{1, 2}}})
		}
		for _, k := range int32s {
			bads = append(bads, bad{k, []any{1 << 31, 1<<32 + 5, -1<<31 - 1, "2147483648", 3e9, int64(1) << 40, uint64(1) << 63}})
		}
		for _, k := range bools {
			bads = append(bads, bad{k, []any{"yes", "2", "on", "maybe", []int{1, 2}}})
		}
		if in.producing() {
			bads = append(bads, bad{"acks", []any{32768, 65535, 65536, 65537, -32769, "32768", 65535.0}})
		}
		bads = append(bads, bad{"net", []any{"x", 5, []int{1}}}, bad{"net.timeout.ms.for.eachapi", []any{[]any{1, "x"}, "abc", []any{1.5}}})
	}
	b := bads[d.N(len(bads))]
	return &p21Opt{Key: b.key, V: b.vs[d.N(len(b.vs))]}
}

// config builds the configuration; plain is a deep copy of it taken before it is used.
func (in p21Inst) config(c p21Case, bootstrap string, each []int) any {
	opts := append([]p21Opt{{"bootstrap.servers", bootstrap, 0}}, in.Opts...)
	if in.Bad != nil {
		opts = slices.DeleteFunc(opts, func(o p21Opt) bool {
			return o.Key == in.Bad.Key || in.Bad.Key == "net" && strings.HasPrefix(o.Key, "net.")
		})
		opts = append(opts, *in.Bad)
		if in.Bad.Key == "auto.commit.interval.ms" {
			opts = append(slices.DeleteFunc(opts, func(o p21Opt) bool { return o.Key == "auto.commit" }), p21Opt{"auto.commit", true, 0})
		}
	}
	switch in.BadConf {
	case 1:
		return map[string]string{"bootstrap.servers": bootstrap, "group.id": "g"}
	case 2:
		return &healer.ConsumerConfig{BootstrapServers: bootstrap}
	case 3:
		return "bootstrap.servers=" + bootstrap
	case 4:
		if in.producing() {
			return healer.DefaultConsumerConfig()
		}
		return healer.DefaultProducerConfig()
	case 5:
		return nil
	}
	sasl := healer.SaslConfig{}
	if in.SASL > 0 {
		sasl.User, sasl.Password = in.user(bootstrap), "secret"
		if in.SASL == 1 {
			sasl.Mechanism = "PLAIN"
		}
	}
	var tlsc *healer.TLSConfig
	if in.TLS > 0 {
		dir := thePKI.dir
		tlsc = &healer.TLSConfig{Cert: filepath.Join(dir, "client.pem"), Key: filepath.Join(dir, "client.key"), CA: filepath.Join(dir, "ca.pem"), ServerName: "kafka.internal"}
		switch in.TLS {
		case 2:
			tlsc.InsecureSkipVerify, tlsc.ServerName = true, ""
		case 4:
			tlsc.ServerName = ""
		case 5:
			tlsc.CA = filepath.Join(dir, "ca2.pem")
		}
	}
	if in.Via == "map" {
		m := map[string]interface{}{}
		nets := map[string]interface{}{}
		if in.SASL > 0 {
			m["sasl"] = given(c.EForm%2 == 0, "mechanism", sasl.Mechanism, "user", sasl.User, "password", sasl.Password)
		}
		if tlsc != nil {
			tm := given(false, "cert", tlsc.Cert, "key", tlsc.Key, "ca", tlsc.CA, "servername", tlsc.ServerName).(map[string]interface{})
			if tlsc.InsecureSkipVerify || c.EForm == 3 {
				tm["insecure.skip.verify"] = formed(tlsc.InsecureSkipVerify, in.N)
			}
			m["tls"] = tm
		}
		for _, o := range opts {
			if k, ok := strings.CutPrefix(o.Key, "net."); ok {
				nets[k] = o.value()
			} else {
				m[o.Key] = o.value()
			}
		}
		if _, given := nets["timeout.ms.for.eachapi"]; in.Each && !given {
			switch c.EForm {
			case 1:
				var l []interface{}
				for i, x := range each {
					l = append(l, formed(x, i))
				}
				nets["timeout.ms.for.eachapi"] = l
			case 2:
				var l []string
				for _, x := range each {
					l = append(l, strconv.Itoa(x))
				}
				nets["timeout.ms.for.eachapi"] = l
			default:
				nets["timeout.ms.for.eachapi"] = each
			}
		}
		if len(nets) > 0 && m["net"] == nil {
			m["net"] = nets
			if c.NForm == 1 { // all strings
				ss := map[string]string{}
				for k, v := range nets {
					if v == nil || reflect.ValueOf(v).Kind() == reflect.Slice || reflect.ValueOf(v).Kind() == reflect.Map {
						return m
					}
					ss[k] = fmt.Sprint(v)
				}
				if in.Bad == nil {
					m["net"] = ss
				}
			}
		}
		return m
	}
	toInt := func(v any) int {
		switch x := v.(type) {
		case int:
			return x
		case string:
			n, _ := strconv.Atoi(x)
			return n
		case float64:
			return int(x)
		}
		return 0
	}
	if in.producing() {
		p := healer.DefaultProducerConfig()
		p.Sasl, p.TLS = sasl, tlsc
		if in.Each {
			p.Net.TimeoutMSForEachAPI = each
		}
		for _, o := range opts {
			switch o.Key {
			case "tls.enabled":
				p.TLSEnabled = o.V == true
			case "bootstrap.servers":
				p.BootstrapServers = o.V.(string)
			case "net.connect.timeout.ms":
				p.Net.ConnectTimeoutMS = toInt(o.V)
			case "net.timeout.ms":
				p.Net.TimeoutMS = toInt(o.V)
			case "client.id":
				p.ClientID = o.V.(string)
			case "retry.backoff.ms":
				p.RetryBackOffMS = toInt(o.V)
			case "acks":
				p.Acks = int16(toInt(o.V))
			case "compress.type":
				p.CompressionType = fmt.Sprint(o.V)
			case "message.max.count":
				p.MessageMaxCount = toInt(o.V)
			case "flush.interval.ms":
				p.FlushIntervalMS = toInt(o.V)
			case "metadata.max.age.ms":
				p.MetadataMaxAgeMS = toInt(o.V)
			case "request.timeout.ms":
				p.RequestTimeoutMS = int32(toInt(o.V))
			case "healer.magicbyte":
				p.HealerMagicByte = toInt(o.V)
			}
		}
		return p
	}
	k := healer.DefaultConsumerConfig()
	k.Sasl, k.TLS = sasl, tlsc
	if in.Each {
		k.Net.TimeoutMSForEachAPI = each
	}
	for _, o := range opts {
		switch o.Key {
		case "tls.enabled":
			k.TLSEnabled = o.V == true
		case "bootstrap.servers":
			k.BootstrapServers = o.V.(string)
		case "net.connect.timeout.ms":
			k.Net.ConnectTimeoutMS = toInt(o.V)
		case "net.timeout.ms":
			k.Net.TimeoutMS = toInt(o.V)
		case "client.id":
			k.ClientID = o.V.(string)
		case "group.id":
			k.GroupID = o.V.(string)
		case "retry.backoff.ms":
			k.RetryBackOffMS = toInt(o.V)
		case "metadata.max.age.ms":
			k.MetadataMaxAgeMS = toInt(o.V)
		case "session.timeout.ms":
			k.SessionTimeoutMS = int32(toInt(o.V))
		case "fetch.max.wait.ms":
			k.FetchMaxWaitMS = int32(toInt(o.V))
		case "fetch.max.bytes":
			k.FetchMaxBytes = int32(toInt(o.V))
		case "fetch.min.bytes":
			k.FetchMinBytes = int32(toInt(o.V))
		case "from.beginning":
			k.FromBeginning = o.V == true
		case "auto.commit":
			k.AutoCommit = o.V == true
		case "auto.commit.interval.ms":
			k.AutoCommitIntervalMS = toInt(o.V)
		case "offsets.storage":
			k.OffsetsStorage = toInt(o.V)
		}
	}
	return k
}

// user is the name the instance authenticates with, another one for each cluster.
func (in p21Inst) user(bootstrap string) string { return "user of " + bootstrap }

// given makes a map of the pairs with a value.
func given(strs bool, kv ...string) any {
	m, ms := map[string]interface{}{}, map[string]string{}
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] != "" {
			m[kv[i]], ms[kv[i]] = kv[i+1], kv[i+1]
		}
	}
	if strs {
		return ms
	}
	return m
}

// get is the model: the value an option has for this instance.
func (in p21Inst) get(key string) any {
	for _, o := range in.Opts {
		if o.Key == key && o.V != nil {
			return o.V
		}
	}
	p := "c/"
	if in.producing() {
		p = "p/"
	}
	return p21Defaults[p+key]
}
func (in p21Inst) ms(key string) time.Duration {
	return time.Duration(in.get(key).(int)) * time.Millisecond
}

// deadline of a request of the API: the value, and the least that is sensible where the client derives it.
func (in p21Inst) deadline(c p21Case, api int) (least, most time.Duration) {
	if in.Each && api < len(c.Each) && c.Each[api] > 0 {
		t := time.Duration(c.Each[api]) * time.Millisecond
		return t, t
	}
	t := in.ms("net.timeout.ms")
	if in.producing() {
		return t, t
	}
	switch api {
	case kafka.Fetch:
		return max(in.ms("fetch.max.wait.ms"), 0), t + in.ms("fetch.max.wait.ms")
	case kafka.JoinGroup:
		s := in.ms("session.timeout.ms")
		return s, s + 5*time.Second
	case kafka.OffsetCommit:
		return 0, in.ms("session.timeout.ms") / 2
	}
	return t, t
}

var (
	p21Consumer = deepCopy(healer.DefaultConsumerConfig())
	p21Producer = deepCopy(healer.DefaultProducerConfig())
	p21Broker   = func() any {
		x := *healer.DefaultBrokerConfig()
		x.Net.TimeoutMSForEachAPI = append([]int{}, x.Net.TimeoutMSForEachAPI...)
		x.TLS = cloneTLS(x.TLS)
		return &x
	}()
)

func cloneTLS(t *healer.TLSConfig) *healer.TLSConfig {
	if t == nil {
		return nil
	}
	x := *t
	return &x
}

func deepCopy(v any) any {
	switch x := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[k] = deepCopy(e)
		}
		return m
	case []interface{}:
		l := make([]interface{}, len(x))
		for i, e := range x {
			l[i] = deepCopy(e)
		}
		return l
	case map[string]string:
		m := map[string]string{}
		for k, e := range x {
			m[k] = e
		}
		return m
	case []int:
		return append([]int{}, x...)
	case []string:
		return append([]string{}, x...)
	case healer.ConsumerConfig:
		x.Net.TimeoutMSForEachAPI = append([]int{}, x.Net.TimeoutMSForEachAPI...)
		x.TLS = cloneTLS(x.TLS)
		return x
	case healer.ProducerConfig:
		x.Net.TimeoutMSForEachAPI = append([]int{}, x.Net.TimeoutMSForEachAPI...)
		x.TLS = cloneTLS(x.TLS)
		return x
	}
	return v
}

func runP21(r *pbt.R, c p21Case) {
	each := append([]int{}, c.Each...)
	cls := make([]*kafka.Cluster, len(c.Insts))
	confs := make([]any, len(c.Insts))
	copies := make([]any, len(c.Insts))
	for i, in := range c.Insts {
		cl := kafka.New(0, uint64(i))
		cl.AddBroker(1, fmt.Sprintf("c%d", i), 9092)
		cl.AddTopic("t", 1)
		if in.SASL == 1 {
			cl.SASL = &kafka.SASL{Mechanism: "PLAIN", User: in.user(cl.Bootstrap()), Password: "secret"}
		}
		if in.TLS > 1 {
			scfg := &tls.Config{Certificates: []tls.Certificate{thePKI.server["otherhost"]}}
			cl.Brokers[1].TLS = func(n net.Conn) net.Conn { return tls.Server(n, scfg) }
		}
		cls[i] = cl
		confs[i] = in.config(c, cl.Bootstrap(), each)
		copies[i] = deepCopy(confs[i])
	}
	kafka.InstallAll(cls...)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i, in := range c.Insts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(in.Delay) * time.Millisecond)
			x := &p21Run{c: c, in: in, i: i, cl: cls[i], conf: confs[i]}
			x.r = func(sig, f string, a ...any) {
				mu.Lock()
				defer mu.Unlock()
				r.Fail(sig, "instance #%d (%s): %s", i, in.Kind, fmt.Sprintf(f, a...))
			}
			x.class = func(s string) {
				mu.Lock()
				defer mu.Unlock()
				r.Class(s)
			}
			x.run()
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Hour):
		mu.Lock()
		r.Fail("hang", "not done after two hours")
		mu.Unlock()
	}
	mu.Lock()
	defer mu.Unlock()
	for i := range confs {
		if !reflect.DeepEqual(confs[i], copies[i]) {
			r.Fail("changed", "the configuration given to instance #%d was changed:\n  before %+v\n  after  %+v", i, copies[i], confs[i])
		}
	}
	if !slices.Equal(each, c.Each) {
		r.Fail("changed", "the caller's timeout.ms.for.eachapi was changed:\n  before %v\n  after  %v", c.Each, each)
	}
	if x := healer.DefaultConsumerConfig(); !reflect.DeepEqual(any(x), p21Consumer) {
		r.Fail("defaults", "DefaultConsumerConfig() changed:\n  before %+v\n  after  %+v", p21Consumer, x)
	}
	if x := healer.DefaultProducerConfig(); !reflect.DeepEqual(any(x), p21Producer) {
		r.Fail("defaults", "DefaultProducerConfig() changed:\n  before %+v\n  after  %+v", p21Producer, x)
	}
	if x := healer.DefaultBrokerConfig(); !reflect.DeepEqual(any(x), p21Broker) {
		r.Fail("defaults", "DefaultBrokerConfig() changed:\n  before %+v\n  after  %+v", p21Broker, x)
	}
	if r.Failed() {
		for _, cl := range cls {
			noteHistory(r, cl)
		}
	}
	if len(c.Insts) > 1 {
		r.NonTrivial()
	}
	for _, in := range c.Insts {
		if len(in.Opts) > 1 {
			r.NonTrivial()
		}
	}
}

type p21Run struct {
	c     p21Case
	in    p21Inst
	i     int
	cl    *kafka.Cluster
	conf  any
	r     func(sig, f string, a ...any)
	class func(string)

	add     func([]byte) error
	consume func()
	stop    func()
	ch      chan *healer.FullMessage
	got     []string
	gmu     sync.Mutex
}

func (x *p21Run) create() error {
	switch x.in.Kind {
	case "producer":
		p, err := healer.NewProducer("t", x.conf)
		if err != nil {
			return err
		}
		x.add, x.stop = func(b []byte) error { return p.AddMessage(nil, b) }, p.Close
	case "simpleproducer":
		p, err := healer.NewSimpleProducer(context.Background(), "t", 0, x.conf)
		if err != nil {
			return err
		}
		x.add, x.stop = func(b []byte) error { return p.AddMessage(nil, b) }, p.Close
	case "simple":
		k, err := healer.NewSimpleConsumer("t", 0, x.conf)
		if err != nil {
			return err
		}
		from := int64(-1)
		if x.in.get("from.beginning") == true {
			from = -2
		}
		x.consume, x.stop = func() { k.Consume(from, x.ch) }, k.Stop
	case "consumer":
		k, err := healer.NewConsumer(x.conf, "t")
		if err != nil {
			return err
		}
		x.consume, x.stop = func() { k.Consume(x.ch) }, func() { k.AwaitClose(time.Minute) }
	case "group":
		k, err := healer.NewGroupConsumer("t", x.conf)
		if err != nil {
			return err
		}
		x.consume, x.stop = func() { k.Consume(x.ch) }, k.Close
	}
	return nil
}

const p21Tol = 60 * time.Millisecond

func (x *p21Run) run() {
	in, cl := x.in, x.cl
	x.ch = make(chan *healer.FullMessage, 10000)
	if in.Bad != nil || in.BadConf > 0 {
		x.class("invalid configuration")
		var err error
		if !within(10*time.Minute, func() { err = x.create() }) {
			x.r("invalid:hang", "creation with an invalid configuration did not return")
			return
		}
		if err == nil {
			what := "a configuration of a wrong type"
			if in.Bad != nil {
				what = fmt.Sprintf("%s=%#v", in.Bad.Key, in.Bad.V)
			}
			x.r("invalid", "created although %s is not valid", what)
			within(10*time.Minute, x.stop)
		}
		return
	}
	if in.TLS > 3 {
		x.class("tls that does not trust the broker")
		var err error
		if !within(10*time.Minute, func() { err = x.create() }) {
			x.r("tls:hang", "creation did not return")
			return
		}
		if err == nil {
			x.r("tls.trust", "created although the certificate of the broker is not valid for this instance's tls options")
			within(10*time.Minute, x.stop)
		}
		return
	}
	x.class("probe " + in.Probe)
	if in.SASL > 0 {
		x.class(fmt.Sprintf("sasl %d", in.SASL))
	}
	if in.TLS > 0 {
		x.class(fmt.Sprintf("tls %d", in.TLS))
	}
	if in.Each {
		x.class("timeouts for each API")
	}
	switch in.Probe {
	case "connect":
		cl.SetMode(1, kafka.Blackhole)
		t0 := cl.Now()
		var err error
		within(time.Hour, func() { err = x.create() })
		if d, want := cl.Now()-t0, in.ms("net.connect.timeout.ms"); err == nil || d < want-p21Tol || d > want+p21Tol {
			x.r("connect.timeout", "connecting to a silent host ended with %v after %v, net.connect.timeout.ms says %v", err, d, want)
		}
		return
	case "backoff":
		api := kafka.Metadata
		f := kafka.Fault{API: api, Skip: 1, Kind: kafka.FErr, Code: 3, Times: 1 + in.N%4}
		if in.Kind == "simple" || in.Kind == "consumer" {
			f = kafka.Fault{API: kafka.FindCoordinator, Kind: kafka.FErr, Code: 15, Times: f.Times}
		} else if in.Kind == "group" {
			f = kafka.Fault{API: kafka.JoinGroup, Kind: kafka.FErr, Code: 15, Times: f.Times}
		}
		cl.Faults = append(cl.Faults, &f)
		if !x.start() {
			return
		}
		if x.consume != nil {
			until(10*time.Minute, 100*time.Millisecond, func() bool { return len(cl.Events(kafka.Fetch)) > 0 })
		}
		evs := cl.Events(f.API)[f.Skip:]
		if len(evs) < f.Times+1 {
			x.r("backoff.none", "%d attempts of %d that fail, then no more", len(evs), f.Times)
		} else {
			want := in.ms("retry.backoff.ms")
			for k := 0; k < f.Times; k++ {
				if d := evs[k+1].T - evs[k].T; d < want-2*time.Millisecond || d > want+p21Tol {
					x.r("backoff", "attempt %d came %v after the failed one, retry.backoff.ms says %v", k+1, d, want)
					break
				}
			}
		}
	case "batch":
		if x.start() {
			x.batch()
		}
	case "age":
		if !x.start() {
			return
		}
		if x.consume != nil {
			until(10*time.Minute, 100*time.Millisecond, func() bool { return len(cl.Events(kafka.Fetch)) > 0 })
		}
		age := in.ms("metadata.max.age.ms")
		if x.consume != nil && age > time.Minute {
			age = time.Minute // too many fetches otherwise; no refresh is expected then
		}
		n := len(cl.Events(kafka.Metadata))
		span := 3*age + age/2
		if x.consume != nil {
			time.Sleep(p21Tol)
			n = len(cl.Events(kafka.Metadata))
			span = 3 * age
		}
		time.Sleep(span)
		extra := 1
		if x.consume != nil {
			extra += int(span/time.Minute) + 1 // the partition consumer looks every minute
		}
		if k := len(cl.Events(kafka.Metadata)) - n; k < 3 && x.add != nil || k < 2 && age < time.Minute || k > 3+extra {
			x.r("max.age", "%d metadata requests in %v, metadata.max.age.ms says %v", k, span, age)
		}
	case "consume":
		x.consumeProbe()
	case "timeout":
		x.timeoutProbe()
	}
	x.wire()
	if x.stop != nil && !within(10*time.Minute, x.stop) {
		x.class("stop did not return") // P22 decides that
	}
}

func (x *p21Run) start() bool {
	var err error
	if !within(20*time.Minute, func() { err = x.create() }) {
		x.r("hang:create", "creation did not return within 20 minutes")
		return false
	}
	if err != nil {
		x.r("refused", "a valid configuration was refused: %v", err)
		return false
	}
	if x.consume != nil {
		go x.consume()
		go func() {
			for m := range x.ch {
				x.gmu.Lock()
				if m.Message != nil {
					x.got = append(x.got, string(m.Message.Value))
				}
				x.gmu.Unlock()
			}
		}()
	}
	return true
}

// wire compares the options that travel in requests.
func (x *p21Run) wire() {
	in := x.in
	x.cl.Lock()
	evs := append([]*kafka.Ev{}, x.cl.Hist...)
	x.cl.Unlock()
	id := in.get("client.id").(string)
	for _, e := range evs {
		switch e.H.API {
		case kafka.Metadata, kafka.ApiVersions:
			continue
		case kafka.SaslHandshake, kafka.SaslAuthenticate:
			if in.SASL != 1 {
				x.r("sasl", "request of api %d, although no sasl mechanism is configured", e.H.API)
				return
			}
			continue
		}
		if e.H.Client == nil || *e.H.Client != id {
			got := "none"
			if e.H.Client != nil {
				got = strconv.Quote(*e.H.Client)
			}
			x.r("client.id", "request of api %d has client id %s, client.id says %q", e.H.API, got, id)
			return
		}
		cmp := func(sig string, got, want any) {
			if fmt.Sprint(got) != fmt.Sprint(want) {
				x.r(sig, "request of api %d has %v, %s says %v", e.H.API, got, sig, want)
			}
		}
		switch e.H.API {
		case kafka.Produce:
			cmp("acks", e.Req.I("acks"), in.get("acks"))
			cmp("request.timeout.ms", e.Req.I("timeout_ms"), in.get("request.timeout.ms"))
			for _, t := range e.Req.Objs("topics") {
				for _, p := range t.Objs("partitions") {
					b := p.B("records")
					if len(b) < 23 || b[16] != 2 {
						x.r("magic", "batch of a magic other than 2")
						return
					}
					codec := []string{"none", "gzip", "snappy", "lz4", "zstd", "5", "6", "7"}[b[22]&7]
					cmp("compress.type", codec, in.get("compress.type"))
				}
			}
		case kafka.Fetch:
			cmp("fetch.max.wait.ms", e.Req.I("max_wait_ms"), in.get("fetch.max.wait.ms"))
			cmp("fetch.min.bytes", e.Req.I("min_bytes"), in.get("fetch.min.bytes"))
			for _, t := range e.Req.Objs("topics") {
				for _, p := range t.Objs("partitions") {
					cmp("fetch.max.bytes", p.I("max_bytes"), in.get("fetch.max.bytes"))
				}
			}
		case kafka.JoinGroup:
			cmp("group.id", e.Req.S("group_id"), in.get("group.id"))
			cmp("session.timeout.ms", e.Req.I("session_timeout_ms"), in.get("session.timeout.ms"))
		case kafka.SyncGroup, kafka.Heartbeat, kafka.LeaveGroup, kafka.OffsetCommit, kafka.OffsetFetch:
			cmp("group.id", e.Req.S("group_id"), in.get("group.id"))
		case kafka.FindCoordinator:
			cmp("group.id", e.Req.S("key"), in.get("group.id"))
		}
	}
}

func (x *p21Run) produced() (sizes []int, at []time.Duration) {
	for _, e := range x.cl.Events(kafka.Produce) {
		n := 0
		for _, t := range e.Req.Objs("topics") {
			for _, p := range t.Objs("partitions") {
				if b, err := wire.ParseBatch(p.B("records")); err == nil {
					n += len(b.Recs)
				}
			}
		}
		sizes, at = append(sizes, n), append(at, e.T)
	}
	return
}

func (x *p21Run) batch() {
	in, cl := x.in, x.cl
	count, flush := in.get("message.max.count").(int), in.ms("flush.interval.ms")
	n := in.N
	if n/count > 8 {
		n = 8*count + n%count
	}
	for k := 0; k < n; k++ {
		if err := x.add([]byte(fmt.Sprint("m", k))); err != nil {
			x.r("add", "AddMessage: %v", err)
			return
		}
	}
	end := cl.Now()
	time.Sleep(p21Tol / 3)
	sizes, _ := x.produced()
	full := n / count
	for k := 0; k < full; k++ {
		if k >= len(sizes) || sizes[k] != count {
			x.r("message.max.count", "%d messages added at once went in batches of %v, message.max.count says %d", n, sizes, count)
			return
		}
	}
	time.Sleep(flush + p21Tol)
	sizes, at := x.produced()
	total := 0
	for _, s := range sizes {
		total += s
	}
	if total != n {
		x.r("flush.interval.ms", "%d of %d messages sent %v after the last was added, flush.interval.ms says %v", total, n, cl.Now()-end, flush)
		return
	}
	if n%count != 0 && len(sizes) > full+1 {
		x.r("message.max.count", "%d messages added at once went in batches of %v at %v, message.max.count says %d", n, sizes, at, count)
		return
	}
	if count > 40 && in.ms("metadata.max.age.ms") > 20*flush { // what is held is sent when another partition is chosen, too
		before := len(sizes)
		for k := 0; k < 30; k++ {
			x.add([]byte("late"))
			time.Sleep(flush / 10)
		}
		time.Sleep(flush + p21Tol)
		sizes, at = x.produced()
		if k := len(sizes) - before; k < 3 || k > 5 {
			x.r("flush.interval.ms", "30 messages over %v went in %d requests, at %v; flush.interval.ms says %v", 3*flush, k, at[before:], flush)
		}
	}
}

// app appends one record, larger than any fetch.min.bytes here, so that the broker answers at once.
func (x *p21Run) app(v string) {
	x.cl.Lock()
	defer x.cl.Unlock()
	p := x.cl.Topics["t"].Parts[0]
	if len(p.Chunks) < 400 {
		p.AppendRecs([]wire.Rec{{Offset: p.Next, Value: []byte(v), Key: bytes.Repeat([]byte("k"), 100)}}, 2, 0, false, 0)
	}
}

func (x *p21Run) consumeProbe() {
	in, cl := x.in, x.cl
	x.app("old1")
	x.app("old2")
	if !x.start() {
		return
	}
	if !until(10*time.Minute, 20*time.Millisecond, func() bool { return len(cl.Events(kafka.Fetch)) > 0 }) {
		x.r("nofetch", "no fetch request within 10 minutes")
		return
	}
	interval := in.ms("auto.commit.interval.ms")
	wantOld := in.get("from.beginning") == true
	want := []string{}
	if wantOld {
		want = append(want, "old1", "old2")
	}
	n := 14
	for k := 0; k < n; k++ {
		v := fmt.Sprint("new", k)
		x.app(v)
		want = append(want, v)
		time.Sleep(interval / 4)
	}
	time.Sleep(p21Tol)
	x.gmu.Lock()
	got := append([]string{}, x.got...)
	x.gmu.Unlock()
	if !slices.Equal(got, want) {
		x.r("from.beginning", "delivered %v, expected %v (from.beginning %v)", got, want, wantOld)
		return
	}
	commits := cl.Events(kafka.OffsetCommit)
	if in.get("auto.commit") != true {
		if len(commits) > 0 {
			x.r("auto.commit", "%d offset commits with auto.commit off", len(commits))
		}
		return
	}
	if len(commits) == 0 {
		x.r("auto.commit.interval.ms", "no offset commit within %v of consuming, auto.commit.interval.ms says %v", time.Duration(n)*interval/4, interval)
		return
	}
	var at []time.Duration
	zk := in.get("offsets.storage") == 0
	for _, e := range commits {
		if zk != (e.H.Version == 0) { // version 0 keeps them in ZooKeeper, the others in Kafka
			sig := "offsets.storage:kafka"
			if zk {
				sig = "offsets.storage:zookeeper"
			}
			x.r(sig, "offsets committed with version %d, offsets.storage says %v", e.H.Version, in.get("offsets.storage"))
			break
		}
	}
	for _, e := range commits {
		at = append(at, e.T)
	}
	if k := len(at); k < 3 || k > 4 {
		x.r("auto.commit.interval.ms", "%d offset commits within %v of consuming (at %v), auto.commit.interval.ms says %v", k, time.Duration(n)*interval/4, at, interval)
	}
	for k := 1; k < len(at); k++ {
		if d := at[k] - at[k-1]; d < interval-p21Tol || d > interval+p21Tol {
			x.r("auto.commit.interval.ms", "offset commits at %v, auto.commit.interval.ms says %v", at, interval)
			break
		}
	}

}

func (x *p21Run) timeoutProbe() {
	in, cl := x.in, x.cl
	api := in.API
	if in.producing() && api == kafka.Produce && in.get("acks") == 0 {
		api = kafka.Metadata
	}
	if api == kafka.OffsetCommit && in.get("auto.commit") != true {
		api = kafka.OffsetFetch
	}
	x.app("a")
	cl.Faults = append(cl.Faults, &kafka.Fault{API: api, Kind: kafka.FSwallow})
	var ev *kafka.Ev
	got := make(chan struct{})
	cl.OnEvent = func(e *kafka.Ev) {
		if e.H.API == api && ev == nil {
			ev = e
			close(got)
		}
	}
	go func() {
		if err := x.create(); err != nil {
			return
		}
		if x.consume != nil {
			go x.consume()
			go func() {
				for range x.ch {
				}
			}()
			for { // something to commit
				time.Sleep(100 * time.Millisecond)
				x.app("a")
				select {
				case <-got:
					return
				default:
				}
			}
		}
		if x.add != nil {
			x.add([]byte("one"))
		}
	}()
	select {
	case <-got:
	case <-time.After(5 * time.Minute):
		x.r("timeout.none", "no request of api %d within 5 minutes", api)
		return
	}
	least, most := in.deadline(x.c, api)
	conn := cl.Conns[ev.Conn-1]
	t0 := ev.T
	time.Sleep(least - p21Tol - (cl.Now() - t0))
	if least > p21Tol && conn.IsClosed() {
		x.r("timeout", "the connection of an unanswered request of api %d was given up within %v, the timeout is %v", api, cl.Now()-t0, least)
		return
	}
	time.Sleep(most + p21Tol - (cl.Now() - t0))
	if !conn.IsClosed() {
		x.r("timeout", "the connection of an unanswered request of api %d is still in use after %v, the timeout is %v", api, cl.Now()-t0, most)
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "P21", Level: "exploration",
		Rule:  "the case has several instances or sets at least one option besides the required ones",
		Gen:   genP21,
		Quick: 10000, Deep: 200000, Chunk: 60,
		Run:  func(x any, r *pbt.R) { getPKI(); bubble(r, func() { runP21(r, x.(p21Case)) }) },
		Desc: func(x any) string { return x.(p21Case).String() },
	})
}
