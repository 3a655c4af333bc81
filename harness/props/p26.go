//go:build cli

package props

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/command/healer/cmd"
	"github.com/gin-gonic/gin"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// P26: the REST API. Each case starts the server (the api command, on an in-memory listener, in virtual time) and sends
// requests: administrative ones one after the other (as P23 does), or reads and changes all at once. Requests at the
// brokers, status and body are compared with the request and the cluster.

type p26Req struct {
	Kind  string // metadata, offsets, pending, configs, config, alter, partitions, health
	Topic string
	Group string
	Asked []string
	TS    int64
	Name  string
	Value string
	N     int32
	Cred  int // 0 right, 1 none, 2 wrong
	Boot  string
}

type p26Case struct {
	Auth  string
	Get   bool // reading is allowed without credentials
	CORS  bool
	Admin *p23Case
	Creds []int // of the administrative calls
	Data  *p25Data
	Reqs  []p26Req
}

var p26Admin = []string{"listgroups", "logdirs", "topiclogdirs", "createpartitions", "describeacls", "createacls", "deleteacls", "describeconfigs", "topicconfig", "alterconfigs",
	"listreassign", "alterreassign", "elect", "describegroup"}

func init() {
	p23API["topiclogdirs"] = kafka.DescribeLogDirs
	p23API["topicconfig"] = kafka.DescribeConfigs
}

func (c p26Case) String() string {
	s := fmt.Sprintf("auth %q, reading allowed %v, cors %v\n", c.Auth, c.Get, c.CORS)
	if c.Admin != nil {
		return s + c.Admin.String() + fmt.Sprintf("  credentials %v\n", c.Creds)
	}
	s += c.Data.String()
	for i, q := range c.Reqs {
		m, p, b := q.http("BOOT")
		s += fmt.Sprintf("  %d: %s %s %s credentials %d\n", i, m, p, b, q.Cred)
	}
	return s
}

func seg(s string) string { return url.PathEscape(s) }

// pathName draws something that can be a segment of a path.
func pathName(d *pbt.D) string {
	switch d.W(4, 1, 1) {
	case 0:
		return d.Name(12) + "n"
	case 1:
		return pbt.Pick(d, "a b", "é", "50%", "x?y", "a&b=c", "q#1", "a+b", "k:v", "%2541")
	}
	s := strings.Map(func(r rune) rune {
		if r == '/' || r < ' ' {
			return 'x'
		}
		return r
	}, gStr(d))
	if s == "" || s == "." || s == ".." || len(s) > 200 {
		return "v"
	}
	return s
}

// http gives the method, the path with the query and the body of a request.
func (q p26Req) http(boot string) (method, path, body string) {
	if q.Boot != "" {
		boot = q.Boot
	}
	v := url.Values{"bootstrap": {boot}}
	method = "GET"
	switch q.Kind {
	case "health":
		return "GET", "/health", ""
	case "metadata":
		path = "/metadata"
		if len(q.Asked) > 0 {
			v["topics"] = q.Asked
		}
	case "offsets":
		path = "/topic/" + seg(q.Topic) + "/offsets"
		v.Set("timestamp", fmt.Sprint(q.TS))
	case "pending":
		path = "/group/" + seg(q.Group) + "/pending/" + seg(q.Topic)
	case "configs":
		path = "/configs/topic/" + seg(q.Name)
	case "config":
		path = "/topic/" + seg(q.Name) + "/config/" + seg(q.Value)
	case "alter":
		method, path = "POST", "/topic/"+seg(q.Name)+"/config/key/"+seg(q.Value)
	case "partitions":
		method, path = "POST", "/create-partitions"
		b, _ := json.Marshal(map[string]any{"topic": q.Name, "count": q.N, "timeout": 5000})
		body = string(b)
	}
	return method, path + "?" + v.Encode(), body
}

func genP26(d *pbt.D) any {
	c := p26Case{CORS: d.P(1, 4)}
	if d.P(1, 4) {
		c.Auth = pbt.Pick(d, "u:p", "user:pa:ss", "u:", "é:ü ", "a b:c")
		c.Get = d.Bool()
	}
	cred := func() int {
		if c.Auth == "" {
			return d.W(4, 1, 1)
		}
		return d.W(3, 1, 1)
	}
	if d.W(2, 1) == 0 {
		a := genAdmin(d, p26Admin, 3, restArgs)
		for _, o := range a.Ops {
			for i := range a.IDs {
				switch p23API[o.Kind] {
				case kafka.DescribeAcls, kafka.CreateAcls, kafka.DeleteAcls:
					fixAcl(a.resps[fmt.Sprint(o.Salt, "/", i)])
				}
			}
			c.Creds = append(c.Creds, cred())
		}
		c.Admin = &a
		return c
	}
	w := genTools(d, []string{"metadata", "offsets", "pending"})
	w.Kind, w.Args = "several", nil
	c.Data = w
	for k := d.W(1, 2, 2, 1); k >= 0; k-- {
		q := p26Req{Kind: pbt.Pick(d, "metadata", "offsets", "offsets", "pending", "pending", "configs", "config", "alter", "partitions"), Cred: cred()}
		if d.P(1, 30) {
			q.Kind = "health"
		}
		q.Topic = w.Topics[d.N(len(w.Topics))].Name
		if d.P(1, 12) {
			q.Topic = "missing"
		}
		q.Group = fmt.Sprintf("g%d", d.N(2))
		if len(w.Groups) > 0 {
			q.Group = w.Groups[d.N(len(w.Groups))].Name
		}
		for _, i := range d.Perm(len(w.Topics))[:d.N(len(w.Topics)+1)] {
			q.Asked = append(q.Asked, w.Topics[i].Name)
		}
		if d.P(1, 8) {
			q.Asked = append(q.Asked, "missing")
		}
		q.TS = pbt.Pick(d, int64(-1), -2, 1700000000000+int64(d.N(1000)), 1700000000000, 1800000000000)
		q.Name, q.Value, q.N = pathName(d), pathName(d), int32(d.N(100))
		if d.P(1, 25) {
			q.Boot = pbt.Pick(d, "nowhere:9092", "b999:1", ",", "x")
		}
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

// restArgs completes an administrative call with method, path (with query) and body.
func restArgs(d *pbt.D, c *p23Case, o *p23Op) {
	if (o.Kind == "alterreassign" || o.Kind == "elect") && d.P(1, 10) { // the timeout given holds for the connection, too
		o.TO += 100000
		o.Slow = 40000 + d.N(40000)
	} else if o.TO < 1000 {
		o.TO += 1000
	}
	bad := func() { o.ext = func(p23Case) (map[int32][]wire.Obj, bool) { return nil, true } }
	v := url.Values{"bootstrap": {"BOOT"}}
	set := func(method, path, body string) { o.Args = []string{method, path, body} }
	js := func(x any) string { b, _ := json.Marshal(x); return string(b) }
	timeout := func() {
		v.Set("timeout", fmt.Sprint(o.TO))
		if d.P(1, 12) {
			v.Set("timeout", pbt.Pick(d, "x", "4294967297", "1e3", "-99999999999", "30s"))
			bad()
		}
	}
	switch o.Kind {
	case "listgroups":
		set("GET", "/groups", "")
		o.Value = func() any { return &map[int32][]*healer.Group{} }
	case "logdirs":
		set("POST", "/describe-logdirs", js(map[string]any{"topics": o.Strs}))
		if d.P(1, 12) {
			o.Args[2] = pbt.Pick(d, "", "{", `{"topics":"t1"}`, `{"topics":[1]}`, "[]")
			bad()
		}
		o.Value = func() any { return &map[int32]healer.DescribeLogDirsResponse{} }
	case "topiclogdirs":
		o.Kind = "logdirs"
		o.Strs = []string{c.Topics[d.N(len(c.Topics))].Name}
		set("GET", "/topic/"+o.Strs[0]+"/logdirs", "")
		o.Value = func() any { return &map[int32]healer.DescribeLogDirsResponse{} }
	case "createpartitions":
		o.Flag = false
		o.Name = gStr(d)
		set("POST", "/create-partitions", js(map[string]any{"topic": o.Name, "count": o.N, "timeout": o.TO}))
		if d.P(1, 8) {
			o.Args[2] = pbt.Pick(d, "", "{", `{"topic":1}`, `{"topic":"a","count":4294967297,"timeout":1}`, `{"topic":"a","count":1,"timeout":"x"}`,
				`{"topic":"a","count":1,"timeout":4294967297}`, `{"topic":"a","count":1.5,"timeout":1}`)
			bad()
		}
		o.Value = func() any { return &healer.CreatePartitionsResponse{} }
	case "describeconfigs":
		o.Type = pbt.Pick(d, "topic", "broker")
		o.Name = pathName(d)
		if o.Type == "broker" {
			o.Name = fmt.Sprint(c.IDs[d.N(len(c.IDs))])
			if d.P(1, 8) {
				o.Name = pbt.Pick(d, "x", "999", fmt.Sprint(int64(c.IDs[0])+1<<32), "1 ")
			}
		}
		o.NilKey, o.Strs = true, nil
		set("GET", "/configs/"+o.Type+"/"+seg(o.Name), "")
		if o.Type == "topic" && d.P(1, 3) { // the old path
			o.Name = d.Name(12) + "n"
			set("GET", "/topic/"+o.Name+"/configs", "")
		}
		o.Value = func() any { return &healer.DescribeConfigsResponse{} }
	case "topicconfig":
		o.Kind, o.Type, o.Name = "describeconfigs", "topic", pathName(d)
		o.NilKey, o.Strs = false, []string{pathName(d)}
		set("GET", "/topic/"+seg(o.Name)+"/config/"+seg(o.Strs[0]), "")
		o.Value = func() any { return &healer.DescribeConfigsResponse{} }
	case "alterconfigs":
		o.Type, o.Name = "topic", pathName(d)
		k, val := pathName(d), pathName(d)
		set("POST", "/topic/"+seg(o.Name)+"/config/"+seg(k)+"/"+seg(val), "")
		name := o.Name
		o.ext = func(c p23Case) (map[int32][]wire.Obj, bool) {
			return dueConfigs(c, "topic", name, alterReq("topic", name, k, val))
		}
		o.Value = func() any { return &healer.IncrementalAlterConfigsResponse{} }
	case "listreassign":
		body := ""
		var w any
		switch d.W(1, 1, 4) {
		case 1:
			body = "[]"
		case 2:
			l, want := genTPs(d, 1, "name", "", false)
			body, w = tpJSON(l, false), want
		}
		set("POST", "/list-partition-reassignments", body)
		if d.P(1, 12) {
			o.Args[2] = pbt.Pick(d, "{", "[1]", `[{"topic":1}]`, `[{"topic":"a","partition":"x"}]`, `[{"topic":"a","partition":4294967296}]`)
			bad()
		}
		if d.P(1, 4) {
			o.TO = 30000
		} else {
			timeout()
		}
		o.want = wire.Obj{"timeout_ms": int64(o.TO), "topics": w}
		o.Value = func() any { return &healer.ListPartitionReassignmentsResponse{} }
	case "alterreassign":
		l, want := genTPs(d, 1, "name", "index", true)
		set("POST", "/alter-partition-reassignments", tpJSON(l, true))
		o.want = wire.Obj{"timeout_ms": int64(o.TO), "topics": want}
		if d.P(1, 12) {
			o.Args[2] = pbt.Pick(d, "", "{", "[1]", `[{"topic":"a","partition":0,"replicas":["x"]}]`)
			bad()
		}
		timeout()
		o.Value = func() any { return &healer.AlterPartitionReassignmentsResponse{} }
	case "elect":
		l, want := genTPs(d, 1, "topic", "", false)
		set("POST", "/elect-leaders", tpJSON(l, false))
		o.want = wire.Obj{"timeout_ms": int64(o.TO), "topics": want}
		if d.P(1, 12) {
			o.Args[2] = pbt.Pick(d, "", "{", "[1]", `[{"topic":1}]`)
			bad()
		}
		timeout()
		o.Value = func() any { return &healer.ElectLeadersResponse{} }
	case "describegroup":
		g := pbt.Pick(d, "g1", "g2", "a b", "x%y")
		set("GET", "/group/"+seg(g), "")
		o.ext = func(c p23Case) (map[int32][]wire.Obj, bool) {
			return map[int32][]wire.Obj{coordinatorOf(c, g): {{"groups": []any{g}}}}, false
		}
	case "describeacls", "createacls", "deleteacls":
		invalid := false
		one := func() (map[string]any, wire.Obj) {
			m, w := map[string]any{}, wire.Obj{}
			enum := func(name, field string, l []aclEnum) {
				s, code := pickEnum(d, l)
				if d.P(1, 40) {
					s, invalid = pbt.Pick(d, "bogus", "rea", "x,y"), true
				}
				m[name], w[field] = s, code
			}
			enum("ResourceType", "resource_type", aclTypes)
			enum("PatternType", "pattern_type", aclPatterns)
			enum("Operation", "operation", aclOps)
			enum("PermissionType", "permission", aclPerms)
			str := func(name, field string) {
				if o.Kind != "createacls" && d.P(1, 4) {
					if d.Bool() {
						m[name] = nil
					}
					return
				}
				s := gStr(d)
				m[name], w[field] = s, s
			}
			str("ResourceName", "resource_name")
			str("Principal", "principal")
			str("Host", "host")
			return m, w
		}
		var ms []any
		var ws []any
		for range 1 + d.N(3) {
			m, w := one()
			ms, ws = append(ms, m), append(ws, w)
		}
		switch o.Kind {
		case "describeacls":
			set("POST", "/describe-acls", js(ms[0]))
			o.want = ws[0].(wire.Obj)
			invalid = false
			for k, x := range ms[0].(map[string]any) {
				if k == "ResourceType" || k == "PatternType" || k == "Operation" || k == "PermissionType" {
					invalid = invalid || x == "bogus" || x == "rea" || x == "x,y"
				}
			}
		case "createacls":
			set("POST", "/create-acls", js(ms))
			o.want = wire.Obj{"creations": ws}
		default:
			set("DELETE", "/delete-acls", js(ms))
			o.want = wire.Obj{"filters": ws}
		}
		if d.P(1, 15) {
			o.Args[2] = pbt.Pick(d, "", "{", `"x"`, `[{"ResourceType":{}}]`, `{"ResourceType":[]}`)
			invalid = true
		}
		if invalid {
			bad()
		}
		o.Value = aclValue(o.Kind)
	}
	if d.P(1, 40) {
		v.Set("bootstrap", pbt.Pick(d, "", "nowhere:9092", "x", ","))
		bad()
	}
	o.Args[1] += "?" + v.Encode()
}

// ---- the server

type memListener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *memListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *memListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 8080} }

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *lockedBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.b.Len() < 1<<20 {
		b.b.Write(p)
	}
	return len(p), nil
}
func (b *lockedBuf) String() string { b.mu.Lock(); defer b.mu.Unlock(); return b.b.String() }

type restServer struct {
	l   *memListener
	log *lockedBuf
	c   p26Case
}

// startREST runs the api command.
func startREST(c p26Case) *restServer {
	s := &restServer{l: &memListener{ch: make(chan net.Conn), done: make(chan struct{})}, log: &lockedBuf{}, c: c}
	gin.DefaultErrorWriter = s.log
	gin.DefaultWriter = io.Discard
	net.VerifListenHook = func(network, address string) (net.Listener, bool) { return s.l, true }
	os.Args = []string{"healer", "api", "--port=8080", "--address=127.0.0.1", "--client=rest", fmt.Sprintf("--cors=%v", c.CORS), "--auth=" + c.Auth, fmt.Sprintf("--get-allowed=%v", c.Get)}
	go func() {
		defer s.l.Close()
		cmd.Execute()
	}()
	return s
}

type restResp struct {
	Code int
	Body []byte
	Err  string
	Loc  string
}

func (p restResp) String() string {
	return fmt.Sprintf("status %d, body %s %s", p.Code, clipN(string(p.Body), 300), p.Err)
}

// ask sends one request over a connection of its own.
func (s *restServer) ask(method, path, body string, cred int) (p restResp) {
	cc, sc := net.Pipe()
	defer cc.Close()
	cc.SetDeadline(time.Now().Add(time.Hour))
	select {
	case s.l.ch <- sc:
	case <-s.l.done:
		return restResp{Err: "the server ended"}
	case <-time.After(time.Minute):
		return restResp{Err: "the server does not accept"}
	}
	req, err := http.NewRequest(method, "http://127.0.0.1:8080"+path, strings.NewReader(body))
	if err != nil {
		return restResp{Err: err.Error()}
	}
	req.Close = true
	auth := s.c.Auth
	switch cred {
	case 2:
		auth = []string{"u:x", "x:p", "user:pa", "", ":", "u"}[int(hash32(path, body))%6]
		if auth == s.c.Auth {
			auth += "y"
		}
	case 0:
		if auth == "" {
			auth = "some:one"
		}
	}
	if cred != 1 {
		req.Header.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte(auth)))
	}
	if body != "" {
		req.Header.Set("Content-Type", "application/json")
	}
	go req.Write(cc)
	resp, err := http.ReadResponse(bufio.NewReader(cc), req)
	if err != nil {
		return restResp{Err: err.Error()}
	}
	b, err := io.ReadAll(resp.Body)
	p = restResp{Code: resp.StatusCode, Body: b, Loc: resp.Header.Get("Location")}
	if err != nil {
		p.Err = err.Error()
	}
	return
}

// refused: the credentials do not do for the method
func (c p26Case) refused(method string, cred int) bool {
	return c.Auth != "" && cred != 0 && !(c.Get && method == "GET")
}

var panicLine = regexp.MustCompile(`(?m)\[Recovery\].*\n?.*\n?.*`)

func (s *restServer) end(r *pbt.R, cl *kafka.Cluster) {
	if p := s.log.String(); strings.Contains(p, "panic recovered") {
		r.Fail("panic", "a handler panicked: %s", clipN(p, 1500))
	}
	time.Sleep(time.Second)
	if o := cl.OpenConns(); len(o) > 0 {
		r.Fail("leak", "%d connections to the cluster are left open after the last answer, first %v", len(o), o[0])
	}
	for _, e := range cl.ProtoErrs {
		r.Fail("malformed", "%s", e)
	}
	s.l.Close()
}

func runP26(r *pbt.R, c p26Case) {
	if c.Data != nil {
		c.several(r)
		return
	}
	w := adminWorld(*c.Admin)
	s := startREST(c)
	i := 0
	w.call = func(o *p23Op) (any, error) {
		m, path, body := o.Args[0], strings.ReplaceAll(o.Args[1], "bootstrap=BOOT", "bootstrap="+url.QueryEscape(w.cl.Bootstrap())), o.Args[2]
		res := s.ask(m, path, body, c.Creds[i])
		if res.Code == 301 && strings.HasSuffix(strings.Split(path, "?")[0], "/configs") {
			res = s.ask(m, res.Loc, body, c.Creds[i])
		}
		r.Note("%s %s %s: %s", m, path, body, res)
		if res.Err != "" {
			r.Fail("noanswer:"+o.Kind, "%s %s %s: %s", m, path, body, res)
			return nil, errTool
		}
		if c.refused(m, c.Creds[i]) != (res.Code == 401) {
			r.Fail("auth", "%s %s with credentials %d gives %s", m, path, c.Creds[i], res)
			return nil, errTool
		}
		if res.Code >= 400 {
			return nil, fmt.Errorf("%w: %s", errTool, res)
		}
		if res.Code != 200 {
			r.Fail("status:"+o.Kind, "%s %s: %s", m, path, res)
			return nil, errTool
		}
		v, err := readValue(o, res.Body)
		if err != nil {
			r.Fail("output:"+o.Kind, "the answer to %s %s cannot be read: %v: %s", m, path, err, res)
		}
		return v, nil
	}
	for i = range c.Admin.Ops {
		o := &w.c.Ops[i]
		if c.refused(o.Args[0], c.Creds[i]) {
			o.ext = func(p23Case) (map[int32][]wire.Obj, bool) { return nil, true }
			r.NonTrivial()
			r.Class("refused")
		}
		w.do(r, i, nil, nil, nil)
		if r.Failed() {
			break
		}
	}
	s.end(r, w.cl)
	noteHistory(r, w.cl)
}

// several: reads and changes at the same time.
func (c p26Case) several(r *pbt.R) {
	cl := toolWorld(c.Data)
	over := cl.Override
	code := func(kind, name string) int64 {
		if h := hash32(kind, name); h%4 == 0 {
			return int64([]int16{3, 29, 40}[h/4%3])
		}
		return 0
	}
	msg := func(kind, name string) any {
		if code(kind, name) == 0 {
			return nil
		}
		return "refused " + name
	}
	cl.Override = func(b *kafka.Broker, ev *kafka.Ev) (wire.Obj, bool) {
		switch ev.H.API {
		case kafka.DescribeConfigs:
			x := ev.Req.A("resources")[0].(wire.Obj)
			n := x.S("resource_name")
			keys := []any{"k1", "k2"}
			if x["config_names"] != nil {
				keys = x.A("config_names")
			}
			l := []any{}
			for _, k := range keys {
				l = append(l, wire.Obj{"name": k, "value": fmt.Sprintf("%s/%s", n, k), "read_only": false, "is_default": true, "is_sensitive": false})
			}
			return wire.Obj{"throttle_time_ms": int64(0), "results": []any{wire.Obj{"error_code": code("configs", n), "error_message": msg("configs", n), "resource_type": x["resource_type"], "resource_name": n, "configs": l}}}, true
		case kafka.IncrementalAlterConfigs:
			x := ev.Req.A("resources")[0].(wire.Obj)
			n := x.S("resource_name")
			return wire.Obj{"throttle_time_ms": int64(0), "responses": []any{wire.Obj{"error_code": code("alter", n), "error_message": msg("alter", n), "resource_type": x["resource_type"], "resource_name": n}}}, true
		case kafka.CreatePartitions:
			n := ev.Req.A("topics")[0].(wire.Obj).S("name")
			return wire.Obj{"throttle_time_ms": int64(0), "results": []any{wire.Obj{"name": n, "error_code": code("partitions", n), "error_message": msg("partitions", n)}}}, true
		}
		return over(b, ev)
	}
	s := startREST(c)
	resps := make([]restResp, len(c.Reqs))
	var wg sync.WaitGroup
	for i, q := range c.Reqs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m, path, body := q.http(cl.Bootstrap())
			resps[i] = s.ask(m, path, body, q.Cred)
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Hour):
		r.Fail("hang", "not all requests were answered within two hours")
		noteHistory(r, cl)
		return
	}
	if len(c.Reqs) > 1 {
		r.Class("concurrent")
	}
	cl.Lock()
	faulty := cl.FaultsUsed > 0 || c.Data.Down >= 0
	cl.Unlock()
	for i, q := range c.Reqs {
		r.Class(q.Kind)
		r.Note("request %d: %s", i, resps[i])
		c.judge(r, cl, i, q, resps[i], faulty, code)
		if r.Failed() {
			break
		}
	}
	c.changes(r, cl, faulty)
	s.end(r, cl)
	noteHistory(r, cl)
}

func (c p26Case) judge(r *pbt.R, cl *kafka.Cluster, i int, q p26Req, p restResp, faulty bool, code func(kind, name string) int64) {
	m, path, body := q.http("BOOT")
	what := fmt.Sprintf("request %d (%s %s %s)", i, m, path, body)
	if p.Err != "" {
		r.Fail("noanswer:"+q.Kind, "%s: %s", what, p)
		return
	}
	if c.refused(m, q.Cred) != (p.Code == 401) {
		r.Fail("auth", "%s with credentials %d: %s", what, q.Cred, p)
		return
	}
	if p.Code == 401 {
		r.NonTrivial()
		r.Class("refused")
		return
	}
	if q.Kind == "health" {
		if p.Code != 200 {
			r.Fail("status:health", "%s: %s", what, p)
		}
		return
	}
	r.NonTrivial()
	impossible := q.Boot != ""
	switch q.Kind {
	case "offsets", "pending":
		impossible = impossible || c.Data.dark(q.Topic)
	case "configs", "config":
		impossible = impossible || code("configs", q.Name) != 0
	case "alter", "partitions":
		impossible = impossible || code(q.Kind, q.Name) != 0
	}
	if impossible {
		if p.Code < 400 {
			r.Fail("silent:"+q.Kind, "%s: success though it cannot be had: %s", what, p)
		}
		return
	}
	if p.Code >= 400 {
		r.Class("reported failure")
		if q.Kind == "metadata" { // codes in the answer may be reported
			for _, t := range c.Data.Topics {
				for _, x := range t.Parts {
					faulty = faulty || t.Err != 0 || x.Leader < 0
				}
			}
			for _, n := range q.Asked {
				faulty = faulty || n == "missing"
			}
		}
		if !faulty {
			r.Fail("invented:"+q.Kind, "%s: a failure is reported though all brokers answered: %s", what, p)
		}
		return
	}
	if p.Code != 200 {
		r.Fail("status:"+q.Kind, "%s: %s", what, p)
		return
	}
	read := func(v any) bool {
		if err := json.Unmarshal(p.Body, v); err != nil {
			r.Fail("output:"+q.Kind, "%s: the answer cannot be read: %v: %s", what, err, p)
			return false
		}
		return true
	}
	// an answered request that fits
	match := func(key int, want wire.Obj, v any) {
		why := "no such request was answered"
		for _, e := range cl.Events(key) {
			if e.Done < 0 || sameObj(wire.Req(key).Fields, e.H.Version, e.Req, want, "", false) != "" {
				continue
			}
			if why = sameResult(apiByKey(key), e.H.Version, e.Resp, v); why == "" {
				return
			}
		}
		r.Fail("value:"+q.Kind, "%s: %s: %s", what, why, p)
	}
	switch q.Kind {
	case "metadata":
		var v healer.MetadataResponse
		if !read(&v) {
			return
		}
		why := "no such request was answered"
		for _, e := range cl.Events(kafka.Metadata) {
			var got []string
			for _, t := range e.Req.A("topics") {
				got = append(got, t.(wire.Obj).S("name"))
			}
			if e.Done < 0 || !reflect.DeepEqual(got, q.Asked) {
				continue
			}
			if why = sameResult(apiByKey(kafka.Metadata), e.H.Version, e.Resp, v); why == "" {
				break
			}
		}
		if why != "" {
			r.Fail("value:metadata", "%s: %s: %s", what, why, p)
		}
	case "offsets":
		var v []healer.PartitionOffset
		if !read(&v) {
			return
		}
		t := c.Data.topic(q.Topic)
		got, want := "", ""
		for _, x := range v {
			got += fmt.Sprintf("%d:%d/%d ", x.Partition, x.GetOffset(), x.ErrorCode)
		}
		for i, x := range t.Parts {
			want += fmt.Sprintf("%d:%d/0 ", i, c.Data.offsetAt(x, q.TS))
		}
		if got != want {
			r.Fail("value:offsets", "%s: answered is %s, the cluster has %s (%s)", what, got, want, p)
		}
	case "pending":
		var v []struct {
			Partition              int32
			Offset, Committed, Lag int64
		}
		if !read(&v) {
			return
		}
		sort.Slice(v, func(i, j int) bool { return v[i].Partition < v[j].Partition })
		t := c.Data.topic(q.Topic)
		if len(v) != len(t.Parts) {
			r.Fail("value:pending", "%s: %d entries, the topic has %d partitions: %s", what, len(v), len(t.Parts), p)
			return
		}
		for i, x := range v {
			off, com, lag, exact := c.Data.pendingRow(q.Group, t, i)
			if x.Partition != int32(i) || x.Offset != off || x.Committed != com || (exact && x.Lag != lag) {
				r.Fail("value:pending", "%s: answered is %+v, the cluster has offset %d, committed %d, lag %d of partition %d", what, x, off, com, lag, i)
				return
			}
		}
	case "configs":
		v := &healer.DescribeConfigsResponse{}
		if read(v) {
			match(kafka.DescribeConfigs, configReq(q.Name, nil), v)
		}
	case "config":
		v := &healer.DescribeConfigsResponse{}
		if read(v) {
			match(kafka.DescribeConfigs, configReq(q.Name, []any{q.Value}), v)
		}
	case "alter":
		v := &healer.IncrementalAlterConfigsResponse{}
		if read(v) {
			match(kafka.IncrementalAlterConfigs, alterReq("topic", q.Name, "key", q.Value), v)
		}
	case "partitions":
		v := &healer.CreatePartitionsResponse{}
		if read(v) {
			match(kafka.CreatePartitions, partReq(q), v)
		}
	}
}

func configReq(name string, keys any) wire.Obj {
	return wire.Obj{"resources": []any{wire.Obj{"resource_type": int64(2), "resource_name": name, "config_names": keys}}}
}

func partReq(q p26Req) wire.Obj {
	return wire.Obj{"topics": []any{wire.Obj{"name": q.Name, "count": int64(q.N), "assignments": nil}}, "timeout_ms": int64(5000), "validate_only": false}
}

// changes: what the brokers were told to change is what was asked for, each once, at the controller.
func (c p26Case) changes(r *pbt.R, cl *kafka.Cluster, faulty bool) {
	used := make([]int, len(c.Reqs))
	for _, e := range cl.Events(kafka.IncrementalAlterConfigs, kafka.CreatePartitions) {
		ok := false
		for i, q := range c.Reqs {
			m, _, _ := q.http("")
			if c.refused(m, q.Cred) || q.Boot != "" || (used[i] > 0 && !faulty) {
				continue
			}
			if (q.Kind == "alter" && e.H.API == kafka.IncrementalAlterConfigs && sameObj(wire.Req(e.H.API).Fields, e.H.Version, e.Req, alterReq("topic", q.Name, "key", q.Value), "", false) == "") ||
				(q.Kind == "partitions" && e.H.API == kafka.CreatePartitions && sameObj(wire.Req(e.H.API).Fields, e.H.Version, e.Req, partReq(q), "", false) == "") {
				used[i]++
				ok = true
				break
			}
		}
		if !ok {
			r.Fail("change", "broker %d was sent %s, which was not asked for (again)", e.Broker, clip(e.Req))
			return
		}
		if e.Broker != c.Data.IDs[c.Data.Ctl] {
			r.Fail("route", "broker %d, not the controller, was sent %s", e.Broker, clip(e.Req))
			return
		}
	}
	for _, g := range cl.Groups {
		for _, cm := range g.Commits {
			r.Fail("change", "offset %d of %v was committed", cm.Offset, cm.Key)
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "P26", Level: "fault_enumeration",
		Rule: "case = a REST server and one to three administrative requests in sequence, or one to four reads and changes at once, valid and invalid, with and without credentials, over a generated cluster with error codes, cut or unanswered requests or a broker down in some; " +
			"non-trivial = a request was due at a broker or credentials were refused",
		Gen:   genP26,
		Quick: 60000, Deep: 3000000, Chunk: 200,
		Run:  func(x any, r *pbt.R) { bubble(r, func() { runP26(r, x.(p26Case)) }) },
		Desc: func(x any) string { return x.(p26Case).String() },
	})
}
