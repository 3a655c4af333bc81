//go:build cli

package props

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/childe/healer/command/healer/cmd"
	"github.com/gin-gonic/gin"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"

	"github.com/childe/healer"
)

func init() {
	// the goroutine of os/signal must not belong to a bubble
	signal.Notify(make(chan os.Signal, 1), syscall.SIGUSR2)
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
}

// cliRun is one execution of a command in this process.
type cliRun struct {
	Ended    bool
	Code     int
	Out, Err []byte
	Panic    string
}

// runCLI executes the command line in virtual time, until it ends or limit passed. Only one per process: flags keep
// their values.
func runCLI(stdin []byte, limit time.Duration, args []string) (res cliRun) {
	dir, err := os.MkdirTemp("", "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	file := func(name string) *os.File {
		f, err := os.OpenFile(filepath.Join(dir, name), os.O_RDWR|os.O_CREATE, 0o600)
		if err != nil {
			panic(err)
		}
		return f
	}
	in, out, er := file("in"), file("out"), file("err")
	in.Write(stdin)
	in.Seek(0, 0)
	a0, i0, o0, e0 := os.Args, os.Stdin, os.Stdout, os.Stderr
	os.Args, os.Stdin, os.Stdout, os.Stderr = append([]string{"healer"}, args...), in, out, er
	defer func() { os.Args, os.Stdin, os.Stdout, os.Stderr = a0, i0, o0, e0 }()
	done := make(chan struct{})
	var once sync.Once
	end := func() { once.Do(func() { close(done) }) }
	os.VerifExitHook = func(code int) {
		once.Do(func() { res.Code = code; close(done) })
		runtime.Goexit()
	}
	go func() {
		defer func() {
			if e := recover(); e != nil {
				res.Panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
				res.Code = 2
			}
			end()
		}()
		cmd.Execute()
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case <-done:
		res.Ended = true
	case <-t.C:
	}
	os.VerifExitHook = nil
	res.Out, _ = os.ReadFile(out.Name())
	res.Err, _ = os.ReadFile(er.Name())
	return
}

var klogError = regexp.MustCompile(`(?m)^([EWF]\d{4} |Error)`)

// failed: the tool said that something went wrong, by its exit status or by a printed error.
func (c cliRun) failed() bool {
	return c.Code != 0 || klogError.Match(c.Err) || klogError.Match(c.Out)
}

func (c cliRun) String() string {
	return fmt.Sprintf("ended %v, exit status %d, output %s, errors %s", c.Ended, c.Code, clipN(string(c.Out), 300), clipN(string(c.Err), 200))
}

func clipN(s string, n int) string {
	if len(s) > n {
		return fmt.Sprintf("%q...(%d)", s[:n], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func csvOf(ss []string) string {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.Write(ss)
	w.Flush()
	return strings.TrimSuffix(b.String(), "\n")
}

// ---- generation of what is expressible through the tools

type tpr struct {
	Topic     string  `json:"topic"`
	Partition int32   `json:"partition"`
	Replicas  []int32 `json:"replicas"`
}

// genTPs draws topic partitions (with replicas), and what is due on the wire, grouped by topic.
func genTPs(d *pbt.D, min int, topicKey, partKey string, reps bool) (l []tpr, want []any) {
	for _, t := range gNames(d, max(min, cnt(d))) {
		var ps []any
		for _, p := range gPids(d, d.Int(1, 3)) {
			x := tpr{Topic: t, Partition: p}
			if !reps {
				ps = append(ps, int64(p))
			} else {
				var w any
				if !d.P(1, 4) {
					x.Replicas = append([]int32{}, gI32s(d, 4)...)
					w = anyI32(x.Replicas)
				}
				ps = append(ps, wire.Obj{partKey: int64(p), "replicas": w})
			}
			l = append(l, x)
		}
		want = append(want, wire.Obj{topicKey: t, "partitions": ps})
	}
	return
}

func tpJSON(l []tpr, reps bool) string {
	var ms []map[string]any
	for _, x := range l {
		m := map[string]any{"topic": x.Topic, "partition": x.Partition}
		if reps {
			m["replicas"] = x.Replicas
		}
		ms = append(ms, m)
	}
	b, _ := json.Marshal(ms)
	return string(b)
}

// names of the ACL enumerations as the tools' help and the REST documentation give them, with their codes
type aclEnum struct {
	Name string
	Code int64
}

var (
	aclTypes    = []aclEnum{{"any", 1}, {"topic", 2}, {"group", 3}, {"cluster", 4}, {"broker", 4}, {"transactional_id", 5}, {"TOPIC", 2}, {"Group", 3}, {"delegation_token", 6}, {"user", 7}}
	aclPatterns = []aclEnum{{"any", 1}, {"match", 2}, {"literal", 3}, {"prefixed", 4}, {"Literal", 3}}
	aclOps      = []aclEnum{{"any", 1}, {"all", 2}, {"read", 3}, {"write", 4}, {"create", 5}, {"delete", 6}, {"alter", 7}, {"describe", 8}, {"cluster_action", 9}, {"describe_configs", 10}, {"ALTER_CONFIGS", 11}, {"idempotent_write", 12}, {"READ", 3}}
	aclPerms    = []aclEnum{{"any", 1}, {"deny", 2}, {"allow", 3}, {"DENY", 2}}
	// the names the help of the commands lists
	aclHelpOps = []aclEnum{{"clusteraction", 9}, {"describeconfigs", 10}, {"alterconfigs", 11}, {"idempotentwrite", 12}}
)

func pickEnum(d *pbt.D, l []aclEnum) (string, int64) {
	e := l[d.N(len(l))]
	return e.Name, e.Code
}

// fixAcl brings generated ACL answers into the range of the enumerations: other values have no name.
func fixAcl(o wire.Obj) {
	lim := map[string]int64{"resource_type": 8, "pattern_type": 5, "operation": 13, "permission": 4}
	for k, x := range o {
		switch t := x.(type) {
		case int64:
			if n := lim[k]; n > 0 {
				o[k] = ((t % n) + n) % n
			}
		case []any:
			for _, e := range t {
				if oo, ok := e.(wire.Obj); ok {
					fixAcl(oo)
				}
			}
		}
	}
}

func coordinatorOf(c p23Case, g string) int32 { return c.IDs[c.Groups[g]] }

var configTypes = map[string]int64{"topic": 2, "broker": 4, "broker_logger": 8}

// dueConfigs: topics are asked of the controller, brokers of themselves.
func dueConfigs(c p23Case, typ, name string, req wire.Obj) (map[int32][]wire.Obj, bool) {
	id := c.IDs[c.Ctl]
	if typ != "topic" {
		id = -1
		if n, e := strconv.ParseInt(name, 10, 32); e == nil {
			for _, x := range c.IDs {
				if int64(x) == n {
					id = x
				}
			}
		}
	}
	if id < 0 || configTypes[typ] == 0 {
		return nil, true
	}
	return map[int32][]wire.Obj{id: {req}}, false
}

// cliArgs completes a call with its command line.
func cliArgs(d *pbt.D, c *p23Case, o *p23Op) {
	o.Args = nil
	if (o.Kind == "alterreassign") && d.P(1, 10) { // the timeout given holds for the connection, too
		o.TO += 100000
		o.Slow = 40000 + d.N(40000)
	} else if o.TO < 1000 {
		o.TO += 1000
	}
	flag := func(name, val string) {
		if d.Bool() {
			o.Args = append(o.Args, "--"+name+"="+val)
		} else {
			o.Args = append(o.Args, "--"+name, val)
		}
	}
	list := func(name string, vals []string) {
		for len(vals) > 0 {
			n := 1 + d.N(len(vals))
			flag(name, csvOf(vals[:n]))
			vals = vals[n:]
		}
	}
	bad := func() { o.ext = func(p23Case) (map[int32][]wire.Obj, bool) { return nil, true } }
	toCtl := func(w wire.Obj) {
		o.ext = func(c p23Case) (map[int32][]wire.Obj, bool) {
			return map[int32][]wire.Obj{c.IDs[c.Ctl]: {w}}, false
		}
	}
	ids := func(as [][]int32) string {
		var l []string
		for _, a := range as {
			var s []string
			for _, x := range a {
				s = append(s, fmt.Sprint(x))
			}
			l = append(l, strings.Join(s, ":"))
		}
		return strings.Join(l, ",")
	}
	switch o.Kind {
	case "listgroups":
		o.Args = []string{"list-groups"}
		o.Value = func() any { return &map[int32][]*healer.Group{} }
	case "logdirs":
		o.Args = []string{"describe-logdirs"}
		list("topics", o.Strs)
		o.Value = func() any { return &map[int32]healer.DescribeLogDirsResponse{} }
	case "deletetopics":
		o.Args, o.TO = []string{"delete-topics"}, 30000
		list("topics", o.Strs)
		o.Value = func() any { return &healer.DeleteTopicsResponse{} }
	case "createtopic":
		o.Args = []string{"create-topic"}
		flag("topic", o.Name)
		if o.N == -1 && o.RF == -1 && d.Bool() {
			o.TO = 30000
			break
		}
		flag("partitions", fmt.Sprint(o.N))
		flag("replication-factor", fmt.Sprint(o.RF))
		if d.P(1, 4) {
			o.TO = 30000
		} else {
			flag("timeout", fmt.Sprint(o.TO))
		}
	case "assignedtopic":
		o.Args = []string{"create-topic"}
		o.Name = gStr(d)
		flag("topic", o.Name)
		o.As = nil
		var want []any
		for p := range 1 + d.N(4) {
			var a []int32
			for k := 1 + d.N(3); k > 0; k-- {
				a = append(a, c.IDs[d.N(len(c.IDs))])
			}
			o.As = append(o.As, a)
			want = append(want, wire.Obj{"partition": int64(p), "brokers": anyI32(a)})
		}
		s := ids(o.As)
		flag("timeout", fmt.Sprint(o.TO))
		toCtl(wire.Obj{"topics": []any{wire.Obj{"name": o.Name, "num_partitions": int64(-1), "replication_factor": int64(-1), "assignments": want, "configs": []any{}}}, "timeout_ms": int64(o.TO)})
		switch d.W(8, 1, 1, 1) {
		case 1:
			w := pbt.Pick(d, "x", "1x", "9999999999999", "")
			if w == "" && s == fmt.Sprint(o.As[0][0]) {
				w = "x" // an empty flag is none at all
			}
			s = strings.Replace(s, fmt.Sprint(o.As[0][0]), w, 1)
			bad()
		case 2:
			flag("partitions", "3")
			bad()
		case 3:
			flag("replication-factor", "2")
			bad()
		}
		flag("replica-assignment", s)
	case "createpartitions", "createassigned":
		o.Args = []string{"create-partitions"}
		flag("topic", o.Name)
		flag("count", fmt.Sprint(o.N))
		flag("timeout", fmt.Sprint(o.TO))
		if !o.Flag || d.Bool() {
			o.Args = append(o.Args, fmt.Sprintf("--validate-only=%v", o.Flag))
		}
		if o.Kind == "createassigned" {
			o.As = nil
			for k := 1 + d.N(3); k > 0; k-- {
				o.As = append(o.As, append(gI32s(d, 3), c.IDs[0]))
			}
			s := ids(o.As)
			if d.P(1, 8) {
				s = pbt.Pick(d, s+",x", s+":", "1;2", s+":99999999999")
				bad()
			}
			flag("assignments", s)
		}
	case "deletegroups":
		o.Args = []string{"delete-groups"}
		list("groups", o.Strs)
		o.Value = func() any { return &healer.DeleteGroupsResponse{} }
	case "describeconfigs":
		o.Args = []string{"describe-configs"}
		flag("resource-type", o.Type)
		flag("resource-name", o.Name)
		o.NilKey = len(o.Strs) == 0
		for _, k := range o.Strs {
			flag("keys", k)
		}
		o.Value = func() any { return &healer.DescribeConfigsResponse{} }
	case "alterconfigs":
		o.Args = []string{"alter-configs"}
		o.Type, o.Name = pbt.Pick(d, "topic", "topic", "broker", "broker_logger"), gStr(d)
		if o.Type != "topic" {
			o.Name = fmt.Sprint(c.IDs[d.N(len(c.IDs))])
			if d.P(1, 10) {
				o.Name = pbt.Pick(d, "x", "999")
			}
		}
		if d.P(1, 10) {
			o.Type = pbt.Pick(d, "", "bogus", "topics", "client")
		}
		k, v := gStr(d), gStr(d)
		flag("resource-type", o.Type)
		flag("resource-name", o.Name)
		flag("config-name", k)
		flag("config-value", v)
		typ, name := o.Type, o.Name
		o.ext = func(c p23Case) (map[int32][]wire.Obj, bool) {
			return dueConfigs(c, typ, name, alterReq(typ, name, k, v))
		}
		o.Value = func() any { return &healer.IncrementalAlterConfigsResponse{} }
	case "listreassign":
		o.Args = []string{"list-partition-reassignments"}
		flag("timeout.ms", fmt.Sprint(o.TO))
		var w any
		if !d.P(1, 4) {
			l, want := genTPs(d, 1, "name", "", false)
			flag("data", tpJSON(l, false))
			w = want
		}
		o.want = wire.Obj{"timeout_ms": int64(o.TO), "topics": w}
		if d.P(1, 12) {
			flag("data", pbt.Pick(d, "{", "[1]", `[{"topic":1}]`, `[{"topic":"a","partition":"x"}]`, `[{"topic":"a","partition":4294967296}]`))
			bad()
		}
		o.Value = func() any { return &healer.ListPartitionReassignmentsResponse{} }
	case "alterreassign":
		o.Args = []string{"alter-partition-reassignments"}
		l, want := genTPs(d, 1, "name", "index", true)
		flag("timeout.ms", fmt.Sprint(o.TO))
		flag("reassignments", tpJSON(l, true))
		o.want = wire.Obj{"timeout_ms": int64(o.TO), "topics": want}
		if d.P(1, 12) {
			flag("reassignments", pbt.Pick(d, "", "{", "[1]", `[{"topic":"a","partition":0,"replicas":["x"]}]`))
			bad()
		}
	case "elect":
		o.Args = []string{"elect-leaders"}
		l, want := genTPs(d, 1, "topic", "", false)
		flag("timeout.ms", fmt.Sprint(o.TO))
		flag("data", tpJSON(l, false))
		o.want = wire.Obj{"timeout_ms": int64(o.TO), "topics": want}
		if d.P(1, 12) {
			flag("data", pbt.Pick(d, "{", "[1]", `[{"topic":1}]`))
			bad()
		}
		o.Value = func() any { return &healer.ElectLeadersResponse{} }
	case "describegroup":
		o.Args = []string{"describe-groups"}
		g := "g1"
		flag("group", g)
		o.ext = func(c p23Case) (map[int32][]wire.Obj, bool) {
			return map[int32][]wire.Obj{coordinatorOf(c, g): {{"groups": []any{g}}}}, false
		}
	case "describeacls", "createacls", "deleteacls":
		o.Args = []string{map[string]string{"describeacls": "describe-acls", "createacls": "create-acls", "deleteacls": "delete-acls"}[o.Kind]}
		w := wire.Obj{"resource_type": int64(1), "pattern_type": int64(2), "operation": int64(1), "permission": int64(1)}
		invalid := false
		enum := func(name, field string, l []aclEnum) {
			if d.P(1, 5) {
				return // the default
			}
			s, code := pickEnum(d, l)
			if d.P(1, 25) {
				s, invalid = pbt.Pick(d, "bogus", "", "top\"ic", "rea", "x,y"), true
			}
			flag(name, s)
			w[field] = code
		}
		enum("resourcetype", "resource_type", aclTypes)
		enum("patterntype", "pattern_type", aclPatterns)
		enum("operation", "operation", append(aclHelpOps, aclOps...))
		enum("permissiontype", "permission", aclPerms)
		str := func(name, field string) {
			if d.P(1, 4) {
				if o.Kind == "createacls" {
					w[field] = ""
				}
				return
			}
			s := gStr(d)
			if d.P(1, 6) {
				s = pbt.Pick(d, `a\b`, `say "x"`, `\u0041`, "tab\t", "User:CN=a,O=b")
			}
			flag(name, s)
			w[field] = s
		}
		str("resource", "resource_name")
		str("principal", "principal")
		str("host", "host")
		switch {
		case invalid:
			bad()
		case o.Kind == "describeacls":
			o.want = w
		case o.Kind == "createacls":
			o.want = wire.Obj{"creations": []any{w}}
		default:
			o.want = wire.Obj{"filters": []any{w}}
		}
		o.Value = aclValue(o.Kind)
	}
	flag("brokers", "")
	if d.Bool() {
		flag("client", d.Name(8))
	}
}

func aclValue(kind string) func() any {
	return func() any {
		switch kind {
		case "describeacls":
			return &healer.DescribeAclsResponse{}
		case "createacls":
			return &healer.CreateAclsResponse{}
		}
		return &healer.DeleteAclsResponse{}
	}
}

func alterReq(typ, name, k, v string) wire.Obj {
	return wire.Obj{"resources": []any{wire.Obj{"resource_type": configTypes[typ], "resource_name": name, "configs": []any{wire.Obj{"name": k, "operation": int64(0), "value": v}}}}, "validate_only": false}
}

// bootArgs puts the address of the cluster into the command line.
func bootArgs(args []string, cl *kafka.Cluster) []string {
	r := append([]string(nil), args...)
	for i, a := range r {
		if a == "--brokers=" {
			r[i] = "--brokers=" + cl.Bootstrap()
		} else if a == "--brokers" {
			r[i+1] = cl.Bootstrap()
		}
	}
	return r
}

// readValue reads the printed answer.
func readValue(o *p23Op, out []byte) (any, error) {
	if o.Kind == "describegroup" {
		var v healer.DescribeGroupsResponse
		err := json.Unmarshal(out, &v.Groups)
		return v, err
	}
	if o.Value == nil {
		return noValue{}, nil
	}
	v := o.Value()
	err := json.Unmarshal(out, v)
	switch t := v.(type) {
	case *map[int32][]*healer.Group:
		return *t, err
	case *map[int32]healer.DescribeLogDirsResponse:
		return *t, err
	case *healer.DeleteGroupsResponse:
		return *t, err
	}
	return v, err
}

var errTool = errors.New("failure reported")
