package props

import (
	"fmt"
	"strings"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// One request/response exchange with a broker: P15 judges the request bytes, P16 the decoded result,
// P18 the reported error.

type wireCase struct {
	A     *apiDef
	V     int
	Rng   [2]int
	Mk    func() healer.Request
	Want  wire.Obj // request fields
	Resp  wire.Obj
	Tags  func() [][2]any
	Codes []int16
	Seg   int
}

func genWireCase(d *pbt.D, errs int, plainReq bool, plainResp bool) wireCase {
	c := wireCase{A: apiTable[d.N(len(apiTable))]}
	if c.A.reqOnly && !plainResp {
		c.A = apiTable[0]
	}
	// the versions of an API share the weight of the API unless it has many
	c.V = c.A.vers[len(c.A.vers)-1-d.N(len(c.A.vers))]
	c.Rng = rangeFor(d, c.A, c.V)
	if plainResp {
		c.Resp = genResp(d, wire.Resp(c.A.key).Fields, c.V, &genOpt{}, -1)
	} else {
		o := &genOpt{unique: c.A.key == kafka.Metadata || c.A.key == kafka.ListOffsets}
		if errs > 0 && d.P(errs, 8) {
			o.errs = pbt.Pick(d, 2, 5, 8)
		}
		c.Resp = genResp(d, wire.Resp(c.A.key).Fields, c.V, o, 0)
		c.Codes = codesIn(c.Resp)
		c.Tags = genTags(d)
		c.Seg = d.W(4, 1, 1)
	}
	c.Mk, c.Want = c.A.mk(d, c.V)
	return c
}

func (c wireCase) String() string {
	s := fmt.Sprintf("%s v%d, broker advertises %d-%d\n", c.A.name, c.V, c.Rng[0], c.Rng[1])
	cut := func(x any) string {
		t := fmt.Sprintf("%q", fmt.Sprint(x))
		if len(t) > 1200 {
			t = t[:1200] + fmt.Sprintf("...(%d)", len(t))
		}
		return t
	}
	s += "  request: " + cut(c.Want) + "\n  response: " + cut(c.Resp)
	if c.Tags != nil {
		s += " with unknown tagged fields"
	}
	return s
}

// exchange performs the case; answered tells whether the broker understood the request.
func (c wireCase) exchange(noAnswer bool) (cl *kafka.Cluster, ev *kafka.Ev, resp healer.Response, err error, pv any, stack string, hung bool) {
	cl = kafka.New(1, 1)
	cl.Seg = c.Seg
	cl.Latency = time.Millisecond
	cl.Tags = c.Tags
	cl.Brokers[1].Ranges[c.A.key] = c.Rng
	cl.Override = func(b *kafka.Broker, e *kafka.Ev) (wire.Obj, bool) {
		if e.H.API == c.A.key {
			return c.Resp, true
		}
		return nil, false
	}
	if noAnswer {
		cl.Faults = append(cl.Faults, &kafka.Fault{API: c.A.key, Broker: -1, Kind: kafka.FClose})
	}
	cl.Install()
	cfg := healer.DefaultBrokerConfig()
	cfg.Net.ConnectTimeoutMS, cfg.Net.TimeoutMS = 1000, 3000
	b, e := healer.NewBroker("b1:9092", 1, cfg)
	if e != nil {
		err = e
		return
	}
	hung = !within(10*time.Minute, func() {
		pv, stack = call(func() { resp, err = b.RequestAndGet(c.Mk()) })
	})
	if evs := cl.Events(c.A.key); len(evs) == 1 {
		ev = evs[0]
	}
	if !hung && pv == nil {
		b.Close()
	}
	return
}

func respSize(o wire.Obj) int {
	n := 0
	for _, x := range o {
		if a, ok := x.([]any); ok {
			n += len(a)
		}
	}
	return n
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P15",
		Level: "exploration",
		Rule: "case = one of 29 APIs x every version the client can select x generated field values (empty, long, non-ASCII strings, nulls, extreme integers, 0-3 element lists, tagged fields); the bytes received by an independent schema decoder must be one whole frame whose fields equal the supplied values; " +
			"non-trivial = the request has at least one variable-length field set",
		Quick: 150000, Deep: 900000, Chunk: 500,
		Gen: func(d *pbt.D) any { return genWireCase(d, 0, false, true) },
		Run: func(x any, r *pbt.R) {
			c := x.(wireCase)
			bubble(r, func() {
				cl, ev, _, err, pv, stack, hung := c.exchange(true)
				at := fmt.Sprintf("%s v%d", c.A.name, c.V)
				r.Class(at)
				for _, e := range cl.ProtoErrs {
					r.Fail("malformed:"+at, "%s", e)
				}
				if r.Failed() {
					return
				}
				if ev == nil {
					if pv != nil {
						r.Fail("panic:"+at, "panic while building or sending the request: %v\n%s", pv, stack)
					} else {
						r.Fail("not-sent:"+at, "%d requests of this API reached the broker (error %v, hung %v)", len(cl.Events(c.A.key)), err, hung)
					}
					noteHistory(r, cl)
					return
				}
				if ev.H.Version != c.V {
					r.Fail("version:"+at, "sent in version %d, advertised %v", ev.H.Version, c.Rng)
					return
				}
				if s := sameObj(wire.Req(c.A.key).Fields, c.V, ev.Req, c.Want, "", c.A.sortReq); s != "" {
					r.Fail("value:"+at, "%s", s)
				}
				if ev.H.Client != nil && *ev.H.Client != clientID && *ev.H.Client != "" {
					r.Fail("client:"+at, "client id %q sent, %q supplied", *ev.H.Client, clientID)
				}
				for _, w := range c.Want {
					switch t := w.(type) {
					case string:
						if t != "" {
							r.NonTrivial()
						}
					case []any:
						if len(t) > 0 {
							r.NonTrivial()
						}
					case []byte:
						r.NonTrivial()
					}
				}
			})
		},
		Desc: func(x any) string { return x.(wireCase).String() },
	})

	pbt.Register(&pbt.Prop{
		ID:    "P16",
		Level: "exploration",
		Rule: "case = one of 28 APIs x every version the client can select x a schema-generated response (nulls, 0-3 or 130 elements, extreme integers, long and non-ASCII strings, unknown tagged fields in every section, error codes) encoded by an independent encoder; every exposed field of the result must equal the encoded value; " +
			"non-trivial = the response has at least one list element or the API has no lists",
		Quick: 150000, Deep: 900000, Chunk: 500,
		Gen: func(d *pbt.D) any { return genWireCase(d, 2, true, false) },
		Run: func(x any, r *pbt.R) {
			c := x.(wireCase)
			bubble(r, func() {
				cl, ev, resp, err, pv, stack, hung := c.exchange(false)
				at := fmt.Sprintf("%s v%d", c.A.name, c.V)
				if ev == nil || ev.H.Version != c.V || len(cl.ProtoErrs) > 0 {
					r.Class("request not understood (judged by P15)")
					return
				}
				r.Class(at)
				if pv != nil {
					r.Fail("panic:"+at, "panic while decoding a valid response: %v\n%s", pv, stack)
					return
				}
				if hung {
					r.Fail("hang:"+at, "the call did not return")
					return
				}
				if c.Tags != nil {
					r.Class("unknown tagged fields")
				}
				if err != nil && len(c.Codes) == 0 {
					r.Fail("error:"+at, "valid response rejected: %v", err)
					return
				}
				isNil := resp == nil
				if err != nil && isNil {
					r.Class("error without result")
					return
				}
				if s := sameResult(c.A, c.V, c.Resp, resp); s != "" {
					r.Fail("value:"+at, "%s (error %v)", s, err)
				}
				lists := false
				for _, f := range wire.Resp(c.A.key).Fields {
					lists = lists || f.Array
				}
				if !lists || respSize(c.Resp) > 0 {
					r.NonTrivial()
				}
			})
		},
		Desc: func(x any) string { return x.(wireCase).String() },
	})

	pbt.Register(&pbt.Prop{
		ID:    "P18",
		Level: "exploration",
		Rule: "case = one of 28 APIs x every version x a schema-generated response whose error codes (top level and in entries) are zero or drawn from known and unknown codes; the call must fail with an error naming one of the codes exactly when there is one; " +
			"non-trivial = at least one non-zero code, or a list with at least one element and no code",
		Quick: 150000, Deep: 900000, Chunk: 500,
		Gen: func(d *pbt.D) any { return genWireCase(d, 6, true, false) },
		Run: func(x any, r *pbt.R) {
			c := x.(wireCase)
			bubble(r, func() {
				cl, ev, resp, err, pv, stack, hung := c.exchange(false)
				at := fmt.Sprintf("%s v%d", c.A.name, c.V)
				if ev == nil || ev.H.Version != c.V || len(cl.ProtoErrs) > 0 {
					r.Class("request not understood (judged by P15)")
					return
				}
				if pv != nil {
					r.Fail("panic:"+at, "panic instead of an error: %v\n%s", pv, stack)
					return
				}
				if hung {
					r.Fail("hang:"+at, "the call did not return")
					return
				}
				_ = resp
				if len(c.Codes) == 0 {
					if err != nil {
						r.Fail("invented:"+at, "no error code in the response, yet the call failed: %v", err)
					}
					r.Class("no code")
					if respSize(c.Resp) > 0 {
						r.NonTrivial()
					}
					return
				}
				r.NonTrivial()
				r.Class(at + " with code")
				if err == nil {
					r.Fail("lost:"+at, "error codes %v in the response, yet the call succeeded", c.Codes)
					return
				}
				for _, code := range c.Codes {
					if errNames(err, code) {
						return
					}
				}
				r.Fail("unnamed:"+at, "error codes %v in the response, but the error says %q", c.Codes, strings.TrimSpace(err.Error()))
			})
		},
		Desc: func(x any) string { return x.(wireCase).String() },
	})
}
