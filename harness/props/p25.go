//go:build cli

package props

import (
	"fmt"
	"time"

	"verif/kafka"
	"verif/pbt"
)

// P25: the command-line tools. Each case runs one command (in this process, one process per case, in virtual time)
// against a cluster: requests, standard output and exit status are compared with the command line and the cluster.

type p25Case struct {
	Admin *p23Case
	Data  *p25Data
}

var p25Admin = []string{"listgroups", "logdirs", "deletetopics", "createtopic", "assignedtopic", "createpartitions", "createassigned", "deletegroups",
	"describeacls", "createacls", "deleteacls", "describeconfigs", "alterconfigs", "listreassign", "alterreassign", "elect", "describegroup"}

func genP25(d *pbt.D) any {
	if d.W(2, 1) == 0 {
		c := genAdmin(d, p25Admin, 1, cliArgs)
		for k, o := range c.resps {
			if key := p23API[c.Ops[0].Kind]; key == kafka.DescribeAcls || key == kafka.CreateAcls || key == kafka.DeleteAcls {
				fixAcl(o)
				c.resps[k] = o
			}
		}
		return p25Case{Admin: &c}
	}
	return p25Case{Data: genP25Data(d)}
}

func runP25(r *pbt.R, c p25Case) {
	if c.Data != nil {
		runP25Data(r, *c.Data)
		return
	}
	w := adminWorld(*c.Admin)
	w.call = func(o *p23Op) (any, error) {
		res := runCLI(nil, time.Hour, bootArgs(o.Args, w.cl))
		r.Note("%s", res)
		if res.Panic != "" {
			r.Fail("panic", "the command panicked: %s", res.Panic)
			return nil, errTool
		}
		if !res.Ended {
			r.Fail("hang:"+o.Kind, "the command %q did not end within an hour", o.Args)
			return nil, errTool
		}
		if res.failed() {
			return nil, fmt.Errorf("%w: %s", errTool, res)
		}
		v, err := readValue(o, res.Out)
		if err != nil {
			r.Fail("output:"+o.Kind, "the output of %q cannot be read: %v: %s", o.Args, err, clipN(string(res.Out), 300))
		}
		return v, nil
	}
	w.do(r, 0, nil, nil, nil)
	noteHistory(r, w.cl)
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "P25", Level: "fault_enumeration",
		Rule: "case = one command of the command-line tools with generated flags and input, run against a generated cluster, with error codes, cut or unanswered requests or a broker down in some; " +
			"non-trivial = a request was due, or messages to be read or written",
		Gen:   genP25,
		Quick: 5000, Deep: 150000, Chunk: 1,
		Run: func(x any, r *pbt.R) { bubble(r, func() { runP25(r, x.(p25Case)) }) },
		Desc: func(x any) string {
			if c := x.(p25Case); c.Admin != nil {
				return c.Admin.String()
			}
			return x.(p25Case).Data.String()
		},
	})
}
