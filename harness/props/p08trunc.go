package props

import (
	"fmt"
	"sync"
	"time"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
)

// p08Trunc is a history in which the log loses its end (an unclean leader election, or the topic made anew), so that the
// position of the consumer goes back and what is committed has to go back with it.
type p08Trunc struct {
	Via      string
	FromBeg  bool
	Interval int
	N        int // records at first
	Keep     int // records left
	M        int // records after that
	Seed     uint64
}

func genP08Trunc(d *pbt.D) *p08Trunc {
	c := &p08Trunc{Via: pbt.Pick(d, "simple", "consumer", "group"), FromBeg: d.Bool(), Interval: pbt.Pick(d, 200, 1000, 5000), N: d.Int(2, 9), M: d.Int(1, 6), Seed: uint64(d.N(1 << 30))}
	c.Keep = d.N(c.N)
	return c
}

func (c p08Trunc) String() string {
	return fmt.Sprintf("via %s from.beginning %v interval %d: %d records consumed, the log is cut to %d, %d records follow\n", c.Via, c.FromBeg, c.Interval, c.N, c.Keep, c.M)
}

func runP08Trunc(r *pbt.R, c p08Trunc) {
	cl := kafka.New(1, c.Seed)
	cl.Install()
	pt := cl.AddTopic("logs", 1).Parts[0]
	cfg := map[string]interface{}{"bootstrap.servers": cl.Bootstrap(), "fetch.max.wait.ms": 500, "from.beginning": c.FromBeg, "group.id": "g", "session.timeout.ms": 10000,
		"auto.commit": true, "auto.commit.interval.ms": c.Interval, "net": map[string]interface{}{"connect.timeout.ms": 1500, "timeout.ms": 2000}}
	defer noteHistory(r, cl)
	key := kafka.OffsetKey{Topic: "logs", Part: 0}
	var mu sync.Mutex
	var got []int64
	start := func() (stop func()) {
		ch := make(chan *healer.FullMessage)
		go func() {
			for m := range ch {
				mu.Lock()
				if m.Error == nil && m.Message != nil {
					got = append(got, m.Message.Offset)
				}
				mu.Unlock()
			}
		}()
		var err error
		if !guarded(r, "creating the consumer", time.Minute, func() {
			switch c.Via {
			case "simple":
				var x *healer.SimpleConsumer
				if x, err = healer.NewSimpleConsumer("logs", 0, cfg); err == nil {
					req := int64(-1)
					if c.FromBeg {
						req = -2
					}
					stop = x.Stop
					x.Consume(req, ch)
				}
			case "consumer":
				var x *healer.Consumer
				if x, err = healer.NewConsumer(cfg, "logs"); err == nil {
					stop = func() { x.AwaitClose(time.Minute) }
					x.Consume(ch)
				}
			case "group":
				var x *healer.GroupConsumer
				if x, err = healer.NewGroupConsumer("logs", cfg); err == nil {
					stop = x.Close
					x.Consume(ch)
				}
			}
		}) || err != nil {
			r.Fail("setup", "the consumer could not be created on a healthy cluster: %v", err)
			return nil
		}
		time.Sleep(5 * time.Second)
		return stop
	}
	add := func(n int) {
		for i := 0; i < n; i++ {
			cl.Lock()
			store(pt, []logChunk{probeChunk(i)})
			cl.Unlock()
			time.Sleep(10 * time.Millisecond)
		}
	}
	settle := time.Duration(c.Interval)*2*time.Millisecond + 5*time.Second
	committed := func(what string, want int64) {
		cl.Lock()
		defer cl.Unlock()
		if o, ok := cl.Group("g").Offsets[key]; !ok || o != want {
			r.Fail("committed", "%s the committed offset is %d (%v), the position %d", what, o, ok, want)
		}
	}
	stop := start()
	if stop == nil {
		return
	}
	add(c.N)
	time.Sleep(settle)
	committed("after the first records", int64(c.N))
	cl.Lock()
	pt.Chunks, pt.Next = append([]kafka.Chunk(nil), pt.Chunks[:c.Keep]...), int64(c.Keep)
	cl.Unlock()
	time.Sleep(5 * time.Second)
	add(c.M)
	time.Sleep(settle)
	want := int64(c.Keep + c.M)
	committed("after the log was cut and went on,", want)
	if !guarded(r, "stopping", 3*time.Minute, stop) {
		r.Fail("hang", "stopping did not return within 3 minutes")
		return
	}
	committed("after the stop", want)
	if r.Failed() {
		return
	}
	mu.Lock()
	got = nil
	mu.Unlock()
	add(2)
	if stop = start(); stop == nil {
		return
	}
	mu.Lock()
	if fmt.Sprint(got) != fmt.Sprint([]int64{want, want + 1}) {
		r.Fail("seq", "the next run hands over %v, the records after the position are %v", got, []int64{want, want + 1})
	}
	mu.Unlock()
	within(time.Minute, stop)
	r.NonTrivial()
	r.Class("log cut back, via " + c.Via)
}
