package kafka

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"time"

	"verif/memnet"
	"verif/wire"
)

// AppendRecs appends records as one chunk of the given format. Offsets of recs are assigned from the log
// end plus Gap (compaction holes are made by skipping offsets).
func (p *Part) AppendRecs(recs []wire.Rec, magic, codec int, framed bool, epoch int32) {
	if len(recs) == 0 {
		return
	}
	first, last := recs[0].Offset, recs[len(recs)-1].Offset
	ch := Chunk{First: first, Last: last, Magic: magic, Recs: recs}
	if magic == 2 {
		b := wire.Batch{BaseOffset: first, LeaderEpoch: epoch, Attributes: int16(codec), LastOffsetDelta: int32(last - first),
			BaseTS: recs[0].TS, MaxTS: recs[0].TS, ProducerID: -1, ProducerEpoch: -1, BaseSeq: -1, Recs: recs}
		for _, r := range recs {
			b.MaxTS = max(b.MaxTS, r.TS)
		}
		ch.Bytes = b.Encode(framed)
	} else {
		ch.Bytes = wire.EncodeSetV01(magic, codec, recs, framed)
	}
	p.Chunks = append(p.Chunks, ch)
	p.Next = last + 1
	p.bump()
}

// AppendRaw appends a prepared chunk.
func (p *Part) AppendRaw(ch Chunk) {
	p.Chunks = append(p.Chunks, ch)
	p.Next = ch.Last + 1
	p.bump()
}

func (p *Part) bump() {
	if p.changed != nil {
		close(p.changed)
	}
	p.changed = make(chan struct{})
}

// Records returns all visible records with offset >= from.
func (p *Part) Records(from int64) (r []wire.Rec) {
	for _, ch := range p.Chunks {
		for _, x := range ch.Recs {
			if x.Offset >= from {
				r = append(r, x)
			}
		}
	}
	return
}

func (c *Cluster) handle(b *Broker, ev *Ev, code int16, sv *memnet.Server) (wire.Obj, bool) {
	c.mu.Lock()
	ov := c.Override
	c.mu.Unlock()
	if ev.H.API != ApiVersions && c.SASL != nil && ev.H.API != SaslHandshake && ev.H.API != SaslAuthenticate {
		c.mu.Lock()
		ok := c.Authed[ev.Conn]
		c.mu.Unlock()
		if !ok {
			ev.Fault = "unauthenticated"
			return nil, false
		}
	}
	if ov != nil {
		if o, ok := ov(b, ev); ok {
			return o, true
		}
	}
	switch ev.H.API {
	case ApiVersions:
		return c.apiVersions(b, ev, code), true
	case Metadata:
		return c.metadata(ev, code), true
	case Produce:
		return c.produce(b, ev, code)
	case Fetch:
		return c.fetch(b, ev, code, sv), true
	case ListOffsets:
		return c.listOffsets(b, ev, code), true
	case FindCoordinator:
		return c.findCoordinator(ev, code), true
	case OffsetCommit:
		return c.offsetCommit(b, ev, code), true
	case OffsetFetch:
		return c.offsetFetch(b, ev, code), true
	case JoinGroup:
		return c.join(b, ev, code), true
	case SyncGroup:
		return c.sync(b, ev, code), true
	case Heartbeat:
		return c.heartbeat(b, ev, code), true
	case LeaveGroup:
		return c.leave(b, ev, code), true
	case SaslHandshake:
		c.mu.Lock()
		defer c.mu.Unlock()
		ms := []any{"PLAIN", "SCRAM-SHA-256"}
		e := int64(code)
		if c.SASL != nil && e == 0 {
			e = int64(c.SASL.HandshakeCode)
			if e == 0 && ev.Req.S("mechanism") != c.SASL.Mechanism {
				e = 33
			}
		}
		return wire.Obj{"error_code": e, "mechanisms": ms}, true
	case SaslAuthenticate:
		c.mu.Lock()
		defer c.mu.Unlock()
		e := int64(code)
		var msg any
		if c.SASL != nil && e == 0 {
			n := 0
			for _, x := range c.Hist {
				if x.H.API == SaslAuthenticate {
					n++
				}
			}
			parts := bytes.Split(ev.Req.B("auth_bytes"), []byte{0})
			if len(parts) != 3 || string(parts[1]) != c.SASL.User || string(parts[2]) != c.SASL.Password {
				e = 58
				msg = "Authentication failed: Invalid username or password"
			}
			if c.SASL.FailFrom > 0 && n >= c.SASL.FailFrom {
				e = int64(c.SASL.FailCode)
				msg = "Authentication failed"
			}
		}
		if e == 0 {
			c.Authed[ev.Conn] = true
		}
		return wire.Obj{"error_code": e, "error_message": msg, "auth_bytes": []byte{}}, true
	}
	return nil, false
}

func (c *Cluster) apiVersions(b *Broker, ev *Ev, code int16) wire.Obj {
	c.mu.Lock()
	defer c.mu.Unlock()
	var ks []int
	for k := range b.Ranges {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var a []any
	for _, k := range ks {
		a = append(a, wire.Obj{"api_key": int64(k), "min_version": int64(b.Ranges[k][0]), "max_version": int64(b.Ranges[k][1])})
	}
	if code == 0 {
		code = c.VersionsErr
	}
	return wire.Obj{"error_code": int64(code), "api_keys": a}
}

// MetadataObj renders cluster metadata for the given topics (nil = all).
func (c *Cluster) metadata(ev *Ev, code int16) wire.Obj {
	c.mu.Lock()
	defer c.mu.Unlock()
	o := wire.Obj{"controller_id": int64(c.Controller), "cluster_id": c.ClusterID}
	var bs []any
	for _, id := range c.Order {
		b := c.Brokers[id]
		x := wire.Obj{"node_id": int64(b.ID), "host": b.Host, "port": int64(b.Port)}
		if b.Rack != nil {
			x["rack"] = *b.Rack
		}
		bs = append(bs, x)
	}
	o["brokers"] = bs
	var names []string
	if ts, ok := ev.Req["topics"].([]any); ok {
		for _, t := range ts {
			names = append(names, t.(wire.Obj).S("name"))
		}
		if len(ts) == 0 && ev.H.Version == 0 {
			names = c.topicNames()
		}
	} else {
		names = c.topicNames()
	}
	var ts []any
	for _, n := range names {
		t := c.Topics[n]
		if t == nil {
			ts = append(ts, wire.Obj{"error_code": int64(3), "name": n, "partitions": []any{}})
			continue
		}
		e := int64(t.Err)
		if code != 0 {
			e = int64(code)
		}
		var ps []any
		for i, p := range t.Parts {
			if t.Hidden[i] {
				continue
			}
			rep := []any{}
			for _, r := range p.Isr {
				rep = append(rep, int64(r))
			}
			isr := rep
			if p.Reps != nil {
				rep = []any{}
				for _, r := range p.Reps {
					rep = append(rep, int64(r))
				}
			}
			ps = append(ps, wire.Obj{"error_code": int64(p.Err), "index": int64(i), "leader_id": int64(p.Leader),
				"leader_epoch": int64(p.Epoch), "replicas": rep, "isr": isr, "offline": []any{}})
		}
		if e != 0 && e != 9 {
			ps = nil
		}
		ts = append(ts, wire.Obj{"error_code": e, "name": n, "is_internal": t.Internal, "partitions": ps})
	}
	o["topics"] = ts
	if c.MetaHook != nil {
		c.MetaHook(o)
	}
	return o
}

func (c *Cluster) topicNames() (r []string) {
	for n := range c.Topics {
		r = append(r, n)
	}
	sort.Strings(r)
	return
}

func (c *Cluster) produce(b *Broker, ev *Ev, code int16) (wire.Obj, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	var ts []any
	for _, t := range ev.Req.Objs("topics") {
		var ps []any
		for _, p := range t.Objs("partitions") {
			idx := int(p.I("index"))
			e := int64(code)
			base := int64(-1)
			tp := c.Topics[t.S("name")]
			switch {
			case e != 0:
			case tp == nil || idx < 0 || idx >= len(tp.Parts):
				e = 3
			case tp.Parts[idx].Leader != b.ID:
				e = 6
			default:
				pt := tp.Parts[idx]
				x, err := wire.ParseBatch(p.B("records"))
				if err != nil {
					c.ProtoErrs = append(c.ProtoErrs, fmt.Sprintf("produce v%d to %s-%d: %v [% x]", ev.H.Version, tp.Name, idx, err, clipb(p.B("records"))))
					e = 2
					break
				}
				base = pt.Next
				pt.Appends = append(pt.Appends, Append{T: c.Now(), Base: base, Batch: x, Broker: b.ID, Acks: ev.Req.I("acks")})
				raw := append([]byte(nil), p.B("records")...)
				binary.BigEndian.PutUint64(raw, uint64(base))
				recs := append([]wire.Rec(nil), x.Recs...)
				for i := range recs {
					recs[i].Offset = base + int64(i)
				}
				if len(recs) > 0 {
					pt.AppendRaw(Chunk{First: base, Last: base + int64(len(recs)) - 1, Magic: 2, Bytes: raw, Recs: recs})
				}
			}
			if e != 0 {
				ev.Rejected = true
			}
			ps = append(ps, wire.Obj{"index": int64(idx), "error_code": e, "base_offset": base, "log_append_time_ms": int64(-1), "log_start_offset": int64(0)})
		}
		ts = append(ts, wire.Obj{"name": t.S("name"), "partitions": ps})
	}
	if ev.Req.I("acks") == 0 {
		return nil, true
	}
	return wire.Obj{"topics": ts}, true
}

// chunkBytes returns the bytes of a chunk for a fetch version (old versions get format 0).
func chunkBytes(ch *Chunk, version int) []byte {
	if version >= 4 || ch.Magic == 0 || version >= 2 && ch.Magic == 1 {
		return ch.Bytes
	}
	return wire.EncodeSetV01(0, wire.None, ch.Recs, false)
}

func (c *Cluster) fetch(b *Broker, ev *Ev, code int16, sv *memnet.Server) wire.Obj {
	wait := time.Duration(ev.Req.I("max_wait_ms")) * time.Millisecond
	end := time.Now().Add(wait)
	if c.MinFetchDelay > 0 {
		time.Sleep(c.MinFetchDelay)
	}
	for {
		o, empty, ch := c.fetchOnce(b, ev, code)
		now := time.Now()
		if !empty || !now.Before(end) || ch == nil {
			return o
		}
		tm := time.NewTimer(end.Sub(now))
		select {
		case <-ch:
		case <-tm.C:
		}
		tm.Stop()
	}
}

func (c *Cluster) fetchOnce(b *Broker, ev *Ev, code int16) (wire.Obj, bool, chan struct{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	var ts []any
	empty := true
	var ch chan struct{}
	for _, t := range ev.Req.Objs("topics") {
		var ps []any
		for _, p := range t.Objs("partitions") {
			idx := int(p.I("index"))
			off := p.I("fetch_offset")
			maxb := int(p.I("max_bytes"))
			o := wire.Obj{"index": int64(idx), "error_code": int64(0), "high_watermark": int64(-1), "last_stable_offset": int64(-1), "log_start_offset": int64(-1), "aborted": []any{}, "records": []byte{}}
			tp := c.Topics[t.S("name")]
			e := int64(code)
			var pt *Part
			if tp != nil && idx >= 0 && idx < len(tp.Parts) {
				pt = tp.Parts[idx]
			}
			switch {
			case e != 0:
			case pt == nil:
				e = 3
			case pt.Leader != b.ID:
				e = 6
			case ev.H.Version >= 9 && p.I("current_leader_epoch") > int64(pt.Epoch):
				e = 76 // unknown leader epoch
			case ev.H.Version >= 9 && p.I("current_leader_epoch") >= 0 && p.I("current_leader_epoch") < int64(pt.Epoch):
				e = 74 // fenced
			case off < pt.Start || off > pt.Next:
				e = 1
			}
			if e != 0 {
				o["error_code"] = e
				empty = false
				if c.rng.IntN(2) == 0 {
					o["records"] = nil
				}
				ps = append(ps, o)
				continue
			}
			o["high_watermark"], o["last_stable_offset"], o["log_start_offset"] = pt.Next, pt.Next, pt.Start
			var buf []byte
			if c.MaxRespBytes > 0 && maxb > c.MaxRespBytes && ev.H.Version >= 3 {
				maxb = c.MaxRespBytes
			}
			for i := range pt.Chunks {
				k := &pt.Chunks[i]
				if k.Last < off {
					continue
				}
				cb := chunkBytes(k, ev.H.Version)
				room := maxb - len(buf)
				if len(cb) <= room {
					buf = append(buf, cb...)
					continue
				}
				if len(buf) == 0 && ev.H.Version >= 3 {
					buf = append(buf, cb...) // at least one whole batch
					break
				}
				if (ev.H.Version < 3 || c.TruncTail) && room > 0 {
					buf = append(buf, cb[:room]...)
				}
				break
			}
			if len(buf) > 0 {
				empty = false
			} else {
				ch = pt.changed
				if c.rng.IntN(3) == 0 {
					o["aborted"] = nil
				}
			}
			o["records"] = buf
			if buf == nil {
				o["records"] = []byte{}
			}
			ps = append(ps, o)
		}
		ts = append(ts, wire.Obj{"name": t.S("name"), "partitions": ps})
	}
	return wire.Obj{"topics": ts}, empty, ch
}

func (c *Cluster) listOffsets(b *Broker, ev *Ev, code int16) wire.Obj {
	c.mu.Lock()
	defer c.mu.Unlock()
	var ts []any
	for _, t := range ev.Req.Objs("topics") {
		var ps []any
		for _, p := range t.Objs("partitions") {
			idx := int(p.I("index"))
			tp := c.Topics[t.S("name")]
			e := int64(code)
			off := int64(-1)
			switch {
			case e != 0:
			case tp == nil || idx < 0 || idx >= len(tp.Parts):
				e = 3
			case tp.Parts[idx].Leader != b.ID:
				e = 6
			case p.I("timestamp") == -1:
				off = tp.Parts[idx].Next
			case p.I("timestamp") == -2:
				off = tp.Parts[idx].Start
			default:
				for _, r := range tp.Parts[idx].Records(tp.Parts[idx].Start) {
					if r.TS >= p.I("timestamp") {
						off = r.Offset
						break
					}
				}
			}
			o := wire.Obj{"index": int64(idx), "error_code": e, "timestamp": int64(-1), "offset": off, "old_offsets": []any{}}
			if e == 0 && off >= 0 {
				o["old_offsets"] = []any{off}
			}
			ps = append(ps, o)
		}
		ts = append(ts, wire.Obj{"name": t.S("name"), "partitions": ps})
	}
	return wire.Obj{"topics": ts}
}

// CoordinatorOf returns the broker coordinating a group.
func (c *Cluster) CoordinatorOf(group string) int32 {
	if c.Coordinator != nil {
		return c.Coordinator(group)
	}
	h := 0
	for _, x := range []byte(group) {
		h = h*31 + int(x)
	}
	if h < 0 {
		h = -h
	}
	return c.Order[h%len(c.Order)]
}

func (c *Cluster) findCoordinator(ev *Ev, code int16) wire.Obj {
	c.mu.Lock()
	defer c.mu.Unlock()
	id := c.CoordinatorOf(ev.Req.S("key"))
	b := c.Brokers[id]
	if code != 0 || b == nil {
		if code == 0 {
			code = 15
		}
		return wire.Obj{"error_code": int64(code), "node_id": int64(-1), "host": "", "port": int64(-1)}
	}
	return wire.Obj{"error_code": int64(0), "node_id": int64(id), "host": b.Host, "port": int64(b.Port)}
}

// Describe prints a history for failure notes.
func (c *Cluster) Describe(max int) (r []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	same, lastBody := 0, ""
	for i, e := range c.Hist {
		if len(r) >= max {
			r = append(r, fmt.Sprintf("... %d more requests", len(c.Hist)-i))
			break
		}
		s := fmt.Sprintf("%9s broker %d conn %d api %d v%d corr %d", e.T.Round(time.Microsecond), e.Broker, e.Conn, e.H.API, e.H.Version, e.H.Corr)
		if e.Fault != "" {
			s += " FAULT " + e.Fault
		}
		body := fmt.Sprintf("%v", e.Req)
		if e.H.API == Fetch && len(e.Req.Objs("topics")) > 0 {
			body = ""
			for _, t := range e.Req.Objs("topics") {
				for _, p := range t.Objs("partitions") {
					body += fmt.Sprintf("fetch %s-%d at %d max %d epoch %d ", t.S("name"), p.I("index"), p.I("fetch_offset"), p.I("max_bytes"), p.I("current_leader_epoch"))
				}
			}
			if body == lastBody && e.Fault == "" {
				if same++; same > 2 {
					continue
				}
			} else {
				same, lastBody = 0, body
			}
		}
		if len(body) > 160 {
			body = body[:160] + "..."
		}
		r = append(r, s+" "+strings.ToValidUTF8(body, "?"))
	}
	return
}
