package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/childe/healer"

	"verif/kafka"
	"verif/pbt"
	"verif/wire"
)

// logRec is one record of a generated log; Hole offsets are skipped before it (compacted away).
type logRec struct {
	Hole    int
	Key     []byte
	Value   []byte
	TSD     int64
	Headers []wire.KV
}

// logChunk is one batch, wrapper or run of plain messages of a generated log.
type logChunk struct {
	Magic     int
	Codec     int
	Framed    bool
	Gap       int // offsets missing before it
	HeadGap   int // magic 2: offsets at the head of the batch that were compacted away
	TailGap   int // magic 2: the same at the tail
	Control   bool
	Txn       bool
	LogAppend bool
	TS        int64
	Recs      []logRec
	Many      int // as many more records without key
}

func (c logChunk) String() string {
	s := fmt.Sprintf("magic %d codec %d", c.Magic, c.Codec)
	if c.Framed {
		s += " framed"
	}
	if c.Gap > 0 {
		s += fmt.Sprintf(" gap %d", c.Gap)
	}
	if c.HeadGap+c.TailGap > 0 {
		s += fmt.Sprintf(" headgap %d tailgap %d", c.HeadGap, c.TailGap)
	}
	if c.Control {
		s += " control"
	}
	if c.LogAppend {
		s += " logappend"
	}
	if c.Many > 0 {
		s += fmt.Sprintf(" many %d", c.Many)
	}
	s += fmt.Sprintf(" ts %d records %d:", c.TS, len(c.Recs))
	for _, r := range c.Recs {
		s += fmt.Sprintf(" [%s=%s", q(r.Key), q(r.Value))
		if r.Hole > 0 {
			s += fmt.Sprintf(" hole %d", r.Hole)
		}
		if len(r.Headers) > 0 {
			s += fmt.Sprintf(" headers %d", len(r.Headers))
		}
		s += "]"
	}
	return s
}

func genLogBytes(d *pbt.D) []byte {
	switch d.W(10, 3, 2, 1) {
	case 0:
		return d.BytesN(1 + d.Skew(60))
	case 1:
		return nil
	case 2:
		return []byte{}
	}
	return d.BytesN(pbt.Pick(d, 63, 64, 127, 128, 1000, 5000, 40000))
}

func genLogRecs(d *pbt.D, magic, maxRecs int) (rs []logRec) {
	n := 1 + d.Skew(maxRecs-1)
	for i := 0; i < n; i++ {
		r := logRec{Key: genLogBytes(d), Value: genLogBytes(d), TSD: int64(d.Skew(5000))}
		if d.P(1, 8) {
			r.TSD = -r.TSD
		}
		if d.P(1, 6) && i > 0 {
			r.Hole = 1 + d.Skew(5)
		}
		if d.P(1, 30) {
			r.TSD = pbt.Pick(d, int64(1)<<31, 1<<32+5, -(1<<31)-1, 1<<40, 100000)
		}
		if d.P(1, 60) && magic == 2 {
			r.Hole = pbt.Pick(d, 127, 32768, 65536, 1<<20)
		}
		if magic == 2 && d.P(1, 4) {
			for k := 1 + d.Skew(3); k > 0; k-- {
				h := wire.KV{K: d.Str(8), V: genLogBytes(d)}
				if len(h.V) > 200 {
					h.V = h.V[:200]
				}
				r.Headers = append(r.Headers, h)
			}
		}
		rs = append(rs, r)
	}
	return
}

// genChunk draws one chunk. magics lists the formats to use.
func genChunk(d *pbt.D, magics []int, maxRecs int) logChunk {
	c := logChunk{Magic: pbt.Pick(d, magics...), Codec: d.W(4, 1, 1, 1), Framed: d.Bool(), TS: 1700000000000 + int64(d.N(1000000))}
	if d.P(1, 5) {
		c.Gap = 1 + d.Skew(20)
	}
	if c.Magic == 2 {
		if d.P(1, 6) {
			c.HeadGap = 1 + d.Skew(6)
		}
		if d.P(1, 5) {
			c.TailGap = 1 + d.Skew(6)
		}
		switch d.W(10, 1, 1, 1) {
		case 1: // batch emptied by compaction
			c.Codec = wire.None
			c.TailGap = max(c.TailGap, 1)
			return c
		case 2:
			c.Control = true
			c.Codec, c.HeadGap = wire.None, 0
			c.Recs = []logRec{{Key: []byte{0, 0, 0, byte(d.N(2))}, Value: []byte{0, 0, 0, 0, 0, 1}}}
			return c
		case 3:
			c.Txn = true
		}
	}
	if c.Magic >= 1 {
		c.LogAppend = d.P(1, 8)
	}
	c.Recs = genLogRecs(d, c.Magic, maxRecs)
	return c
}

// appendChunk stores the chunk at the end of the partition log and returns its visible records.
// The cluster must be locked (or not yet in use).
func appendChunk(pt *kafka.Part, c logChunk) []wire.Rec {
	base := pt.Next + int64(c.Gap)
	off := base
	if c.Magic == 2 {
		off += int64(c.HeadGap)
	}
	var recs []wire.Rec
	for _, r := range c.Recs {
		off += int64(r.Hole)
		x := wire.Rec{Offset: off, TS: c.TS + r.TSD, Key: r.Key, Value: r.Value}
		if c.Magic == 2 {
			x.Headers = r.Headers
		}
		recs = append(recs, x)
		off++
	}
	for i := range c.Many {
		recs = append(recs, wire.Rec{Offset: off, TS: c.TS, Value: []byte{byte(i), byte(i >> 8)}})
		off++
	}
	codec := c.Codec
	ch := kafka.Chunk{First: base, Last: off - 1, Magic: c.Magic}
	vis := append([]wire.Rec(nil), recs...)
	switch {
	case c.Magic == 2:
		ch.Last += int64(c.TailGap)
		b := wire.Batch{BaseOffset: base, LeaderEpoch: pt.Epoch, Attributes: int16(codec), LastOffsetDelta: int32(ch.Last - base),
			BaseTS: c.TS, MaxTS: c.TS, ProducerID: -1, ProducerEpoch: -1, BaseSeq: -1, Recs: recs}
		for _, r := range recs {
			b.MaxTS = max(b.MaxTS, r.TS)
		}
		if c.LogAppend {
			b.Attributes |= 8
			b.MaxTS = c.TS + 777
			for i := range vis {
				vis[i].TS = b.MaxTS
			}
		}
		if c.Txn || c.Control {
			b.Attributes |= 16
			b.ProducerID, b.ProducerEpoch, b.BaseSeq = 4000, 1, 0
		}
		if c.Control {
			b.Attributes |= 32
			vis = nil
		}
		ch.Bytes = b.Encode(c.Framed)
	case codec == wire.None:
		attr := int8(0)
		if c.LogAppend {
			attr = 8
		}
		// each plain message is a chunk of its own, as a broker can start a fetch at any of them
		for i, r := range recs {
			first := r.Offset
			if i == 0 {
				first = base
			}
			pt.AppendRaw(kafka.Chunk{First: first, Last: r.Offset, Magic: c.Magic, Bytes: wire.EncodeMessageV01(c.Magic, r.Offset, r.TS, attr, r.Key, r.Value), Recs: []wire.Rec{r}})
		}
		return vis
	default:
		attr := int8(codec)
		var inner []byte
		wts := recs[len(recs)-1].TS
		for _, r := range recs {
			o := r.Offset
			if c.Magic == 1 {
				o -= recs[0].Offset
			}
			inner = append(inner, wire.EncodeMessageV01(c.Magic, o, r.TS, 0, r.Key, r.Value)...)
			wts = max(wts, r.TS)
		}
		if c.LogAppend {
			attr |= 8
			wts = c.TS + 777
			for i := range vis {
				vis[i].TS = wts
			}
		}
		ch.Bytes = wire.EncodeMessageV01(c.Magic, ch.Last, wts, attr, nil, wire.Compress(codec, inner, c.Framed))
	}
	ch.Recs = vis
	pt.AppendRaw(ch)
	return vis
}

// recordDiff compares a delivered message with a stored record; "" if equal.
// fetchV is the fetch version in use, magic the stored format.
func recordDiff(m *healer.FullMessage, topic string, part int32, want wire.Rec, magic, fetchV int) string {
	if m.Error != nil {
		return fmt.Sprintf("message with error %v", m.Error)
	}
	if m.Message == nil {
		return "nil message"
	}
	g := m.Message
	var bad []string
	add := func(f string, a ...any) { bad = append(bad, fmt.Sprintf(f, a...)) }
	if m.TopicName != topic || m.PartitionID != part {
		add("from %s-%d, want %s-%d", m.TopicName, m.PartitionID, topic, part)
	}
	if g.Offset != want.Offset {
		add("offset %d, want %d", g.Offset, want.Offset)
	}
	if !sameBytes(g.Key, want.Key) {
		add("key %s, want %s", q(g.Key), q(want.Key))
	}
	if !sameBytes(g.Value, want.Value) {
		add("value %s, want %s", q(g.Value), q(want.Value))
	}
	if magic > 0 && fetchV > 1 && int64(g.Timestamp) != want.TS {
		add("timestamp %d, want %d", int64(g.Timestamp), want.TS)
	}
	if magic == 2 && fetchV >= 4 {
		ok := len(g.Headers) == len(want.Headers)
		for i := 0; ok && i < len(g.Headers); i++ {
			ok = g.Headers[i].Key == want.Headers[i].K && bytes.Equal(g.Headers[i].Value, want.Headers[i].V) && (g.Headers[i].Value == nil) == (want.Headers[i].V == nil)
		}
		if !ok {
			add("headers %v, want %v", g.Headers, want.Headers)
		}
	}
	return strings.Join(bad, "; ")
}
