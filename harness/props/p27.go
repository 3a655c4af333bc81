package props

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/childe/healer"

	"verif/pbt"
	"verif/wire"
)

// P27: the exported encodings and names round-trip.

var p27Kinds = []string{"subscription", "assignment", "record", "batch", "messages", "compress", "tags", "names", "garbage"}

type p27Case struct {
	Kind    string
	Ver     int
	Names   []string
	TPs     []wire.TopicParts
	Data    []byte // user data or payload
	Recs    []wire.Rec
	Codec   int
	Framed  bool
	Magic   int
	Tags    []healer.TaggedField
	Cut     int // where the prefix ends, in thousandths
	Skew    int // difference added to an inner length
	Tail    []byte
	Enum    int
	Name    string
	Attr    int16
	Target  string // garbage
	Flips   []p27Flip
	BaseOff int64
}

type p27Flip struct {
	At  int
	Val byte
	Xor bool
}

func p27Bytes(d *pbt.D) []byte {
	switch d.W(3, 2, 8, 2, 1) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return d.Bytes(12)
	case 3:
		return d.BytesN(d.Int(60, 300))
	}
	return bytes.Repeat(d.BytesN(d.Int(1, 9)), d.Int(1, 4000))
}

func p27Recs(d *pbt.D) (rs []wire.Rec) {
	off := int64(0)
	for n := d.Int(1, 5); n > 0; n-- {
		r := wire.Rec{Offset: off, TS: int64(pbt.Pick(d, d.Int(0, 1000), d.Int(-5, 5), d.Int(0, 1<<40))), Key: p27Bytes(d), Value: p27Bytes(d)}
		if d.P(1, 3) {
			for h := d.Int(0, 4); h > 0; h-- {
				r.Headers = append(r.Headers, wire.KV{K: d.Str(8), V: p27Bytes(d)})
			}
		}
		if d.P(1, 6) {
			r.Attr = int8(d.Int(-128, 127))
		}
		rs = append(rs, r)
		off++
		if d.P(1, 6) {
			off += int64(d.Int(1, 100000))
		}
	}
	return rs
}

func genP27(d *pbt.D) p27Case {
	c := p27Case{Kind: p27Kinds[d.W(3, 3, 4, 4, 4, 2, 2, 5, 6)]}
	kind := c.Kind
	if kind == "garbage" {
		c.Target = p27Kinds[d.W(2, 2, 3, 3, 3)]
		kind = c.Target
	}
	switch kind {
	case "subscription", "assignment":
		c.Ver = pbt.Pick(d, 0, 0, 1, 3, d.Int(0, 32767))
		for n := d.Skew(6); n > 0; n-- {
			s := d.Str(12)
			if d.P(1, 12) {
				s = strings.Repeat("x", d.Int(200, 400))
			} else if d.P(1, 60) {
				s = strings.Repeat("y", d.Int(32000, 32767))
			}
			if kind == "subscription" {
				c.Names = append(c.Names, s)
				continue
			}
			t := wire.TopicParts{Topic: s}
			for m := d.Skew(8); m > 0; m-- {
				t.Parts = append(t.Parts, int32(pbt.Pick(d, d.Int(0, 20), d.Int(0, 20), d.Int(-2, 1<<31-1))))
			}
			c.TPs = append(c.TPs, t)
		}
		c.Data = p27Bytes(d)
	case "record":
		c.Recs = p27Recs(d)[:1]
		c.Tail = d.Bytes(20)
		if d.P(1, 3) {
			c.Skew = pbt.Pick(d, d.Int(1, 6), -d.Int(1, 6))
		}
	case "batch":
		c.Recs = p27Recs(d)
		c.Codec = pbt.Pick(d, 0, 0, 1, 2, 3)
		c.Framed = d.Bool()
		c.Attr = int16(d.Int(0, 0xf)) << 3 // timestamp type, transactional, control, delete horizon
		c.BaseOff = int64(d.Int(0, 1<<40))
		c.Tail = d.Bytes(20)
	case "messages":
		c.Magic = d.Int(0, 1)
		c.Codec = pbt.Pick(d, 0, 0, 1, 2, 3)
		c.Framed = d.Bool()
		c.Recs = p27Recs(d)
		for i := range c.Recs {
			c.Recs[i].Headers, c.Recs[i].Attr = nil, 0
			if c.Magic == 0 {
				c.Recs[i].TS = 0
			}
		}
		if d.P(1, 4) {
			c.Skew = pbt.Pick(d, d.Int(1, 6), -d.Int(1, 6))
		}
	case "compress":
		c.Codec = d.Int(0, 3)
		c.Data = p27Bytes(d)
		if d.P(1, 8) {
			c.Data = bytes.Repeat(d.BytesN(d.Int(1, 40)), d.Int(1000, 6000))
		}
	case "tags":
		for n := d.Skew(6); n > 0; n-- {
			c.Tags = append(c.Tags, healer.TaggedField{Tag: pbt.Pick(d, d.Int(0, 5), d.Int(0, 300), d.Int(0, 1<<32-1)), Data: p27Bytes(d)})
		}
		if d.P(1, 20) {
			for n := d.Int(120, 300); n > 0; n-- {
				c.Tags = append(c.Tags, healer.TaggedField{Tag: n, Data: []byte{byte(n)}})
			}
		}
		c.Tail = d.Bytes(6)
	case "names":
		c.Enum = d.N(len(p27Enums))
		switch d.W(4, 1, 1, 2) {
		case 0: // a known name, any letter case
			c.Name = p27Case_(d, pbt.Pick(d, p27Enums[c.Enum].names()...))
		case 1:
			c.Name = fmt.Sprint(d.Int(-1, 20))
		case 2: // a name of another enumeration
			c.Name = p27Case_(d, pbt.Pick(d, p27Enums[d.N(len(p27Enums))].names()...))
		case 3: // nearly a name
			s := p27Case_(d, pbt.Pick(d, p27Enums[c.Enum].names()...))
			switch d.N(5) {
			case 0:
				s = s[:d.N(len(s))]
			case 1:
				s += pbt.Pick(d, " ", "S", "_", "0", "\x00")
			case 2:
				s = " " + s
			case 3:
				s = strings.ReplaceAll(s, "_", pbt.Pick(d, "", "-", " "))
			case 4:
				s = d.Str(6)
			}
			c.Name = s
		}
	}
	c.Cut = d.Int(0, 999)
	if c.Kind == "garbage" {
		c.Flips = nil
		for n := d.Int(1, 3); n > 0; n-- {
			c.Flips = append(c.Flips, p27Flip{At: d.N(1 << 20), Val: pbt.Pick(d, byte(d.N(256)), 0xff, 0x80, 0x7f, 0), Xor: d.Bool()})
		}
		if d.P(1, 8) {
			c.Data = d.BytesN(d.Int(1, 80))
			c.Target = "raw " + c.Target
		}
	}
	return c
}

func p27Case_(d *pbt.D, s string) string {
	switch d.N(4) {
	case 0:
		return s
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	for i := range b {
		if d.Bool() && b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 'a' - 'A'
		}
	}
	return string(b)
}

type p27Enum struct {
	what  string
	codes map[string]int // canonical upper-case names
	alias map[string]int // names accepted but never printed
	num   bool           // a number is accepted too
	amb   map[string]bool
	parse func(string) (int, error)
	str   func(int) string
	text  func(int) (string, error)
	js    func(string) (int, string, error) // through encoding/json
}

func (e p27Enum) names() (r []string) {
	n := 0
	for _, c := range e.codes {
		n = max(n, c+1)
	}
	for c := 0; c < n; c++ {
		for s, k := range e.codes {
			if k == c {
				r = append(r, s)
			}
		}
	}
	for s := range e.alias {
		r = append(r, s)
	}
	return r
}

func p27Text[T ~int8, P interface {
	*T
	UnmarshalText([]byte) error
}](what string, codes, alias map[string]int, str func(T) string, text func(T) ([]byte, error), amb map[string]bool) p27Enum {
	return p27Enum{what: what, codes: codes, alias: alias, num: true, amb: amb,
		parse: func(s string) (int, error) {
			v := T(99)
			err := P(&v).UnmarshalText([]byte(s))
			if err != nil && v != 99 {
				return int(v), fmt.Errorf("value changed although: %w", err)
			}
			return int(v), err
		},
		str:  func(c int) string { return str(T(c)) },
		text: func(c int) (string, error) { b, err := text(T(c)); return string(b), err },
		js: func(s string) (int, string, error) {
			in, _ := json.Marshal(map[string]string{"X": s})
			v := struct{ X T }{}
			if err := json.Unmarshal(in, &v); err != nil {
				return 0, "", err
			}
			out, err := json.Marshal(v)
			if err != nil {
				return 0, "", err
			}
			back := map[string]string{}
			if err := json.Unmarshal(out, &back); err != nil {
				return 0, "", err
			}
			return int(v.X), back["X"], nil
		},
	}
}

var p27Enums = []p27Enum{
	p27Text[healer.AclsResourceType]("ACL resource type", map[string]int{"UNKNOWN": 0, "ANY": 1, "TOPIC": 2, "GROUP": 3, "BROKER": 4, "TRANSACTIONAL_ID": 5, "DELEGATION_TOKEN": 6, "USER": 7},
		map[string]int{"CLUSTER": 4}, healer.AclsResourceType.String, healer.AclsResourceType.MarshalText, map[string]bool{"4": true}),
	p27Text[healer.AclsPatternType]("ACL pattern type", map[string]int{"UNKNOWN": 0, "ANY": 1, "MATCH": 2, "LITERAL": 3, "PREFIXED": 4}, nil,
		healer.AclsPatternType.String, healer.AclsPatternType.MarshalText, nil),
	p27Text[healer.AclsOperation]("ACL operation", map[string]int{"UNKNOWN": 0, "ANY": 1, "ALL": 2, "READ": 3, "WRITE": 4, "CREATE": 5, "DELETE": 6, "ALTER": 7, "DESCRIBE": 8,
		"CLUSTER_ACTION": 9, "DESCRIBE_CONFIGS": 10, "ALTER_CONFIGS": 11, "IDEMPOTENT_WRITE": 12}, nil,
		healer.AclsOperation.String, healer.AclsOperation.MarshalText, nil),
	p27Text[healer.AclsPermissionType]("ACL permission type", map[string]int{"UNKNOWN": 0, "ANY": 1, "DENY": 2, "ALLOW": 3}, nil,
		healer.AclsPermissionType.String, healer.AclsPermissionType.MarshalText, nil),
	{what: "compression type", codes: map[string]int{"NONE": 0, "GZIP": 1, "SNAPPY": 2, "LZ4": 3},
		parse: func(s string) (int, error) { v, err := healer.ParseCompressType(s); return int(v), err },
		str:   func(c int) string { return strings.ToUpper(healer.CompressType(c).String()) }},
}

// p27Catch runs f and reports a panic as a failure.
func p27Catch(r *pbt.R, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			r.Fail("panic", "%s panicked: %v", what, e)
		}
	}()
	f()
}

func p27Sub(c p27Case) *healer.ProtocolMetadata {
	return &healer.ProtocolMetadata{Version: uint16(c.Ver), Subscription: c.Names, UserData: c.Data}
}

func p27Asg(c p27Case) *healer.MemberAssignment {
	m := &healer.MemberAssignment{Version: int16(c.Ver), UserData: c.Data}
	for _, t := range c.TPs {
		m.PartitionAssignments = append(m.PartitionAssignments, &healer.PartitionAssignment{Topic: t.Topic, Partitions: t.Parts})
	}
	return m
}

func p27SameSub(a, b *healer.ProtocolMetadata) string {
	if a.Version != b.Version {
		return fmt.Sprintf("version %d, want %d", b.Version, a.Version)
	}
	if len(a.Subscription) != len(b.Subscription) || len(a.Subscription) > 0 && !reflect.DeepEqual(a.Subscription, b.Subscription) {
		return fmt.Sprintf("topics %.200q, want %.200q", b.Subscription, a.Subscription)
	}
	if !bytes.Equal(a.UserData, b.UserData) {
		return fmt.Sprintf("user data %.200q, want %.200q", b.UserData, a.UserData)
	}
	return ""
}

func p27SameAsg(a, b *healer.MemberAssignment) string {
	if a.Version != b.Version {
		return fmt.Sprintf("version %d, want %d", b.Version, a.Version)
	}
	if len(a.PartitionAssignments) != len(b.PartitionAssignments) {
		return fmt.Sprintf("%d topics, want %d", len(b.PartitionAssignments), len(a.PartitionAssignments))
	}
	for i, x := range a.PartitionAssignments {
		y := b.PartitionAssignments[i]
		if x.Topic != y.Topic || len(x.Partitions) != len(y.Partitions) || len(x.Partitions) > 0 && !reflect.DeepEqual(x.Partitions, y.Partitions) {
			return fmt.Sprintf("topic %.100q %v, want %.100q %v", y.Topic, y.Partitions, x.Topic, x.Partitions)
		}
	}
	if !bytes.Equal(a.UserData, b.UserData) {
		return fmt.Sprintf("user data %.200q, want %.200q", b.UserData, a.UserData)
	}
	return ""
}

func p27Headers(a []healer.RecordHeader, b []wire.KV) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d headers, want %d", len(a), len(b))
	}
	for i := range a {
		if a[i].Key != b[i].K || !bytes.Equal(a[i].Value, b[i].V) || (a[i].Value == nil) != (b[i].V == nil) {
			return fmt.Sprintf("header %d is %.50q=%.100q (null %v), want %.50q=%.100q (null %v)", i, a[i].Key, a[i].Value, a[i].Value == nil, b[i].K, b[i].V, b[i].V == nil)
		}
	}
	return ""
}

// p27Enc is the encoding the garbage and prefix checks start from.
func p27Enc(c p27Case, kind string) []byte {
	switch kind {
	case "subscription":
		return p27Sub(c).Encode()
	case "assignment":
		return p27Asg(c).Encode()
	case "record":
		return wire.EncodeRecordV2(nil, c.Recs[0], c.Recs[0].Offset, c.Recs[0].TS)
	case "batch":
		return p27Batch(c).Encode(c.Framed)
	case "messages":
		return wire.EncodeSetV01(c.Magic, c.Codec, c.Recs, c.Framed)
	}
	return nil
}

func p27Batch(c p27Case) *wire.Batch {
	b := &wire.Batch{BaseOffset: c.BaseOff, LeaderEpoch: int32(c.Cut), Attributes: c.Attr | int16(c.Codec), BaseTS: c.Recs[0].TS, ProducerID: int64(c.Cut) - 1, ProducerEpoch: int16(c.Cut) - 1, BaseSeq: int32(c.Cut) - 1}
	for _, x := range c.Recs {
		x.Offset += c.BaseOff
		b.Recs = append(b.Recs, x)
		b.MaxTS = max(b.MaxTS, x.TS)
	}
	b.LastOffsetDelta = int32(c.Recs[len(c.Recs)-1].Offset)
	return b
}

// p27Decode decodes with healer and encodes again what came out.
func p27Decode(kind string, b []byte) (v any, again []byte, err error) {
	switch kind {
	case "subscription":
		p := healer.NewProtocolMetadata(b)
		if p == nil {
			return nil, nil, fmt.Errorf("nil")
		}
		return p, p.Encode(), nil
	case "assignment":
		m, err := healer.NewMemberAssignment(b)
		if err != nil {
			return nil, nil, err
		}
		return m, m.Encode(), nil
	case "record":
		x, n, err := healer.DecodeToRecord(b)
		if err != nil {
			return nil, nil, err
		}
		if n < 0 || n > len(b) {
			return nil, nil, fmt.Errorf("VIOLATION: DecodeToRecord says the record takes %d of %d bytes", n, len(b))
		}
		e, err := x.Encode(2)
		if err != nil {
			return nil, nil, fmt.Errorf("VIOLATION: a decoded record cannot be encoded: %w", err)
		}
		return x, e, nil
	case "batch":
		x, n, err := healer.DecodeToRecordBatch(b)
		if err != nil {
			return nil, nil, err
		}
		if n < 0 || n > len(b) {
			return nil, nil, fmt.Errorf("VIOLATION: DecodeToRecordBatch says the batch takes %d of %d bytes", n, len(b))
		}
		e, err := x.Encode(2)
		if err != nil {
			return nil, nil, fmt.Errorf("VIOLATION: a decoded batch cannot be encoded: %w", err)
		}
		x.BatchLength, x.CRC = 0, 0
		return x, e, nil
	case "messages":
		s, err := healer.DecodeToMessageSet(b)
		if err != nil {
			return nil, nil, err
		}
		out := make([]byte, s.Length())
		if n := s.Encode(out, 0); n != len(out) {
			return nil, nil, fmt.Errorf("VIOLATION: MessageSet.Length is %d, Encode wrote %d", len(out), n)
		}
		var ms []healer.Message
		for _, m := range s {
			x := *m
			x.Crc, x.MessageSize = 0, 0
			ms = append(ms, x)
		}
		return ms, out, nil
	}
	panic(kind)
}

func runP27(x any, r *pbt.R) {
	c := x.(p27Case)
	r.Class(c.Kind)
	switch c.Kind {
	case "subscription":
		p27Catch(r, "ProtocolMetadata", func() {
			in := p27Sub(c)
			b := in.Encode()
			if in.Length() != len(b) {
				r.Fail("length", "ProtocolMetadata.Length is %d, Encode gives %d bytes", in.Length(), len(b))
			}
			ver, topics, ud, err := wire.DecodeSubscription(b)
			if err != nil {
				r.Fail("encode", "the encoded subscription cannot be decoded: %v", err)
				return
			}
			if m := p27SameSub(in, &healer.ProtocolMetadata{Version: uint16(ver), Subscription: topics, UserData: ud}); m != "" {
				r.Fail("encode", "the encoded subscription holds %s", m)
			}
			out := healer.NewProtocolMetadata(b)
			if out == nil {
				r.Fail("decode", "NewProtocolMetadata refused the encoding of a subscription")
				return
			}
			if m := p27SameSub(in, out); m != "" {
				r.Fail("roundtrip", "NewProtocolMetadata gives %s", m)
			}
			if out := healer.NewProtocolMetadata(wire.EncodeSubscription(c.Ver, c.Names, c.Data, nil)); out == nil {
				r.Fail("decode", "NewProtocolMetadata refused a valid subscription")
			} else if m := p27SameSub(in, out); m != "" {
				r.Fail("decode", "NewProtocolMetadata gives %s", m)
			}
			cut := c.Cut * len(b) / 1000
			if healer.NewProtocolMetadata(b[:cut]) != nil {
				r.Fail("cut", "NewProtocolMetadata accepted %d of %d bytes of a subscription", cut, len(b))
			}
			if len(c.Names) > 0 {
				r.NonTrivial()
			}
		})
	case "assignment":
		p27Catch(r, "MemberAssignment", func() {
			in := p27Asg(c)
			b := in.Encode()
			if in.Length() != len(b) {
				r.Fail("length", "MemberAssignment.Length is %d, Encode gives %d bytes", in.Length(), len(b))
			}
			ver, tps, ud, err := wire.DecodeAssignment(b)
			if err != nil {
				r.Fail("encode", "the encoded assignment cannot be decoded: %v", err)
				return
			}
			if m := p27SameAsg(in, p27Asg(p27Case{Ver: ver, TPs: tps, Data: ud})); m != "" {
				r.Fail("encode", "the encoded assignment holds %s", m)
			}
			out, err := healer.NewMemberAssignment(b)
			if err != nil {
				r.Fail("decode", "NewMemberAssignment refused the encoding of an assignment: %v", err)
				return
			}
			if m := p27SameAsg(in, out); m != "" {
				r.Fail("roundtrip", "NewMemberAssignment gives %s", m)
			}
			if out, err := healer.NewMemberAssignment(wire.EncodeAssignment(c.Ver, c.TPs, c.Data)); err != nil {
				r.Fail("decode", "NewMemberAssignment refused a valid assignment: %v", err)
			} else if m := p27SameAsg(in, out); m != "" {
				r.Fail("decode", "NewMemberAssignment gives %s", m)
			}
			cut := c.Cut * len(b) / 1000
			if _, err := healer.NewMemberAssignment(b[:cut]); err == nil {
				r.Fail("cut", "NewMemberAssignment accepted %d of %d bytes of an assignment", cut, len(b))
			}
			if len(c.TPs) > 0 {
				r.NonTrivial()
			}
		})
	case "record":
		p27Catch(r, "Record", func() {
			rec := c.Recs[0]
			b := p27Enc(c, "record")
			in := append(append([]byte{}, b...), c.Tail...)
			rc, n, err := healer.DecodeToRecord(in)
			if err != nil {
				r.Fail("decode", "DecodeToRecord refused a valid record: %v", err)
				return
			}
			if n != len(b) {
				r.Fail("decode", "DecodeToRecord says the record takes %d bytes, it takes %d", n, len(b))
			}
			if m := p27Headers(rc.Headers, rec.Headers); m != "" {
				r.Fail("decode", "DecodeToRecord: %s", m)
			}
			again, err := rc.Encode(2)
			if err != nil {
				r.Fail("encode", "Record.Encode: %v", err)
				return
			}
			if !bytes.Equal(again, b) {
				r.Fail("roundtrip", "the record decoded from %.150x (key null %v, value null %v, %d headers) is encoded as %.150x", b, rec.Key == nil, rec.Value == nil, len(rec.Headers), again)
			}
			cut := c.Cut * len(b) / 1000
			if _, _, err := healer.DecodeToRecord(b[:cut]); err == nil {
				r.Fail("cut", "DecodeToRecord accepted %d of %d bytes of a record", cut, len(b))
			}
			if c.Skew != 0 { // the length of the record does not fit its fields
				l, k := binary.Varint(b)
				if l+int64(c.Skew) > 0 {
					bad := binary.AppendVarint(nil, l+int64(c.Skew))
					bad = append(append(bad, b[k:]...), bytes.Repeat([]byte{0}, 8)...)
					if _, _, err := healer.DecodeToRecord(bad); err == nil {
						r.Fail("skew", "DecodeToRecord accepted a record whose length says %d bytes while its fields take %d", l+int64(c.Skew), l)
					}
				}
			}
			if rec.Key != nil || rec.Value != nil || len(rec.Headers) > 0 {
				r.NonTrivial()
			}
		})
	case "batch":
		p27Catch(r, "RecordBatch", func() {
			wb := p27Batch(c)
			b := wb.Encode(c.Framed)
			in := append(append([]byte{}, b...), c.Tail...)
			x, n, err := healer.DecodeToRecordBatch(in)
			if err != nil {
				r.Fail("decode", "DecodeToRecordBatch refused a valid batch (codec %d): %v", c.Codec, err)
				return
			}
			if n != len(b) {
				r.Fail("decode", "DecodeToRecordBatch says the batch takes %d bytes, it takes %d", n, len(b))
			}
			if x.BaseOffset != wb.BaseOffset || x.BatchLength != int32(len(b)-12) || x.PartitionLeaderEpoch != wb.LeaderEpoch || x.Magic != 2 || x.CRC != binary.BigEndian.Uint32(b[17:]) || x.Attributes != wb.Attributes ||
				x.LastOffsetDelta != wb.LastOffsetDelta || x.BaseTimestamp != wb.BaseTS || x.MaxTimestamp != wb.MaxTS || x.ProducerID != wb.ProducerID || x.ProducerEpoch != wb.ProducerEpoch || x.BaseSequence != wb.BaseSeq {
				r.Fail("decode", "DecodeToRecordBatch gives %+v for %+v", x, *wb)
			}
			if len(x.Records) != len(wb.Recs) {
				r.Fail("decode", "DecodeToRecordBatch gives %d records of %d", len(x.Records), len(wb.Recs))
				return
			}
			for i := range x.Records {
				if m := p27Headers(x.Records[i].Headers, wb.Recs[i].Headers); m != "" {
					r.Fail("decode", "DecodeToRecordBatch: record %d: %s", i, m)
				}
			}
			x.CRC, x.BatchLength = 7, 7 // both are computed
			again, err := x.Encode(2)
			if err != nil {
				r.Fail("encode", "RecordBatch.Encode: %v", err)
				return
			}
			if c.Codec == 0 {
				if !bytes.Equal(again, b) {
					r.Fail("roundtrip", "the batch decoded from %.200x is encoded as %.200x", b, again)
				}
			} else {
				got, err := wire.ParseBatch(again)
				if err != nil {
					r.Fail("roundtrip", "the batch encoded again is malformed: %v", err)
					return
				}
				want, _ := wire.ParseBatch(b)
				if !reflect.DeepEqual(got, want) {
					r.Fail("roundtrip", "the batch encoded again holds %.300v, want %.300v", got, want)
				}
			}
			cut := c.Cut * len(b) / 1000
			if _, _, err := healer.DecodeToRecordBatch(b[:cut]); err == nil {
				r.Fail("cut", "DecodeToRecordBatch accepted %d of %d bytes of a batch", cut, len(b))
			}
			if len(c.Recs) > 1 || c.Codec > 0 {
				r.NonTrivial()
			}
		})
	case "messages":
		p27Catch(r, "MessageSet", func() {
			b := p27Enc(c, "messages")
			set, err := healer.DecodeToMessageSet(b)
			if err != nil {
				r.Fail("decode", "DecodeToMessageSet refused valid messages (magic %d codec %d): %v", c.Magic, c.Codec, err)
				return
			}
			if len(set) != len(c.Recs) {
				r.Fail("decode", "DecodeToMessageSet gives %d messages of %d", len(set), len(c.Recs))
				return
			}
			for i, m := range set {
				w := c.Recs[i]
				if m.Offset != w.Offset || int64(m.Timestamp) != w.TS || int(m.MagicByte) != c.Magic || m.Attributes != 0 || !bytes.Equal(m.Key, w.Key) || (m.Key == nil) != (w.Key == nil) || !bytes.Equal(m.Value, w.Value) || (m.Value == nil) != (w.Value == nil) {
					r.Fail("decode", "DecodeToMessageSet gives message %d as %+v, want %+v", i, *m, w)
					return
				}
			}
			if c.Codec == 0 {
				pad := 3
				out := make([]byte, pad+set.Length()+2)
				if set.Length() != len(b) {
					r.Fail("length", "MessageSet.Length is %d for %d bytes", set.Length(), len(b))
				}
				n := set.Encode(out, pad)
				if n != pad+len(b) {
					r.Fail("length", "MessageSet.Encode ends at %d, want %d", n, pad+len(b))
				}
				if !bytes.Equal(out[pad:pad+len(b)], b) {
					r.Fail("roundtrip", "the messages decoded from %.200x are encoded as %.200x", b, out[pad:pad+len(b)])
				}
				if !bytes.Equal(out[:pad], make([]byte, pad)) || !bytes.Equal(out[pad+len(b):], make([]byte, 2)) {
					r.Fail("length", "MessageSet.Encode wrote outside its place")
				}
			}
			cut := c.Cut * len(b) / 1000
			boundary := cut == 0
			if c.Codec == 0 {
				at := 0
				for i := range c.Recs {
					at += len(wire.EncodeSetV01(c.Magic, 0, c.Recs[i:i+1], false))
					boundary = boundary || cut == at
				}
			}
			if _, err := healer.DecodeToMessageSet(b[:cut]); err == nil && !boundary {
				r.Fail("cut", "DecodeToMessageSet accepted %d of %d bytes", cut, len(b))
			}
			if c.Skew != 0 {
				bad := append([]byte{}, b...)
				sz := int32(binary.BigEndian.Uint32(bad[8:])) + int32(c.Skew)
				binary.BigEndian.PutUint32(bad[8:], uint32(sz))
				if _, err := healer.DecodeToMessageSet(bad); err == nil {
					r.Fail("skew", "DecodeToMessageSet accepted a message whose size is said to be %d instead of %d bytes", sz, sz-int32(c.Skew))
				}
			}
			if len(c.Recs) > 1 || c.Codec > 0 {
				r.NonTrivial()
			}
		})
	case "compress":
		p27Catch(r, "Compressor", func() {
			name := []string{"none", "gzip", "snappy", "lz4"}[c.Codec]
			cp := healer.NewCompressor(name)
			if cp == nil {
				r.Fail("compress", "NewCompressor(%q) is nil", name)
				return
			}
			in := append([]byte{}, c.Data...)
			out, err := cp.Compress(in)
			if err != nil {
				r.Fail("compress", "%s: Compress: %v", name, err)
				return
			}
			if !bytes.Equal(in, c.Data) {
				r.Fail("compress", "%s: Compress changed its input", name)
			}
			back, err := wire.Decompress(c.Codec, out)
			if err != nil || !bytes.Equal(back, c.Data) {
				r.Fail("compress", "%s: %d bytes came back as %d (%v)", name, len(c.Data), len(back), err)
			}
			out2, err := cp.Compress(in) // a compressor can be used again
			if back2, err2 := wire.Decompress(c.Codec, out2); err != nil || err2 != nil || !bytes.Equal(back2, c.Data) {
				r.Fail("compress", "%s: the second time %d bytes came back as %d (%v %v)", name, len(c.Data), len(back2), err, err2)
			}
			if back, _ := wire.Decompress(c.Codec, out); !bytes.Equal(back, c.Data) {
				r.Fail("compress", "%s: the second Compress changed the first one's result", name)
			}
			if bad := name + "x"; healer.NewCompressor(bad) != nil {
				r.Fail("compress", "NewCompressor(%q) is not nil", bad)
			}
			if len(c.Data) > 0 {
				r.NonTrivial()
			}
		})
	case "tags":
		p27Catch(r, "TaggedFields", func() {
			in := healer.TaggedFields(c.Tags)
			b := in.Encode()
			w := binary.AppendUvarint(nil, uint64(len(in)))
			for _, t := range in {
				w = binary.AppendUvarint(w, uint64(t.Tag))
				w = binary.AppendUvarint(w, uint64(len(t.Data)))
				w = append(w, t.Data...)
			}
			if !bytes.Equal(b, w) {
				r.Fail("encode", "the tagged fields are encoded as %.200x, want %.200x", b, w)
			}
			buf := make([]byte, len(w)+64)
			if n := in.EncodeTo(buf); n != len(w) || !bytes.Equal(buf[:n], w) {
				r.Fail("encode", "EncodeTo wrote %d bytes %.200x, want %.200x", n, buf[:n], w)
			}
			out, n := healer.DecodeTaggedFields(append(append([]byte{}, b...), c.Tail...))
			if n != len(b) {
				r.Fail("decode", "DecodeTaggedFields says %d bytes, they are %d", n, len(b))
			}
			if len(out) != len(in) {
				r.Fail("decode", "DecodeTaggedFields gives %d fields of %d", len(out), len(in))
				return
			}
			for i := range out {
				if out[i].Tag != in[i].Tag || !bytes.Equal(out[i].Data, in[i].Data) {
					r.Fail("roundtrip", "tagged field %d came back as %d=%.100x, want %d=%.100x", i, out[i].Tag, out[i].Data, in[i].Tag, in[i].Data)
				}
			}
			if len(in) > 0 {
				r.NonTrivial()
			}
		})
	case "names":
		e := p27Enums[c.Enum]
		p27Catch(r, e.what, func() {
			got, err := e.parse(c.Name)
			up := strings.ToUpper(c.Name)
			want, ok := e.codes[up]
			if a, is := e.alias[up]; is {
				want, ok = a, true
			}
			if !ok && e.num {
				for _, k := range e.codes {
					if c.Name == fmt.Sprint(k) {
						if e.amb[c.Name] { // the code has two names
							r.Class("ambiguous number")
							return
						}
						want, ok = k, true
					}
				}
			}
			if plain := func(s string) string {
				return strings.NewReplacer("_", "", "-", "", " ", "").Replace(strings.ToUpper(s))
			}; !ok && c.Name != "" {
				for name, k := range e.codes {
					if plain(name) == plain(c.Name) { // another spelling: may be refused
						r.Class("other spelling")
						if err == nil && got != k {
							r.Fail("name", "%s %q gives code %d, want %d", e.what, c.Name, got, k)
						}
						return
					}
				}
			}
			switch {
			case ok && err != nil:
				r.Fail("name", "%s %q is refused: %v", e.what, c.Name, err)
			case ok && got != want:
				r.Fail("name", "%s %q gives code %d, want %d", e.what, c.Name, got, want)
			case !ok && err == nil:
				r.Fail("name", "%s %q is accepted as code %d", e.what, c.Name, got)
			case !ok && strings.HasPrefix(err.Error(), "value changed"):
				r.Fail("name", "%s %q is refused, but %v", e.what, c.Name, err)
			}
			if ok {
				canon := e.str(want)
				if e.codes[canon] != want || canon == "" {
					r.Fail("name", "%s code %d is printed as %q", e.what, want, canon)
				}
				if e.text != nil {
					if t, err := e.text(want); err != nil || t != canon {
						r.Fail("name", "%s code %d marshals to %q (%v), its name is %q", e.what, want, t, err, canon)
					}
				}
				if back, err := e.parse(canon); err != nil || back != want {
					r.Fail("roundtrip", "%s code %d is printed as %q, which is read as %d (%v)", e.what, want, canon, back, err)
				}
			}
			if e.js != nil {
				code, out, err := e.js(c.Name)
				if (err == nil) != ok {
					r.Fail("json", "%s %q in JSON: error %v", e.what, c.Name, err)
				} else if ok && (code != want || e.codes[out] != want) {
					r.Fail("json", "%s %q in JSON is read as %d and written as %q, want %d", e.what, c.Name, code, out, want)
				}
			}
			if ok {
				r.NonTrivial()
			}
			r.Class(e.what)
		})
	case "garbage":
		kind := strings.TrimPrefix(c.Target, "raw ")
		b := c.Data
		if kind == c.Target {
			b = p27Enc(c, kind)
		}
		b = append([]byte{}, b...)
		for _, f := range c.Flips {
			if len(b) > 0 {
				at := f.At % len(b)
				if at > 40 && f.At%3 > 0 { // the lengths are near the beginning
					at %= 40
				}
				if f.Xor {
					b[at] ^= f.Val
				} else {
					b[at] = f.Val
				}
			}
		}
		p27Catch(r, "decoding a malformed "+kind, func() {
			v, again, err := p27Decode(kind, b)
			if err != nil {
				if strings.HasPrefix(err.Error(), "VIOLATION") {
					r.Fail("garbage", "%v", err)
				}
				r.Class("refused")
				return
			}
			v2, again2, err := p27Decode(kind, again)
			if err != nil {
				r.Fail("garbage", "%s %.200x is accepted, but not what it is encoded as again, %.200x: %v", kind, b, again, err)
				return
			}
			if !p27Equal(v, v2) || !bytes.Equal(again, again2) {
				r.Fail("garbage", "%s %.200x is read as %+v; encoded again and read back it is %+v", kind, b, v, v2)
			}
			r.Class("accepted")
		})
		r.NonTrivial()
	}
}

// p27Equal compares decoded values; for user data and lists null and empty count as the same.
func p27Equal(a, b any) bool {
	switch x := a.(type) {
	case *healer.ProtocolMetadata:
		return p27SameSub(x, b.(*healer.ProtocolMetadata)) == ""
	case *healer.MemberAssignment:
		return p27SameAsg(x, b.(*healer.MemberAssignment)) == ""
	case healer.RecordBatch:
		return reflect.DeepEqual(a, b)
	}
	return reflect.DeepEqual(a, b)
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P27",
		Level: "exploration",
		Rule: "case = a generated subscription, assignment, record, record batch (all codecs), message set (formats 0 and 1, plain and compressed), payload to compress, set of tagged fields, enumeration name in any letter case or nearly a name, or malformed input made by changing bytes of a valid encoding; " +
			"oracle: independent encoders and decoders, round trip, refusal of every proper prefix and of lengths that do not fit, and for malformed input: no panic, and what is accepted survives a round trip; non-trivial = a value with at least one element, a known name, or malformed input",
		Quick: 300000, Deep: 6000000, Chunk: 2000,
		Gen:  func(d *pbt.D) any { return genP27(d) },
		Run:  runP27,
		Desc: func(x any) string { return fmt.Sprintf("%.3000s", fmt.Sprintf("%+v", x)) },
	})
}
