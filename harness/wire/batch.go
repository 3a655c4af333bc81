package wire

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"

	"github.com/golang/snappy"
	"github.com/pierrec/lz4/v4"
)

// KV is a record header.
type KV struct {
	K string
	V []byte // nil: null
}

// Rec is one record of a partition log. Key/Value nil means null.
type Rec struct {
	Offset  int64
	TS      int64
	Key     []byte
	Value   []byte
	Headers []KV
	Attr    int8
}

const (
	None   = 0
	Gzip   = 1
	Snappy = 2
	Lz4    = 3
	Zstd   = 4
)

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// Batch is a decoded or to-be-encoded v2 record batch.
type Batch struct {
	BaseOffset      int64
	LeaderEpoch     int32
	Attributes      int16
	LastOffsetDelta int32
	BaseTS, MaxTS   int64
	ProducerID      int64
	ProducerEpoch   int16
	BaseSeq         int32
	Recs            []Rec
}

func zig(b []byte, v int64) []byte { return binary.AppendVarint(b, v) }

// Compress with a codec. snappyFramed selects the xerial framing (as the Java client writes).
func Compress(codec int, b []byte, snappyFramed bool) []byte {
	switch codec {
	case None:
		return b
	case Gzip:
		var w bytes.Buffer
		g := gzip.NewWriter(&w)
		g.Write(b)
		g.Close()
		return w.Bytes()
	case Snappy:
		if !snappyFramed {
			return snappy.Encode(nil, b)
		}
		out := []byte{0x82, 'S', 'N', 'A', 'P', 'P', 'Y', 0, 0, 0, 0, 1, 0, 0, 0, 1}
		for first := true; first || len(b) > 0; first = false {
			n := min(len(b), 32*1024)
			c := snappy.Encode(nil, b[:n])
			out = binary.BigEndian.AppendUint32(out, uint32(len(c)))
			out = append(out, c...)
			b = b[n:]
		}
		return out
	case Lz4:
		var w bytes.Buffer
		l := lz4.NewWriter(&w)
		l.Write(b)
		l.Close()
		return w.Bytes()
	}
	panic("codec")
}

// Decompress strictly.
func Decompress(codec int, b []byte) ([]byte, error) {
	switch codec {
	case None:
		return b, nil
	case Gzip:
		g, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(g)
	case Snappy:
		if bytes.HasPrefix(b, []byte{0x82, 'S', 'N', 'A', 'P', 'P', 'Y', 0}) {
			var out []byte
			p := 16
			for p < len(b) {
				if p+4 > len(b) {
					return nil, fmt.Errorf("snappy: truncated frame")
				}
				n := int(binary.BigEndian.Uint32(b[p:]))
				p += 4
				if p+n > len(b) {
					return nil, fmt.Errorf("snappy: truncated frame")
				}
				d, err := snappy.Decode(nil, b[p:p+n])
				if err != nil {
					return nil, err
				}
				out = append(out, d...)
				p += n
			}
			return out, nil
		}
		return snappy.Decode(nil, b)
	case Lz4:
		return io.ReadAll(lz4.NewReader(bytes.NewReader(b)))
	}
	return nil, fmt.Errorf("unknown codec %d", codec)
}

// EncodeRecordV2 appends one record.
func EncodeRecordV2(out []byte, r Rec, offDelta int64, tsDelta int64) []byte {
	var b []byte
	b = append(b, byte(r.Attr))
	b = zig(b, tsDelta)
	b = zig(b, offDelta)
	if r.Key == nil {
		b = zig(b, -1)
	} else {
		b = zig(b, int64(len(r.Key)))
		b = append(b, r.Key...)
	}
	if r.Value == nil {
		b = zig(b, -1)
	} else {
		b = zig(b, int64(len(r.Value)))
		b = append(b, r.Value...)
	}
	b = zig(b, int64(len(r.Headers)))
	for _, h := range r.Headers {
		b = zig(b, int64(len(h.K)))
		b = append(b, h.K...)
		if h.V == nil {
			b = zig(b, -1)
		} else {
			b = zig(b, int64(len(h.V)))
			b = append(b, h.V...)
		}
	}
	out = zig(out, int64(len(b)))
	return append(out, b...)
}

// Encode builds the batch bytes. Offsets and timestamps of Recs are absolute.
func (x *Batch) Encode(framed bool) []byte {
	var recs []byte
	for _, r := range x.Recs {
		recs = EncodeRecordV2(recs, r, r.Offset-x.BaseOffset, r.TS-x.BaseTS)
	}
	recs = Compress(int(x.Attributes&7), recs, framed)
	var b []byte
	b = binary.BigEndian.AppendUint16(b, uint16(x.Attributes))
	b = binary.BigEndian.AppendUint32(b, uint32(x.LastOffsetDelta))
	b = binary.BigEndian.AppendUint64(b, uint64(x.BaseTS))
	b = binary.BigEndian.AppendUint64(b, uint64(x.MaxTS))
	b = binary.BigEndian.AppendUint64(b, uint64(x.ProducerID))
	b = binary.BigEndian.AppendUint16(b, uint16(x.ProducerEpoch))
	b = binary.BigEndian.AppendUint32(b, uint32(x.BaseSeq))
	b = binary.BigEndian.AppendUint32(b, uint32(len(x.Recs)))
	b = append(b, recs...)
	crc := crc32.Checksum(b, castagnoli)
	var o []byte
	o = binary.BigEndian.AppendUint64(o, uint64(x.BaseOffset))
	o = binary.BigEndian.AppendUint32(o, uint32(4+1+4+len(b)))
	o = binary.BigEndian.AppendUint32(o, uint32(x.LeaderEpoch))
	o = append(o, 2)
	o = binary.BigEndian.AppendUint32(o, crc)
	return append(o, b...)
}

// EncodeMessageV01 encodes one message of format 0 or 1 (with offset and size).
func EncodeMessageV01(magic int, offset int64, ts int64, attr int8, key, value []byte) []byte {
	var m []byte
	m = append(m, byte(magic), byte(attr))
	if magic == 1 {
		m = binary.BigEndian.AppendUint64(m, uint64(ts))
	}
	ap := func(x []byte) {
		if x == nil {
			m = binary.BigEndian.AppendUint32(m, 0xffffffff)
		} else {
			m = binary.BigEndian.AppendUint32(m, uint32(len(x)))
			m = append(m, x...)
		}
	}
	ap(key)
	ap(value)
	var o []byte
	o = binary.BigEndian.AppendUint64(o, uint64(offset))
	o = binary.BigEndian.AppendUint32(o, uint32(4+len(m)))
	o = binary.BigEndian.AppendUint32(o, crc32.ChecksumIEEE(m))
	return append(o, m...)
}

// EncodeSetV01 encodes records as messages of format 0/1; with a codec, as one wrapper message.
func EncodeSetV01(magic, codec int, recs []Rec, framed bool) []byte {
	if codec == None {
		var o []byte
		for _, r := range recs {
			o = append(o, EncodeMessageV01(magic, r.Offset, r.TS, 0, r.Key, r.Value)...)
		}
		return o
	}
	var inner []byte
	base := recs[0].Offset
	for _, r := range recs {
		off := r.Offset
		if magic == 1 { // relative offsets inside a format-1 wrapper
			off = r.Offset - base
		}
		inner = append(inner, EncodeMessageV01(magic, off, r.TS, 0, r.Key, r.Value)...)
	}
	last := recs[len(recs)-1]
	return EncodeMessageV01(magic, last.Offset, last.TS, int8(codec), nil, Compress(codec, inner, framed))
}

// ParseBatch strictly parses one v2 batch that must fill b completely.
func ParseBatch(b []byte) (x Batch, err error) {
	if len(b) < 61 {
		return x, fmt.Errorf("batch of %d bytes, shorter than its 61-byte header", len(b))
	}
	x.BaseOffset = int64(binary.BigEndian.Uint64(b))
	bl := int(int32(binary.BigEndian.Uint32(b[8:])))
	if bl != len(b)-12 {
		return x, fmt.Errorf("batch length field %d, but %d bytes follow it", bl, len(b)-12)
	}
	x.LeaderEpoch = int32(binary.BigEndian.Uint32(b[12:]))
	if b[16] != 2 {
		return x, fmt.Errorf("magic %d, want 2", b[16])
	}
	crc := binary.BigEndian.Uint32(b[17:])
	if c := crc32.Checksum(b[21:], castagnoli); c != crc {
		return x, fmt.Errorf("crc %08x, computed %08x", crc, c)
	}
	x.Attributes = int16(binary.BigEndian.Uint16(b[21:]))
	x.LastOffsetDelta = int32(binary.BigEndian.Uint32(b[23:]))
	x.BaseTS = int64(binary.BigEndian.Uint64(b[27:]))
	x.MaxTS = int64(binary.BigEndian.Uint64(b[35:]))
	x.ProducerID = int64(binary.BigEndian.Uint64(b[43:]))
	x.ProducerEpoch = int16(binary.BigEndian.Uint16(b[51:]))
	x.BaseSeq = int32(binary.BigEndian.Uint32(b[53:]))
	count := int(int32(binary.BigEndian.Uint32(b[57:])))
	recs, err := Decompress(int(x.Attributes&7), b[61:])
	if err != nil {
		return x, fmt.Errorf("decompress (codec %d): %w", x.Attributes&7, err)
	}
	p := 0
	vi := func(end int, what string) int64 {
		v, n := binary.Varint(recs[p:end])
		if n <= 0 {
			err = fmt.Errorf("%s: bad varint at byte %d of the records", what, p)
			return 0
		}
		p += n
		return v
	}
	for i := 0; i < count; i++ {
		l := vi(len(recs), "record length")
		if err != nil {
			return x, fmt.Errorf("record %d of %d: %w", i, count, err)
		}
		if l < 0 || p+int(l) > len(recs) {
			return x, fmt.Errorf("record %d of %d: length %d, only %d bytes left", i, count, l, len(recs)-p)
		}
		end := p + int(l)
		if l < 1 {
			return x, fmt.Errorf("record %d: empty", i)
		}
		var r Rec
		r.Attr = int8(recs[p])
		p++
		r.TS = x.BaseTS + vi(end, "timestamp delta")
		od := vi(end, "offset delta")
		r.Offset = od // delta; the caller rebases
		field := func(what string) []byte {
			n := vi(end, what)
			if err != nil {
				return nil
			}
			if n < 0 {
				if n != -1 {
					err = fmt.Errorf("%s length %d", what, n)
				}
				return nil
			}
			if p+int(n) > end {
				err = fmt.Errorf("%s length %d exceeds the record", what, n)
				return nil
			}
			f := append([]byte{}, recs[p:p+int(n)]...)
			p += int(n)
			return f
		}
		r.Key = field("key")
		if err == nil {
			r.Value = field("value")
		}
		if err == nil {
			nh := vi(end, "header count")
			for k := int64(0); k < nh && err == nil; k++ {
				hk := field("header key")
				hv := field("header value")
				r.Headers = append(r.Headers, KV{string(hk), hv})
			}
		}
		if err != nil {
			return x, fmt.Errorf("record %d of %d: %w", i, count, err)
		}
		if p != end {
			return x, fmt.Errorf("record %d of %d: length says %d bytes, fields use %d", i, count, l, int(l)-(end-p))
		}
		x.Recs = append(x.Recs, r)
	}
	if p != len(recs) {
		return x, fmt.Errorf("%d bytes left over after %d records", len(recs)-p, count)
	}
	return x, nil
}
