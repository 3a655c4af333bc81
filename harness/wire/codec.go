package wire

import (
	"encoding/binary"
	"fmt"
)

// Obj is a decoded message or struct. Values: bool, int64 (all integers), string, []byte, []any, Obj, nil (null).
type Obj map[string]any

func (o Obj) I(k string) int64 {
	v, _ := o[k].(int64)
	return v
}
func (o Obj) S(k string) string {
	v, _ := o[k].(string)
	return v
}
func (o Obj) B(k string) []byte {
	v, _ := o[k].([]byte)
	return v
}
func (o Obj) A(k string) []any {
	v, _ := o[k].([]any)
	return v
}
func (o Obj) Objs(k string) (r []Obj) {
	for _, x := range o.A(k) {
		r = append(r, x.(Obj))
	}
	return
}
func (o Obj) Bool(k string) bool {
	v, _ := o[k].(bool)
	return v
}

// List builds []any from objects.
func List(os ...Obj) []any {
	r := make([]any, len(os))
	for i, o := range os {
		r[i] = o
	}
	return r
}

type Writer struct {
	B    []byte
	flex bool
	// Tags, when set, supplies unknown tagged fields to append to each tagged section.
	Tags func() [][2]any // pairs of (uint64 tag, []byte)
	// Marks records the offsets of every length/count field for mutation.
	Marks []Mark
}

// Mark locates a length, count or error field in the encoded bytes.
type Mark struct {
	Kind string // "len", "count", "err", "int"
	Off  int
	Size int
	Path string
}

func (w *Writer) i8(v int64)  { w.B = append(w.B, byte(v)) }
func (w *Writer) i16(v int64) { w.B = binary.BigEndian.AppendUint16(w.B, uint16(v)) }
func (w *Writer) i32(v int64) { w.B = binary.BigEndian.AppendUint32(w.B, uint32(v)) }
func (w *Writer) i64(v int64) { w.B = binary.BigEndian.AppendUint64(w.B, uint64(v)) }
func (w *Writer) uv(v uint64) { w.B = binary.AppendUvarint(w.B, v) }
func (w *Writer) mark(kind string, off int, path string) {
	w.Marks = append(w.Marks, Mark{kind, off, len(w.B) - off, path})
}

func (w *Writer) count(n int, null bool, path string) {
	off := len(w.B)
	if w.flex {
		if null {
			w.uv(0)
		} else {
			w.uv(uint64(n) + 1)
		}
	} else if null {
		w.i32(-1)
	} else {
		w.i32(int64(n))
	}
	w.mark("count", off, path)
}

func (w *Writer) tags() {
	if !w.flex {
		return
	}
	var ts [][2]any
	if w.Tags != nil {
		ts = w.Tags()
	}
	off := len(w.B)
	w.uv(uint64(len(ts)))
	w.mark("count", off, "tags")
	for _, t := range ts {
		w.uv(t[0].(uint64))
		b := t[1].([]byte)
		w.uv(uint64(len(b)))
		w.B = append(w.B, b...)
	}
}

func (w *Writer) val(f *Field, v int, x any, path string) {
	off := len(w.B)
	switch f.Type {
	case "bool":
		if b, _ := x.(bool); b {
			w.i8(1)
		} else {
			w.i8(0)
		}
	case "int8":
		w.i8(num(x))
		w.mark("int", off, path)
	case "int16":
		w.i16(num(x))
		w.mark("int", off, path)
	case "int32":
		w.i32(num(x))
		w.mark("int", off, path)
	case "int64":
		w.i64(num(x))
		w.mark("int", off, path)
	case "string":
		s, ok := x.(string)
		if w.flex {
			if !ok {
				w.uv(0)
			} else {
				w.uv(uint64(len(s)) + 1)
			}
		} else if !ok {
			w.i16(-1)
		} else {
			w.i16(int64(len(s)))
		}
		w.mark("len", off, path)
		w.B = append(w.B, s...)
	case "bytes", "records":
		s, ok := x.([]byte)
		if w.flex {
			if !ok || s == nil {
				w.uv(0)
			} else {
				w.uv(uint64(len(s)) + 1)
			}
		} else if !ok || s == nil {
			w.i32(-1)
		} else {
			w.i32(int64(len(s)))
		}
		w.mark("len", off, path)
		w.B = append(w.B, s...)
	case "struct":
		w.fields(f.Sub, v, x.(Obj), path)
	}
}

func num(x any) int64 {
	switch t := x.(type) {
	case int64:
		return t
	case int:
		return int64(t)
	case int32:
		return int64(t)
	case int16:
		return int64(t)
	case nil:
		return 0
	}
	panic(fmt.Sprintf("wire: not a number: %T", x))
}

func (w *Writer) fields(fs []*Field, v int, o Obj, path string) {
	for _, f := range fs {
		if !f.In(v) {
			continue
		}
		x := o[f.Name]
		p := path + "/" + f.Name
		if f.Array {
			a, _ := x.([]any)
			if x == nil && f.NullableIn(v) {
				w.count(0, true, p)
				continue
			}
			w.count(len(a), false, p)
			for i, e := range a {
				w.val(f, v, e, fmt.Sprintf("%s[%d]", p, i))
			}
			continue
		}
		if x == nil && !f.NullableIn(v) {
			switch f.Type {
			case "string":
				x = ""
			case "bytes", "records":
				x = []byte{}
			}
		}
		w.val(f, v, x, p)
	}
	w.tags()
}

// EncodeResponse builds a full response frame (with the 4-byte length).
func EncodeResponse(api, v int, corr uint32, o Obj, tags func() [][2]any) []byte {
	b, _ := EncodeResponseMarks(api, v, corr, o, tags)
	return b
}

// EncodeResponseMarks also returns the positions of length, count and integer fields.
func EncodeResponseMarks(api, v int, corr uint32, o Obj, tags func() [][2]any) ([]byte, []Mark) {
	m := resps[api]
	if m == nil {
		panic(fmt.Sprint("no response schema for api ", api))
	}
	w := &Writer{Tags: tags}
	w.i32(0)
	w.i32(int64(corr))
	if RespFlexHeader(api, v) {
		w.flex = true
		w.tags()
	}
	w.flex = v >= m.Flex
	w.fields(m.Fields, v, o, "")
	binary.BigEndian.PutUint32(w.B, uint32(len(w.B)-4))
	return w.B, w.Marks
}

// EncodeRequest builds a full request frame.
func EncodeRequest(api, v int, corr uint32, client *string, o Obj) []byte {
	m := reqs[api]
	w := &Writer{}
	w.i32(0)
	w.i16(int64(api))
	w.i16(int64(v))
	w.i32(int64(corr))
	if client == nil {
		w.i16(-1)
	} else {
		w.i16(int64(len(*client)))
		w.B = append(w.B, *client...)
	}
	if v >= m.Flex {
		w.flex = true
		w.tags()
	}
	w.fields(m.Fields, v, o, "")
	binary.BigEndian.PutUint32(w.B, uint32(len(w.B)-4))
	return w.B
}

// Reader decodes strictly.
type Reader struct {
	B    []byte
	P    int
	Err  error
	flex bool
}

func (r *Reader) fail(f string, a ...any) {
	if r.Err == nil {
		r.Err = fmt.Errorf(f, a...)
	}
}
func (r *Reader) take(n int, what string) []byte {
	if r.Err != nil {
		return make([]byte, max(0, min(n, 16)))
	}
	if n < 0 || r.P+n > len(r.B) {
		r.fail("%s: need %d bytes at %d, have %d", what, n, r.P, len(r.B)-r.P)
		return make([]byte, max(0, min(n, 16)))
	}
	b := r.B[r.P : r.P+n]
	r.P += n
	return b
}
func (r *Reader) i8(w string) int64  { return int64(int8(r.take(1, w)[0])) }
func (r *Reader) i16(w string) int64 { return int64(int16(binary.BigEndian.Uint16(r.take(2, w)))) }
func (r *Reader) i32(w string) int64 { return int64(int32(binary.BigEndian.Uint32(r.take(4, w)))) }
func (r *Reader) i64(w string) int64 { return int64(binary.BigEndian.Uint64(r.take(8, w))) }
func (r *Reader) uv(w string) uint64 {
	if r.Err != nil {
		return 0
	}
	v, n := binary.Uvarint(r.B[r.P:])
	if n <= 0 {
		r.fail("%s: bad varint at %d", w, r.P)
		return 0
	}
	r.P += n
	return v
}
func (r *Reader) tags(path string) {
	if !r.flex {
		return
	}
	n := r.uv(path + "/tags")
	for i := uint64(0); i < n && r.Err == nil; i++ {
		r.uv(path + "/tag")
		l := r.uv(path + "/taglen")
		r.take(int(l), path+"/tagdata")
	}
}

func (r *Reader) val(f *Field, v int, path string) any {
	switch f.Type {
	case "bool":
		b := r.i8(path)
		if b != 0 && b != 1 {
			r.fail("%s: boolean byte %d", path, b)
		}
		return b == 1
	case "int8":
		return r.i8(path)
	case "int16":
		return r.i16(path)
	case "int32":
		return r.i32(path)
	case "int64":
		return r.i64(path)
	case "string":
		var n int64
		if r.flex {
			n = int64(r.uv(path)) - 1
		} else {
			n = r.i16(path)
		}
		if n < 0 {
			if n < -1 || !f.NullableIn(v) {
				r.fail("%s: null or negative length %d in a non-nullable string", path, n)
			}
			return nil
		}
		return string(r.take(int(n), path))
	case "bytes", "records":
		var n int64
		if r.flex {
			n = int64(r.uv(path)) - 1
		} else {
			n = r.i32(path)
		}
		if n < 0 {
			if n < -1 || !f.NullableIn(v) {
				r.fail("%s: null or negative length %d in non-nullable bytes", path, n)
			}
			return nil
		}
		return append([]byte{}, r.take(int(n), path)...)
	case "struct":
		return r.fields(f.Sub, v, path)
	}
	panic("type " + f.Type)
}

func (r *Reader) fields(fs []*Field, v int, path string) Obj {
	o := Obj{}
	for _, f := range fs {
		if !f.In(v) {
			continue
		}
		p := path + "/" + f.Name
		if f.Array {
			var n int64
			if r.flex {
				n = int64(r.uv(p)) - 1
			} else {
				n = r.i32(p)
			}
			if n < 0 {
				if n < -1 || !f.NullableIn(v) {
					r.fail("%s: null or negative count %d in a non-nullable array", p, n)
				}
				o[f.Name] = nil
				continue
			}
			if int(n) > len(r.B) {
				r.fail("%s: count %d larger than the message", p, n)
				n = 0
			}
			a := make([]any, 0, n)
			for i := int64(0); i < n && r.Err == nil; i++ {
				a = append(a, r.val(f, v, fmt.Sprintf("%s[%d]", p, i)))
			}
			o[f.Name] = a
			continue
		}
		o[f.Name] = r.val(f, v, p)
	}
	r.tags(path)
	return o
}

// Header of a request.
type Header struct {
	API, Version int
	Corr         uint32
	Client       *string
}

// DecodeRequest decodes a request frame without its 4-byte length prefix.
func DecodeRequest(b []byte) (h Header, o Obj, err error) {
	r := &Reader{B: b}
	h.API = int(r.i16("api_key"))
	h.Version = int(r.i16("api_version"))
	h.Corr = uint32(r.i32("correlation_id"))
	if r.Err != nil {
		return h, nil, r.Err
	}
	m := reqs[h.API]
	if m == nil {
		return h, nil, fmt.Errorf("unknown api key %d", h.API)
	}
	n := r.i16("client_id")
	if n >= 0 {
		s := string(r.take(int(n), "client_id"))
		h.Client = &s
	} else if n < -1 {
		r.fail("client_id length %d", n)
	}
	if h.Version >= m.Flex {
		r.flex = true
		r.tags("header")
	}
	o = r.fields(m.Fields, h.Version, "")
	if r.Err == nil && r.P != len(b) {
		r.fail("%d bytes left over after the request body", len(b)-r.P)
	}
	return h, o, r.Err
}

// DecodeResponse decodes a response frame without its length prefix (used in self-tests).
func DecodeResponse(api, v int, b []byte) (corr uint32, o Obj, err error) {
	r := &Reader{B: b}
	corr = uint32(r.i32("correlation_id"))
	m := resps[api]
	if RespFlexHeader(api, v) {
		r.flex = true
		r.tags("header")
	}
	r.flex = v >= m.Flex
	o = r.fields(m.Fields, v, "")
	if r.Err == nil && r.P != len(b) {
		r.fail("%d bytes left over", len(b)-r.P)
	}
	return corr, o, r.Err
}
