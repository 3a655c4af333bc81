package wire

import (
	"encoding/binary"
	"fmt"
)

// EncodeSubscription is the consumer protocol's subscription. userData nil is encoded as null.
func EncodeSubscription(version int, topics []string, userData []byte, trailing []byte) []byte {
	var b []byte
	b = binary.BigEndian.AppendUint16(b, uint16(version))
	b = binary.BigEndian.AppendUint32(b, uint32(len(topics)))
	for _, t := range topics {
		b = binary.BigEndian.AppendUint16(b, uint16(len(t)))
		b = append(b, t...)
	}
	if userData == nil {
		b = binary.BigEndian.AppendUint32(b, 0xffffffff)
	} else {
		b = binary.BigEndian.AppendUint32(b, uint32(len(userData)))
		b = append(b, userData...)
	}
	return append(b, trailing...)
}

// TopicParts is one topic of a member assignment.
type TopicParts struct {
	Topic string
	Parts []int32
}

// EncodeAssignment is the consumer protocol's assignment.
func EncodeAssignment(version int, tps []TopicParts, userData []byte) []byte {
	var b []byte
	b = binary.BigEndian.AppendUint16(b, uint16(version))
	b = binary.BigEndian.AppendUint32(b, uint32(len(tps)))
	for _, t := range tps {
		b = binary.BigEndian.AppendUint16(b, uint16(len(t.Topic)))
		b = append(b, t.Topic...)
		b = binary.BigEndian.AppendUint32(b, uint32(len(t.Parts)))
		for _, p := range t.Parts {
			b = binary.BigEndian.AppendUint32(b, uint32(p))
		}
	}
	if userData == nil {
		return binary.BigEndian.AppendUint32(b, 0xffffffff)
	}
	b = binary.BigEndian.AppendUint32(b, uint32(len(userData)))
	return append(b, userData...)
}

type cursor struct {
	b   []byte
	bad error
}

func (c *cursor) take(n int) []byte {
	if c.bad != nil {
		return nil
	}
	if n < 0 || n > len(c.b) {
		c.bad = fmt.Errorf("%d bytes wanted, %d left", n, len(c.b))
		return nil
	}
	x := c.b[:n]
	c.b = c.b[n:]
	return x
}

func (c *cursor) i16() int {
	if x := c.take(2); x != nil {
		return int(int16(binary.BigEndian.Uint16(x)))
	}
	return 0
}

func (c *cursor) i32() int {
	if x := c.take(4); x != nil {
		return int(int32(binary.BigEndian.Uint32(x)))
	}
	return 0
}

// DecodeAssignment decodes strictly: no byte may be left over.
func DecodeAssignment(b []byte) (version int, tps []TopicParts, userData []byte, err error) {
	c := &cursor{b: b}
	version = c.i16()
	for n := c.count(); n > 0 && c.bad == nil; n-- {
		t := TopicParts{Topic: string(c.take(c.i16()))}
		for m := c.count(); m > 0 && c.bad == nil; m-- {
			t.Parts = append(t.Parts, int32(c.i32()))
		}
		tps = append(tps, t)
	}
	if n := c.count(); n >= 0 {
		userData = append([]byte{}, c.take(n)...)
	}
	if c.bad == nil && len(c.b) > 0 {
		c.bad = fmt.Errorf("%d bytes left over", len(c.b))
	}
	return version, tps, userData, c.bad
}

// count reads a length; -1 is null and every other negative value malformed.
func (c *cursor) count() int {
	n := c.i32()
	if n < -1 && c.bad == nil {
		c.bad = fmt.Errorf("length %d", n)
	}
	return n
}

// DecodeSubscription decodes the version-0 part strictly for version 0.
func DecodeSubscription(b []byte) (version int, topics []string, userData []byte, err error) {
	c := &cursor{b: b}
	version = c.i16()
	for n := c.count(); n > 0 && c.bad == nil; n-- {
		topics = append(topics, string(c.take(c.i16())))
	}
	if n := c.count(); n >= 0 {
		userData = append([]byte{}, c.take(n)...)
	}
	if c.bad == nil && version == 0 && len(c.b) > 0 {
		c.bad = fmt.Errorf("%d bytes left over", len(c.b))
	}
	return version, topics, userData, c.bad
}
