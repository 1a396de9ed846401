// Package mlsref is an independent implementation of RFC 9420 used as a test
// oracle. It shares no code with the implementation under test.
package mlsref

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// W is an append-only encoder.
type W struct {
	B []byte
	M *Mutator
}

// Mutator changes primitive fields while a structure is being encoded, so that
// enclosing length prefixes fit the changed content.
type Mutator struct {
	N int // fields seen
	// F gets the number of the field, its kind ('i' integer, 'v' content of a
	// vector, 'p' length prefix) and its encoding.
	F func(n int, kind byte, b []byte) []byte
}

func (w *W) emit(kind byte, b []byte) {
	if w.M != nil {
		n := w.M.N
		w.M.N++
		if w.M.F != nil {
			b = w.M.F(n, kind, b)
		}
	}
	w.B = append(w.B, b...)
}

func (w *W) U8(v uint8)   { w.emit('i', []byte{v}) }
func (w *W) U16(v uint16) { w.emit('i', binary.BigEndian.AppendUint16(nil, v)) }
func (w *W) U32(v uint32) { w.emit('i', binary.BigEndian.AppendUint32(nil, v)) }
func (w *W) U64(v uint64) { w.emit('i', binary.BigEndian.AppendUint64(nil, v)) }
func (w *W) Raw(b []byte) { w.B = append(w.B, b...) }

// BytesMut encodes a value through a mutator.
func BytesMut(v interface{ Enc(*W) }, m *Mutator) []byte {
	w := W{M: m}
	v.Enc(&w)
	return w.B
}

// AppendVarint appends the minimal MLS variable-length integer for n.
func AppendVarint(b []byte, n int) []byte {
	switch {
	case n < 64:
		return append(b, byte(n))
	case n < 16384:
		return append(b, 0x40|byte(n>>8), byte(n))
	case n < 1<<30:
		return append(b, 0x80|byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	panic("mlsref: varint too large")
}

func (w *W) Vec(b []byte) {
	if w.M != nil {
		var c W
		c.M = w.M
		c.emit('v', b)
		b = c.B
		w.emit('p', AppendVarint(nil, len(b)))
	} else {
		w.B = AppendVarint(w.B, len(b))
	}
	w.B = append(w.B, b...)
}

// Sub encodes a vector whose content is written by f.
func (w *W) Sub(f func(w *W)) {
	c := W{M: w.M}
	f(&c)
	w.Vec(c.B)
}

func (w *W) Opt(present bool) {
	if present {
		w.U8(1)
	} else {
		w.U8(0)
	}
}

func (w *W) U16s(vs []uint16) {
	w.Sub(func(w *W) {
		for _, v := range vs {
			w.U16(v)
		}
	})
}

var errShort = errors.New("mlsref: unexpected end of input")

// R is a strict decoder with a sticky error.
type R struct {
	B   []byte
	Err error
}

func (r *R) fail(err error) {
	if r.Err == nil {
		r.Err = err
	}
	r.B = nil
}

func (r *R) take(n int) []byte {
	if r.Err != nil || n > len(r.B) {
		r.fail(errShort)
		return make([]byte, min(n, 8))
	}
	b := r.B[:n:n]
	r.B = r.B[n:]
	return b
}

func (r *R) U8() uint8   { return r.take(1)[0] }
func (r *R) U16() uint16 { return binary.BigEndian.Uint16(r.take(2)) }
func (r *R) U32() uint32 { return binary.BigEndian.Uint32(r.take(4)) }
func (r *R) U64() uint64 { return binary.BigEndian.Uint64(r.take(8)) }

func (r *R) Varint() int {
	first := r.U8()
	if r.Err != nil {
		return 0
	}
	v := int(first & 0x3f)
	switch first >> 6 {
	case 0:
		return v
	case 1:
		v = v<<8 | int(r.U8())
		if r.Err == nil && v < 64 {
			r.fail(errors.New("mlsref: non-minimal varint"))
		}
	case 2:
		v = v<<8 | int(r.U8())
		v = v<<8 | int(r.U8())
		v = v<<8 | int(r.U8())
		if r.Err == nil && v < 16384 {
			r.fail(errors.New("mlsref: non-minimal varint"))
		}
	case 3:
		r.fail(errors.New("mlsref: invalid varint prefix"))
	}
	if r.Err != nil {
		return 0
	}
	return v
}

func (r *R) Vec() []byte {
	n := r.Varint()
	if r.Err != nil {
		return nil
	}
	if n > len(r.B) {
		r.fail(errShort)
		return nil
	}
	return append([]byte{}, r.take(n)...)
}

func (r *R) Sub(f func(r *R)) {
	n := r.Varint()
	if r.Err != nil {
		return
	}
	if n > len(r.B) {
		r.fail(errShort)
		return
	}
	c := R{B: r.take(n)}
	for len(c.B) > 0 && c.Err == nil {
		f(&c)
	}
	if c.Err != nil {
		r.fail(c.Err)
	}
}

func (r *R) Opt() bool {
	switch r.U8() {
	case 0:
		return false
	case 1:
		return r.Err == nil
	}
	r.fail(errors.New("mlsref: invalid optional"))
	return false
}

func (r *R) U16s() []uint16 {
	var out []uint16
	r.Sub(func(r *R) { out = append(out, r.U16()) })
	return out
}

// Done checks that the input was consumed entirely.
func (r *R) Done() error {
	if r.Err == nil && len(r.B) != 0 {
		r.Err = fmt.Errorf("mlsref: %d excess bytes", len(r.B))
	}
	return r.Err
}
