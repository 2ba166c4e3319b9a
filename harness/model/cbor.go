package model

import (
	"fmt"
	"io"
	"math"

	"github.com/ugorji/go/codec"
	"verifh/v"
)

type cborEnc struct {
	w io.Writer
	h *codec.CborHandle
}

var cborEncoders = map[*codec.Encoder]cborEnc{}

// CBORNewEncoder models codec.NewEncoder for a CBOR handle.
func CBORNewEncoder(w io.Writer, h codec.Handle) *codec.Encoder {
	e := new(codec.Encoder)
	ch, ok := h.(*codec.CborHandle)
	if !ok {
		v.Unsupported("codec handle")
	}
	cborEncoders[e] = cborEnc{w, ch}
	return e
}

// CBOREncode models (*codec.Encoder).Encode: the encoding is written in blocks of the encoder's buffer size.
func CBOREncode(e *codec.Encoder, x interface{}) error {
	ce := cborEncoders[e]
	b, err := CBORBytes(nil, x, ce.h)
	if err != nil {
		return err
	}
	size := ce.h.WriterBufferSize
	if size <= 0 {
		size = 1 << 10
	}
	for len(b) > size {
		n, err := ce.w.Write(b[:size])
		if err == nil && n < size {
			err = io.ErrShortWrite
		}
		if err != nil {
			return err
		}
		b = b[size:]
	}
	if len(b) > 0 {
		n, err := ce.w.Write(b)
		if err == nil && n < len(b) {
			err = io.ErrShortWrite
		}
		return err
	}
	return nil
}

func cborHead(b []byte, major byte, n uint64) []byte {
	switch {
	case n < 24:
		return append(b, major|byte(n))
	case n <= math.MaxUint8:
		return append(b, major|24, byte(n))
	case n <= math.MaxUint16:
		return append(b, major|25, byte(n>>8), byte(n))
	case n <= math.MaxUint32:
		return append(b, major|26, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	return append(b, major|27, byte(n>>56), byte(n>>48), byte(n>>40), byte(n>>32), byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
}

func cborInt(b []byte, n int64) []byte {
	if n < 0 {
		return cborHead(b, 0x20, uint64(-1-n))
	}
	return cborHead(b, 0, uint64(n))
}

// CBORBytes appends the encoding of x.
func CBORBytes(b []byte, x interface{}, h *codec.CborHandle) (_ []byte, err error) {
	if h.IndefiniteLength || h.StringToRaw {
		v.Unsupported("codec options")
	}
	switch t := x.(type) {
	case nil:
		return append(b, 0xf6), nil
	case bool:
		if t {
			return append(b, 0xf5), nil
		}
		return append(b, 0xf4), nil
	case string:
		return append(cborHead(b, 0x60, uint64(len(t))), t...), nil
	case []byte:
		if t == nil {
			return append(b, 0xf6), nil
		}
		return append(cborHead(b, 0x40, uint64(len(t))), t...), nil
	case int:
		return cborInt(b, int64(t)), nil
	case int64:
		return cborInt(b, t), nil
	case int32:
		return cborInt(b, int64(t)), nil
	case uint64:
		return cborHead(b, 0, t), nil
	case uint8:
		return cborHead(b, 0, uint64(t)), nil
	case float64:
		n := math.Float64bits(t)
		return append(b, 0xfb, byte(n>>56), byte(n>>48), byte(n>>40), byte(n>>32), byte(n>>24), byte(n>>16), byte(n>>8), byte(n)), nil
	case float32:
		n := math.Float32bits(t)
		return append(b, 0xfa, byte(n>>24), byte(n>>16), byte(n>>8), byte(n)), nil
	case []interface{}:
		if t == nil {
			return append(b, 0xf6), nil
		}
		b = cborHead(b, 0x80, uint64(len(t)))
		for _, y := range t {
			if b, err = CBORBytes(b, y, h); err != nil {
				return nil, err
			}
		}
		return b, nil
	case map[string]interface{}:
		if t == nil {
			return append(b, 0xf6), nil
		}
		b = cborHead(b, 0xa0, uint64(len(t)))
		var keys []string
		for k := range t {
			keys = append(keys, k)
		}
		if h.Canonical {
			SortStrings(keys)
		}
		for _, k := range keys {
			b = append(cborHead(b, 0x60, uint64(len(k))), k...)
			if b, err = CBORBytes(b, t[k], h); err != nil {
				return nil, err
			}
		}
		return b, nil
	}
	v.Unsupported(fmt.Sprintf("encoding %T", x))
	return nil, nil
}
