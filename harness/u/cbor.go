package u

import (
	"math"

	"verifh/model"
)

// RefCBOR decodes one CBOR array or map (RFC 7049) into its entries; ok is false for
// anything malformed or outside the claim (map keys that are not definite length text).
func RefCBOR(b []byte) (ents []model.Entry, obj, ok bool) {
	d := &cborDec{b: b}
	if len(b) == 0 {
		return nil, false, false
	}
	h := b[0]
	d.i = 1
	major := h >> 5
	if major != 4 && major != 5 {
		return nil, false, false
	}
	obj = major == 5
	if h&31 == 31 {
		for {
			if d.i >= len(b) {
				return nil, obj, false
			}
			if b[d.i] == 0xff {
				d.i++
				break
			}
			e, ok := d.entry(obj)
			if !ok {
				return nil, obj, false
			}
			ents = append(ents, e)
		}
	} else {
		n, ok := d.arg(h)
		if !ok {
			return nil, obj, false
		}
		for i := uint64(0); i < n; i++ {
			e, ok := d.entry(obj)
			if !ok {
				return nil, obj, false
			}
			ents = append(ents, e)
		}
	}
	return ents, obj, d.i == len(b)
}

type cborDec struct {
	b []byte
	i int
}

func (d *cborDec) entry(obj bool) (e model.Entry, ok bool) {
	if obj {
		if e.Key, ok = d.key(); !ok {
			return e, false
		}
	}
	e.Val, ok = d.val()
	return e, ok
}

func (d *cborDec) arg(h byte) (uint64, bool) {
	n := h & 31
	if n < 24 {
		return uint64(n), true
	}
	if n > 27 {
		return 0, false
	}
	w := 1 << (n - 24)
	if d.i+w > len(d.b) {
		return 0, false
	}
	var x uint64
	for j := 0; j < w; j++ {
		x = x<<8 | uint64(d.b[d.i+j])
	}
	d.i += w
	return x, true
}

func (d *cborDec) text(h byte) (string, bool) {
	n, ok := d.arg(h)
	if !ok || n > uint64(len(d.b)-d.i) {
		return "", false
	}
	s := string(d.b[d.i : d.i+int(n)])
	d.i += int(n)
	return s, true
}

func (d *cborDec) key() (string, bool) {
	if d.i >= len(d.b) || d.b[d.i]>>5 != 3 || d.b[d.i]&31 == 31 {
		return "", false
	}
	d.i++
	return d.text(d.b[d.i-1])
}

func (d *cborDec) val() (interface{}, bool) {
	if d.i >= len(d.b) {
		return nil, false
	}
	h := d.b[d.i]
	d.i++
	switch h >> 5 {
	case 0:
		n, ok := d.arg(h)
		if n > math.MaxInt64 {
			return float64(n), ok
		}
		return int64(n), ok
	case 1:
		n, ok := d.arg(h)
		if n > math.MaxInt64 {
			return -float64(n) - 1, ok
		}
		return -1 - int64(n), ok
	case 2, 3:
		var s string
		if h&31 == 31 {
			for {
				if d.i >= len(d.b) {
					return nil, false
				}
				c := d.b[d.i]
				d.i++
				if c == 0xff {
					break
				}
				if c>>5 != h>>5 || c&31 == 31 {
					return nil, false
				}
				p, ok := d.text(c)
				if !ok {
					return nil, false
				}
				s += p
			}
		} else {
			p, ok := d.text(h)
			if !ok {
				return nil, false
			}
			s = p
		}
		if h>>5 == 2 {
			return []byte(s), true
		}
		return s, true
	case 4:
		out := []interface{}{}
		if h&31 == 31 {
			for {
				if d.i >= len(d.b) {
					return nil, false
				}
				if d.b[d.i] == 0xff {
					d.i++
					return out, true
				}
				x, ok := d.val()
				if !ok {
					return nil, false
				}
				out = append(out, x)
			}
		}
		n, ok := d.arg(h)
		if !ok {
			return nil, false
		}
		for i := uint64(0); i < n; i++ {
			x, ok := d.val()
			if !ok {
				return nil, false
			}
			out = append(out, x)
		}
		return out, true
	case 5:
		out := map[string]interface{}{}
		var n uint64
		indef := h&31 == 31
		if !indef {
			var ok bool
			if n, ok = d.arg(h); !ok {
				return nil, false
			}
		}
		for i := uint64(0); indef || i < n; i++ {
			if indef {
				if d.i >= len(d.b) {
					return nil, false
				}
				if d.b[d.i] == 0xff {
					d.i++
					break
				}
			}
			k, ok := d.key()
			if !ok {
				return nil, false
			}
			x, ok := d.val()
			if !ok {
				return nil, false
			}
			out[k] = x
		}
		return out, true
	case 6:
		if _, ok := d.arg(h); !ok {
			return nil, false
		}
		return d.val()
	}
	switch h & 31 {
	case 20:
		return false, true
	case 21:
		return true, true
	case 25:
		n, ok := d.arg(h)
		return math.Float64frombits(half(n)), ok
	case 26:
		n, ok := d.arg(h)
		return float64(math.Float32frombits(uint32(n))), ok
	case 27:
		n, ok := d.arg(h)
		return math.Float64frombits(n), ok
	}
	_, ok := d.arg(h)
	return nil, ok
}

// half widens IEEE half precision bits to double precision bits.
func half(h uint64) uint64 {
	sign := h >> 15 << 63
	exp := h >> 10 & 31
	frac := h & 1023
	switch exp {
	case 31:
		return sign | 0x7ff<<52 | frac<<42
	case 0:
		if frac == 0 {
			return sign
		}
		e := uint64(1023 - 14)
		for frac&1024 == 0 {
			frac <<= 1
			e--
		}
		return sign | e<<52 | (frac&1023)<<42
	}
	return sign | (exp+1023-15)<<52 | frac<<42
}
