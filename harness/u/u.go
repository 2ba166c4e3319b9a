// Package u holds stream stand-ins shared by harnesses.
package u

import (
	"errors"
	"io"

	"verifh/v"
)

// ErrSource is the stream error injected by harness readers and writers.
var ErrSource = errors.New("injected stream error")

// Src is an io.Reader over fixed content with explicit split points: a Read never crosses
// a split, so the caller controls the sizes in which the stream delivers its bytes.
type Src struct {
	Data  []byte
	Split []int // ascending offsets
	Err   error // returned at the end instead of io.EOF
	ErrOK bool  // deliver the end error together with the last bytes
	Reads int
	pos   int
}

// Read implements io.Reader.
func (s *Src) Read(p []byte) (int, error) {
	s.Reads++
	end := s.Err
	if end == nil {
		end = io.EOF
	}
	if s.pos >= len(s.Data) {
		return 0, end
	}
	if len(p) == 0 {
		return 0, nil
	}
	lim := len(s.Data)
	for _, x := range s.Split {
		if x > s.pos {
			if x < lim {
				lim = x
			}
			break
		}
	}
	n := lim - s.pos
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.Data[s.pos:s.pos+n])
	s.pos += n
	if s.ErrOK && s.pos == len(s.Data) {
		return n, end
	}
	return n, nil
}

// Chunked returns a reader over data with k arbitrary split points (chosen per path).
func Chunked(data []byte, k int) *Src {
	s := &Src{Data: data}
	last := 0
	for i := 0; i < k; i++ {
		rem := len(data) - last
		if rem <= 1 {
			break
		}
		c := v.Pick(rem)
		if c == 0 {
			break
		}
		last += c
		s.Split = append(s.Split, last)
	}
	return s
}

// OneByte returns a reader that delivers one byte per read.
func OneByte(data []byte) *Src {
	s := &Src{Data: data}
	for i := 1; i < len(data); i++ {
		s.Split = append(s.Split, i)
	}
	return s
}

// Sink is an io.Writer that fails from the FailAt-th Write call on (0: never).
type Sink struct {
	B      []byte
	FailAt int
	Short  bool
	Calls  int
	Failed bool
}

// Write implements io.Writer.
func (s *Sink) Write(p []byte) (int, error) {
	s.Calls++
	if s.FailAt > 0 && s.Calls >= s.FailAt {
		s.Failed = true
		return 0, ErrSource
	}
	s.B = append(s.B, p...)
	return len(p), nil
}

// EqBytes compares without forking per byte.
func EqBytes(a, b []byte) bool { return EqStr(string(a), string(b)) }

// EqStr compares without forking per byte.
func EqStr(a, b string) bool { return a == b }
