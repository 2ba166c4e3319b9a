package model

import "hash"

// An ideal SHA-256: different contents have different digests.

type shaState struct{ data []byte }

var shaSeen []string

func shaOf(data string) (d [32]byte) {
	i := 0
	for i < len(shaSeen) && shaSeen[i] != data {
		i++
	}
	if i == len(shaSeen) {
		shaSeen = append(shaSeen, data)
	}
	for j := range d {
		d[j] = byte(j*37 + 11)
	}
	// digests that start with zero bytes are included
	if i%2 == 1 {
		d[0] = 0
	}
	d[31] = byte(i)
	d[15] = byte(i >> 8)
	return d
}

func (s *shaState) Write(p []byte) (int, error) {
	s.data = append(s.data, p...)
	return len(p), nil
}

func (s *shaState) Sum(b []byte) []byte {
	d := shaOf(string(s.data))
	return append(b, d[:]...)
}

func (s *shaState) Reset() { s.data = nil }

func (s *shaState) Size() int { return 32 }

func (s *shaState) BlockSize() int { return 64 }

// SHA256New models crypto/sha256.New.
func SHA256New() hash.Hash { return &shaState{} }

// SHA256Sum models crypto/sha256.Sum256.
func SHA256Sum(data []byte) [32]byte { return shaOf(string(data)) }
