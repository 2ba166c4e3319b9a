package model

import "sync"

var onceDone = map[*sync.Once]bool{}

// OnceDo models (*sync.Once).Do.
func OnceDo(o *sync.Once, f func()) {
	if onceDone[o] {
		return
	}
	onceDone[o] = true
	f()
}

// PoolGet models (*sync.Pool).Get: always a new object.
func PoolGet(p *sync.Pool) interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}

// PoolPut models (*sync.Pool).Put.
func PoolPut(p *sync.Pool, x interface{}) {}
