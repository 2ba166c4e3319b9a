package model

import "github.com/axiomhq/hyperloglog"

// HLLInsert models (*hyperloglog.Sketch).Insert: the estimate of distinct values is not claimed.
func HLLInsert(s *hyperloglog.Sketch, b []byte) bool { return true }

// HLLEstimate models (*hyperloglog.Sketch).Estimate.
func HLLEstimate(s *hyperloglog.Sketch) uint64 { return 0 }

// SipSum models sip13.Sum64Str, which only matters once the top-k table is full.
func SipSum(k0, k1 uint64, s string) uint64 { return 0 }
