package main

import "math"

// The traces name lump ids by small integers whose order is the order of the ids:
// 0..39 are the ids 0..39, 40..53 are pairs (v, v+1) around byte borders, 100..150 are
// the 51 biggest ids. 999 is the id behind a pair, 998 any other.
var pairs = []uint64{255, 65535, 1<<24 - 1, 1<<32 - 1, 1<<40 - 1, 1<<56 - 1, 1<<63 - 1}

func idOf(code int) uint64 {
	switch {
	case code < 40:
		return uint64(code)
	case code < 40+2*len(pairs):
		return pairs[(code-40)/2] + uint64((code-40)%2)
	default:
		return math.MaxUint64 - uint64(150-code)
	}
}

func codeOf(id uint64) int {
	if id < 40 {
		return int(id)
	}
	if id >= math.MaxUint64-50 {
		return 150 - int(math.MaxUint64-id)
	}
	for k, v := range pairs {
		if id == v || id == v+1 {
			return 40 + 2*k + int(id-v)
		}
		if id == v+2 {
			return 999
		}
	}
	return 998
}
