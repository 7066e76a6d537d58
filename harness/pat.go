package main

// payloads without the bytes that mean something on a command line
var plainText bool

// byte at position p of the payload of token t; token 0 is zeros
func pat(t, p int) byte {
	if t == 0 {
		return 0
	}
	x := uint32(t)*2654435761 + uint32(p)*40503 + uint32(p>>9)*977
	x ^= x >> 15
	x *= 2246822519
	x ^= x >> 13
	if plainText {
		switch byte(x) {
		case 0, '\n', '@', '-':
			return byte(x) + 0x51
		}
	}
	return byte(x)
}

func payload(t, from, to int) []byte {
	b := make([]byte, to-from)
	for p := range b {
		b[p] = pat(t, from+p)
	}
	return b
}

// for each elementary segment of data (which starts at the absolute position from):
// all tokens whose payload it is
func segsOf(data []byte, from int, cuts []int, maxTok int) [][]int {
	res := [][]int{}
	to := from + len(data)
	for k := 0; k < len(cuts); k++ {
		lo := cuts[k]
		hi := to
		if k+1 < len(cuts) {
			hi = cuts[k+1]
		}
		if lo < from {
			lo = from
		}
		if hi > to {
			hi = to
		}
		if lo >= hi {
			continue
		}
		set := []int{}
		for t := 0; t <= maxTok; t++ {
			same := true
			for p := lo; p < hi; p++ {
				if data[p-from] != pat(t, p) {
					same = false
					break
				}
			}
			if same {
				set = append(set, t)
			}
		}
		res = append(res, set)
	}
	return res
}
