package main

import (
	"bytes"
	"hash/fnv"
	"math/rand/v2"
)

// Rand is the source of all random choices of a case.
type Rand struct {
	*rand.Rand
	large bool     // asks for large blocks and states
	crowd int      // asks for blocks full of transactions of this kind
	far   uint32   // asks for heights around this one
	huge  bool     // asks for a huge list of accounts
	focus []uint64 // constants of the code this case concentrates on

	contracts []contractCase // that scripts have in common

	seen20 [][20]byte
	seen32 [][32]byte
	seenU  []uint64
}

func newRand(seed uint64, parts ...interface{}) *Rand {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			_, _ = h.Write([]byte(v))
		case int:
			for i := 0; i < 8; i++ {
				_, _ = h.Write([]byte{byte(v >> (8 * i))})
			}
		}
		_, _ = h.Write([]byte{0})
	}
	return &Rand{Rand: rand.New(rand.NewPCG(seed, h.Sum64()))}
}

// N returns a number in [0, n).
func (r *Rand) N(n int) int { return r.IntN(n) }

// In returns a number in [a, b].
func (r *Rand) In(a, b int) int { return a + r.IntN(b-a+1) }

// Bool returns true with a probability of 1/2.
func (r *Rand) Bool() bool { return r.Uint64()&1 == 1 }

// P returns true with a probability of num/den.
func (r *Rand) P(num, den int) bool { return r.IntN(den) < num }

// Fill fills b with random bytes.
func (r *Rand) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := r.Uint64()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

// Bytes returns n bytes, from structured to fully random.
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	switch r.N(8) {
	case 0: // zeros
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		c := byte(r.Uint64())
		for i := range b {
			b[i] = c + byte(i)
		}
	case 3:
		r.Fill(b)
		if n > 0 {
			r.plantConst(b)
		}
	default:
		r.Fill(b)
	}
	return b
}

// inside copies b to the middle of a larger buffer, so that the copy has spare capacity.
// The function tells whether the buffer is still what it was.
func (r *Rand) inside(b []byte) (part []byte, intact func() bool) {
	before, after := r.N(9), choose(r, 0, 1, 8, 31, 32, 64, 200, 1000)
	whole := make([]byte, before+len(b)+after)
	for i := range whole {
		whole[i] = byte(0xA5 + i)
	}
	copy(whole[before:], b)
	was := append([]byte(nil), whole...)
	return whole[before : before+len(b)], func() bool { return bytes.Equal(whole, was) }
}

// B20 returns 20 bytes, sometimes ones returned before.
func (r *Rand) B20() (b [20]byte) {
	if n := len(r.seen20); n > 0 && r.P(1, 12) {
		return r.seen20[r.N(n)]
	}
	copy(b[:], r.Bytes(20))
	if len(r.seen20) < 8 {
		r.seen20 = append(r.seen20, b)
	} else {
		r.seen20[r.N(8)] = b
	}
	return
}

// B32 returns 32 bytes, sometimes ones returned before.
func (r *Rand) B32() (b [32]byte) {
	if n := len(r.seen32); n > 0 && r.P(1, 12) {
		return r.seen32[r.N(n)]
	}
	copy(b[:], r.Bytes(32))
	if len(r.seen32) < 8 {
		r.seen32 = append(r.seen32, b)
	} else {
		r.seen32[r.N(8)] = b
	}
	return
}

// B64 returns 64 bytes.
func (r *Rand) B64() (b [64]byte) { copy(b[:], r.Bytes(64)); return }

// U returns an integer of the given width, with a preference for boundaries and numbers returned before.
func (r *Rand) U(bits int) uint64 {
	mask := ^uint64(0) >> (64 - bits)
	if n := len(r.seenU); n > 0 && r.P(1, 16) {
		return r.seenU[r.N(n)] & mask
	}
	u := r.u(bits, mask)
	if len(r.seenU) < 8 {
		r.seenU = append(r.seenU, u)
	} else {
		r.seenU[r.N(8)] = u
	}
	return u
}

func (r *Rand) u(bits int, mask uint64) uint64 {
	switch r.N(8) {
	case 0:
		return uint64(r.N(4)) & mask
	case 1:
		return mask - uint64(r.N(3))&mask
	case 2: // around a power of two
		return (uint64(1)<<r.N(bits) + uint64(r.N(3)) - 1) & mask
	case 3: // small
		return r.Uint64() >> (64 - r.In(1, bits)) & mask
	case 4: // bytes distinguishable
		return 0x0102030405060708 >> (64 - bits) & mask
	case 5:
		if v, ok := r.Const(mask); ok {
			return v
		}
		return r.Uint64() & mask
	default:
		return r.Uint64() & mask
	}
}

// Choose returns one of the items.
func choose[V any](r *Rand, items ...V) V { return items[r.N(len(items))] }

// shuffled returns a permuted copy.
func shuffled[V any](r *Rand, items []V) []V {
	out := append([]V(nil), items...)
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// mutate returns a damaged copy of b.
func (r *Rand) mutate(b []byte) []byte {
	out := append([]byte(nil), b...)
	n := 1
	if r.P(1, 4) {
		n = r.In(2, 6)
	}
	for ; n > 0; n-- {
		switch r.N(10) {
		case 9:
			if len(out) > 0 {
				r.plantConst(out)
			}
		case 0: // truncate
			out = out[:r.N(len(out)+1)]
		case 1: // extend
			out = append(out, r.Bytes(r.In(1, 40))...)
		case 2, 3: // flip a bit
			if len(out) > 0 {
				out[r.N(len(out))] ^= 1 << r.N(8)
			}
		case 4: // interesting byte
			if len(out) > 0 {
				out[r.N(len(out))] = choose[byte](r, 0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff)
			}
		case 5: // interesting word
			if len(out) >= 2 {
				i := r.N(len(out) - 1)
				w := choose[uint16](r, 0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, uint16(len(out)))
				out[i], out[i+1] = byte(w>>8), byte(w)
			}
		case 6: // remove a piece
			if len(out) > 1 {
				i := r.N(len(out))
				j := i + r.N(min(len(out)-i, 33)+1)
				out = append(out[:i:i], out[j:]...)
			}
		case 7: // duplicate a piece
			if len(out) > 0 {
				i := r.N(len(out))
				j := i + r.N(min(len(out)-i, 33)+1)
				out = append(out[:j:j], append(append([]byte(nil), out[i:j]...), out[j:]...)...)
			}
		case 8: // early byte: counts, types, flags are at the front
			if len(out) > 0 {
				out[r.N(min(len(out), 16))] = byte(r.Uint64())
			}
		}
	}
	return out
}
