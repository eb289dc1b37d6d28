// Package lock runs all parties of a protocol in one process, one at a time, with every
// message and every random draw in the hands of the check.
package lock

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/big"
	"sync"
	"unsafe"

	"verif/detrand"
	"verif/harness/mc"
)

// Source is the randomness of one party. Pick resolves read number k of n bytes.
type Source struct {
	Pick func(k, n int) []byte
	Long bool // expect many reads
	mu   sync.Mutex
	Got  [][]byte
}

func (s *Source) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	copy(p, s.Pick(len(s.Got), len(p)))
	s.Got = append(s.Got, append([]byte(nil), p...))
	if len(s.Got) > 20000 && !s.Long {
		panic(mc.Broken("20000 reads of randomness by one party"))
	}
	return len(p), nil
}

// Ints are the values read so far, as integers.
func (s *Source) Ints() []*big.Int {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := make([]*big.Int, len(s.Got))
	for i, g := range s.Got {
		r[i] = new(big.Int).SetBytes(g)
	}
	return r
}

// router hands every read to the source of the goroutine it comes from, or of the one that
// started it: the source is kept in the place of the goroutine's profiling labels, which
// are inherited.
type router struct{}

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

func (router) Read(p []byte) (int, error) {
	s := (*Source)(getLabel())
	if s == nil {
		panic("randomness read outside of any party")
	}
	return s.Read(p)
}

// Owned makes the harness the source of all randomness while f runs.
func Owned(f func()) {
	detrand.Set(router{})
	defer detrand.Set(nil)
	f()
}

// As runs f with s as the source of randomness of this goroutine and those it starts.
func As(s *Source, f func()) {
	old := getLabel()
	setLabel(unsafe.Pointer(s))
	defer setLabel(old)
	f()
}

// Mix is a number that depends on its arguments only.
func Mix(a ...int) uint64 {
	h := fnv.New64a()
	for _, x := range a {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(x))
		h.Write(b[:])
	}
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

// Tiny is a source whose read number k is a value below q: a fixed pattern that depends
// on seed, party and k, shifted by what the chooser picks.
func Tiny(ch *mc.Chooser, q int64, seed, pid int) *Source {
	return &Source{Pick: func(k, n int) []byte {
		v := int64(Mix(seed, pid, k) % uint64(q))
		if ch != nil {
			v = (v + int64(ch.Choose(int(q), fmt.Sprintf("party %d draw %d", pid, k)))) % q
		}
		b := make([]byte, n)
		b[n-1] = byte(v)
		if n > 1 {
			b[n-2] = byte(v >> 8)
		}
		return b
	}}
}

// Full is a source of bytes over their whole range, a fixed pattern that depends on seed,
// party and k; the chooser may replace a read by one of some numbers.
func Full(ch *mc.Chooser, alts []int64, seed, pid int) *Source {
	return &Source{Pick: func(k, n int) []byte {
		b := make([]byte, n)
		i := 0
		if ch != nil {
			i = ch.Choose(len(alts)+1, fmt.Sprintf("party %d draw %d", pid, k))
		}
		for j := range b {
			if i == 0 {
				b[j] = byte(Mix(seed, pid, k, j/8) >> (8 * (j % 8)))
			} else if at := 8 * (n - 1 - j); at < 64 {
				b[j] = byte(alts[i-1] >> at)
			}
		}
		return b
	}}
}

// Wide is a source of full-size values; the chooser may replace one by an edge value.
func Wide(ch *mc.Chooser, edges []*big.Int, seed, pid int) *Source {
	return &Source{Pick: func(k, n int) []byte {
		b := make([]byte, n)
		i := 0
		if ch != nil && len(edges) > 0 {
			i = ch.Choose(len(edges)+1, fmt.Sprintf("party %d draw %d", pid, k))
		}
		if i == 0 {
			for j := range b {
				b[j] = byte(Mix(seed, pid, k, j/8) >> (8 * (j % 8)))
			}
			b[0] &= 0x7f
			return b
		}
		e := edges[i-1].Bytes()
		if len(e) > n {
			e = e[len(e)-n:]
		}
		copy(b[n-len(e):], e)
		return b
	}}
}
