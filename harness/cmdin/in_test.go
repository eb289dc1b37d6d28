// Package cmdin calls the parsers of the commands directly.
package cmdin

import (
	"encoding/base64"
	"fmt"
	"math/big"
	"os"
	"strings"
	"sync"
	"testing"

	"verif/harness/mc"

	"github.com/binance-chain/tss-lib/crypto/paillier"
	"gitlab.com/alephledger/threshold-ecdsa/cmd/verifgen"
	"gitlab.com/alephledger/threshold-ecdsa/cmd/verifnode"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// scratch are files that are written again and again, one per worker.
type scratch struct {
	mu   sync.Mutex
	free []string
	dir  string
	n    int
}

func (s *scratch) with(text []byte, f func(file string)) {
	s.mu.Lock()
	if len(s.free) == 0 {
		s.n++
		s.free = append(s.free, fmt.Sprintf("%s/f%d", s.dir, s.n))
	}
	name := s.free[len(s.free)-1]
	s.free = s.free[:len(s.free)-1]
	s.mu.Unlock()
	must(os.WriteFile(name, text, 0o600))
	f(name)
	s.mu.Lock()
	s.free = append(s.free, name)
	s.mu.Unlock()
}

func check(t *testing.T, id string, body func(r *mc.Run, s *scratch)) {
	mc.Check(t, id, func(r *mc.Run) {
		dir, err := os.MkdirTemp("/dev/shm", "verif-cmd")
		if err != nil {
			dir, err = os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "cmd")
			must(err)
		}
		defer os.RemoveAll(dir)
		body(r, &scratch{dir: dir})
	})
}

// number has a byte length and a shape.
func number(l, shape int) *big.Int {
	b := make([]byte, l)
	b[0] = []byte{1, 0x80, 0xff, 0x7f}[shape%4]
	for i := 1; i < l; i++ {
		b[i] = []byte{0, 0xff, byte(i*37 + 11), 0}[shape%4]
	}
	b[l-1] |= byte(shape>>2) & 1
	return new(big.Int).SetBytes(b)
}

func TestM01(t *testing.T) {
	check(t, "M01", func(r *mc.Run, s *scratch) {
		same := func(n, l, p *big.Int, pid int) {
			what := map[string]any{"N": n.String(), "λ": l.String(), "φ": p.String(), "number": pid}
			key := &paillier.PrivateKey{PublicKey: paillier.PublicKey{N: n}, LambdaN: l, PhiN: p}
			enc := verifgen.Encode(key)
			s.with([]byte(fmt.Sprintf("%s %d\n", enc, pid)), func(f string) {
				r.Step(1)
				got, k, err := verifnode.Member(f)
				if err != nil || k == nil || k.N == nil || k.LambdaN == nil || k.PhiN == nil {
					r.Fail(what, "the key that was written as %.300q is refused: %v", enc, err)
				}
				if got != pid || k.N.Cmp(n) != 0 || k.LambdaN.Cmp(l) != 0 || k.PhiN.Cmp(p) != 0 {
					r.Fail(what, "the key is loaded as (%v, %v, %v) of party %d", k.N, k.LambdaN, k.PhiN, got)
				}
			})
		}
		r.Part("lengths", func() {
			// all combinations of lengths of the three components
			top := map[bool]int{true: 60, false: 36}[r.Thorough]
			r.Parallel(top*top*top, func(i int) {
				a, b, c := i%top+1, i/top%top+1, i/top/top+1
				same(number(a, i), number(b, i/2), number(c, i/3), i%65536)
				r.State(1)
				r.Trace(1)
			})
		})
		r.Part("small", func() {
			// all components below the bound
			top := map[bool]int{true: 40, false: 17}[r.Thorough]
			r.Parallel(top*top*top, func(i int) {
				same(big.NewInt(int64(i%top+1)), big.NewInt(int64(i/top%top+1)), big.NewInt(int64(i/top/top+1)), i%7)
				r.State(1)
				r.Trace(1)
			})
		})
		r.Part("large", func() {
			ls := []int{1, 33, 127, 128, 129, 254, 255, 256, 257, 258, 383, 384, 511, 512, 513, 1024, 4095, 4096}
			r.Parallel(len(ls)*len(ls)*len(ls), func(i int) {
				m := len(ls)
				for shape := 0; shape < 8; shape++ {
					same(number(ls[i%m], shape), number(ls[i/m%m], shape+1), number(ls[i/m/m], shape+2), 1)
				}
				r.State(8)
				r.Trace(8)
			})
		})
		r.Part("committees", func() {
			for n := 2; n <= 200; n += 1 + n/10 {
				var text string
				var keys []*big.Int
				var addrs []string
				for i := 0; i < n; i++ {
					k := number(i%70+1, i)
					keys = append(keys, k)
					addrs = append(addrs, fmt.Sprintf("h%d:%d", i, i))
					text += base64.StdEncoding.EncodeToString(k.Bytes()) + "|" + addrs[i] + "\n"
				}
				s.with([]byte(text), func(f string) {
					pub, as, err := verifnode.Committee(f)
					if err != nil || len(pub) != n || len(as) != n {
						r.Fail(map[string]any{"committee": n}, "a committee file of %d parties loads as %d keys and %d addresses: %v", n, len(pub), len(as), err)
					}
					for i := range pub {
						r.Step(1)
						if pub[i].N.Cmp(keys[i]) != 0 || as[i] != addrs[i] {
							r.Fail(map[string]any{"committee": n}, "party %d of %d is loaded as (%v, %v)", i, n, pub[i].N, as[i])
						}
					}
				})
				r.State(1)
				r.Trace(1)
			}
		})
	})
}

// reading is the liberal reading of a member file: whatever is accepted must be this.
func reading(text string) (ks []*big.Int, pid string, canonical bool) {
	w := strings.Fields(text)
	if len(w) < 2 {
		return nil, "", false
	}
	b, err := base64.StdEncoding.DecodeString(w[0])
	if err != nil {
		return nil, "", false
	}
	canonical = true
	for len(ks) < 3 {
		if len(b) < 2 || len(b)-2 < int(b[0])|int(b[1])<<8 {
			return nil, "", false
		}
		l := int(b[0]) | int(b[1])<<8
		k := new(big.Int).SetBytes(b[2 : 2+l])
		canonical = canonical && k.Sign() > 0 && len(k.Bytes()) == l
		ks = append(ks, k)
		b = b[2+l:]
	}
	return ks, w[1], canonical && len(b) == 0 && len(w) == 2
}

func TestM02(t *testing.T) {
	check(t, "M02", func(r *mc.Run, s *scratch) {
		member := func(text string) {
			s.with([]byte(text), func(f string) {
				what := map[string]any{"member file": fmt.Sprintf("%.400q", text)}
				var pid int
				var k *paillier.PrivateKey
				var err error
				r.Try(what, func() { pid, k, err = verifnode.Member(f) })
				r.Step(1)
				r.State(1)
				r.Trace(1)
				ks, p, canonical := reading(text)
				if err != nil {
					if canonical && number10(p) {
						r.Fail(what, "a key in the form in which keys are written is refused: %v", err)
					}
					r.Outcome("member files", "refused")
					return
				}
				if k == nil || k.N == nil || k.LambdaN == nil || k.PhiN == nil {
					r.Fail(what, "the file is accepted without a key")
				}
				if ks == nil {
					r.Fail(what, "the file is accepted as key (%v, %v, %v) of party %d", k.N, k.LambdaN, k.PhiN, pid)
				}
				if k.N.Cmp(ks[0]) != 0 || k.LambdaN.Cmp(ks[1]) != 0 || k.PhiN.Cmp(ks[2]) != 0 {
					r.Fail(what, "the key %v is loaded as (%v, %v, %v)", ks, k.N, k.LambdaN, k.PhiN)
				}
				if k.N.Sign() <= 0 || k.LambdaN.Sign() <= 0 || k.PhiN.Sign() <= 0 {
					r.Fail(what, "the key (%v, %v, %v) is accepted", k.N, k.LambdaN, k.PhiN)
				}
				if v, ok := new(big.Int).SetString(strings.TrimPrefix(p, "+"), 10); !ok || v.Cmp(big.NewInt(int64(pid))) != 0 {
					r.Fail(what, "the number %q is loaded as %d", p, pid)
				}
				r.Outcome("member files", "accepted")
			})
		}
		committee := func(text string) {
			s.with([]byte(text), func(f string) {
				what := map[string]any{"committee file": fmt.Sprintf("%.400q", text)}
				var keys []*paillier.PublicKey
				var as []string
				var err error
				r.Try(what, func() { keys, as, err = verifnode.Committee(f) })
				r.Step(1)
				r.State(1)
				r.Trace(1)
				w := strings.Fields(text)
				var ns []*big.Int
				good := len(w) >= 2
				for _, l := range w {
					p := strings.Split(l, "|")
					b, err := base64.StdEncoding.DecodeString(p[0])
					n := new(big.Int).SetBytes(b)
					ns = append(ns, n)
					good = good && err == nil && n.Sign() > 0 && len(p) == 2 && strings.Count(p[1], ":") == 1 && strings.Index(p[1], ":") > 0 && !strings.HasSuffix(p[1], ":")
				}
				if err != nil {
					if good {
						r.Fail(what, "the file is refused: %v", err)
					}
					r.Outcome("committee files", "refused")
					return
				}
				if len(keys) < 2 || len(keys) != len(as) || len(keys) != len(w) {
					r.Fail(what, "the file is accepted as %d keys and %d addresses", len(keys), len(as))
				}
				for i := range keys {
					p := strings.Split(w[i], "|")
					if keys[i] == nil || keys[i].N == nil || keys[i].N.Sign() <= 0 || keys[i].N.Cmp(ns[i]) != 0 || len(p) < 2 || as[i] != p[1] || !strings.Contains(as[i], ":") {
						r.Fail(what, "party %d is loaded as (%v, %q)", i, keys[i], as[i])
					}
				}
				r.Outcome("committee files", "accepted")
			})
		}
		// all strings over an alphabet, by number
		all := func(alphabet []string, max int, f func(s string)) {
			total, p := 0, 1
			for l := 0; l <= max; l++ {
				total += p
				p *= len(alphabet)
			}
			r.Parallel(total, func(i int) {
				l, p := 0, 1
				for i >= p {
					i -= p
					p *= len(alphabet)
					l++
				}
				var b strings.Builder
				for ; l > 0; l-- {
					b.WriteString(alphabet[i%len(alphabet)])
					i /= len(alphabet)
				}
				f(b.String())
			})
		}
		r.Part("short keys", func() {
			all([]string{"\x00", "\x01", "\x02", "\x05"}, map[bool]int{true: 10, false: 8}[r.Thorough], func(s string) {
				member(base64.StdEncoding.EncodeToString([]byte(s)) + " 1\n")
			})
		})
		r.Part("keys of genuine shape", func() {
			// three numbers, every length announced for each, with every length present
			r.Parallel(6*6*6*5*5*5, func(i int) {
				var b []byte
				for k := 0; k < 3; k++ {
					l := i % 6
					i /= 6
					b = append(b, byte(l), []byte{0, 0, 0, 0, 1, 0xff}[l])
					for j := i % 5; j > 0; j-- {
						b = append(b, []byte{0, 1}[(i+j)%2])
					}
					i /= 5
				}
				member(base64.StdEncoding.EncodeToString(b) + " 0\n")
			})
		})
		r.Part("member files", func() {
			key := verifgen.Encode(&paillier.PrivateKey{PublicKey: paillier.PublicKey{N: big.NewInt(77)}, LambdaN: big.NewInt(30), PhiN: big.NewInt(60)})
			all([]string{"A", "=", " ", "\n", "0", "-", key}, map[bool]int{true: 7, false: 5}[r.Thorough], member)
		})
		r.Part("altered member files", func() {
			p, q := number(17, 9), number(17, 6)
			k, _ := paillier.FromPrimes(p, q)
			text := verifgen.Encode(k) + " 1\n"
			for i := range text {
				member(text[:i])
				member(text[i:])
			}
			r.Parallel(len(text), func(i int) {
				for m := 1; m < 256; m++ {
					if r.Thorough || m&(m-1) == 0 || m%5 == 0 {
						member(text[:i] + string([]byte{text[i] ^ byte(m)}) + text[i+1:])
					}
				}
			})
			raw, err := base64.StdEncoding.DecodeString(verifgen.Encode(k))
			must(err)
			r.Parallel(len(raw), func(i int) {
				enc := func(b []byte) string { return base64.StdEncoding.EncodeToString(b) + " 1\n" }
				member(enc(raw[:i]))
				member(enc(raw[i:]))
				for m := 1; m < 256; m++ {
					c := append([]byte(nil), raw...)
					c[i] ^= byte(m)
					member(enc(c))
				}
				if i+1 < len(raw) {
					for _, v := range [][2]byte{{0, 0}, {0xff, 0xff}, {0xff, 0}, {0, 1}, {0xff, 0x7f}, {0, 0x80}} {
						c := append([]byte(nil), raw...)
						c[i], c[i+1] = v[0], v[1]
						member(enc(c))
					}
				}
			})
		})
		r.Part("committee files", func() {
			all([]string{"A", "AQ==", "|", ":", "\n", "1"}, map[bool]int{true: 9, false: 7}[r.Thorough], committee)
			all([]string{"AQ==|", "AQ==", "|", "a:1", ":", "\n", "a", " "}, map[bool]int{true: 7, false: 6}[r.Thorough], committee)
		})
		r.Part("altered committee files", func() {
			text := ""
			for i := 0; i < 3; i++ {
				text += base64.StdEncoding.EncodeToString(number(33, i).Bytes()) + fmt.Sprintf("|127.0.0.1:%d\n", 10000+i)
			}
			r.Parallel(len(text), func(i int) {
				committee(text[:i])
				committee(text[i:])
				for m := 1; m < 256; m++ {
					if r.Thorough || m&(m-1) == 0 || m%5 == 0 {
						committee(text[:i] + string([]byte{text[i] ^ byte(m)}) + text[i+1:])
					}
				}
			})
		})
	})
}

// number10 tells whether s is a number a party number can be given as.
func number10(s string) bool {
	if len(s) == 0 || len(s) > 9 {
		return false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}
