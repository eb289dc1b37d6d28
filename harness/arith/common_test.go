package arith

import (
	"errors"
	"fmt"
	"math/big"
	"math/bits"
	"reflect"
	"runtime/debug"
	"testing"
	"unsafe"

	"verif/harness/lab"
	"verif/harness/lock"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

var B = lab.B

func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func lsh(n uint) *big.Int        { return new(big.Int).Lsh(B(1), n) }
func neg(a *big.Int) *big.Int    { return new(big.Int).Neg(a) }
func cp(a *big.Int) *big.Int     { return new(big.Int).Set(a) }

// env is a curve with a commitment key of known discrete logarithm.
type env struct {
	*lab.Params
	g    curve.Group
	name string
	h    *big.Int
	egf  *commitment.ElGamalFactory
	r    *mc.Run
	tail *tail
	alts []int64 // numbers to draw; nil: those below the order
}

func (e *env) key(h *big.Int) *env {
	c := *e
	c.h = h
	c.egf = commitment.NewElGamalFactory(e.g.ScalarBaseMult(cp(h)))
	return &c
}

func check(t *testing.T, id string, body func(r *mc.Run)) {
	debug.SetGCPercent(400)
	mc.Check(t, id, func(r *mc.Run) { lock.Owned(func() { body(r) }) })
}

// tiny runs body on a tiny curve.
func tiny(r *mc.Run, order int64, part string, body func(e *env)) {
	if !lab.IsTiny {
		return
	}
	p := lab.Use(order)
	arith.Q = B(order)
	g := curve.NewSecp256k1Group()
	if o := g.Order(); o.Cmp(p.N) != 0 {
		r.Skip("%s: the order of the group is %v with a curve of order %d", part, o, order)
		return
	}
	r.Part(fmt.Sprintf("%s/q=%d", part, order), func() {
		e := &env{Params: p, g: g, name: fmt.Sprintf("q=%d", order), r: r, tail: &tail{}}
		body(e.key(B(3)))
	})
}

// real runs body on secp256k1.
func real(r *mc.Run, part string, body func(e *env)) {
	if lab.IsTiny {
		return
	}
	r.Part(part+"/real", func() {
		p := lab.Real()
		e := &env{Params: p, g: curve.NewSecp256k1Group(), name: "real", r: r, tail: &tail{}}
		body(e.key(lab.Hex("8B8F1A2C3D4E5F60718293A4B5C6D7E8F90A1B2C3D4E5F60718293A4B5C6D7E9")))
	})
}

// edges are values of draws on the real curve.
func (e *env) edges() []*big.Int {
	return []*big.Int{B(0), B(1), sub(e.N, B(1)), lsh(255), sub(e.N, lsh(127))}
}

func (e *env) sources(ch *mc.Chooser, seed, n int) []*lock.Source {
	s := make([]*lock.Source, n)
	for i := range s {
		if e.alts != nil {
			s[i] = lock.Full(ch, e.alts, seed, i)
		} else if e.Tiny {
			s[i] = lock.Tiny(ch, e.N.Int64(), seed, i)
		} else {
			s[i] = lock.Wide(ch, e.edges(), seed, i)
		}
	}
	return s
}

// exec is one execution of a protocol among n parties.
type exec struct {
	e    *env
	n    int
	src  []*lock.Source
	net  *lock.Net
	srvs []*wired
	what func() any
	r    *mc.Run
	err  error // what rounds report though all messages arrive
}

// wired lets the objects a party made keep working in later runs of the same execution.
type wired struct{ now psync.Server }

func (w *wired) Start() { w.now.Start() }
func (w *wired) Stop()  { w.now.Stop() }
func (w *wired) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	return w.now.Round(toSend, check)
}

func (e *env) exec(r *mc.Run, n int, ch *mc.Chooser, seed int, what any) *exec {
	x := &exec{e: e, n: n, src: e.sources(ch, seed, n), r: r, srvs: make([]*wired, n)}
	for i := range x.srvs {
		x.srvs[i] = &wired{}
	}
	x.what = func() any {
		m := map[string]any{"curve": e.name, "parties": n, "pattern": seed, "case": what}
		if ch != nil {
			m["choices"] = ch.Deviations()
		}
		return m
	}
	return x
}

// run lets every party execute body; a panic or a hang is a violation.
func (x *exec) run(tamper func(round, from, to int, data []byte) ([]byte, bool), body func(pid int, srv psync.Server)) *lock.Net {
	x.net = &lock.Net{N: x.n, Tamper: tamper}
	if x.err != nil {
		x.net.Err = func(int, int) error { return x.err }
	}
	for i, o := range x.net.Run(x.src, func(pid int, srv psync.Server) {
		x.srvs[pid].now = srv
		body(pid, x.srvs[pid])
	}) {
		if o.Hung {
			x.r.Fail(x.what(), "party %d does not come back", i)
		}
		if o.Panic != nil {
			x.r.Try(x.what(), func() { x.rethrow(o) })
		}
	}
	return x.net
}

func (x *exec) rethrow(o lock.Outcome) {
	if mc.UnderTest(o.Stack) {
		panic(mc.Broken("panic: %v\n%s", o.Panic, o.Stack))
	}
	panic(o.Panic)
}

func (x *exec) fail(format string, args ...any) { x.r.Fail(x.what(), format, args...) }

// shared is what the parties hold after generating and resharing a secret.
type shared struct {
	ads []*arith.ADSecret
	tds []*arith.TDSecret
	gen []point2 // announced commitments, by party
}

type point2 struct{ first, second lab.Aff }

// value is what a commitment hides, times the generator.
func (e *env) value(c point2) lab.Aff { return e.Add(c.second, e.Neg(e.Times(c.first, e.h))) }

func comm(b []byte) (point2, []byte) {
	f, b, err := lab.Unwire(b)
	if err != nil {
		panic(mc.Broken("%v", err))
	}
	s, b, err := lab.Unwire(b)
	if err != nil {
		panic(mc.Broken("%v", err))
	}
	return point2{f, s}, b
}

// gen generates a secret at all parties. All must succeed.
func (x *exec) gen(label string) *shared {
	s := &shared{ads: make([]*arith.ADSecret, x.n), tds: make([]*arith.TDSecret, x.n)}
	errs := make([]error, x.n)
	net := x.run(nil, func(pid int, srv psync.Server) {
		s.ads[pid], errs[pid] = arith.Gen(label, srv, x.e.egf, uint16(pid), uint16(x.n))
	})
	x.ok(errs, "generating a secret")
	for i := 0; i < x.n; i++ {
		if x.n == 1 {
			egs, _ := held(s.ads[0])
			if len(egs) == 0 {
				x.r.Skip("the contribution of a single party can not be seen")
				panic(mc.Stop)
			}
			f, c := lab.SeeC(egs[0])
			s.gen = append(s.gen, point2{f, c})
			break
		}
		c, _ := comm(net.One(i, 0))
		s.gen = append(s.gen, c)
	}
	return s
}

func (x *exec) ok(errs []error, doing string) {
	for i, err := range errs {
		if err != nil {
			x.fail("%s fails at party %d though all are honest: %v", doing, i, err)
		}
	}
}

// secret is the sum of all contributions, times the generator.
func (x *exec) secret(s *shared) lab.Aff {
	sum := lab.Aff{Inf: true}
	for _, c := range s.gen {
		sum = x.e.Add(sum, x.e.value(c))
	}
	return sum
}

// reshare turns s.ads into s.tds with threshold t.
func (x *exec) reshare(s *shared, t int) *shared {
	errs := make([]error, x.n)
	x.run(nil, func(pid int, srv psync.Server) { s.tds[pid], errs[pid] = s.ads[pid].Reshare(uint16(t)) })
	x.ok(errs, fmt.Sprintf("resharing with threshold %d", t))
	for i, d := range s.tds {
		if d.Threshold() != uint16(t) {
			x.fail("party %d: threshold %d is reported as %d", i, t, d.Threshold())
		}
	}
	return &shared{ads: s.ads, tds: append([]*arith.TDSecret(nil), s.tds...), gen: s.gen}
}

// peers are the parties in mask, which counts the peers of pid only.
func peers(n, pid, mask int) []bool {
	b := make([]bool, n)
	k := 0
	for i := range b {
		if i == pid {
			continue
		}
		b[i] = mask>>k&1 == 1
		k++
	}
	return b
}

// masks are the sets of peers from which shares arrive. In a large committee only runs of
// neighbours (and the whole committee) are looked at.
func (x *exec) masks(t int, sizes func(k int) bool) (ms []int) {
	add := func(mask int) {
		if sizes == nil || sizes(bits.OnesCount(uint(mask))+1) {
			ms = append(ms, mask)
		}
	}
	p := x.n - 1
	if x.n <= 7 {
		for mask := 0; mask < 1<<p; mask++ {
			add(mask)
		}
		return
	}
	seen := map[int]bool{}
	for _, k := range []int{t - 2, t - 1, t, p} {
		for _, at := range []int{0, 1, p / 2, p - 1} {
			if k < 0 || k > p {
				continue
			}
			mask := 0
			for i := 0; i < k; i++ {
				mask |= 1 << ((at + i) % p)
			}
			if !seen[mask] {
				seen[mask] = true
				add(mask)
			}
		}
	}
	return
}

// reveals lets all parties reveal once per subset of delivered peers, and checks the
// outcome of each against the secret. sizes selects the subsets by their size.
func (x *exec) reveals(tds []*arith.TDSecret, t int, want lab.Aff, what string, sizes func(k int) bool) {
	for _, mask := range x.masks(t, sizes) {
		got := bits.OnesCount(uint(mask))
		from := make([][]bool, x.n)
		for i := range from {
			from[i] = peers(x.n, i, mask)
		}
		vals, errs := make([]*big.Int, x.n), make([]error, x.n)
		x.run(func(_, f, to int, d []byte) ([]byte, bool) { return d, from[to][f] }, func(pid int, srv psync.Server) {
			vals[pid], errs[pid] = tds[pid].Reveal()
		})
		for i := range vals {
			x.r.Step(1)
			if got+1 < t {
				if errs[i] == nil {
					x.fail("party %d reveals %s = %v from %d shares %v though the threshold is %d", i, what, vals[i], got+1, from[i], t)
				}
				continue
			}
			if errs[i] != nil {
				x.fail("party %d gets shares of %s from %v, threshold %d, and fails to reveal: %v", i, what, from[i], t, errs[i])
			}
			if vals[i] == nil || vals[i].Sign() < 0 || vals[i].Cmp(x.e.N) >= 0 || !x.e.Mul(vals[i]).Same(want) {
				x.fail("party %d reveals %s = %v from the shares of %v with threshold %d; the secret times the generator is %v", i, what, vals[i], from[i], t, want)
			}
		}
	}
}

// exps does the same for public keys.
func (x *exec) exps(tds []*arith.TDSecret, t int, want lab.Aff, what string, sizes func(k int) bool) {
	for _, mask := range x.masks(t, sizes) {
		got := bits.OnesCount(uint(mask))
		from := make([][]bool, x.n)
		for i := range from {
			from[i] = peers(x.n, i, mask)
		}
		keys, errs := make([]*arith.TDKey, x.n), make([]error, x.n)
		x.run(func(_, f, to int, d []byte) ([]byte, bool) { return d, from[to][f] }, func(pid int, srv psync.Server) {
			keys[pid], errs[pid] = tds[pid].Exp()
		})
		for i := range keys {
			x.r.Step(1)
			if got+1 < t {
				if errs[i] == nil {
					x.fail("party %d derives a public key of %s from %d shares %v though the threshold is %d", i, what, got+1, from[i], t)
				}
				continue
			}
			if errs[i] != nil {
				x.fail("party %d gets public shares of %s from %v, threshold %d, and fails to derive the key: %v", i, what, from[i], t, errs[i])
			}
			if k := lab.See(x.e.g, keys[i].PublicKey()); !k.Same(want) {
				x.fail("party %d derives the public key of %s as %v from %v with threshold %d, not %v", i, what, k, from[i], t, want)
			}
			if keys[i].Threshold() != uint16(t) {
				x.fail("the key of a secret with threshold %d reports threshold %d", t, keys[i].Threshold())
			}
			if a, b := keys[i].Label(), tds[i].Label(); a != b {
				x.fail("the key of the secret %q is labelled %q", b, a)
			}
		}
	}
}

var errShape = errors.New("not found")

// held looks into a secret for the commitments and big integers it holds.
func held(v any) (egs []*commitment.ElGamal, ints []*big.Int) {
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 4 {
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			if v.Type() == reflect.TypeOf((*big.Int)(nil)) {
				ints = append(ints, (*big.Int)(unsafe.Pointer(v.Pointer())))
				return
			}
			walk(v.Elem(), depth+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.Type() == reflect.TypeOf([]*commitment.ElGamal(nil)) {
					egs = *(*[]*commitment.ElGamal)(unsafe.Pointer(f.UnsafeAddr()))
					continue
				}
				if f.Kind() == reflect.Struct || f.Kind() == reflect.Pointer && f.Type().Elem().Kind() == reflect.Struct || f.Type() == reflect.TypeOf((*big.Int)(nil)) {
					walk(f, depth+1)
				}
			}
		}
	}
	walk(reflect.ValueOf(v), 0)
	return
}
