package arith

import (
	"fmt"
	"math/big"
	"reflect"
	"unsafe"

	"verif/harness/lab"
	"verif/harness/lock"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"
)

// house is a committee that signs.
type house struct {
	*exec
	ps       []*tecdsa.Protocol
	key, com lab.Aff // the joint keys
	h        *big.Int
	boot     *lock.Net
	queue    []*made // presignatures that are left, oldest first
}

// made is a presignature as seen from its messages: the four secrets times the generator.
type made struct {
	t                int
	net              *lock.Net
	k, rho, eta, tau lab.Aff
	all              [4]lab.Aff
}

// roles tells which of the secrets and keys generated is which; found out once.
type roles struct {
	k, rho, eta, tau int // position among the secrets of a presignature
	key, com         int // position among the keys
}

var natural = roles{0, 1, 2, 3, 0, 1}

var role = natural

// within collects the values of a type that can be reached from v.
func within[T any](v any) (out []*T) {
	want := reflect.TypeOf((*T)(nil))
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 7 {
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			if v.Type() == want {
				if p := v.UnsafePointer(); !seen[p] {
					seen[p] = true
					out = append(out, (*T)(p))
				}
				return
			}
			if k := v.Elem().Kind(); k == reflect.Struct || k == reflect.Slice {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.Type() == want.Elem() && f.CanAddr() {
					if p := unsafe.Pointer(f.UnsafeAddr()); !seen[p] {
						seen[p] = true
						out = append(out, (*T)(p))
					}
					continue
				}
				walk(f, depth+1)
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(v), 0)
	return
}

// sums are the sums of what the parties announce when they open: the joint keys.
func (x *exec) sums(net *lock.Net) (out []lab.Aff) {
	for round := 0; round < net.Rounds[0]; round++ {
		sum := lab.Aff{Inf: true}
		whole := true
		for p := 0; p < x.n; p++ {
			a, rest, err := lab.Unwire(net.One(p, round))
			if err != nil || len(rest) > 0 || !x.e.On(a) {
				whole = false
				break
			}
			sum = x.e.Add(sum, a)
		}
		if whole {
			out = append(out, sum)
		}
	}
	return
}

// start initialises all parties.
func (x *exec) start() *house {
	c := &house{exec: x, ps: make([]*tecdsa.Protocol, x.n)}
	errs := make([]error, x.n)
	c.boot = x.run(nil, func(pid int, srv psync.Server) { c.ps[pid], errs[pid] = tecdsa.Init(uint16(pid), uint16(x.n), srv) })
	x.ok(errs, "initialising")
	keys := x.sums(c.boot)
	if len(keys) != 2 {
		x.r.Skip("initialisation announces %d keys, not two", len(keys))
		panic(mc.Stop)
	}
	c.key, c.com = keys[role.key], keys[role.com]
	if x.e.Tiny {
		c.h = B(x.e.Log(c.com))
	}
	return c
}

// announced are the commitments to the secrets of a presignature, by party.
func (x *exec) announced(net *lock.Net) (out [][]point2) {
	for round := 0; round < net.Rounds[0]; round++ {
		var cs []point2
		for p := 0; p < x.n; p++ {
			ps, err := cut("C", net.One(p, round))
			if err != nil || len(ps[0].raw) != len(net.One(p, round)) {
				cs = nil
				break
			}
			c, _ := comm(ps[0].raw)
			cs = append(cs, c)
		}
		if cs != nil {
			out = append(out, cs)
		}
	}
	return
}

// values are the secrets generated in a session, times the generator.
func (c *house) values(net *lock.Net) (out []lab.Aff) {
	e := c.e.key(c.h)
	for _, cs := range c.announced(net) {
		sum := lab.Aff{Inf: true}
		for _, p := range cs {
			sum = e.Add(sum, e.value(p))
		}
		out = append(out, sum)
	}
	return
}

// presign makes a presignature at all parties.
func (c *house) presign(t int) *made {
	errs := make([]error, c.n)
	net := c.run(nil, func(pid int, _ psync.Server) { errs[pid] = c.ps[pid].Presign(uint16(t)) })
	c.ok(errs, fmt.Sprintf("presigning with threshold %d", t))
	return c.added(net, t)
}

// added notes a presignature made in a session.
func (c *house) added(net *lock.Net, t int) *made {
	v := c.values(net)
	if len(v) != 4 {
		c.r.Skip("a presignature has %d secrets, not four", len(v))
		panic(mc.Stop)
	}
	m := &made{t: t, net: net, k: v[role.k], rho: v[role.rho], eta: v[role.eta], tau: v[role.tau], all: [4]lab.Aff(v)}
	c.queue = append(c.queue, m)
	return m
}

// signed is what a party got from a signing session.
type signed struct {
	sig  *tecdsa.Signature
	err  error
	r, s *big.Int
}

// look reads a signature.
func (x *exec) look(s *tecdsa.Signature) (*big.Int, *big.Int) {
	_, ints := held(s)
	if len(ints) != 2 || ints[0] == nil || ints[1] == nil {
		x.r.Skip("a signature holds %d numbers, not two", len(ints))
		panic(mc.Stop)
	}
	return cp(ints[0]), cp(ints[1])
}

// sign runs a signing session.
func (c *house) sign(m *big.Int, deliver func(round, from, to int) bool) ([]*signed, *lock.Net) {
	res := make([]*signed, c.n)
	var tamper func(round, from, to int, d []byte) ([]byte, bool)
	if deliver != nil {
		tamper = func(round, from, to int, d []byte) ([]byte, bool) { return d, deliver(round, from, to) }
	}
	net := c.run(tamper, func(pid int, _ psync.Server) {
		msg := cp(m)
		s := &signed{}
		s.sig, s.err = c.ps[pid].Sign(msg)
		if msg.Cmp(m) != 0 {
			panic(mc.Broken("signing changes the message %v to %v", m, msg))
		}
		res[pid] = s
	})
	for i, s := range res {
		if (s.err == nil) == (s.sig == nil) {
			c.fail("party %d gets the signature %v with error %v", i, s.sig, s.err)
		}
		if s.err == nil {
			s.r, s.s = c.look(s.sig)
		}
	}
	return res, net
}

// nonces are what r may be for a nonce: the hash of its encoding, or its first coordinate.
func (e *env) nonces(k lab.Aff) []*big.Int {
	out := []*big.Int{pkg.HashToBigInt(lab.Wire(k))}
	if !k.Inf {
		out = append(out, e.Mod(k.X))
	}
	return out
}

// correct tells what is wrong with a signature of m.
func (c *house) correct(m *big.Int, ps *made, r, s *big.Int) string {
	e := c.e
	for try := 0; try < 2; try++ {
		if try == 1 {
			r, s = s, r // the order of the fields
		}
		known := false
		for _, x := range e.nonces(ps.k) {
			known = known || x.Cmp(r) == 0
		}
		if !known || s.Sign() < 0 || s.Cmp(e.N) >= 0 {
			continue
		}
		if e.Times(ps.tau, s).Same(e.Add(e.Times(ps.rho, m), e.Times(ps.eta, r))) {
			return ""
		}
	}
	return fmt.Sprintf("the pair (%v, %v) for message %v does not satisfy s·τ = m·ρ + r·η with r for the nonce %v: ρ = %v, η = %v, τ = %v", s, r, m, ps.k, ps.rho, ps.eta, ps.tau)
}

// expected plays a signing session in which each party needs t of the shares in each of three rounds.
func expected(n, t int, masked bool, deliver func(round, from, to int) bool) []bool {
	alive := make([]bool, n)
	for i := range alive {
		alive[i] = true
	}
	for round := 0; round < 3; round++ {
		next := make([]bool, n)
		for to := range next {
			if !alive[to] {
				continue
			}
			got := 1
			for from := range alive {
				if from != to && alive[from] && (deliver == nil || deliver(round, from, to)) {
					got++
				}
			}
			next[to] = got >= t && !(round == 1 && !masked)
		}
		alive = next
	}
	return alive
}

// signs runs a signing session and compares it with what it should be.
func (c *house) signs(m *big.Int, deliver func(round, from, to int) bool) []*signed {
	ps := c.queue[0]
	c.queue = c.queue[1:]
	res, net := c.sign(m, deliver)
	c.judge(m, ps, res, net, deliver)
	return res
}

func (c *house) judge(m *big.Int, ps *made, res []*signed, net *lock.Net, deliver func(round, from, to int) bool) {
	want := expected(c.n, ps.t, !ps.tau.Inf, deliver)
	var first *signed
	for i, s := range res {
		c.r.Step(1)
		if want[i] != (s.err == nil) {
			c.fail("signing %v with threshold %d at party %d ends with error %v; the mask is %v", m, ps.t, i, s.err, ps.tau)
		}
		if s.err != nil {
			c.r.Outcome("signing", map[bool]string{true: "zero mask", false: "too few shares"}[ps.tau.Inf])
			continue
		}
		if first == nil {
			first = s
		}
		if s.r.Cmp(first.r) != 0 || s.s.Cmp(first.s) != 0 {
			c.fail("the parties sign %v with (%v, %v) and (%v, %v)", m, first.r, first.s, s.r, s.s)
		}
		if what := c.correct(m, ps, s.r, s.s); what != "" {
			c.fail("%s", what)
		}
		c.r.Outcome("signing", "signed")
	}
}

// learn finds out which of the generated secrets and keys is which by their labels.
func learn(r *mc.Run, e *env) {
	role = natural
	x := e.exec(r, 2, nil, 1, "learning")
	c := x.start()
	for seed := 1; seed < 40; seed++ {
		x = e.exec(r, 2, nil, seed, "learning")
		c = x.start()
		keys := x.sums(c.boot)
		ro := natural
		found := 0
		if !keys[0].Same(keys[1]) {
			for _, k := range within[arith.DKey](c.ps[0]) {
				for i := range keys {
					if lab.See(e.g, k.PublicKey()).Same(keys[i]) {
						switch k.Label() {
						case "x":
							ro.key = i
							found++
						case "h":
							ro.com = i
							found++
						}
					}
				}
			}
		}
		if found != 2 || ro.key == ro.com {
			continue
		}
		role.key, role.com = ro.key, ro.com
		break
	}
	if !e.Tiny {
		return
	}
	for seed := 1; seed < 40; seed++ {
		x = e.exec(r, 2, nil, seed, "learning")
		c = x.start()
		m := c.presign(2)
		distinct := true
		for i := range m.all {
			for j := range m.all[:i] {
				distinct = distinct && !m.all[i].Same(m.all[j])
			}
		}
		if !distinct {
			continue
		}
		a, b := within[arith.TDSecret](c.ps[0]), within[arith.TDSecret](c.ps[1])
		if len(a) != 4 || len(b) != 4 {
			break
		}
		vals := [2][]*big.Int{}
		ok := true
		c.run(nil, func(pid int, _ psync.Server) {
			for _, d := range [][]*arith.TDSecret{a, b}[pid] {
				v, err := d.Reveal()
				ok = ok && err == nil
				vals[pid] = append(vals[pid], v)
			}
		})
		if !ok {
			break
		}
		ro := role
		seen := map[string]int{}
		for i, d := range a {
			for j := range m.all {
				if e.Mul(vals[0][i]).Same(m.all[j]) {
					seen[d.Label()] = j + 1
				}
			}
		}
		if seen["k"]*seen["rho"]*seen["eta"]*seen["tau"] == 0 {
			break
		}
		ro.k, ro.rho, ro.eta, ro.tau = seen["k"]-1, seen["rho"]-1, seen["eta"]-1, seen["tau"]-1
		role = ro
		break
	}
	r.Note("positions of the secrets and keys: %+v", role)
}

// house starts a committee. On the real curve the exponent of the commitment key is found
// among what the parties drew.
func (e *env) house(r *mc.Run, n int, ch *mc.Chooser, seed int, what any) *house {
	x := e.exec(r, n, ch, seed, what)
	c := x.start()
	if e.Tiny {
		return c
	}
	h := B(0)
	for p := range x.src {
		found := false
		for round := 0; round < c.boot.Rounds[p] && !found; round++ {
			a, rest, err := lab.Unwire(c.boot.One(p, round))
			if err != nil || len(rest) > 0 {
				continue
			}
			var sum lab.Aff = lab.Aff{Inf: true}
			for q := 0; q < n; q++ {
				b, _, err := lab.Unwire(c.boot.One(q, round))
				if err != nil {
					break
				}
				sum = e.Add(sum, b)
			}
			if !sum.Same(c.com) {
				continue
			}
			for _, k := range x.src[p].Ints() {
				if e.Mul(k).Same(a) {
					h.Add(h, k)
					found = true
					break
				}
			}
		}
		if !found {
			r.Skip("the contribution of party %d to the commitment key is not among what it drew", p)
			panic(mc.Stop)
		}
	}
	c.h = e.Mod(h)
	return c
}
