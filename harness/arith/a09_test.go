package arith

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"testing"

	"verif/harness/lab"
	"verif/harness/lock"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// evaluation is what a dealer sent privately.
func (x *exec) evaluation(b []byte) (v, rnd *big.Int) {
	if len(b) < 4 || uint64(binary.LittleEndian.Uint32(b)) > uint64(len(b)-4) {
		x.fail("a private evaluation is sent as %x", b)
	}
	l := binary.LittleEndian.Uint32(b)
	return new(big.Int).SetBytes(b[4 : 4+l]), new(big.Int).SetBytes(b[4+l:])
}

// dealing is a generation followed by resharings with the given thresholds, seen from one dealer.
type dealing struct {
	gen   lab.Aff
	views [][]string // by resharing and recipient
	rands [][]string
	reads int
	// whether messages do not look as documented
	strange bool
	row     []lab.Aff // first components of all commitments and first messages of the dealer
	vals    []lab.Aff // what the commitments hide, times the generator
}

func (x *exec) deal(ts []int, dealer int) (d dealing) {
	s := x.gen("a")
	d.gen = x.e.value(s.gen[dealer])
	d.row, d.vals = append(d.row, s.gen[dealer].first), append(d.vals, d.gen)
	for _, t := range ts {
		errs := make([]error, x.n)
		net := x.run(nil, func(pid int, _ psync.Server) { _, errs[pid] = s.ads[pid].Reshare(uint16(t)) })
		x.ok(errs, "resharing")
		m := net.By(dealer, 4)
		v, r := make([]string, x.n), make([]string, x.n)
		for to := range v {
			if to != dealer {
				a, b := x.evaluation(m.Data[to])
				v[to], r[to] = fmt.Sprint(x.e.Mod(a)), fmt.Sprint(b)
			}
		}
		d.views, d.rands = append(d.views, v), append(d.rands, r)
		f := x.e.resharing(x.n, t)
		for round := 0; round < 6; round++ {
			if round == 1 || round == 4 {
				continue
			}
			ps, err := f(round, net.One(dealer, round))
			if err != nil {
				x.r.Skip("the message of round %d does not look as documented: %x", round, net.One(dealer, round))
				d.strange = true
				return
			}
			for _, p := range ps {
				b := p.raw
				if p.kind == 'N' {
					l1, l2 := binary.BigEndian.Uint32(b), binary.BigEndian.Uint32(b[4:])
					b = b[8+l1+l2:]
				}
				if a, _, err := lab.Unwire(b); err == nil {
					d.row = append(d.row, a)
				}
				if p.kind == 'C' {
					c, _ := comm(p.raw)
					d.vals = append(d.vals, x.e.value(c))
				}
			}
		}
	}
	d.reads = len(x.src[dealer].Got)
	return
}

// rank of a matrix modulo a prime.
func rank(m [][]int64, q int64) int {
	inv := func(a int64) int64 {
		for i := int64(1); i < q; i++ {
			if a*i%q == 1 {
				return i
			}
		}
		return 0
	}
	rk := 0
	for c := 0; len(m) > 0 && c < len(m[0]) && rk < len(m); c++ {
		p := -1
		for i := rk; i < len(m); i++ {
			if m[i][c] != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		m[rk], m[p] = m[p], m[rk]
		k := inv(m[rk][c])
		for j := range m[rk] {
			m[rk][j] = m[rk][j] * k % q
		}
		for i := range m {
			if i != rk && m[i][c] != 0 {
				f := m[i][c]
				for j := range m[i] {
					m[i][j] = ((m[i][j]-f*m[rk][j])%q + q) % q
				}
			}
		}
		rk++
	}
	return rk
}

// of tells the draws of one party from those of the others.
func of(party int, label string) bool {
	return strings.HasPrefix(label, fmt.Sprintf("party %d ", party))
}

// moves changes every draw of the dealer, one at a time, such that no other draw moves.
func (e *env) moves(r *mc.Run, n, dealer, seed int, ts []int) (base dealing, labels []string, moved []dealing) {
	what := map[string]any{"dealer": dealer, "thresholds": ts}
	one := func(p []int) (d dealing, l []string) {
		r.Replay(p, func(ch *mc.Chooser) {
			d = e.exec(r, n, ch, seed, what).deal(ts, dealer)
			l = ch.Labels()
		})
		return
	}
	base, all := one(nil)
	for i, l := range all {
		if !of(dealer, l) {
			continue
		}
		for k := 1; k < int(e.N.Int64()); k++ {
			p := make([]int, i+1)
			p[i] = k
			d, _ := one(p)
			r.Step(1)
			if d.reads == base.reads {
				labels, moved = append(labels, l), append(moved, d)
				break
			}
		}
	}
	return
}

func TestA09(t *testing.T) {
	check(t, "A09", func(r *mc.Run) {
		tiny(r, 7, "private evaluations", func(e *env) {
			type cfg struct {
				n  int
				ts []int
			}
			cfgs := []cfg{{2, []int{1}}, {2, []int{2}}, {3, []int{2}}, {3, []int{3}}, {4, []int{2}}, {4, []int{3}}, {4, []int{4}}, {2, []int{2, 2}}, {3, []int{2, 2}}, {3, []int{2, 3}}, {3, []int{3, 2}}, {2, []int{2, 2, 2}}}
			if r.Thorough {
				cfgs = append(cfgs, cfg{5, []int{5}}, cfg{5, []int{2}}, cfg{5, []int{3}}, cfg{5, []int{4}}, cfg{6, []int{3}}, cfg{4, []int{2, 4}}, cfg{4, []int{4, 2}}, cfg{3, []int{3, 3}}, cfg{4, []int{3, 3}}, cfg{3, []int{2, 2, 2}})
			}
			for _, c := range cfgs {
				for dealer := 0; dealer < c.n; dealer++ {
					if c.n > 3 && dealer != 0 && dealer != c.n-1 && !r.Thorough {
						continue
					}
					e.views(r, c.n, dealer, c.ts)
				}
			}
		})
		tiny(r, 199, "two parties in a larger group", func(e *env) {
			for dealer := 0; dealer < 2; dealer++ {
				e.views(r, 2, dealer, []int{2})
			}
		})
		tiny(r, 7, "randomness of evaluations", func(e *env) {
			for _, c := range [][2]int{{2, 1}, {2, 2}, {3, 2}, {3, 3}, {4, 4}} {
				if c[0] > 2 && !r.Thorough && c != [2]int{3, 3} {
					continue
				}
				for dealer := 0; dealer < c[0]; dealer++ {
					if dealer == 0 || dealer == c[0]-1 || r.Thorough {
						e.padded(r, c[0], c[1], dealer)
					}
				}
			}
		})
		tiny(r, 199, "commitments", func(e *env) {
			for _, c := range [][]int{{2, 1}, {2, 2}, {3, 2}, {3, 3}, {3, 2, 3}, {4, 3}, {5, 5}, {12, 12}} {
				n, ts := c[0], c[1:]
				if n == 5 && !r.Thorough {
					continue
				}
				for dealer := 0; dealer < n; dealer++ {
					if n > 5 && dealer != n/2 && !r.Thorough {
						continue
					}
					base, labels, moved := e.moves(r, n, dealer, 11, ts)
					if base.strange {
						continue
					}
					var m, all [][]int64
					for i, d := range moved {
						if len(d.row) != len(base.row) {
							r.Fail(labels[i], "the messages change their number with a draw")
						}
						row := make([]int64, len(base.row))
						for j := range row {
							row[j] = e.Log(e.Add(d.row[j], e.Neg(base.row[j])))
						}
						m = append(m, row)
						with := append([]int64{}, row...)
						for j := range base.vals {
							with = append(with, e.Log(e.Add(d.vals[j], e.Neg(base.vals[j]))))
						}
						all = append(all, with)
					}
					free := 1 // the contribution, and all but one coefficient of each polynomial
					for _, t := range ts {
						free += t - 1
					}
					if got := rank(all, e.N.Int64()); got != len(base.row)+free {
						r.Fail(map[string]any{"parties": n, "thresholds": ts, "dealer": dealer}, "the randomness of the %d commitments and first messages of party %d together with the contribution and the coefficients, %d numbers, depends on %d independent draws", len(base.row), dealer, free, got)
					}
					if got := rank(m, e.N.Int64()); got != len(base.row) {
						r.Fail(map[string]any{"parties": n, "thresholds": ts, "dealer": dealer}, "the randomness of the %d commitments and first messages of party %d depends on %d independent draws only", len(base.row), dealer, got)
					}
					r.State(len(base.row))
					r.Trace(len(moved))
					r.Outcome("commitments with randomness of their own", fmt.Sprint(len(base.row)))
				}
			}
		})
		real(r, "messages", func(e *env) {
			for n := 2; n <= 4; n++ {
				for t := 1; t <= n; t++ {
					for seed := 1; seed <= map[bool]int{true: 6, false: 1}[r.Thorough]; seed++ {
						e.contents(r, n, t, seed)
					}
				}
			}
		})
	})
}

// views enumerates all contributions and coefficients of a dealer, and checks that each
// coalition of recipients sees something that is compatible with all contributions but one.
func (e *env) views(r *mc.Run, n, dealer int, ts []int) {
	q := int(e.N.Int64())
	base, labels, moved := e.moves(r, n, dealer, 3, ts)
	inf := map[string]bool{}
	for i, d := range moved {
		if fmt.Sprint(d.views) != fmt.Sprint(base.views) || !d.gen.Same(base.gen) {
			inf[labels[i]] = true
		}
		if !d.gen.Same(base.gen) && fmt.Sprint(d.rands) != fmt.Sprint(base.rands) {
			r.Fail(map[string]any{"parties": n, "thresholds": ts, "dealer": dealer, "draw": labels[i]}, "the randomness sent along with evaluations changes with the contribution")
		}
	}
	// a coalition of fewer than t parties, for the least t
	least := ts[0]
	for _, t := range ts {
		if t < least {
			least = t
		}
	}
	type key struct{ coalition, view string }
	var mu sync.Mutex
	seen := map[key]map[int64]bool{}
	runs := 0
	var coalitions [][]int
	for m := 0; m < 1<<n; m++ {
		var c []int
		for i := 0; i < n; i++ {
			if m>>i&1 == 1 {
				c = append(c, i)
			}
		}
		if m>>dealer&1 == 0 && len(c) == least-1 {
			coalitions = append(coalitions, c)
		}
	}
	r.ExploreFrom(-1, func(l string) bool { return inf[l] }, func(ch *mc.Chooser) {
		d := e.exec(r, n, ch, 3, map[string]any{"dealer": dealer, "thresholds": ts}).deal(ts, dealer)
		contribution := e.Log(d.gen)
		mu.Lock()
		defer mu.Unlock()
		runs++
		for _, c := range coalitions {
			var v []string
			for k := range ts {
				for _, i := range c {
					v = append(v, d.views[k][i])
				}
			}
			k := key{fmt.Sprint(c), strings.Join(v, " ")}
			if seen[k] == nil {
				seen[k] = map[int64]bool{}
			}
			seen[k][contribution] = true
		}
	})
	r.Step(runs)
	r.Trace(runs)
	r.State(len(seen))
	var ks []key
	for k := range seen {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].coalition+ks[i].view < ks[j].coalition+ks[j].view })
	for _, k := range ks {
		// each resharing with a leading coefficient other than zero excludes at most one contribution
		if len(seen[k]) < q-len(ts) {
			r.Fail(map[string]any{"parties": n, "thresholds": ts, "dealer": dealer, "coalition": k.coalition, "evaluations": k.view},
				"parties %s, fewer than the threshold, receive the evaluations %s from party %d: only %d of %d contributions are compatible with that", k.coalition, k.view, dealer, len(seen[k]), q)
		}
	}
	r.Outcome("views", fmt.Sprintf("%d parties, thresholds %v", n, ts))
}

// padded checks that the randomness a dealer sends along with an evaluation has a pad of its own:
// some draw, over all of its values, makes it take the same values whatever the other draws are.
func (e *env) padded(r *mc.Run, n, t, dealer int) {
	what := map[string]any{"dealer": dealer, "thresholds": []int{t}}
	one := func(set map[int]int) (d dealing, l []string) {
		var p []int
		for i, v := range set {
			for len(p) <= i {
				p = append(p, 0)
			}
			p[i] = v
		}
		r.Replay(p, func(ch *mc.Chooser) {
			d = e.exec(r, n, ch, 5, what).deal([]int{t}, dealer)
			l = ch.Labels()
		})
		r.Step(1)
		return
	}
	base, all := one(nil)
	q := int(e.N.Int64())
	// the draws the randomness for anyone depends on
	var draws []int
	infl := map[int][]bool{}
	for i, l := range all {
		if !of(dealer, l) {
			continue
		}
		for k := 1; k < q; k++ {
			d, _ := one(map[int]int{i: k})
			if d.reads != base.reads {
				continue
			}
			for to := range base.rands[0] {
				if d.rands[0][to] != base.rands[0][to] {
					if infl[i] == nil {
						infl[i] = make([]bool, n)
						draws = append(draws, i)
					}
					infl[i][to] = true
				}
			}
		}
	}
	values := func(pad, to int, with map[int]int) (string, bool) {
		var v []string
		for k := 0; k < q; k++ {
			set := map[int]int{pad: k}
			for i, x := range with {
				set[i] = x
			}
			d, _ := one(set)
			if d.reads == base.reads {
				v = append(v, d.rands[0][to])
			}
		}
		sort.Strings(v)
		return strings.Join(v, " "), len(v) == q
	}
	for to := 0; to < n; to++ {
		if to == dealer {
			continue
		}
		found, why := false, ""
		for _, pad := range draws {
			if !infl[pad][to] {
				continue
			}
			want, full := values(pad, to, nil)
			if !full {
				continue
			}
			found = true
			for _, i := range draws {
				for k := 1; k < q && found && i != pad; k++ {
					if got, full := values(pad, to, map[int]int{i: k}); full && got != want {
						found = false
						why = fmt.Sprintf("over the values of %s it takes the values %s, and after a change of %s the values %s", all[pad], want, all[i], got)
					}
				}
			}
			if found {
				break
			}
		}
		if !found {
			r.Fail(map[string]any{"parties": n, "thresholds": []int{t}, "dealer": dealer, "recipient": to}, "the randomness that party %d sends to party %d along with the evaluation (%d parties, threshold %d) tells about the randomness of its commitments: %s", dealer, to, n, t, why)
		}
		r.State(len(draws))
		r.Trace(1)
	}
	r.Outcome("randomness of evaluations", fmt.Sprintf("%d parties, threshold %d: hides %d draws", n, t, len(draws)-n+1))
}

// contents looks at every message of a full-size run.
func (e *env) contents(r *mc.Run, n, t, seed int) {
	x := e.exec(r, n, nil, seed, map[string]any{"threshold": t})
	var nets []*lock.Net
	s := &shared{ads: make([]*arith.ADSecret, n), tds: make([]*arith.TDSecret, n)}
	errs := make([]error, n)
	step := func(what string, f func(pid int, srv psync.Server)) {
		nets = append(nets, x.run(nil, f))
		x.ok(errs, what)
	}
	step("generating a secret", func(pid int, srv psync.Server) {
		s.ads[pid], errs[pid] = arith.Gen("a", srv, e.egf, uint16(pid), uint16(n))
	})
	step("resharing", func(pid int, _ psync.Server) { s.tds[pid], errs[pid] = s.ads[pid].Reshare(uint16(t)) })
	again := make([]*arith.TDSecret, n)
	step("resharing", func(pid int, _ psync.Server) { again[pid], errs[pid] = s.ads[pid].Reshare(uint16(t)) })
	step("deriving the key", func(pid int, _ psync.Server) { _, errs[pid] = s.tds[pid].Exp() })
	keys := make([]*arith.DKey, n)
	step("generating a key", func(pid int, srv psync.Server) {
		keys[pid], errs[pid] = arith.GenExpReveal(uint16(pid), "k", srv, uint16(n), e.g)
	})
	step("checking a pair", func(pid int, _ psync.Server) {
		errs[pid] = arith.CheckDH(e.g.Gen(), keys[pid].PublicKey(), e.g, keys[pid])
	})
	if n == 2 || r.Thorough {
		// multiplication is not claimed to be zero-knowledge, but its messages hold no secret either
		k := e.ring(n, seed)
		b := make([]*arith.ADSecret, n)
		step("generating a secret", func(pid int, srv psync.Server) {
			b[pid], errs[pid] = arith.Gen("b", srv, e.egf, uint16(pid), uint16(n))
		})
		step("multiplying", func(pid int, _ psync.Server) {
			_, errs[pid] = arith.Mult(s.ads[pid], b[pid], "c", k.priv[pid], k.pub[pid], k.pub)
		})
	}
	for from := 0; from < n; from++ {
		secrets := map[string][]byte{}
		put := func(what string, v *big.Int) {
			if v.BitLen() > 100 {
				secrets[what] = v.Bytes()
			}
		}
		for i, v := range x.src[from].Ints() {
			put(fmt.Sprintf("draw %d", i), v)
		}
		for k, d := range []any{s.ads[from], s.tds[from], again[from], keys[from]} {
			_, ints := held(d)
			for i, v := range ints {
				put(fmt.Sprintf("secret number %d of %s", i, []string{"the secret", "the shared secret", "the secret shared again", "the key"}[k]), v)
			}
		}
		// an evaluation, and what comes with it, is for one party only
		owner := map[string]int{}
		for k := 1; k <= 2; k++ {
			m := nets[k].By(from, 4)
			if m.All {
				x.fail("party %d sends its evaluations to everyone", from)
			}
			for to := range m.Data {
				if to == from {
					continue
				}
				v, rnd := x.evaluation(m.Data[to])
				for _, c := range []*big.Int{v, rnd} {
					name := fmt.Sprintf("evaluation for %d in resharing %d (%x)", to, k, c)
					put(name, c)
					owner[name] = to
				}
			}
		}
		for k, net := range nets {
			for _, m := range net.Log {
				if m.From != from {
					continue
				}
				for to, d := range m.Data {
					if to == from {
						continue
					}
					r.Step(1)
					for name, b := range secrets {
						rev := append([]byte(nil), b...)
						for i := range b {
							rev[len(b)-1-i] = b[i]
						}
						o, private := owner[name]
						if private && o == to && (k == 1 || k == 2) && m.Round == 4 {
							continue
						}
						if k == 1 || k == 2 {
							// with threshold 1 everybody's share is the secret itself
							if v, _ := new(big.Int), 0; m.Round == 4 && t == 1 {
								v, _ = x.evaluation(d)
								if bytes.Equal(v.Bytes(), b) {
									continue
								}
							}
						}
						if bytes.Contains(d, b) || bytes.Contains(d, rev) || bytes.Contains(d, []byte(new(big.Int).SetBytes(b).String())) || bytes.Contains(bytes.ToLower(d), []byte(new(big.Int).SetBytes(b).Text(16))) {
							x.fail("step %d, round %d: the message of party %d to party %d contains its %s", k, m.Round, from, to, name)
						}
					}
				}
			}
		}
		r.State(len(secrets))
	}
	r.Trace(1)
	// no commitment is a predictable function of earlier ones, and none occurs twice
	for k := 1; k <= 2; k++ {
		net := nets[k]
		f := e.resharing(n, t)
		eval := make([][]lab.Aff, n)
		for p := 0; p < n; p++ {
			ps2, err2 := f(2, net.One(p, 2))
			ps3, err3 := f(3, net.One(p, 3))
			if err2 != nil || err3 != nil {
				r.Skip("messages do not look as documented")
				return
			}
			eval[p] = make([]lab.Aff, n)
			for l := 0; l < n; l++ {
				sum := lab.Aff{Inf: true}
				pow := B(1)
				for i := 0; i < t; i++ {
					c, _ := comm(ps2[i].raw)
					sum = e.Add(sum, e.Times(c.first, pow))
					pow = mul(pow, B(int64(l+1)))
				}
				c, _ := comm(ps3[l].raw)
				eval[p][l] = c.first
				if sum.Same(c.first) {
					x.fail("party %d publishes the commitment to its evaluation for party %d without fresh randomness", p, l)
				}
			}
		}
		for p := 0; p < n; p++ {
			sum := lab.Aff{Inf: true}
			for j := 0; j < n; j++ {
				sum = e.Add(sum, eval[j][p])
			}
			ps, err := f(5, net.One(p, 5))
			if err != nil {
				r.Skip("messages do not look as documented")
				return
			}
			at := 1
			if ps[0].kind == 'C' {
				at = 0
			}
			if c, _ := comm(ps[at].raw); c.first.Same(sum) {
				x.fail("party %d publishes the commitment to its share without fresh randomness", p)
			}
		}
	}
	seen := map[string]string{}
	mark := func(where string, b []byte) {
		a, _, err := lab.Unwire(b)
		if err != nil {
			x.fail("%s: %v", where, err)
		}
		if a.Inf {
			x.fail("%s has no randomness", where)
		}
		if o, ok := seen[a.String()]; ok {
			x.fail("the randomness of %s is that of %s", where, o)
		}
		seen[a.String()] = where
	}
	for p := 0; p < n; p++ {
		mark(fmt.Sprintf("the commitment of party %d", p), nets[0].One(p, 0))
		for k := 1; k <= 2; k++ {
			f := e.resharing(n, t)
			for _, round := range []int{0, 2, 3, 5} {
				ps, err := f(round, nets[k].One(p, round))
				if err != nil {
					r.Skip("messages do not look as documented")
					return
				}
				for i, q := range ps {
					b := q.raw
					if q.kind == 'N' {
						b = b[8+binary.BigEndian.Uint32(b)+binary.BigEndian.Uint32(b[4:]):]
					}
					mark(fmt.Sprintf("piece %d of round %d of resharing %d by party %d", i, round, k, p), b)
				}
			}
		}
	}
	r.Outcome("distinct commitments", fmt.Sprint(len(seen)))
}
