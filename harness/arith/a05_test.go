package arith

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/lock"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// dealt runs a resharing in which messages are altered and tells how the victim fared.
func (x *exec) dealt(t, victim int, tamper func(round, from, to int, d []byte) ([]byte, bool)) (*arith.TDSecret, error, *lock.Net) {
	s := x.gen("a")
	tds, errs := make([]*arith.TDSecret, x.n), make([]error, x.n)
	net := x.run(tamper, func(pid int, _ psync.Server) { tds[pid], errs[pid] = s.ads[pid].Reshare(uint16(t)) })
	return tds[victim], errs[victim], net
}

func (x *exec) mustAbort(tds *arith.TDSecret, err error, victim int, what string) {
	x.r.Step(1)
	x.r.Trace(1)
	if err == nil || tds != nil {
		x.fail("party %d completes a resharing (error %v) in which %s", victim, err, what)
	}
}

func TestA05(t *testing.T) {
	check(t, "A05", func(r *mc.Run) {
		alter := func(e *env, n, t, dealer, victim int, rounds []int, masks []int) {
			seed := 5
			base := e.exec(r, n, nil, seed, "untouched")
			tds, err, net := base.dealt(t, victim, nil)
			if err != nil || tds == nil {
				base.fail("an honest resharing fails: %v", err)
			}
			_, _, other := e.exec(r, n, nil, seed+1, "untouched").dealt(t, victim, nil)
			f := e.resharing(n, t)
			for _, round := range rounds {
				orig := net.By(dealer, round).Data[victim]
				ps, err := f(round, orig)
				known := err == nil
				want := meaning(ps, nil)
				// pieces of the same step of another session, of the other parties and of other steps
				var spare []part
				var whole []edit
				for k := 0; k < 6; k++ {
					for p := 0; p < n; p++ {
						for _, l := range []*lock.Net{net, other} {
							for to, d := range l.By(p, k).Data {
								if to == p || p == dealer && l == net && k == round && to == victim {
									continue
								}
								if q, err := f(k, d); err == nil && (k == round || !e.Tiny) {
									spare = append(spare, q...)
								}
								if k == round {
									whole = append(whole, edit{fmt.Sprintf("replaced by the message of party %d to %d (same session: %v)", p, to, l == net), d})
								}
							}
						}
					}
				}
				es := append(edits(ps, orig, masks, spare), whole...)
				if masks == nil && known && e.Tiny {
					es = few(ps, orig, spare)
				}
				if !known {
					es = unfamiliar(r, round, orig, whole)
				}
				if round == 4 && !known {
					continue
				}
				if round == 4 && (masks != nil || !e.Tiny) {
					es = append(es, e.evaluations(orig)...)
				}
				r.Parallel(len(es), func(i int) {
					if len(es[i].data) == len(orig) && string(es[i].data) == string(orig) {
						return
					}
					if known && meaning(f(round, es[i].data)) == want {
						r.Outcome("alterations", "without effect on the meaning")
						return
					}
					x := e.exec(r, n, nil, seed, map[string]any{"threshold": t, "dealer": dealer, "round": round, "alteration": es[i].name, "message": fmt.Sprintf("%x", es[i].data)})
					tds, err, _ := x.dealt(t, victim, func(rd, from, to int, d []byte) ([]byte, bool) {
						if rd == round && from == dealer && to == victim {
							return es[i].data, true
						}
						return d, true
					})
					x.mustAbort(tds, err, victim, fmt.Sprintf("the message of party %d in round %d is altered: %s", dealer, round, es[i].name))
					r.Outcome("alterations", fmt.Sprintf("round %d", round))
				})
				r.State(len(es))
				if round != 2 || e.Tiny || !known {
					continue
				}
				// the opening altered, and the commitment to it made to match
				r.Parallel(len(es), func(i int) {
					qs, err := f(2, es[i].data)
					if err != nil || meaning(qs, nil) == want {
						return
					}
					x := e.exec(r, n, nil, seed, map[string]any{"threshold": t, "dealer": dealer, "round": "1 and 2", "alteration": es[i].name, "message": fmt.Sprintf("%x", es[i].data)})
					l, total := 0, 0
					for k, q := range qs {
						if k < t {
							l += len(q.raw)
						}
						total += len(q.raw)
					}
					nmc := make([]byte, 8)
					binary.LittleEndian.PutUint32(nmc, uint32(l))
					binary.LittleEndian.PutUint32(nmc[4:], uint32(total-l))
					nmc = append(nmc, es[i].data[:total]...)
					tds, err, _ := x.dealt(t, victim, func(rd, from, to int, d []byte) ([]byte, bool) {
						if from == dealer && to == victim && rd == 1 {
							return nmc, true
						}
						if from == dealer && to == victim && rd == 2 {
							return es[i].data, true
						}
						return d, true
					})
					x.mustAbort(tds, err, victim, fmt.Sprintf("party %d opens to altered values that it committed to: %s", dealer, es[i].name))
					r.Outcome("alterations", "committed and opened alike")
				})
			}
		}
		all := []int{0, 1, 2, 3, 4, 5}
		var every []int
		for m := 1; m < 256; m++ {
			every = append(every, m)
		}
		// what the receiver compares exactly, on a tiny curve
		tiny(r, 7, "exact steps", func(e *env) {
			masks := []int{1, 2, 4, 8, 0x80}
			if r.Thorough {
				masks = every
			}
			for _, c := range [][4]int{{2, 1, 0, 1}, {2, 2, 1, 0}, {3, 2, 2, 0}, {3, 3, 0, 2}} {
				alter(e, c[0], c[1], c[2], c[3], []int{1, 2}, masks)
				alter(e, c[0], c[1], c[2], c[3], []int{4}, every)
			}
		})
		tiny(r, 31, "exact steps in larger committees", func(e *env) {
			for n := 5; n <= 7; n++ {
				for dealer := 0; dealer < n; dealer++ {
					if n == 7 || dealer == n-1 || r.Thorough {
						alter(e, n, 1+(dealer+n-2)%n, dealer, (dealer+n-1)%n, []int{1, 2, 4}, nil)
					}
				}
			}
		})
		real(r, "all steps", func(e *env) {
			masks := []int{1}
			if r.Thorough {
				masks = []int{1, 2, 0x10, 0x80}
			}
			alter(e, 2, 2, 0, 1, all, masks)
			alter(e, 2, 1, 1, 0, all, masks[:1])
			if r.Thorough {
				alter(e, 3, 2, 2, 0, all, masks[:1])
				alter(e, 3, 3, 1, 2, all, masks[:1])
			} else {
				alter(e, 3, 2, 2, 0, all, nil)
			}
		})
		real(r, "dealers", func(e *env) {
			cases := [][4]int{{2, 1, 0, 1}, {2, 2, 1, 0}, {3, 2, 2, 0}, {3, 3, 0, 2}, {3, 2, 0, 1}, {6, 6, 5, 4}}
			if r.Thorough {
				cases = append(cases, [][4]int{{4, 4, 3, 0}, {5, 5, 4, 3}, {7, 7, 6, 5}, {7, 4, 0, 6}}...)
			}
			for _, c := range cases {
				n, t, dealer, victim := c[0], c[1], c[2], c[3]
				base := e.exec(r, n, nil, 9, "untouched")
				_, err, net := base.dealt(t, victim, nil)
				if err != nil {
					base.fail("an honest resharing fails: %v", err)
				}
				strange := false
				for k := 0; k < 6; k++ {
					_, err := e.resharing(n, t)(k, net.By(dealer, k).Data[victim])
					strange = strange || err != nil
				}
				if strange {
					r.Skip("messages do not look as documented, no dealer can be made of them")
					continue
				}
				ds := e.dealers(n, t, dealer, victim)
				r.Parallel(len(ds), func(i int) {
					x := e.exec(r, n, nil, 9, map[string]any{"threshold": t, "dealer": dealer, "strategy": ds[i].name})
					m := ds[i].make(x)
					tds, err, _ := x.dealt(t, victim, m)
					x.mustAbort(tds, err, victim, "the dealer "+ds[i].name)
					r.State(1)
					r.Outcome("dealers", ds[i].name)
				})
			}
		})
	})
}

// few alters each piece of a message once in each of several ways.
func few(ps []part, b []byte, spare []part) (es []edit) {
	at := 0
	for i, p := range ps {
		end := at + len(p.raw)
		for k := at; k < end; k += max(1, len(p.raw)/3) {
			c := append([]byte(nil), b...)
			c[k] ^= 1
			es = append(es, edit{fmt.Sprintf("byte %d xor 1", k), c})
		}
		for k, q := range append(append([]part(nil), spare...), ps...) {
			if q.kind == p.kind && q.mean != p.mean {
				c := append([]byte(nil), b[:at]...)
				es = append(es, edit{fmt.Sprintf("piece %d replaced by piece %d", i, k), append(append(c, q.raw...), b[end:]...)})
				break
			}
		}
		es = append(es, edit{fmt.Sprintf("piece %d left out", i), append(append([]byte(nil), b[:at]...), b[end:]...)})
		at = end
	}
	return append(es, edit{"cut by a byte", b[:len(b)-1]}, edit{"empty", nil}, edit{"a byte added", append(append([]byte(nil), b...), 1)})
}

// evaluations are all private evaluations of a tiny group with all randomness, in several forms.
func (e *env) evaluations(orig []byte) (es []edit) {
	mk := func(v, r *big.Int) []byte {
		b := make([]byte, 4)
		binary.LittleEndian.PutUint32(b, uint32(len(v.Bytes())))
		return append(append(b, v.Bytes()...), r.Bytes()...)
	}
	var vals []*big.Int
	if e.Tiny {
		for v := int64(0); v <= 2*e.N.Int64(); v++ {
			vals = append(vals, B(v))
		}
	} else {
		l := binary.LittleEndian.Uint32(orig)
		v, r := new(big.Int).SetBytes(orig[4:4+l]), new(big.Int).SetBytes(orig[4+l:])
		vals = []*big.Int{B(0), B(1), e.N, v, r, add(v, B(1)), add(r, B(1)), sub(e.N, e.Mod(v)), sub(e.N, e.Mod(r)), add(v, e.N)}
	}
	for _, v := range vals {
		for _, r := range vals {
			es = append(es, edit{fmt.Sprintf("evaluation %v with randomness %v", v, r), mk(v, r)})
		}
	}
	return
}

// dealer is a strategy of a party that shares inconsistently: it alters several of its
// messages in a coordinated way.
type dealer struct {
	name string
	make func(x *exec) func(round, from, to int, d []byte) ([]byte, bool)
}

func decC(b []byte) *commitment.ElGamal {
	c := &commitment.ElGamal{}
	if err := c.Decode(lab.Reader(b)); err != nil {
		panic(mc.Broken("decoding an honest commitment: %v", err))
	}
	return c
}

// dealers builds the strategies. Each makes its messages agree with one another as far as it
// can, including openings that match the commitment of the second step, and new proofs.
func (e *env) dealers(n, t, from_, victim int) (ds []dealer) {
	plus := func(b []byte, v, r *big.Int) *commitment.ElGamal {
		return e.egf.Neutral().Compose(decC(b), e.egf.Create(v, r))
	}
	proof := func(p *zkpok.ZKEGRefresh, err error) []byte {
		if err != nil {
			panic(mc.Broken("proving: %v", err))
		}
		return lab.EncodeTo(p)
	}
	know := func(p *zkpok.ZKEGKnow, err error) []byte {
		if err != nil {
			panic(mc.Broken("proving: %v", err))
		}
		return lab.EncodeTo(p)
	}
	join := func(ps []part) (b []byte) {
		for _, p := range ps {
			b = append(b, p.raw...)
		}
		return
	}
	f := e.resharing(n, t)
	parse := func(round int, d []byte) []part {
		ps, err := f(round, d)
		if err != nil {
			panic(mc.Broken("the message of round %d does not look as documented: %x", round, d))
		}
		return append([]part(nil), ps...)
	}
	nmc := func(opening []byte, ps []part) []byte {
		l := 0
		for _, p := range ps[:t] {
			l += len(p.raw)
		}
		b := make([]byte, 8)
		binary.LittleEndian.PutUint32(b, uint32(l))
		binary.LittleEndian.PutUint32(b[4:], uint32(len(opening)-l))
		return append(b, opening...)
	}
	// learn runs the session once, to know the messages the honest dealer would send
	learn := func(x *exec) [][]byte {
		_, err, net := e.exec(x.r, n, nil, 9, "untouched").dealt(t, victim, nil)
		if err != nil {
			x.fail("an honest resharing fails: %v", err)
		}
		var m [][]byte
		for k := 0; k < 6; k++ {
			m = append(m, net.By(from_, k).Data[victim])
		}
		return m
	}
	with := func(repl map[int][]byte) func(round, from, to int, d []byte) ([]byte, bool) {
		return func(round, from, to int, d []byte) ([]byte, bool) {
			if b, ok := repl[round]; ok && from == from_ && to == victim {
				return b, true
			}
			return d, true
		}
	}
	shares := func(name string, edit func(x *exec, m [][]byte, repl map[int][]byte)) {
		ds = append(ds, dealer{name, func(x *exec) func(round, from, to int, d []byte) ([]byte, bool) {
			m, repl := learn(x), map[int][]byte{}
			lock.As(lock.Wide(nil, nil, 77, 0), func() { edit(x, m, repl) })
			return with(repl)
		}})
	}
	opening := func(repl map[int][]byte, ps []part) {
		b := join(ps)
		repl[2], repl[1] = b, nmc(b, ps)
	}
	evalOf := func(m [][]byte) (v, r *big.Int) {
		l := binary.LittleEndian.Uint32(m[4])
		return new(big.Int).SetBytes(m[4][4 : 4+l]), new(big.Int).SetBytes(m[4][4+l:])
	}
	mkEval := func(v, r *big.Int) []byte {
		b := make([]byte, 4)
		binary.LittleEndian.PutUint32(b, uint32(len(v.Bytes())))
		return append(append(b, v.Bytes()...), r.Bytes()...)
	}
	for i := 0; i < t; i++ {
		shares(fmt.Sprintf("commits to another coefficient %d than it proves to know, and opens accordingly", i), func(x *exec, m [][]byte, repl map[int][]byte) {
			ps := parse(2, m[2])
			ps[i].raw = lab.EncC(plus(ps[i].raw, B(1), B(0)))
			opening(repl, ps)
		})
		shares(fmt.Sprintf("proves to know another value than coefficient %d", i), func(x *exec, m [][]byte, repl map[int][]byte) {
			ps := parse(2, m[2])
			ps[t+i].raw = know(zkpok.NewZKEGKnow(e.egf, e.egf.Create(B(11), B(12)), B(11), B(12)))
			opening(repl, ps)
		})
		shares(fmt.Sprintf("uses another value as coefficient %d, with a proof that it knows it", i), func(x *exec, m [][]byte, repl map[int][]byte) {
			ps := parse(2, m[2])
			c := e.egf.Create(B(11), B(12))
			ps[i].raw = lab.EncC(c)
			ps[t+i].raw = know(zkpok.NewZKEGKnow(e.egf, c, B(11), B(12)))
			if i == 0 {
				ps[2*t].raw = proof(zkpok.NewZKEGRefresh(e.egf, e.egf.Create(B(11), B(0)), c, B(12)))
			}
			opening(repl, ps)
		})
		shares(fmt.Sprintf("leaves coefficient %d out by committing to the neutral element", i), func(x *exec, m [][]byte, repl map[int][]byte) {
			ps := parse(2, m[2])
			c := e.egf.Neutral()
			ps[i].raw = lab.EncC(c)
			ps[t+i].raw = know(zkpok.NewZKEGKnow(e.egf, c, B(0), B(0)))
			opening(repl, ps)
		})
	}
	shares("proves for its first coefficient that it refreshes itself", func(x *exec, m [][]byte, repl map[int][]byte) {
		ps := parse(2, m[2])
		c := e.egf.Create(B(11), B(12))
		ps[0].raw = lab.EncC(c)
		ps[t].raw = know(zkpok.NewZKEGKnow(e.egf, c, B(11), B(12)))
		ps[2*t].raw = proof(zkpok.NewZKEGRefresh(e.egf, c, c, B(0)))
		opening(repl, ps)
	})
	shares("sends an evaluation off by one, with commitment and proof made for it", func(x *exec, m [][]byte, repl map[int][]byte) {
		ps := parse(3, m[3])
		old := ps[victim].raw
		c := plus(old, B(1), B(0))
		ps[victim].raw = lab.EncC(c)
		ps[n+victim].raw = proof(zkpok.NewZKEGRefresh(e.egf, plus(old, B(1), sub(e.N, B(5))), c, B(5)))
		repl[3] = join(ps)
		v, rr := evalOf(m)
		repl[4] = mkEval(add(v, B(1)), rr)
	})
	shares("sends an evaluation off by one, with a commitment made for it and the old proof", func(x *exec, m [][]byte, repl map[int][]byte) {
		ps := parse(3, m[3])
		ps[victim].raw = lab.EncC(plus(ps[victim].raw, B(1), B(0)))
		repl[3] = join(ps)
		v, rr := evalOf(m)
		repl[4] = mkEval(add(v, B(1)), rr)
	})
	for l := 0; l < n; l++ {
		shares(fmt.Sprintf("publishes a commitment to a wrong evaluation for party %d, with a proof made for it", l), func(x *exec, m [][]byte, repl map[int][]byte) {
			ps := parse(3, m[3])
			old := ps[l].raw
			c := plus(old, B(3), B(0))
			ps[l].raw = lab.EncC(c)
			ps[n+l].raw = proof(zkpok.NewZKEGRefresh(e.egf, decC(old), c, B(0)))
			repl[3] = join(ps)
		})
	}
	shares("sends the evaluation meant for another party together with its commitment", func(x *exec, m [][]byte, repl map[int][]byte) {
		ps := parse(3, m[3])
		o := (victim + 1) % n
		ps[victim].raw, ps[o].raw = ps[o].raw, ps[victim].raw
		ps[n+victim].raw, ps[n+o].raw = ps[n+o].raw, ps[n+victim].raw
		repl[3] = join(ps)
	})
	shares("opens to the coefficients of another session", func(x *exec, m [][]byte, repl map[int][]byte) {
		_, _, net := e.exec(x.r, n, nil, 10, "another").dealt(t, victim, nil)
		repl[1], repl[2] = net.By(from_, 1).Data[victim], net.By(from_, 2).Data[victim]
	})
	shares("commits to a share other than its own in the end, with a proof made for it", func(x *exec, m [][]byte, repl map[int][]byte) {
		ps := parse(5, m[5])
		pc, pn := &ps[1], &ps[0]
		if ps[0].kind == 'C' {
			pc, pn = pn, pc
		}
		old := pc.raw
		c := plus(old, B(1), B(0))
		pc.raw = lab.EncC(c)
		pn.raw = proof(zkpok.NewZKEGRefresh(e.egf, plus(old, B(1), sub(e.N, B(5))), c, B(5)))
		repl[5] = join(ps)
	})
	return ds
}
