package arith

import (
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/lock"
	"verif/harness/mc"

	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// shown is the nonce that the shares announced in a signing session amount to.
func (c *house) shown(net *lock.Net, t int) (lab.Aff, bool) {
	sum := lab.Aff{Inf: true}
	for i := 0; i < t; i++ {
		var p lab.Aff
		found := false
		for round := 0; round < net.Rounds[i] && !found; round++ {
			a, rest, err := lab.Unwire(net.One(i, round))
			if err == nil && len(rest) == 0 && c.e.On(a) {
				p, found = a, true
			}
		}
		if !found {
			return sum, false
		}
		num, den := B(1), B(1)
		for j := 0; j < t; j++ {
			if j != i {
				num.Mul(num, B(int64(j+1)))
				den.Mul(den, B(int64(j-i)))
			}
		}
		den.ModInverse(c.e.Mod(den), c.e.N)
		sum = c.e.Add(sum, c.e.Times(p, num.Mul(num, den)))
	}
	return sum, true
}

// attempt lets all parties sign, and compares with the oldest presignature left.
func (c *house) attempt(m *big.Int, lose int, interpolates bool) {
	var deliver func(round, from, to int) bool
	if lose >= 0 {
		deliver = func(round, _, _ int) bool { return round != lose }
	}
	if len(c.queue) == 0 {
		res, net := c.sign(m, deliver)
		for i, s := range res {
			c.r.Step(1)
			if s.err == nil {
				c.fail("party %d signs without a presignature", i)
			}
			if net.Rounds[i] > 0 {
				c.fail("party %d enters %d rounds without a presignature", i, net.Rounds[i])
			}
		}
		c.r.Outcome("signing", "nothing left")
		return
	}
	ps := c.queue[0]
	c.queue = c.queue[1:]
	res, net := c.sign(m, deliver)
	if interpolates {
		k, ok := c.shown(net, ps.t)
		if !ok || !k.Same(ps.k) {
			c.fail("the nonce announced is %v, that of the oldest presignature is %v", k, ps.k)
		}
	}
	c.judge(m, ps, res, net, deliver)
}

// fails lets a presigning fail. lost tells which messages do not arrive.
func (c *house) fails(t int, lost func(round, from, to int) bool) {
	errs := make([]error, c.n)
	c.run(func(round, from, to int, d []byte) ([]byte, bool) { return d, !lost(round, from, to) }, func(pid int, _ psync.Server) {
		errs[pid] = c.ps[pid].Presign(uint16(t))
	})
	for i, err := range errs {
		c.r.Step(1)
		if err == nil {
			c.fail("presigning succeeds at party %d though messages are lost", i)
		}
	}
	c.r.Outcome("presigning", "failed")
}

// refuses calls for presignatures that can not be made.
func (c *house) refuses(t int) {
	errs := make([]error, c.n)
	net := c.run(nil, func(pid int, _ psync.Server) { errs[pid] = c.ps[pid].Presign(uint16(t)) })
	for i, err := range errs {
		c.r.Step(1)
		if err == nil || net.Rounds[i] > 0 {
			c.fail("presigning with threshold %d among %d ends with error %v after %d rounds of party %d", t, c.n, err, net.Rounds[i], i)
		}
	}
	c.r.Outcome("presigning", "refused")
}

func TestT02(t *testing.T) {
	check(t, "T02", func(r *mc.Run) {
		prepare(r)
		histories := func(e *env, n, depth int, interpolates bool, rounds int) {
			ops := []string{"presign", "presign with another threshold", "presigning fails", "sign", "first round of signing fails", "second round of signing fails", "third round of signing fails", "impossible presigning"}
			total := 1
			for i := 0; i < depth; i++ {
				total *= len(ops)
			}
			r.Parallel(total, func(code int) {
				var seq []string
				for i, k := 0, code; i < depth; i, k = i+1, k/len(ops) {
					seq = append(seq, ops[k%len(ops)])
				}
				c := e.house(r, n, nil, code, seq)
				for i, k := 0, code; i < depth; i, k = i+1, k/len(ops) {
					m := B(int64(1 + i))
					switch k % len(ops) {
					case 0:
						c.presign(n)
					case 1:
						c.presign(1)
					case 2:
						at := (code + 5*i) % rounds
						c.fails(n, func(round, _, _ int) bool { return round == at })
					case 3:
						c.attempt(m, -1, interpolates)
					case 4, 5, 6:
						c.attempt(m, k%len(ops)-4, interpolates)
					case 7:
						c.refuses([]int{0, n + 1, 65535}[i%3])
					}
				}
				// what is left comes in order
				for len(c.queue) > 0 {
					c.attempt(B(77), -1, interpolates)
				}
				c.attempt(B(78), -1, interpolates)
				r.State(depth)
				r.Trace(1)
				r.Outcome("histories", fmt.Sprintf("depth %d", depth))
			})
		}
		// what a presigning takes, and whether announced nonces can be put together
		measure := func(e *env, n int) (rounds int, interpolates bool) {
			c := e.house(r, n, nil, 1, "measuring")
			m := c.presign(n)
			rounds = m.net.Rounds[0]
			_, net := c.sign(B(5), nil)
			k, ok := c.shown(net, n)
			c.queue = nil
			if ok && k.Same(m.k) {
				return rounds, true
			}
			// another presignature may be used first: then this is no way of telling nonces
			c = e.house(r, n, nil, 2, "measuring")
			m = c.presign(1)
			_, net = c.sign(B(5), nil)
			k, ok = c.shown(net, 1)
			if !ok || !k.Same(m.k) {
				r.Note("announced nonces are not put together from the shares with indices from 1")
				return rounds, false
			}
			return rounds, true
		}
		tiny(r, 199, "histories", func(e *env) {
			rounds, inter := measure(e, 2)
			for depth := 1; depth <= map[bool]int{true: 6, false: 5}[r.Thorough]; depth++ {
				histories(e, 2, depth, inter, rounds)
			}
			rounds, inter = measure(e, 3)
			histories(e, 3, map[bool]int{true: 4, false: 2}[r.Thorough], inter, rounds)
		})
		tiny(r, 199, "long queues", func(e *env) {
			// every way of interleaving up to six presignings with as many signings
			_, inter := measure(e, 2)
			l := map[bool]int{true: 12, false: 8}[r.Thorough]
			r.Parallel(1<<l, func(mask int) {
				c := e.house(r, 2, nil, mask, fmt.Sprintf("presign or sign: %b", mask))
				for i := 0; i < l; i++ {
					if mask>>i&1 == 1 {
						c.presign(1 + i%2)
					} else {
						c.attempt(B(int64(i)), -1, inter)
					}
				}
				for len(c.queue) > 0 {
					c.attempt(B(9), mask%4-1, inter)
				}
				c.attempt(B(10), -1, inter)
				r.State(l)
				r.Trace(1)
			})
		})
		tiny(r, 199, "deep queues", func(e *env) {
			_, inter := measure(e, 2)
			ls := []int{9, 17, 33, 65, 129, 260}
			if r.Thorough {
				ls = append(ls, 513, 1030, 2060)
			}
			r.Parallel(len(ls)*2, func(k int) {
				l := ls[k/2]
				c := e.house(r, 2, nil, k, fmt.Sprintf("%d presignatures, half of them used, as many again", l))
				for _, src := range c.src {
					src.Long = true
				}
				for i := 0; i < l; i++ {
					c.presign(1 + (i+i/3)%2)
				}
				for i := 0; i < l/2; i++ {
					c.attempt(B(int64(i)), -1, inter)
				}
				for i := 0; i < l && k%2 > 0; i++ {
					c.presign(1 + i%2)
				}
				for len(c.queue) > 0 {
					c.attempt(B(9), -1, inter)
				}
				c.attempt(B(10), -1, inter)
				r.State(l)
				r.Trace(1)
			})
		})
		tiny(r, 31, "a message of a presigning is lost", func(e *env) {
			for n := 2; n <= 3; n++ {
				rounds, inter := measure(e, n)
				for t := 1; t <= n; t++ {
					r.Parallel(rounds*n*n, func(i int) {
						at, from, to := i/n/n, i/n%n, i%n
						if from == to {
							return
						}
						c := e.house(r, n, nil, i, fmt.Sprintf("in round %d of a presigning with threshold %d the message from %d to %d is lost", at, t, from, to))
						c.presign(n)
						lost := func(round, f, g int) bool { return round == at && f == from && g == to }
						if at < rounds-1 {
							c.fails(t, lost)
							c.presign(1)
							c.attempt(B(3), -1, inter)
							c.attempt(B(4), -1, inter)
							c.attempt(B(5), -1, inter)
						} else {
							// only the recipient knows: it is left with one presignature, and then none
							errs := make([]error, n)
							c.run(func(round, f, g int, d []byte) ([]byte, bool) { return d, !lost(round, f, g) }, func(pid int, _ psync.Server) {
								errs[pid] = c.ps[pid].Presign(uint16(t))
							})
							if errs[to] == nil {
								c.fail("presigning succeeds at party %d, who misses a message", to)
							}
							c.attempt(B(3), -1, inter)
							var err error
							net := c.run(nil, func(pid int, _ psync.Server) {
								if pid == to {
									_, err = c.ps[pid].Sign(B(4))
								}
							})
							if err == nil || net.Rounds[to] > 0 {
								c.fail("a presigning that failed at party %d leaves a presignature: signing ends with %v after %d rounds", to, err, net.Rounds[to])
							}
						}
						r.State(1)
						r.Trace(1)
					})
				}
			}
		})
		tiny(r, 199, "messages of a signing are lost", func(e *env) {
			// any one or two: those who fail and those who do not go on with the same presignature
			for n := 2; n <= 3; n++ {
				_, inter := measure(e, n)
				for t := 1; t <= n; t++ {
					k := 3 * n * n
					r.Parallel(k*k, func(i int) {
						c := e.house(r, n, nil, i, map[string]any{"threshold": t, "lost": [][3]int{{i % k / n / n, i % k / n % n, i % n}, {i / k / n / n, i / k / n % n, i / k % n}}})
						for j := 0; j < 3; j++ {
							c.presign(max(1, t-j%2))
						}
						ps := c.queue[0]
						c.queue = c.queue[1:]
						deliver := func(round, from, to int) bool {
							x := (round*n+from)*n + to
							return x != i%k && x != i/k
						}
						res, net := c.sign(B(8), deliver)
						c.judge(B(8), ps, res, net, deliver)
						c.attempt(B(9), -1, inter)
						c.attempt(B(10), -1, inter)
						c.attempt(B(11), -1, inter)
						r.State(4)
						r.Trace(1)
					})
				}
			}
		})
		tiny(r, 7, "zero masks", func(e *env) {
			// presignatures whose mask is zero are consumed like others
			_, inter := measure(e, 2)
			r.Parallel(map[bool]int{true: 2000, false: 300}[r.Thorough], func(seed int) {
				c := e.house(r, 2, nil, seed, "three presignatures")
				for i := 0; i < 3; i++ {
					c.presign(2 - i%2)
				}
				for i := 0; i < 4; i++ {
					c.attempt(B(int64(seed+i)), -1, inter)
				}
				r.State(4)
				r.Trace(1)
			})
		})
		real(r, "history", func(e *env) {
			rounds, inter := measure(e, 2)
			r.Parallel(map[bool]int{true: 12, false: 3}[r.Thorough], func(i int) {
				c := e.house(r, 2, nil, i, "history")
				c.presign(2)
				c.fails(2, func(round, _, _ int) bool { return round == (9*i+3)%rounds })
				c.presign(1)
				c.attempt(B(3), i%3, inter)
				c.presign(2)
				c.attempt(B(3), -1, inter)
				c.attempt(B(3), -1, inter)
				c.attempt(B(3), -1, inter)
				r.State(8)
				r.Trace(1)
			})
		})
	})
}
