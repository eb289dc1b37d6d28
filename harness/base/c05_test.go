package base

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"sync"
	"testing"

	"verif/detrand"
	"verif/harness/lab"
	"verif/harness/mc"

	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// shared is what concurrent operations read together.
type shared struct {
	e      *env
	f      *commitment.ElGamalFactory
	p, q   curve.Point
	s, big *big.Int
	c, d   *commitment.ElGamal
	v, rnd *big.Int
	know   *zkpok.ZKEGKnow
	ref    *zkpok.ZKEGRefresh
	msg    []byte
	encP   []byte
	encC   []byte
}

func newShared(e *env) *shared {
	s := &shared{e: e, f: e.factory(B(3)), p: e.g.ScalarBaseMult(B(5)), q: e.g.ScalarBaseMult(B(2)), s: B(4), big: add(e.N, B(2)), v: B(5), rnd: B(2)}
	s.c = s.f.Create(s.v, s.rnd)
	s.d = s.f.Create(s.v, B(6))
	var err error
	if s.know, err = zkpok.NewZKEGKnow(s.f, s.c, s.v, s.rnd); err != nil {
		panic(mc.Broken("%v", err))
	}
	if s.ref, err = zkpok.NewZKEGRefresh(s.f, s.c, s.d, s.s); err != nil {
		panic(mc.Broken("%v", err))
	}
	s.msg = []byte("some message")
	s.encP, s.encC = lab.Enc(e.g, s.p), lab.EncC(s.c)
	return s
}

type shop struct {
	name string
	run  func(s *shared, yield func()) string
}

// yielder is a stream that is a scheduling point.
type yielder struct {
	rd io.Reader
	wr io.Writer
	y  func()
}

func (y *yielder) Read(p []byte) (int, error)  { y.y(); return y.rd.Read(p) }
func (y *yielder) Write(p []byte) (int, error) { y.y(); return y.wr.Write(p) }

func sharedOps() []shop {
	pt := func(s *shared, p curve.Point) string { return lab.See(s.e.g, p).String() }
	cm := func(c *commitment.ElGamal) string { return fmt.Sprintf("%x", lab.EncC(c)) }
	ok := func(err error) string { return fmt.Sprint(err) }
	return []shop{
		{"Add", func(s *shared, _ func()) string { return pt(s, s.e.g.Add(s.p, s.q)) }},
		{"Add, same", func(s *shared, _ func()) string { return pt(s, s.e.g.Add(s.p, s.p)) }},
		{"Neg", func(s *shared, _ func()) string { return pt(s, s.e.g.Neg(s.p)) }},
		{"ScalarMult", func(s *shared, _ func()) string { return pt(s, s.e.g.ScalarMult(s.p, s.s)) }},
		{"ScalarMult, unreduced", func(s *shared, _ func()) string { return pt(s, s.e.g.ScalarMult(s.q, s.big)) }},
		{"ScalarBaseMult", func(s *shared, _ func()) string { return pt(s, s.e.g.ScalarBaseMult(s.s)) }},
		{"ScalarBaseMult, unreduced", func(s *shared, _ func()) string { return pt(s, s.e.g.ScalarBaseMult(s.big)) }},
		{"Gen, Order, Neutral", func(s *shared, _ func()) string {
			return pt(s, s.e.g.Gen()) + s.e.g.Order().String() + pt(s, s.e.g.Neutral())
		}},
		{"Equal", func(s *shared, _ func()) string {
			return fmt.Sprint(s.e.g.Equal(s.p, s.q), s.e.g.Equal(s.p, s.p), s.e.g.Equal(s.e.g.Neutral(), s.p))
		}},
		{"Encode", func(s *shared, y func()) string {
			var b bytes.Buffer
			err := s.e.g.Encode(s.p, &yielder{nil, &b, y})
			return fmt.Sprintf("%x %v", b.Bytes(), err)
		}},
		{"Decode", func(s *shared, y func()) string {
			p, err := s.e.g.Decode(&yielder{bytes.NewReader(s.encP), nil, y})
			if err != nil {
				return err.Error()
			}
			return pt(s, p)
		}},
		{"NewSecp256k1Group", func(s *shared, _ func()) string {
			g := curve.NewSecp256k1Group()
			return lab.See(g, g.ScalarBaseMult(B(3))).String()
		}},
		{"NewElGamalFactory", func(s *shared, _ func()) string {
			return cm(commitment.NewElGamalFactory(s.q).Create(s.v, s.s))
		}},
		{"Create", func(s *shared, _ func()) string { return cm(s.f.Create(s.s, s.rnd)) }},
		{"Neutral", func(s *shared, _ func()) string { return cm(s.f.Neutral()) + fmt.Sprint(s.f.IsNeutral(s.f.Neutral())) }},
		{"IsNeutral", func(s *shared, _ func()) string { return fmt.Sprint(s.f.IsNeutral(s.c)) }},
		{"Compose", func(s *shared, _ func()) string { return cm(s.f.Neutral().Compose(s.c, s.d)) }},
		{"Exp", func(s *shared, _ func()) string { return cm(s.f.Neutral().Exp(s.c, s.big)) }},
		{"Inverse", func(s *shared, _ func()) string { return cm(s.f.Neutral().Inverse(s.d)) }},
		{"commitment Equal", func(s *shared, _ func()) string { return fmt.Sprint(s.c.Equal(s.c, s.d), s.d.Equal(s.c, s.c)) }},
		{"commitment Encode", func(s *shared, y func()) string {
			var b bytes.Buffer
			err := s.c.Encode(&yielder{nil, &b, y})
			return fmt.Sprintf("%x %v", b.Bytes(), err)
		}},
		{"commitment Decode", func(s *shared, y func()) string {
			c := &commitment.ElGamal{}
			if err := c.Decode(&yielder{bytes.NewReader(s.encC), nil, y}); err != nil {
				return err.Error()
			}
			return cm(c)
		}},
		{"NewZKEGKnow", func(s *shared, _ func()) string {
			z, err := zkpok.NewZKEGKnow(s.f, s.c, s.v, s.rnd)
			if err != nil {
				return err.Error()
			}
			return ok(z.Verify(s.f, s.c))
		}},
		{"NewZKEGRefresh", func(s *shared, _ func()) string {
			z, err := zkpok.NewZKEGRefresh(s.f, s.c, s.d, s.s)
			if err != nil {
				return err.Error()
			}
			return ok(z.Verify(s.f, s.c, s.d))
		}},
		{"know.Verify", func(s *shared, _ func()) string { return ok(s.know.Verify(s.f, s.c)) }},
		{"refresh.Verify", func(s *shared, _ func()) string { return ok(s.ref.Verify(s.f, s.c, s.d)) }},
		{"know Encode, Decode", func(s *shared, y func()) string {
			var b bytes.Buffer
			if err := s.know.Encode(&yielder{nil, &b, y}); err != nil {
				return err.Error()
			}
			z := &zkpok.ZKEGKnow{}
			if err := z.Decode(&yielder{&b, nil, y}); err != nil {
				return err.Error()
			}
			return ok(z.Verify(s.f, s.c))
		}},
		{"refresh Encode, Decode", func(s *shared, y func()) string {
			var b bytes.Buffer
			if err := s.ref.Encode(&yielder{nil, &b, y}); err != nil {
				return err.Error()
			}
			z := &zkpok.ZKEGRefresh{}
			if err := z.Decode(&yielder{&b, nil, y}); err != nil {
				return err.Error()
			}
			return ok(z.Verify(s.f, s.c, s.d))
		}},
		{"HashToBigInt", func(s *shared, _ func()) string { return pkg.HashToBigInt(s.msg).String() }},
	}
}

var first = regexp.MustCompile(`(?m)^first use: (.*)$`)

// TestFirstUse runs two operations, and all they need, side by side in a fresh process.
func TestFirstUse(t *testing.T) {
	var pair [2]int
	if n, _ := fmt.Sscan(os.Getenv("VERIF_FIRST"), &pair[0], &pair[1]); n != 2 {
		t.Skip()
	}
	params := lab.Real()
	ops := sharedOps()
	var wg sync.WaitGroup
	start := make(chan struct{})
	got := [2]string{}
	for n, k := range pair {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					got[n] = fmt.Sprintf("panic: %v", p)
				}
			}()
			<-start
			got[n] = ops[k].run(newShared(&env{params, curve.NewSecp256k1Group(), "real"}), func() {})
		}()
	}
	close(start)
	wg.Wait()
	for _, g := range got {
		fmt.Printf("first use: %q\n", g)
	}
}

func TestC05(t *testing.T) {
	check(t, "C05", func(r *mc.Run) {
		ops := sharedOps()
		// free-running pairs for the race detector: an unsynchronised access to something
		// shared is reported whatever the timing
		if mc.Race {
			// whatever is set up on first use is set up here: one process per pair of operations
			r.Part("first use", func() {
				var pairs [][2]int
				for i := range ops {
					for j := i; j < len(ops); j++ {
						if i == j || r.Thorough {
							pairs = append(pairs, [2]int{i, j})
						}
					}
				}
				r.Parallel(len(pairs), func(k int) {
					i, j := pairs[k][0], pairs[k][1]
					cmd := exec.Command(os.Args[0], "-test.run", "^TestFirstUse$")
					cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_FIRST=%d %d", i, j))
					out, err := cmd.CombinedOutput()
					if got := first.FindAllSubmatch(out, -1); len(got) == 2 && i == j && string(got[0][1]) != string(got[1][1]) {
						r.Fail([]string{ops[i].name, ops[j].name}, "%s, for the first time in two goroutines, gives %s and %s", ops[i].name, got[0][1], got[1][1])
					} else if len(got) != 2 {
						panic(mc.Broken("%v: %s", err, out))
					}
					r.Step(2)
					r.Trace(1)
					r.State(1)
				})
			})
			realOnly(r, "race", func(e *env) {
				s := newShared(e)
				want := make([]string, len(ops))
				for i, o := range ops {
					want[i] = o.run(s, func() {})
				}
				rounds := 2
				if r.Thorough {
					rounds = 20
				}
				for round := 0; round < rounds; round++ {
					for i := range ops {
						for j := i; j < len(ops); j++ {
							if r.Late() {
								return
							}
							r.Current(ops[i].name + " || " + ops[j].name)
							// fresh values, so that whatever is computed lazily is computed here
							s := newShared(e)
							var wg sync.WaitGroup
							start := make(chan struct{})
							got := [2]string{}
							for n, k := range []int{i, j} {
								wg.Add(1)
								go func() {
									defer wg.Done()
									defer func() {
										if p := recover(); p != nil {
											got[n] = fmt.Sprintf("panic: %v", p)
										}
									}()
									<-start
									got[n] = ops[k].run(s, func() {})
								}()
							}
							close(start)
							wg.Wait()
							for n, k := range []int{i, j} {
								if got[n] != want[k] {
									r.Fail([]string{ops[i].name, ops[j].name}, "%s next to %s gives %s instead of %s", ops[k].name, ops[i+j-k].name, got[n], want[k])
								}
							}
							r.Step(2)
							r.Trace(1)
							r.State(1)
						}
					}
				}
				r.Outcome("pairs of operations run side by side", fmt.Sprint(len(ops)*(len(ops)+1)/2))
			})
			return
		}
		tinyOnly(r, []int64{31}, nil, "interleavings", func(e *env) {
			var c mc.Coop
			lab.Yield(c.Yield)
			defer lab.Yield(nil)
			// fixed randomness, so that schedules can be repeated; drawing it is a scheduling point too
			rnd := &script{}
			rnd.next = func(n, _ int) []byte {
				rnd.reads = rnd.reads[:0]
				c.Yield()
				return bytes.Repeat([]byte{1}, n)
			}
			detrand.Set(rnd)
			defer detrand.Set(nil)
			s := newShared(e)
			want := make([]string, len(ops))
			for i, o := range ops {
				want[i] = o.run(s, func() {})
			}
			bound := 1
			if r.Thorough {
				bound = 2
			}
			runs, longest := 0, 0
			for i := range ops {
				for j := range ops {
					if r.Late() {
						return
					}
					n, _ := r.Explore(bound, func(ch *mc.Chooser) {
						s := newShared(e)
						got := [2]string{}
						d := c.Run(r, ch,
							func() { got[0] = ops[i].run(s, c.Yield) },
							func() { got[1] = ops[j].run(s, c.Yield) })
						if d > longest {
							longest = d
						}
						r.Step(d)
						r.Trace(1)
						for n, k := range []int{i, j} {
							if got[n] != want[k] {
								r.Fail(map[string]any{"operations": []string{ops[i].name, ops[j].name}, "schedule": ch.Choices()}, "%s interleaved with %s gives %s instead of %s", ops[k].name, ops[i+j-k].name, got[n], want[k])
							}
						}
					})
					runs += n
				}
			}
			r.State(runs)
			r.Outcome("schedules", fmt.Sprintf("%d of %d pairs with at most %d preemptions, up to %d decisions each", runs, len(ops)*len(ops), bound, longest))
			r.Sample(map[string]any{"pair": []string{ops[0].name, ops[23].name}, "preemptions": bound})
		})
	})
}
