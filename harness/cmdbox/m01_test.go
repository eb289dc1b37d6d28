package cmdbox

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"verif/harness/mc"

	"github.com/binance-chain/tss-lib/crypto/paillier"
)

// numbers reads the form in which private keys are written.
func numbers(s string) (out []*big.Int, err error) {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return nil, err
	}
	for len(b) > 0 {
		if len(b) < 2 || len(b)-2 < int(b[0])|int(b[1])<<8 {
			return nil, errors.New("short")
		}
		l := int(b[0]) | int(b[1])<<8
		out = append(out, new(big.Int).SetBytes(b[2:2+l]))
		b = b[2+l:]
	}
	if len(out) != 3 {
		return nil, errors.New("not three numbers")
	}
	return
}

// files checks what the generator wrote against what was to be written.
func files(r *mc.Run, what any, dir string, addresses []string, keys []*paillier.PrivateKey) {
	filesOf(r, what, dir, addresses, keys, func(int) bool { return true })
}

// filesOf looks only through the eyes of some of the parties.
func filesOf(r *mc.Run, what any, dir string, addresses []string, keys []*paillier.PrivateKey, eyes func(int) bool) {
	n := len(addresses)
	b, err := os.ReadFile(dir + "/keys_addrs")
	if err != nil {
		r.Fail(what, "no committee file is written: %v", err)
	}
	lines := strings.Split(strings.TrimSpace(string(b)), "\n")
	r.Parallel(n, func(i int) {
		if !eyes(i) {
			return
		}
		o := node(dir, options(dir, i)...)
		r.Step(1)
		if c := o.crash(); c != "" {
			r.Fail(what, "with the files of party %d of %d the node %s", i, n, c)
		}
		if !o.started() {
			r.Fail(what, "the node does not accept the files of party %d of %d: %s", i, n, cut(o.log, 500))
		}
		if o.saw.Local != addresses[i] || !reflect.DeepEqual(o.saw.Remotes, addresses) {
			r.Fail(what, "party %d listens at %q and knows the addresses %q, not %q", i, o.saw.Local, o.saw.Remotes, addresses)
		}
		if o.pid() != i {
			r.Fail(what, "the node of party %d introduces itself with %s", i, o.saw.Intro)
		}
		if o.saw.Dialled == i || o.saw.Dialled >= n {
			r.Fail(what, "party %d of %d dials %d", i, n, o.saw.Dialled)
		}
		// the keys, if they are written in the form that is known
		m, err := os.ReadFile(fmt.Sprintf("%s/%d.pk", dir, i))
		if err != nil || len(lines) != n || strings.Count(lines[i], "|") != 1 || len(strings.Fields(string(m))) != 2 {
			r.Skip("the files are of an unknown form")
			return
		}
		k, err := numbers(strings.Fields(string(m))[0])
		pub, err2 := base64.StdEncoding.DecodeString(lines[i][:strings.Index(lines[i], "|")])
		if err != nil || err2 != nil {
			r.Skip("the keys are of an unknown form")
			return
		}
		if k[0].Cmp(new(big.Int).SetBytes(pub)) != 0 {
			r.Fail(what, "the private key of party %d has the modulus %v, the public one %x", i, k[0], pub)
		}
		if keys != nil {
			// the keys may have been generated in any order
			key := keys[i]
			for _, o := range keys {
				if o.N.Cmp(k[0]) == 0 && key.N.Cmp(k[0]) != 0 {
					key = o
				}
			}
			if k[0].Cmp(key.N) != 0 || k[1].Cmp(key.LambdaN) != 0 || k[2].Cmp(key.PhiN) != 0 {
				r.Fail(what, "the private key of party %d is written as %v, not as (%v, %v, %v)", i, k, key.N, key.LambdaN, key.PhiN)
			}
		}
		one := big.NewInt(1)
		if k[0].Cmp(one) <= 0 || k[1].Sign() <= 0 || new(big.Int).Mod(k[2], k[1]).Sign() != 0 || k[2].Cmp(k[0]) >= 0 {
			r.Fail(what, "the private key of party %d is written as %v", i, k)
		}
		for x := int64(2); x < 12; x++ {
			for _, e := range k[1:] {
				if new(big.Int).GCD(nil, nil, big.NewInt(x), k[0]).Cmp(one) == 0 && new(big.Int).Exp(big.NewInt(x), e, k[0]).Cmp(new(big.Int).Mod(one, k[0])) != 0 {
					r.Fail(what, "the private key of party %d is written as %v; %d to the power of %v is not 1", i, k, x, e)
				}
			}
		}
		if new(big.Int).GCD(nil, nil, k[0], k[2]).Cmp(one) != 0 {
			return // primes that do not make a key for encryption
		}
		priv := &paillier.PrivateKey{PublicKey: paillier.PublicKey{N: k[0]}, LambdaN: k[1], PhiN: k[2]}
		for _, m := range []*big.Int{big.NewInt(0), one, big.NewInt(2), new(big.Int).Sub(k[0], one)} {
			c, err := (&paillier.PublicKey{N: new(big.Int).SetBytes(pub)}).Encrypt(m)
			if err != nil {
				continue
			}
			if d, err := priv.Decrypt(c); err != nil || d.Cmp(m) != 0 {
				r.Fail(what, "what party %d decrypts is %v (%v), not %v", i, d, err, m)
			}
		}
	})
}

func standard(n int) (a []string) {
	for i := 0; i < n; i++ {
		a = append(a, fmt.Sprintf("127.0.0.1:%d", 10000+i))
	}
	return
}

func clear(dir string) {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
}

func isPrime(p int) bool { return big.NewInt(int64(p)).ProbablyPrime(0) }

func TestM01(t *testing.T) {
	check(t, "M01", func(r *mc.Run, scratch string) {
		r.Part("committees", func() {
			for n := 2; n <= map[bool]int{true: 40, false: 12}[r.Thorough]; n++ {
				d := fresh(scratch)
				what := map[string]any{"committee": n}
				if o := generate(d, "", fmt.Sprint(n)); o.crash() != "" {
					r.Fail(what, "the generator %s", o.crash())
				}
				files(r, what, d, standard(n), nil)
				r.State(1)
				r.Trace(n)
				clear(d)
			}
		})
		r.Part("large committees", func() {
			for _, n := range []int{100, 257, 1100} {
				d := fresh(scratch)
				what := map[string]any{"committee": n}
				if o := generate(d, "", fmt.Sprint(n)); o.crash() != "" {
					r.Fail(what, "the generator %s", o.crash())
				}
				filesOf(r, what, d, standard(n), nil, func(i int) bool { return i < 2 || i > n-3 || i&(i-1) == 0 })
				r.State(1)
				r.Trace(n)
				clear(d)
			}
		})
		r.Part("addresses", func() {
			list := []string{"10.0.0.1:9", "localhost:1", "[::1]:65535", "a.b-c.example.com:443", "10.0.0.1:9", "Upper-Case.Example:0", "h:10", "255.255.255.255:99"}
			for n := 2; n <= 5; n++ {
				for _, end := range []string{"\n", "\r\n"} {
					for extra := -n; extra <= 2; extra++ {
						for _, last := range []bool{true, false} {
							for hole := -1; hole < n+extra; hole++ {
								if hole >= 0 && (extra > 0 || !r.Thorough && n > 3) {
									continue
								}
								d := fresh(scratch)
								var lines []string
								for i := 0; i < n+extra; i++ {
									if i == hole {
										lines = append(lines, "")
									} else {
										lines = append(lines, list[(i+n)%len(list)])
									}
								}
								text := strings.Join(lines, end)
								if last {
									text += end
								}
								must(os.WriteFile(d+"/addresses", []byte(text), 0o600))
								what := map[string]any{"committee": n, "address file": text}
								if o := generate(d, "", fmt.Sprint(n), "addresses"); o.crash() != "" {
									r.Fail(what, "the generator %s", o.crash())
								}
								r.State(1)
								r.Trace(1)
								if extra >= 0 && hole < 0 {
									r.Outcome("addresses", "enough")
									files(r, what, d, lines[:n], nil)
								} else {
									// nothing, or something that can be used
									r.Outcome("addresses", "too few")
									if _, err := os.Stat(d + "/keys_addrs"); err == nil {
										for i := 0; i < n; i++ {
											if o := node(d, options(d, i)...); !o.started() {
												r.Fail(what, "the files written with too few addresses are refused: %s", cut(o.log, 300))
											}
										}
									}
								}
								clear(d)
							}
						}
					}
				}
			}
		})
		r.Part("repeated addresses", func() {
			// every pattern of equal addresses
			for n := 2; n <= map[bool]int{true: 5, false: 4}[r.Thorough]; n++ {
				var walk func(pat []int, top int)
				walk = func(pat []int, top int) {
					if len(pat) < n {
						for k := 0; k <= top; k++ {
							walk(append(append([]int(nil), pat...), k), max(top, k+1))
						}
						return
					}
					var lines []string
					for _, k := range pat {
						lines = append(lines, fmt.Sprintf("host%d:%d", k, 80+k))
					}
					d := fresh(scratch)
					must(os.WriteFile(d+"/addresses", []byte(strings.Join(lines, "\n")+"\n"), 0o600))
					what := map[string]any{"committee": n, "addresses": lines}
					if o := generate(d, "", fmt.Sprint(n), "addresses"); o.crash() != "" {
						r.Fail(what, "the generator %s", o.crash())
					}
					files(r, what, d, lines, nil)
					r.State(1)
					r.Trace(1)
					r.Outcome("repeated addresses", fmt.Sprint(n))
					clear(d)
				}
				walk(nil, 0)
			}
		})
		r.Part("keys of every length", func() {
			// the generator draws the given primes; all pairs of small ones, and larger ones
			// such that lengths differ
			var primes string
			var keys []*paillier.PrivateKey
			use := func(p, q *big.Int) {
				k, _ := paillier.FromPrimes(p, q)
				if k.LambdaN.Sign() > 0 && p.Cmp(q) != 0 {
					keys = append(keys, k)
					primes += fmt.Sprintf("%v %v\n", p, q)
				}
			}
			top := map[bool]int{true: 110, false: 48}[r.Thorough]
			for p := 2; p < top; p++ {
				for q := p + 1; q < top; q++ {
					if isPrime(p) && isPrime(q) {
						use(big.NewInt(int64(p)), big.NewInt(int64(q)))
					}
				}
			}
			next := func(x *big.Int) *big.Int {
				for x = new(big.Int).Set(x); !x.ProbablyPrime(8); x.Add(x, big.NewInt(1)) {
				}
				return x
			}
			for bits := uint(8); bits <= 300; bits += 7 {
				// N a little above a power of 256, λ a byte or more shorter
				p := next(new(big.Int).Lsh(big.NewInt(1), bits))
				use(p, next(new(big.Int).Add(p, big.NewInt(2))))
				// p-1 and q-1 share a large factor
				f := next(new(big.Int).Lsh(big.NewInt(1), bits))
				for a := int64(2); a < 2000; a += 2 {
					p := new(big.Int).Add(new(big.Int).Mul(f, big.NewInt(a)), big.NewInt(1))
					if !p.ProbablyPrime(8) {
						continue
					}
					for b := a + 2; b < 4000; b += 2 {
						if q := new(big.Int).Add(new(big.Int).Mul(f, big.NewInt(b)), big.NewInt(1)); q.ProbablyPrime(8) {
							use(p, q)
							break
						}
					}
					break
				}
			}
			lens := map[[3]int]bool{}
			for _, k := range keys {
				lens[[3]int{len(k.N.Bytes()), len(k.LambdaN.Bytes()), len(k.PhiN.Bytes())}] = true
			}
			r.Outcome("keys", fmt.Sprintf("%d keys, %d combinations of lengths", len(keys), len(lens)))
			d := fresh(scratch)
			what := map[string]any{"keys": len(keys)}
			if o := generate(d, primes, fmt.Sprint(len(keys))); o.crash() != "" {
				r.Fail(what, "the generator %s", o.crash())
			}
			files(r, what, d, standard(len(keys)), keys)
			r.State(len(keys))
			r.Trace(len(keys))
			clear(d)
		})
		r.Part("few open files", func() {
			// a committee is not bounded by the number of files a process may keep open
			for _, n := range []int{20, 60, 300} {
				d := fresh(scratch)
				text, keys := pairs(n)
				what := map[string]any{"committee": n, "open files": 40}
				o := generateWith([]string{"VERIF_FILES=40"}, d, text, fmt.Sprint(n))
				if o.crash() != "" || o.log != "" {
					r.Fail(what, "the generator says %q", cut(o.log, 300))
				}
				files(r, what, d, standard(n), keys)
				r.State(1)
				r.Trace(n)
				clear(d)
			}
		})
		r.Part("generator options", func() {
			for _, args := range [][]string{nil, {""}, {"x"}, {"1"}, {"0"}, {"-1"}, {"2.0"}, {"99999999999999999999"}, {"2", "missing"}, {"2", "/"}, {"2", "a", "b"}} {
				d := fresh(scratch)
				o := generate(d, "", args...)
				what := map[string]any{"arguments": args}
				if o.crash() != "" {
					r.Fail(what, "the generator %s", o.crash())
				}
				if es, _ := os.ReadDir(d); len(es) > 0 || o.log == "" {
					r.Fail(what, "the generator writes %d files and says %q", len(es), o.log)
				}
				r.State(1)
				r.Step(1)
			}
		})
		r.Part("a run", func() {
			var cases [][2]int
			for n := 2; n <= map[bool]int{true: 5, false: 3}[r.Thorough]; n++ {
				for th := 1; th <= n; th++ {
					cases = append(cases, [2]int{n, th})
				}
			}
			r.Parallel(len(cases), func(i int) {
				n, th, sigs := cases[i][0], cases[i][1], 1+i%2
				what := map[string]any{"committee": n, "threshold": th, "signatures": sigs}
				var bad string
				for _, lead := range []time.Duration{3, 8, 20} {
					// the ports may be taken by someone else meanwhile, the machine may be slow
					if bad = committee(scratch, n, th, sigs, lead*time.Second); !strings.Contains(bad, "in use") && !strings.Contains(bad, "has passed") {
						break
					}
				}
				if bad != "" {
					r.Fail(what, "%s", bad)
				}
				r.State(1)
				r.Step(n)
				r.Trace(n)
			})
		})
	})
}

// committee generates files and lets all nodes run to the end.
func committee(scratch string, n, t, sigs int, lead time.Duration) string {
	d := fresh(scratch)
	defer clear(d)
	var text string
	var ls []net.Listener
	for i := 0; i < n; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		ls = append(ls, l)
		text += l.Addr().String() + "\n"
	}
	must(os.WriteFile(d+"/addresses", []byte(text), 0o600))
	if o := generate(d, "", fmt.Sprint(n), "addresses"); o.crash() != "" || o.log != "" {
		return "the generator says " + o.log
	}
	for _, l := range ls {
		l.Close()
	}
	type child struct {
		c   *exec.Cmd
		out *bytes.Buffer
	}
	start := strings.ReplaceAll(time.Now().UTC().Add(lead).Format(time.UnixDate), " ", "-")
	var cs []child
	for i := 0; i < n; i++ {
		w := fmt.Sprintf("%s/run%d", d, i)
		must(os.Mkdir(w, 0o700))
		c, out := command(w, "node", nil, append(options(d, i), "-startTime", start, "-threshold", fmt.Sprint(t), "-sigNumber", fmt.Sprint(sigs))...)
		must(c.Start())
		cs = append(cs, child{c, out})
	}
	res := make([]*outcome, n)
	done := make(chan struct{})
	for i := range cs {
		go func() {
			res[i] = finish(cs[i].c, cs[i].out, 60*time.Second)
			done <- struct{}{}
		}()
	}
	for range cs {
		<-done
	}
	for i, o := range res {
		if strings.Contains(o.log, "in use") {
			return o.log
		}
		if c := o.crash(); c != "" {
			return fmt.Sprintf("the node of party %d %s", i, c)
		}
		if o.exit != 0 || strings.Contains(o.log, "rror") || strings.Count(o.log, "Signing; round") != sigs || strings.Count(o.log, "presignature; round") != sigs {
			return fmt.Sprintf("the node of party %d ends with %d, after %s", i, o.exit, cut(o.log, 1500))
		}
	}
	return ""
}
