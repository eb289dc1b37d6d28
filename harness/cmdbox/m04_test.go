package cmdbox

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"verif/harness/mc"

	"github.com/binance-chain/tss-lib/crypto/paillier"
)

// pairs are n pairs of primes for keys that differ.
func pairs(n int) (text string, keys []*paillier.PrivateKey) {
	p := new(big.Int).Lsh(big.NewInt(1), 40)
	next := func() *big.Int {
		for p.Add(p, big.NewInt(1)); !p.ProbablyPrime(8); p.Add(p, big.NewInt(1)) {
		}
		return new(big.Int).Set(p)
	}
	for i := 0; i < n; i++ {
		a, b := next(), next()
		k, _ := paillier.FromPrimes(a, b)
		keys = append(keys, k)
		text += fmt.Sprintf("%v %v\n", a, b)
	}
	return
}

// patterns are all the ways in which n things can be equal.
func patterns(n int, f func([]int)) {
	var walk func(pat []int, top int)
	walk = func(pat []int, top int) {
		if len(pat) == n {
			f(pat)
			return
		}
		for k := 0; k <= top; k++ {
			walk(append(append([]int(nil), pat...), k), max(top, k+1))
		}
	}
	walk(nil, 0)
}

func TestM04(t *testing.T) {
	check(t, "M04", func(r *mc.Run, scratch string) {
		top := map[bool]int{true: 6, false: 4}[r.Thorough]
		count := func() {
			r.State(1)
			r.Step(1)
			r.Trace(1)
		}
		// the files of a committee, found by making one
		written := map[int][]string{}
		for n := 2; n <= top; n++ {
			d := fresh(scratch)
			if o := generate(d, "", fmt.Sprint(n)); o.crash() != "" || o.log != "" {
				r.Fail(map[string]any{"committee": n}, "the generator says %q", o.log)
			}
			es, _ := os.ReadDir(d)
			for _, e := range es {
				written[n] = append(written[n], e.Name())
			}
			sort.Strings(written[n])
			clear(d)
		}
		// whole says whether all files of a committee are there and not empty
		whole := func(d string, n int) string {
			for _, f := range written[n] {
				if i, err := os.Stat(filepath.Join(d, f)); err != nil || !i.Mode().IsRegular() || i.Size() == 0 {
					return f
				}
			}
			return ""
		}
		// reported requires an error, or all the files
		reported := func(what any, d string, n int, o *outcome) {
			count()
			if c := o.crash(); c != "" {
				r.Fail(what, "the generator %s", c)
			}
			if f := whole(d, n); f != "" && strings.TrimSpace(o.log) == "" {
				r.Fail(what, "the generator ends with %d without writing %s, and reports nothing", o.exit, f)
			}
		}
		r.Part("failing key generation", func() {
			for n := 2; n <= top; n++ {
				for k := 0; k < n; k++ {
					d := fresh(scratch)
					text, _ := pairs(k)
					what := map[string]any{"committee": n, "keys generated": k}
					o := generate(d, text+"\n", fmt.Sprint(n))
					reported(what, d, n, o)
					if strings.TrimSpace(o.log) == "" {
						r.Fail(what, "the keys can not be generated, and the generator reports nothing")
					}
					r.Outcome("failing key generation", fmt.Sprint(n))
					clear(d)
				}
			}
		})
		r.Part("files in the way", func() {
			// every set of one or two of the files that can not be written, each in every way
			ways := []string{"directory", "full device", "missing directory"}
			block := func(d, f, way string) {
				switch f = filepath.Join(d, f); way {
				case "directory":
					must(os.Mkdir(f, 0o700))
				case "full device":
					must(os.Symlink("/dev/full", f))
				default:
					must(os.Symlink(filepath.Join(d, "none", "none"), f))
				}
			}
			for n := 2; n <= top; n++ {
				for i, f := range written[n] {
					for j, g := range written[n] {
						if j < i {
							continue
						}
						for _, w := range ways {
							for _, v := range ways {
								if i == j && v != w {
									continue
								}
								d := fresh(scratch)
								block(d, f, w)
								if i != j {
									block(d, g, v)
								}
								what := map[string]any{"committee": n, f: w, g: v}
								text, _ := pairs(n)
								reported(what, d, n, generate(d, text, fmt.Sprint(n)))
								r.Outcome("files in the way", w)
								clear(d)
							}
						}
					}
				}
			}
		})
		r.Part("files of an earlier committee", func() {
			for n := 2; n <= top; n++ {
				for m := 2; m <= top; m++ {
					d := fresh(scratch)
					what := map[string]any{"committee": n, "earlier": m}
					text, _ := pairs(m)
					if o := generate(d, text, fmt.Sprint(m)); o.crash() != "" || o.log != "" {
						r.Fail(what, "the generator says %q", o.log)
					}
					// longer than what is to be written
					for _, f := range written[m] {
						h, err := os.OpenFile(filepath.Join(d, f), os.O_APPEND|os.O_WRONLY, 0o600)
						must(err)
						_, err = h.WriteString(strings.Repeat("x|h:1 ", 300))
						must(err)
						h.Close()
					}
					text, keys := pairs(n)
					o := generate(d, text, fmt.Sprint(n))
					reported(what, d, n, o)
					if strings.TrimSpace(o.log) == "" {
						r.Outcome("earlier committee", "replaced")
						files(r, what, d, standard(n), keys)
					} else {
						r.Outcome("earlier committee", "refused")
					}
					clear(d)
				}
			}
		})
		r.Part("keys of their own", func() {
			// of a committee at n addresses, or at the usual ones
			distinct := func(what any, n int, lines []string) {
				d := fresh(scratch)
				args := []string{fmt.Sprint(n)}
				if lines != nil {
					must(os.WriteFile(d+"/addresses", []byte(strings.Join(lines, "\n")+"\n"), 0o600))
					args = append(args, "addresses")
				}
				o := generate(d, "", args...)
				count()
				if o.crash() != "" || o.log != "" {
					r.Fail(what, "the generator says %q", o.log)
				}
				b, err := os.ReadFile(d + "/keys_addrs")
				must(err)
				seen := map[string]int{}
				for i, l := range strings.Fields(string(b)) {
					k, _, _ := strings.Cut(l, "|")
					if j, ok := seen["public "+k]; ok {
						r.Fail(what, "parties %d and %d have the same public key", j, i)
					}
					seen["public "+k] = i
				}
				for i := 0; i < n; i++ {
					b, err := os.ReadFile(fmt.Sprintf("%s/%d.pk", d, i))
					if err != nil || len(strings.Fields(string(b))) != 2 {
						r.Skip("the files are of an unknown form")
						return
					}
					k := strings.Fields(string(b))[0]
					if j, ok := seen[k]; ok {
						r.Fail(what, "parties %d and %d have the same private key", j, i)
					}
					seen[k] = i
				}
				clear(d)
			}
			for n := 2; n <= map[bool]int{true: 40, false: 12}[r.Thorough]; n++ {
				distinct(map[string]any{"committee": n}, n, nil)
			}
			for n := 2; n <= top; n++ {
				patterns(n, func(pat []int) {
					var lines []string
					for _, k := range pat {
						lines = append(lines, fmt.Sprintf("host%d:%d", k, 80+k))
					}
					distinct(map[string]any{"addresses": lines}, n, lines)
				})
			}
		})
		r.Part("command lines", func() {
			lines := func(k int) string { return strings.Join(standard(k), "\n") + "\n" }
			type adds struct {
				what string
				make func(d string, n int) []string
				good bool
			}
			file := func(what string, good bool, text func(n int) string) adds {
				return adds{what, func(d string, n int) []string {
					must(os.WriteFile(d+"/../a.txt", []byte(text(n)), 0o600))
					return []string{"../a.txt"}
				}, good}
			}
			alls := []adds{
				{"no address file", func(string, int) []string { return nil }, true},
				file("enough addresses", true, lines),
				file("no last newline", true, func(n int) string { return strings.TrimSpace(lines(n)) }),
				file("more addresses", true, func(n int) string { return lines(n + 3) }),
				file("one address less", false, func(n int) string { return lines(n - 1) }),
				file("one blank more", false, func(n int) string { return lines(n-1) + "\n" }),
				file("first blank", false, func(n int) string { return "\n" + lines(n-1) }),
				file("second blank", false, func(n int) string { return lines(1) + "\n" + lines(n-1) }),
				file("all blank", false, func(n int) string { return strings.Repeat("\n", n) }),
				file("empty file", false, func(int) string { return "" }),
				file("endless line", false, func(n int) string { return strings.Repeat("h", 1<<17) }),
				file("endless last line", false, func(n int) string { return lines(n-1) + strings.Repeat("h", 1<<17) + ":1\n" }),
				{"missing file", func(string, int) []string { return []string{"../none"} }, false},
				{"directory", func(string, int) []string { return []string{"."} }, false},
				{"empty name", func(string, int) []string { return []string{""} }, false},
				{"two files", func(d string, n int) []string {
					must(os.WriteFile(d+"/../a.txt", []byte(lines(n)), 0o600))
					return []string{"../a.txt", "../a.txt"}
				}, false},
			}
			type number struct {
				text string
				n    int // 0: not a size
			}
			sizes := []number{{"-9223372036854775809", 0}, {"-65534", 0}, {"-2", 0}, {"-1", 0}, {"0", 0}, {"1", 0}, {"", 0}, {"x", 0}, {"2x", 0}, {"x2", 0}, {"2 3", 0}, {"2.5", 0}, {"99999999999999999999", 0}}
			for n := 2; n <= top; n++ {
				sizes = append(sizes, number{fmt.Sprint(n), n})
			}
			for _, s := range sizes {
				for _, a := range alls {
					d := filepath.Join(fresh(scratch), "d")
					must(os.Mkdir(d, 0o700))
					n := max(s.n, 2)
					args := append([]string{s.text}, a.make(d, n)...)
					text, keys := pairs(n)
					what := map[string]any{"arguments": args, "addresses": a.what}
					o := generate(d, text, args...)
					count()
					if c := o.crash(); c != "" {
						r.Fail(what, "the generator %s", c)
					}
					good := s.n > 0 && a.good
					if good {
						if o.log != "" {
							r.Fail(what, "the generator says %q", cut(o.log, 300))
						}
						files(r, what, d, standard(n), keys)
					} else if es, _ := os.ReadDir(d); strings.TrimSpace(o.log) == "" || len(es) > 0 {
						r.Fail(what, "the generator writes %d files and says %q", len(es), cut(o.log, 300))
					}
					r.Outcome("command lines", map[bool]string{true: "a committee", false: "refused"}[good])
					clear(filepath.Dir(d))
				}
			}
		})
	})
}
