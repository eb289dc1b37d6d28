package cmdbox

import (
	"encoding/base64"
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"verif/harness/mc"
)

// value is a class of values of one option, and whether a node can start with it.
type value struct {
	name string
	args []string
	good bool
}

// flaw tells why a file can not be used: the member file, if which is 1, of one of n parties,
// or the committee file. It knows what the files consist of, and nothing is said about what
// follows the parts that are needed.
func flaw(which, n int, text string) string {
	words := strings.Fields(text)
	if len(words) < 2 {
		return "something is missing"
	}
	if which == 1 {
		b, err := base64.StdEncoding.DecodeString(words[0])
		if err != nil {
			return "the private key can not be decoded"
		}
		for i := 0; i < 3; i++ {
			if len(b) < 2 || len(b)-2 < int(b[0])|int(b[1])<<8 {
				return "the private key is cut"
			}
			l := int(b[0]) | int(b[1])<<8
			if new(big.Int).SetBytes(b[2:2+l]).Sign() == 0 {
				return "a part of the private key is zero"
			}
			b = b[2+l:]
		}
		if p, err := strconv.Atoi(words[1]); err != nil || p < 0 || p >= n {
			return "there is no such party"
		}
		return ""
	}
	for _, w := range words {
		key, addr, ok := strings.Cut(w, "|")
		if !ok || key == "" || addr == "" || addr[0] == '|' {
			return "a key or an address is missing"
		}
		if !strings.Contains(addr, ":") {
			return "an address has no port"
		}
		if b, err := base64.StdEncoding.DecodeString(key); err != nil || new(big.Int).SetBytes(b).Sign() == 0 {
			return "a public key can not be decoded"
		}
	}
	return ""
}

func TestM02(t *testing.T) {
	check(t, "M02", func(r *mc.Run, scratch string) {
		// a committee of each size, made by the generator
		made := map[int]string{}
		for n := 2; n <= 3; n++ {
			made[n] = fresh(scratch)
			if o := generate(made[n], "", fmt.Sprint(n)); o.crash() != "" || o.log != "" {
				r.Skip("the generator says %q", o.log)
				return
			}
		}
		// judge runs a node and compares with what is expected
		judge := func(what any, good bool, args ...string) *outcome {
			o := node(scratch, args...)
			r.State(1)
			r.Step(1)
			r.Trace(1)
			if c := o.crash(); c != "" {
				r.Fail(what, "the node %s", c)
			}
			if o.started() != good {
				r.Fail(what, "the node starts: %v; expected: %v; it says: %s", o.started(), good, cut(o.log, 500))
			}
			if !good && strings.TrimSpace(o.log) == "" {
				r.Fail(what, "the node ends with %d and reports no error", o.exit)
			}
			r.Outcome("node", map[bool]string{true: "starts", false: "refuses"}[good])
			return o
		}
		write := func(name, text string) string {
			f := fresh(scratch) + "/" + name
			must(os.WriteFile(f, []byte(text), 0o600))
			return f
		}
		read := func(f string) string {
			b, err := os.ReadFile(f)
			must(err)
			return string(b)
		}
		r.Part("options", func() {
			for n := 2; n <= 3; n++ {
				d := made[n]
				pk, ka := read(d+"/0.pk"), read(d+"/keys_addrs")
				key := strings.Fields(pk)[0]
				line := strings.Split(ka, "\n")[0]
				member := func(name, text string, good bool) value {
					return value{"member file " + name, []string{"-pk", write("m.pk", text)}, good}
				}
				com := func(name, text string, good bool) value {
					return value{"committee file " + name, []string{"-keys_addrs", write("ka", text)}, good}
				}
				members := []value{
					{"member file", []string{"-pk", d + "/0.pk"}, true},
					{"no member file", nil, false},
					{"empty name", []string{"-pk", ""}, false},
					{"missing file", []string{"-pk", d + "/none"}, false},
					{"directory", []string{"-pk", d}, false},
					member("empty", "", false),
					member("blank", " \n ", false),
					member("without number", key+"\n", false),
					member("without key", "0\n", false),
					member("swapped", "0 "+key, false),
					member("split", key+"\n\n0\n", true),
					member("number last", key+" "+fmt.Sprint(n-1), true),
				}
				for _, p := range []string{"-1", fmt.Sprint(n), "65535", "65536", "65537", "131072", "4294967296", "9223372036854775807", "18446744073709551616", "-65536", "-9223372036854775808", "x", "1x", "0x1", "1.0", "--1", "\x00"} {
					members = append(members, member("number "+p, key+" "+p+"\n", false))
				}
				coms := []value{
					{"committee file", []string{"-keys_addrs", d + "/keys_addrs"}, true},
					{"no committee file", nil, false},
					{"empty name", []string{"-keys_addrs", ""}, false},
					{"missing file", []string{"-keys_addrs", d + "/none"}, false},
					{"directory", []string{"-keys_addrs", d}, false},
					com("empty", "", false),
					com("of one party", line+"\n", false),
					com("without addresses", strings.ReplaceAll(ka, "|", " "), false),
					com("with empty addresses", line[:strings.Index(line, "|")+1]+"\n"+line, false),
					com("with empty keys", line[strings.Index(line, "|"):]+"\n"+line, false),
					com("with undecodable keys", "!"+ka, false),
					com("with a zero key", "AA==|a:1\n"+ka, false),
					com("without ports", strings.ReplaceAll(ka, ":", ";"), false),
					com("with a line too long", strings.Repeat("A", 70000)+"\n"+ka, false),
					com("with a long line at the end", ka+strings.Repeat("A", 70000), false),
				}
				starts := []value{{"start time", []string{"-startTime", "Thu-Nov-19-12:00:00-UTC-2020"}, true}, {"no start time", nil, false}}
				for _, s := range []string{"", "now", "0", "Thu Nov 19 12:00:00 2020", "Thu-Nov-32-12:00:00-UTC-2020", "Thu-Nov-19-25:00:00-UTC-2020", "2020-11-19T12:00:00Z", "-"} {
					starts = append(starts, value{"start time " + s, []string{"-startTime", s}, false})
				}
				durs := []value{{"duration", []string{"-roundDuration", "1s"}, true}, {"no duration", nil, false}}
				for _, s := range []string{"", "x", "1", "1 s", "s", "99999999999h", "1s1", "-"} {
					durs = append(durs, value{"duration " + s, []string{"-roundDuration", s}, false})
				}
				durs = append(durs, value{"duration", []string{"-roundDuration", "1h2m3.5s"}, true}, value{"duration", []string{"-roundDuration", "50ms"}, true})
				ints := func(name string, max int) (vs []value) {
					vs = append(vs, value{name + " default", nil, true})
					for _, s := range []string{"", "x", "1.5", "-1", "0", "-9223372036854775808", "9223372036854775808", "-65535", "1e1", "0x"} {
						vs = append(vs, value{name + " " + s, []string{name + "=" + s}, false})
					}
					for _, k := range []int{1, 2, 3, 4, 255, 256, 257, 65535, 65536, 65537, 65538, 131073, 1 << 32, 1<<32 + 1} {
						vs = append(vs, value{fmt.Sprintf("%s %d", name, k), []string{name, fmt.Sprint(k)}, max == 0 || k <= max})
					}
					return
				}
				all := [][]value{members, coms, starts, durs, ints("-sigNumber", 0), ints("-threshold", n)}
				var cases [][]int
				base := make([]int, len(all))
				cases = append(cases, base)
				for i := range all {
					for a := 1; a < len(all[i]); a++ {
						c := append([]int(nil), base...)
						c[i] = a
						cases = append(cases, c)
						for j := i + 1; j < len(all) && (r.Thorough || n == 2); j++ {
							for b := 1; b < len(all[j]); b++ {
								c := append([]int(nil), c...)
								c[j] = b
								cases = append(cases, c)
							}
						}
					}
				}
				r.Parallel(len(cases), func(k int) {
					var args []string
					good := true
					var what []string
					for i, v := range cases[k] {
						args = append(args, all[i][v].args...)
						good = good && all[i][v].good
						if v > 0 {
							what = append(what, all[i][v].name)
						}
					}
					judge(map[string]any{"committee": n, "unusual": what}, good, args...)
				})
			}
		})
		r.Part("unknown options", func() {
			for _, args := range [][]string{{"-x"}, {"-threshold"}, {"-h"}, {"--", "x"}, {"-pk=" + made[2] + "/0.pk"}} {
				judge(map[string]any{"arguments": args}, false, args...)
			}
		})
		r.Part("party numbers", func() {
			key := strings.Fields(read(made[3] + "/0.pk"))[0]
			r.Parallel(40, func(i int) {
				pid := i - 20
				args := options(made[3], 0)
				args[1] = write("m.pk", fmt.Sprintf("%s %d\n", key, pid))
				o := judge(map[string]any{"committee": 3, "number": pid}, pid >= 0 && pid < 3, args...)
				if o.started() && (o.pid() != pid || o.saw.Local != standard(3)[pid]) {
					r.Fail(map[string]any{"committee": 3, "number": pid}, "the node listens at %s and introduces itself with %s", o.saw.Local, o.saw.Intro)
				}
			})
		})
		r.Part("no log file", func() {
			// what is there already keeps the node from writing its own files
			d := made[2]
			pk, ka := read(d+"/0.pk"), read(d+"/keys_addrs")
			for _, dirs := range [][]string{{"aleph.log"}, {"out"}, {"aleph.log", "out"}} {
				for _, c := range []struct {
					pos         int
					value, what string
				}{
					{-1, "", "nothing wrong"},
					{1, d + "/none", "missing member file"},
					{1, write("m.pk", "0\n"), "member file without key"},
					{1, write("m.pk", strings.Fields(pk)[0]+" 2\n"), "no such party"},
					{3, d + "/none", "missing committee file"},
					{3, write("ka", strings.Split(ka, "\n")[0]), "committee of one"},
				} {
					args := append([]string(nil), options(d, 0)...)
					if c.pos >= 0 {
						args[c.pos] = c.value
					}
					good, what := c.pos < 0, map[string]any{"directories": dirs, "input": c.what}
					o := nodeIn(scratch, dirs, args...)
					r.State(1)
					r.Step(1)
					r.Trace(1)
					if m := o.crash(); m != "" {
						r.Fail(what, "the node %s", m)
					}
					if o.started() && !good {
						r.Fail(what, "the node starts")
					}
					// it may refuse to work without its files
					if !o.started() && strings.TrimSpace(o.log) == "" {
						r.Fail(what, "the node ends with %d and reports no error", o.exit)
					}
					r.Outcome("no log file", map[bool]string{true: "starts", false: "refuses"}[o.started()])
				}
			}
		})
		r.Part("large committees", func() {
			sizes := []int{255, 256, 257, 32768, 65534, 65535, 65536, 65537, 65538, 131072, 131074}
			r.Parallel(len(sizes), func(i int) {
				n := sizes[i]
				var b strings.Builder
				for k := 0; k < n; k++ {
					fmt.Fprintf(&b, "%s|h:%d\n", base64.StdEncoding.EncodeToString([]byte{1, byte(k)}), k)
				}
				f := write("ka", b.String())
				for _, pid := range []int{0, 1, n - 1} {
					args := options(made[2], 0)
					args[1], args[3] = write("m.pk", fmt.Sprintf("%s %d\n", strings.Fields(read(made[2] + "/0.pk"))[0], pid)), f
					what := map[string]any{"committee": n, "number": pid}
					o := node(scratch, args...)
					r.State(1)
					r.Step(1)
					r.Trace(1)
					if c := o.crash(); c != "" {
						r.Fail(what, "the node %s", c)
					}
					// party numbers have 16 bits: what does not fit is refused, the rest is used as it is
					if o.started() && (o.pid() != pid || len(o.saw.Remotes) != n || o.saw.Local != fmt.Sprintf("h:%d", pid) || n > 65536) {
						r.Fail(what, "the node listens at %s, knows %d parties and introduces itself with %s", o.saw.Local, len(o.saw.Remotes), o.saw.Intro)
					}
					if !o.started() && (n < 65535 || strings.TrimSpace(o.log) == "") {
						r.Fail(what, "the node refuses: %q", cut(o.log, 300))
					}
					r.Outcome("large committees", map[bool]string{true: "starts", false: "refuses"}[o.started()])
				}
			})
		})
		r.Part("cut files", func() {
			// the options are right, one file ends early or has a byte altered
			for _, which := range []int{1, 3} {
				args := options(made[2], 1)
				orig := read(args[which])
				step := map[bool]int{true: 1, false: 3}[r.Thorough]
				if flaw(which, 2, orig) != "" {
					r.Skip("the files are of an unknown form: %s", flaw(which, 2, orig))
					return
				}
				put := []byte("*|=: \n\x00-_/+9A\xff")
				r.Parallel((len(put)+2)*(len(orig)/step+1), func(i int) {
					k, how := i/(len(put)+2)*step, i%(len(put)+2)
					text := orig[:min(k, len(orig))]
					if how > 0 {
						if k >= len(orig) {
							return
						}
						c := orig[k] ^ byte(1<<(k%8))
						if how > 1 {
							c = put[how-2]
						}
						text = orig[:k] + string([]byte{c}) + orig[k+1:]
					}
					a := append([]string(nil), args...)
					a[which] = write("f", text)
					o := node(scratch, a...)
					r.State(1)
					r.Step(1)
					r.Trace(1)
					what := map[string]any{"file": text}
					if c := o.crash(); c != "" {
						r.Fail(what, "the node %s", c)
					}
					if !o.started() && strings.TrimSpace(o.log) == "" {
						r.Fail(what, "the node ends with %d and reports no error", o.exit)
					}
					if o.started() && (o.pid() < 0 || o.pid() >= len(o.saw.Remotes)) {
						r.Fail(what, "the node knows %d parties and introduces itself with %s", len(o.saw.Remotes), o.saw.Intro)
					}
					if f := flaw(which, 2, text); f != "" && o.started() {
						r.Fail(what, "the node starts although %s", f)
					}
					if w := strings.Fields(text); o.started() && which == 3 && utf8.ValidString(text) && strings.Count(text, "|") == len(w) {
						for p, l := range w {
							if p >= len(o.saw.Remotes) || o.saw.Remotes[p] != l[strings.Index(l, "|")+1:] {
								r.Fail(what, "the node knows the addresses %q", o.saw.Remotes)
							}
						}
					}
					r.Outcome("cut files", map[bool]string{true: "starts", false: "refuses"}[o.started()])
				})
			}
		})
	})
}
