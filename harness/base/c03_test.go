package base

import (
	"bytes"
	"fmt"
	"io"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// segmentations calls f with readers that split n bytes in every way that has at
// most maxCuts cuts, plus byte by byte, plus with EOF alongside the last bytes.
func segmentations(data []byte, maxCuts int, f func(how string, rd *cutReader)) {
	n := len(data)
	var rec func(from int, cuts []int)
	rec = func(from int, cuts []int) {
		c := append([]int(nil), cuts...)
		f(fmt.Sprintf("cut at %v", c), &cutReader{data: data, cuts: c})
		if len(cuts) < 2 {
			f(fmt.Sprintf("cut at %v, EOF with the last bytes", c), &cutReader{data: data, cuts: c, eofLast: true})
			f(fmt.Sprintf("cut at %v, empty reads", c), &cutReader{data: data, cuts: c, zeros: true})
		}
		if len(cuts) == maxCuts {
			return
		}
		for k := from; k < n; k++ {
			rec(k+1, append(cuts, k))
		}
	}
	rec(1, nil)
	every := make([]int, 0, n)
	for i := 1; i < n; i++ {
		every = append(every, i)
	}
	f("byte by byte", &cutReader{data: data, cuts: every})
	f("byte by byte, EOF with the last, empty reads", &cutReader{data: data, cuts: every, eofLast: true, zeros: true})
}

func TestC03(t *testing.T) {
	check(t, "C03", func(r *mc.Run) {
		envs(r, []int64{7, 31, 199}, []int64{67, 79, 139}, "roundtrip", func(e *env) {
			encs := map[string]string{}
			step := func(p curve.Point, k fmt.Stringer, how string) {
				r.Try(map[string]string{"curve": e.name, "point": k.String(), "made by": how}, func() {
					var buf bytes.Buffer
					if err := e.g.Encode(p, &buf); err != nil {
						r.Fail(k.String(), "%s: encoding %v·G: %v", e.name, k, err)
					}
					b := append([]byte(nil), buf.Bytes()...)
					if old, ok := encs[string(b)]; ok && old != k.String() {
						r.Fail(k.String(), "%s: %v·G and %v·G have the same encoding %x", e.name, k, old, b)
					}
					encs[string(b)] = k.String()
					e.is(r, p, e.Mod(e.Params.Mod(asInt(k))), "%v·G", k)
					// followed by other data, which must be left alone
					for _, tail := range [][]byte{nil, {0}, {1, 2, 3}, b, make([]byte, 9)} {
						rd := bytes.NewReader(append(append([]byte(nil), b...), tail...))
						q, err := e.g.Decode(rd)
						if err != nil {
							r.Fail(k.String(), "%s: decoding %x, the encoding of %v·G (%s): %v", e.name, b, k, how, err)
						}
						if !e.g.Equal(p, q) || !lab.See(e.g, q).Same(e.Mul(asInt(k))) {
							r.Fail(k.String(), "%s: %v·G (%s) decodes to %v", e.name, k, how, lab.See(e.g, q))
						}
						if rd.Len() != len(tail) {
							r.Fail(k.String(), "%s: decoding %v·G left %d bytes of %d", e.name, k, rd.Len(), len(tail))
						}
						r.Step(1)
					}
				})
			}
			for _, k := range e.exps() {
				for _, el := range e.routes(k) {
					step(el.p, k, el.how)
				}
				r.State(1)
			}
			r.Trace(len(e.exps()))
			r.Outcome("encodings "+e.name, fmt.Sprintf("%d distinct", len(encs)))
		})
		envs(r, []int64{7, 31}, []int64{199}, "segmentation", func(e *env) {
			cuts, ks := 9, e.exps()
			if !e.Tiny {
				cuts = 1
				if r.Thorough {
					cuts = 2
				}
			}
			for _, k := range ks {
				p := e.g.ScalarBaseMult(k)
				b := lab.Enc(e.g, p)
				segmentations(b, cuts, func(how string, rd *cutReader) {
					r.Try(map[string]string{"curve": e.name, "point": k.String(), "reader": how}, func() {
						q, err := e.g.Decode(rd)
						if err != nil {
							r.Fail(how, "%s: decoding %v·G from a reader %s: %v", e.name, k, how, err)
						}
						if !e.g.Equal(p, q) || rd.pos != len(b) {
							r.Fail(how, "%s: decoding %v·G from a reader %s: got %v, consumed %d of %d", e.name, k, how, lab.See(e.g, q), rd.pos, len(b))
						}
					})
					r.Step(1)
				})
			}
			r.Trace(len(ks))
			r.Sample(fmt.Sprintf("%s: encoding of %v·G cut byte by byte", e.name, ks[1]))
		})
		envs(r, []int64{7, 31}, nil, "sequences", func(e *env) {
			ks, depth := e.exps(), 4
			if e.N.Int64() == 31 {
				depth = 3
			}
			if !e.Tiny {
				ks, depth = append(ks[:2:2], B(short[0]), B(short[1]), B(short[2]), B(short[3]), B(short[4]), B(short[5])), 3
			}
			pts := make([]curve.Point, len(ks))
			for i, k := range ks {
				pts[i] = e.g.ScalarBaseMult(k)
			}
			var rec func(seq []int)
			rec = func(seq []int) {
				if len(seq) > 0 {
					var buf bytes.Buffer
					for _, i := range seq {
						e.g.Encode(pts[i], &buf)
					}
					total := buf.Len()
					for _, mode := range []int{0, 1} {
						var rd io.Reader = bytes.NewReader(buf.Bytes())
						if mode == 1 { // pieces of 3 bytes, across the borders of the points
							var cuts []int
							for c := 3; c < total; c += 3 {
								cuts = append(cuts, c)
							}
							rd = &cutReader{data: buf.Bytes(), cuts: cuts}
						}
						r.Try(map[string]any{"curve": e.name, "sequence": seq}, func() {
							for n, i := range seq {
								q, err := e.g.Decode(rd)
								if err != nil || !e.g.Equal(q, pts[i]) {
									r.Fail(seq, "%s: point %d of the sequence %v of multiples of G: %v", e.name, n, seq, err)
								}
							}
							if q, err := e.g.Decode(rd); err == nil {
								r.Fail(seq, "%s: after the end of the sequence %v another point %v", e.name, seq, lab.See(e.g, q))
							}
						})
						r.Step(len(seq))
					}
					r.State(1)
				}
				if len(seq) == depth {
					return
				}
				for i := range pts {
					rec(append(seq[:len(seq):len(seq)], i))
				}
			}
			rec(nil)
		})
	})
}
