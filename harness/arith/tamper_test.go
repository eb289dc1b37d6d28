package arith

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sync"

	"verif/harness/lab"
	"verif/harness/mc"
)

// part is a piece of a message: a commitment 'C', a point 'P', a proof 'N' or a number 'E'.
type part struct {
	kind byte
	raw  []byte
	mean string
}

func cutPoint(b []byte) (part, []byte, error) {
	a, rest, err := lab.Unwire(b)
	return part{'P', b[:len(b)-len(rest)], a.String()}, rest, err
}

func cutComm(b []byte) (part, []byte, error) {
	p, rest, err := cutPoint(b)
	if err != nil {
		return p, rest, err
	}
	q, rest, err := cutPoint(rest)
	return part{'C', b[:len(b)-len(rest)], p.mean + q.mean}, rest, err
}

func cutProof(b []byte) (part, []byte, error) {
	if len(b) < 8 {
		return part{}, nil, fmt.Errorf("short")
	}
	l1, l2 := binary.BigEndian.Uint32(b), binary.BigEndian.Uint32(b[4:])
	if uint64(len(b)-8) < uint64(l1)+uint64(l2) {
		return part{}, nil, fmt.Errorf("short")
	}
	z1, z2 := new(big.Int).SetBytes(b[8:8+l1]), new(big.Int).SetBytes(b[8+l1:8+l1+l2])
	c, rest, err := cutComm(b[8+l1+l2:])
	if err != nil {
		return part{}, nil, err
	}
	return part{'N', b[:len(b)-len(rest)], fmt.Sprint(z1, z2, c.mean)}, rest, nil
}

// cut splits a message along a grammar such as "CCNN". What follows is ignored, as the
// code under test does.
func cut(grammar string, b []byte) (ps []part, err error) {
	for _, g := range grammar {
		var p part
		switch g {
		case 'C':
			p, b, err = cutComm(b)
		case 'P':
			p, b, err = cutPoint(b)
		case 'N':
			p, b, err = cutProof(b)
		}
		if err != nil {
			return nil, err
		}
		ps = append(ps, p)
	}
	return ps, nil
}

// format tells what messages look like, by round.
type format func(round int, b []byte) ([]part, error)

func meaning(ps []part, err error) string {
	if err != nil {
		return "undecodable"
	}
	s := ""
	for _, p := range ps {
		s += p.mean + "|"
	}
	return s
}

// committed is a commitment in the placeholder form: two lengths, then what is committed to.
func committed(inner string, b []byte) ([]part, error) {
	if len(b) < 8 {
		return nil, fmt.Errorf("short")
	}
	l1, l2 := binary.LittleEndian.Uint32(b), binary.LittleEndian.Uint32(b[4:])
	if uint64(len(b)-8) < uint64(l1)+uint64(l2) {
		return nil, fmt.Errorf("short")
	}
	p := []part{{'L', b[:8], fmt.Sprint(l1, l2)}}
	if inner == "" {
		return append(p, part{'B', b[8 : 8+l1+l2], fmt.Sprintf("%x", b[8:8+l1+l2])}), nil
	}
	ps, err := cut(inner, b[8:8+l1+l2])
	if err != nil {
		// what is committed to is compared byte by byte
		return append(p, part{'B', b[8 : 8+l1+l2], fmt.Sprintf("%x", b[8:8+l1+l2])}), nil
	}
	return append(p, ps...), nil
}

func rep(s string, n int) (r string) {
	for ; n > 0; n-- {
		r += s
	}
	return
}

// tail is the order of the pieces of the last message of a resharing.
type tail struct {
	once  sync.Once
	order string
}

// last finds out, from honest executions, in which order the last message of a resharing
// holds its pieces.
func (e *env) last() string {
	e.tail.once.Do(func() {
		fits := map[string]bool{"NC": true, "CN": true}
		for seed := 1; seed <= 6; seed++ {
			_, err, net := e.exec(e.r, 3, nil, seed, "untouched").dealt(2, 0, nil)
			for p := 0; p < 3 && err == nil && net.Rounds[p] == 6; p++ {
				b := net.One(p, 5)
				for order := range fits {
					ps, err := cut(order, b)
					l := 0
					for _, q := range ps {
						l += len(q.raw)
						c := q.raw
						if q.kind == 'N' {
							c = c[8+binary.BigEndian.Uint32(c)+binary.BigEndian.Uint32(c[4:]):]
						}
						for i := 0; i < 2; i++ {
							var a lab.Aff
							a, c, _ = lab.Unwire(c)
							if !a.Inf && !e.On(a) {
								fits[order] = false
							}
						}
					}
					if err != nil || l != len(b) {
						fits[order] = false
					}
				}
			}
		}
		e.tail.order = "CN"
		if fits["NC"] {
			e.tail.order = "NC"
		}
	})
	return e.tail.order
}

// resharing is the format of the messages of a resharing.
func (e *env) resharing(n, t int) format {
	return func(round int, b []byte) ([]part, error) {
		switch round {
		case 0:
			return cut("N", b)
		case 1:
			return committed("", b)
		case 2:
			return cut(rep("C", t)+rep("N", t+1), b)
		case 3:
			return cut(rep("C", n)+rep("N", n), b)
		case 4:
			if len(b) < 4 {
				return nil, fmt.Errorf("short")
			}
			l := binary.LittleEndian.Uint32(b)
			if uint64(l) > uint64(len(b)-4) {
				return nil, fmt.Errorf("short")
			}
			v, r := new(big.Int).SetBytes(b[4:4+l]), new(big.Int).SetBytes(b[4+l:])
			return []part{{'E', b, fmt.Sprint(e.Mod(v), e.Mod(r))}}, nil
		case 5:
			return cut(e.last(), b)
		}
		panic(mc.Broken("resharing takes more than six rounds"))
	}
}

// edit is one way to alter a message.
type edit struct {
	name string
	data []byte
}

// unfamiliar are the alterations of a message whose parts are not known: it is cut, or another
// message takes its place.
func unfamiliar(r *mc.Run, round int, orig []byte, whole []edit) (es []edit) {
	r.Skip("the message of round %d does not look as documented, it is altered as a whole: %x", round, orig)
	for _, w := range whole {
		if string(w.data) != string(orig) {
			es = append(es, w)
		}
	}
	for l := 0; l < len(orig); l++ {
		es = append(es, edit{fmt.Sprintf("cut to %d bytes", l), orig[:l]})
	}
	return
}

// edits alters a message: every truncation, every byte by every mask, every piece replaced
// by every other piece of the same kind, and pieces left out, doubled or added to. A committed
// opening is lengthened, shortened and divided in other ways, with the lengths made to match.
func edits(ps []part, b []byte, masks []int, spare []part) (es []edit) {
	for l := 0; l < len(b); l++ {
		es = append(es, edit{fmt.Sprintf("cut to %d bytes", l), b[:l]})
	}
	for i := range b {
		for _, m := range masks {
			c := append([]byte(nil), b...)
			c[i] ^= byte(m)
			es = append(es, edit{fmt.Sprintf("byte %d xor %02x", i, m), c})
		}
	}
	pool := append(append([]part(nil), ps...), spare...)
	at := 0
	for i, p := range ps {
		seen := map[string]bool{p.mean: true}
		for k, q := range pool {
			if q.kind != p.kind || seen[q.mean] {
				continue
			}
			seen[q.mean] = true
			c := append([]byte(nil), b[:at]...)
			c = append(append(c, q.raw...), b[at+len(p.raw):]...)
			es = append(es, edit{fmt.Sprintf("piece %d replaced by piece %d", i, k), c})
		}
		if p.kind != 'L' && p.kind != 'E' {
			c := append(append([]byte(nil), b[:at]...), b[at+len(p.raw):]...)
			es = append(es, edit{fmt.Sprintf("piece %d left out", i), c})
			c = append(append(append([]byte(nil), b[:at]...), p.raw...), b[at:]...)
			es = append(es, edit{fmt.Sprintf("piece %d doubled", i), c})
			for _, x := range []byte{0, 1} {
				c = append(append(append([]byte(nil), b[:at]...), x), b[at:]...)
				es = append(es, edit{fmt.Sprintf("a byte %d put before piece %d", x, i), c})
			}
		}
		at += len(p.raw)
	}
	for _, x := range [][]byte{{0}, {1}, {0, 0, 0, 0, 0, 0, 0, 0}, b} {
		es = append(es, edit{fmt.Sprintf("%d bytes %x.. added", len(x), x[0]), append(append([]byte(nil), b...), x...)})
	}
	if len(ps) > 0 && ps[0].kind == 'L' {
		l1 := int(binary.LittleEndian.Uint32(b))
		d, z := b[8:8+l1], b[8+l1:]
		put := func(name string, d, z []byte) {
			c := make([]byte, 8)
			binary.LittleEndian.PutUint32(c, uint32(len(d)))
			binary.LittleEndian.PutUint32(c[4:], uint32(len(z)))
			es = append(es, edit{name, append(append(c, d...), z...)})
		}
		forms := func(v []byte) (r [][]byte) {
			r = append(r, v, nil)
			for _, x := range [][]byte{{0}, {1}, {0, 0, 0, 0, 0, 0, 0, 0}, d, z} {
				if len(x) > 0 {
					r = append(r, append(append([]byte(nil), v...), x...), append(append([]byte(nil), x...), v...))
				}
			}
			for _, k := range []int{1, 2, 8, len(v) / 2} {
				if k > 0 && k < len(v) {
					r = append(r, v[:len(v)-k], v[k:])
				}
			}
			return r
		}
		for i, x := range forms(d) {
			for k, y := range forms(z) {
				put(fmt.Sprintf("committed to form %d of the values and form %d of the proofs", i, k), x, y)
			}
		}
		all := append(append([]byte(nil), d...), z...)
		for k := 0; k <= len(all); k++ {
			put(fmt.Sprintf("divided after byte %d", k), all[:k], all[k:])
		}
		put("values and proofs swapped", z, d)
	}
	return es
}
