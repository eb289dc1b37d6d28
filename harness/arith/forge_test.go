package arith

import (
	"fmt"
	"math/big"
	"reflect"
	"unsafe"

	"verif/harness/lab"
	"verif/harness/lock"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// leaves calls f with every field of a shared secret that is a number, a list or an
// interface, by its path.
func leaves(v reflect.Value, path string, f func(path string, v reflect.Value)) {
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(big.Int{}) {
			f(path, v)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			leaves(v.Field(i), fmt.Sprintf("%s.%d", path, i), f)
		}
	case reflect.Pointer:
		if v.Type() == reflect.TypeOf((*big.Int)(nil)) {
			f(path, v)
		}
	default:
		f(path, v)
	}
}

func settle[T any](v reflect.Value, x T) { *(*T)(unsafe.Pointer(v.UnsafeAddr())) = x }

// forge makes the shared secrets of n parties, with the shares given, after the pattern of a real
// one among four: for committees that are too large to reshare in. It tells if it could.
func (e *env) forge(r *mc.Run, n, t int, shares []*big.Int) (x *exec, tds []*arith.TDSecret, ok bool) {
	y := e.exec(r, 4, nil, 1, "pattern")
	s := y.gen("a")
	y.reshare(s, 2)
	net := y.run(func(_, _, _ int, d []byte) ([]byte, bool) { return d, false }, func(pid int, _ psync.Server) { s.tds[pid].Reveal() })
	type role struct{ pid, t, n, share, egs, srv bool }
	roles := map[string]role{}
	for p, d := range s.tds {
		leaves(reflect.ValueOf(d).Elem(), "", func(path string, v reflect.Value) {
			ro, ok := roles[path]
			if !ok {
				ro = role{true, true, true, true, true, true}
			}
			var num int64 = -1
			switch v.Kind() {
			case reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
				num = int64(v.Uint())
			case reflect.Int, reflect.Int32, reflect.Int64:
				num = v.Int()
			}
			ro.pid = ro.pid && num == int64(p)
			ro.t = ro.t && num == 2
			ro.n = ro.n && num == 4
			ro.share = ro.share && v.Type() == reflect.TypeOf((*big.Int)(nil)) && !v.IsNil() &&
				e.Mod((*big.Int)(v.UnsafePointer())).Cmp(new(big.Int).SetBytes(net.One(p, 0))) == 0
			ro.egs = ro.egs && v.Type() == reflect.TypeOf([]*commitment.ElGamal(nil)) && v.Len() == 4
			ro.srv = ro.srv && v.Type() == reflect.TypeOf((*psync.Server)(nil)).Elem()
			roles[path] = ro
		})
	}
	var has role
	for _, ro := range roles {
		has.pid, has.t, has.share, has.egs, has.srv = has.pid || ro.pid, has.t || ro.t, has.share || ro.share, has.egs || ro.egs, has.srv || ro.srv
	}
	if !has.pid || !has.t || !has.share || !has.egs || !has.srv {
		r.Skip("the parts of a shared secret can not be told apart")
		return nil, nil, false
	}
	x = e.exec(r, n, nil, 1, fmt.Sprintf("threshold %d", t))
	for p := 0; p < n; p++ {
		d := &arith.TDSecret{}
		*d = *s.tds[0]
		leaves(reflect.ValueOf(d).Elem(), "", func(path string, v reflect.Value) {
			ro := roles[path]
			num := -1
			switch {
			case ro.pid:
				num = p
			case ro.t:
				num = t
			case ro.n:
				num = n
			case ro.share:
				settle(v, cp(shares[p]))
			case ro.egs:
				old := *(*[]*commitment.ElGamal)(unsafe.Pointer(v.UnsafeAddr()))
				var egs []*commitment.ElGamal
				for i := 0; i < n; i++ {
					egs = append(egs, old[i%4])
				}
				settle(v, egs)
			case ro.srv:
				settle[psync.Server](v, x.srvs[p])
			}
			if num >= 0 {
				switch v.Kind() {
				case reflect.Uint16:
					settle(v, uint16(num))
				case reflect.Uint32:
					settle(v, uint32(num))
				case reflect.Uint64:
					settle(v, uint64(num))
				case reflect.Uint:
					settle(v, uint(num))
				case reflect.Int:
					settle(v, num)
				case reflect.Int32:
					settle(v, int32(num))
				case reflect.Int64:
					settle(v, int64(num))
				}
			}
		})
		tds = append(tds, d)
	}
	return x, tds, true
}

// wide opens secrets shared among more parties than a byte can number. Some parties do what
// the code says; what the others send was recorded from the code before.
func (e *env) wide(r *mc.Run, n int, ts []int, open func(d *arith.TDSecret) (lab.Aff, bool, error)) {
	if mc.Race {
		return
	}
	if !lock.Large() {
		r.Skip("the error of a round in a large committee can not be made")
		return
	}
	for _, t := range ts {
		secret := e.Mod(lab.Hex("5EC12E7000112233445566778899AABBCCDDEEFF00112233445566778899AABB"))
		f := []*big.Int{secret}
		for i := 1; i < t; i++ {
			f = append(f, e.Mod(new(big.Int).Exp(B(int64(3*i+5)), B(150), nil)))
		}
		shares := make([]*big.Int, n)
		for p := range shares {
			v := B(0)
			for i := t - 1; i >= 0; i-- {
				v.Mul(v, B(int64(p+1)))
				v = e.Mod(v.Add(v, f[i]))
			}
			shares[p] = v
		}
		x, tds, ok := e.forge(r, n, t, shares)
		if !ok {
			return
		}
		if got := tds[n-1].Threshold(); got != uint16(t) {
			r.Skip("the threshold of a shared secret can not be set")
			return
		}
		none := func(_, _, _ int, d []byte) ([]byte, bool) { return d, false }
		rec := x.run(none, func(pid int, _ psync.Server) { open(tds[pid]) })
		sent := make([][]byte, n)
		for p := range sent {
			sent[p] = rec.One(p, 0)
		}
		want := e.Mul(secret)
		judges := map[int]bool{0: true, n / 2: true, 255: true, 256: true, n - 1: true}
		// which shares arrive
		sets := map[string]func(p int) bool{
			"all shares":                       func(int) bool { return true },
			"the last shares":                  func(p int) bool { return p >= n-t },
			"the first shares":                 func(p int) bool { return p < t },
			"too few shares":                   func(p int) bool { return p < t-1 },
			"every other share":                func(p int) bool { return p%2 == 0 },
			"shares around a gap":              func(p int) bool { return p < t/2 || p >= n-(t-t/2) },
			"the first and those a byte later": func(p int) bool { return p%256 < (t+1)/2 },
		}
		var names []string
		for name := range sets {
			names = append(names, name)
		}
		for _, name := range names {
			in := sets[name]
			out, fails, errs := make([]lab.Aff, n), make([]bool, n), make([]error, n)
			x.run(func(_, f, _ int, d []byte) ([]byte, bool) { return d, in(f) }, func(pid int, srv psync.Server) {
				if !judges[pid] {
					srv.Round([][]byte{sent[pid]}, func(uint16, []byte) error { return nil })
					return
				}
				out[pid], fails[pid], errs[pid] = open(tds[pid])
			})
			for p := range judges {
				got := 1
				for q := 0; q < n; q++ {
					if q != p && in(q) {
						got++
					}
				}
				r.Step(1)
				switch {
				case got < t && errs[p] == nil:
					x.fail("of %d parties, party %d gets %s, %d in number, and opens the secret though the threshold is %d", n, p, name, got, t)
				case got >= t && (errs[p] != nil || fails[p]):
					x.fail("of %d parties, party %d gets %s, %d in number with threshold %d, and fails to open the secret: %v", n, p, name, got, t, errs[p])
				case got >= t && !out[p].Same(want):
					x.fail("of %d parties, party %d opens the secret from %s with threshold %d as %v; it is %v", n, p, name, t, out[p], want)
				}
			}
			r.Trace(1)
		}
		r.State(1)
	}
}
