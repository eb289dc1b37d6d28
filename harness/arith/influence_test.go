package arith

import (
	"fmt"

	"verif/harness/mc"

	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// contributions varies all contributions and polynomial coefficients together. Which draws
// these are is found out by changing them one at a time: they are the ones that change
// some revealed share.
func contributions(r *mc.Run, e *env, deep bool, one func(e *env, n, t1, t2 int, ch *mc.Chooser, seed int)) {
	for _, c := range [][2]int{{2, 1}, {2, 2}, {3, 2}, {3, 3}} {
		n, t := c[0], c[1]
		if n == 3 && !deep {
			continue
		}
		inf := influence(r, e, n, t)
		r.Note("%d parties, threshold %d: shares depend on the draws %v", n, t, inf)
		r.ExploreFrom(map[bool]int{true: -1, false: 4}[n == 2], func(l string) bool { return inf[l] }, func(ch *mc.Chooser) { one(e, n, t, 0, ch, 1) })
	}
}

func influence(r *mc.Run, e *env, n, t int) map[string]bool {
	base := shares(r, e, n, t, nil)
	labels := map[string]bool{}
	var all []string
	r.Replay(nil, func(ch *mc.Chooser) {
		x := e.exec(r, n, ch, 1, "influence")
		x.reshare(x.gen("a"), t)
		all = ch.Labels()
	})
	for i, l := range all {
		p := make([]int, i+1)
		p[i] = 1
		if fmt.Sprint(shares(r, e, n, t, p)) != fmt.Sprint(base) {
			labels[l] = true
		}
	}
	return labels
}

func shares(r *mc.Run, e *env, n, t int, prefix []int) (out []string) {
	r.Replay(prefix, func(ch *mc.Chooser) {
		x := e.exec(r, n, ch, 1, "influence")
		s := x.reshare(x.gen("a"), t)
		x.run(nil, func(pid int, _ psync.Server) { s.tds[pid].Reveal() })
		for i := range s.tds {
			out = append(out, fmt.Sprintf("%x", x.net.One(i, 0)))
		}
	})
	return
}
