package arith

import (
	"bytes"
	"fmt"
	"math/big"
	"runtime"
	"strings"
	stdsync "sync"
	"testing"
	"time"

	"verif/harness/lab"
	"verif/harness/lock"
	"verif/harness/mc"
	"verif/harness/simnet"

	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"
)

// A committee from its start to its last signature: the protocols over the repository's own
// server over a network that fails.

// heard is a round as one party lived it.
type heard struct {
	sent []byte         // to everybody, nil if not the same
	got  map[int][]byte // what was handed over
	bad  map[int]string // what was refused
	err  error
	done bool
}

// ear notes the rounds of a party.
type ear struct {
	psync.Server
	net    *simnet.Net
	pid    int
	rounds []*heard
	die    func(round int) bool // asked before a round
}

func (w *ear) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	if w.die != nil && w.die(len(w.rounds)) {
		w.net.SetMark(w.pid, -1)
		w.Server.Stop()
		runtime.Goexit()
	}
	h := &heard{got: map[int][]byte{}, bad: map[int]string{}}
	if len(toSend) == 1 {
		h.sent = append([]byte{}, toSend[0]...)
	}
	w.rounds = append(w.rounds, h)
	w.net.SetMark(w.pid, len(w.rounds))
	h.err = w.Server.Round(toSend, func(from uint16, d []byte) error {
		h.got[int(from)] = append([]byte{}, d...)
		err := check(from, d)
		if err != nil {
			h.bad[int(from)] = err.Error()
		}
		return err
	})
	h.done = true
	return h.err
}

// call is one call of the protocol by one party.
type call struct {
	what   string
	t      int      // of a presignature
	m      *big.Int // of a signature
	from   int      // rounds of the party that belong to it
	to     int
	err    error
	done   bool
	sig    *tecdsa.Signature
	r, s   *big.Int
	secret string // commitments of the presignature that was made or used
	values [4]lab.Aff
}

// task is what the parties do after initialising.
type task struct {
	t int // presign with this threshold, or 0
	m int64
}

func (k task) String() string {
	if k.t > 0 {
		return fmt.Sprintf("presign with threshold %d", k.t)
	}
	return fmt.Sprintf("sign %d", k.m)
}

// whole is one execution.
type whole struct {
	e      *env
	r      *mc.Run
	n      int
	seed   int
	tasks  []task
	goOn   bool // a party goes on after it failed to sign, as the node does
	net    *simnet.Net
	src    []*lock.Source
	ears   []*ear
	calls  [][]*call
	keys   []string
	memory *memory
	dead   int // parties that go away in the first signing
	at     int // the round of it in which they do
}

// memory is what executions have in common.
type memory struct {
	mu   stdsync.Mutex
	h    map[string]*big.Int // exponent of the commitment key
	vals map[string][4]lab.Aff
	sigs map[string]string
}

func (w *whole) show() any {
	story := []string{}
	for p := range w.calls {
		for _, c := range w.calls[p] {
			story = append(story, fmt.Sprintf("party %d, rounds %d to %d: %s, error %.150v", p, c.from, c.to-1, c.what, c.err))
		}
	}
	return map[string]any{"curve": w.e.name, "calls": story, "parties": w.n, "pattern": w.seed, "tasks": w.tasks, "goes on": w.goOn, "die": fmt.Sprintf("%b in round %d of signing", w.dead, w.at), "choices": w.net.Ch.Deviations(), "faults": w.net.Happened,
		"rendezvous": w.net.Rendezvous, "history": tailOf(w.net.Trace, 60)}
}

func tailOf(s []string, k int) []string {
	if len(s) > k {
		s = s[len(s)-k:]
	}
	return s
}

func (w *whole) fail(format string, args ...any) { w.r.Fail(w.show(), format, args...) }

func (w *whole) run() {
	w.src = w.e.sources(nil, w.seed, w.n)
	w.ears = make([]*ear, w.n)
	w.calls = make([][]*call, w.n)
	w.keys = make([]string, w.n)
	mains := map[int]func(){}
	for pid := 0; pid < w.n; pid++ {
		mains[pid] = func() { lock.As(w.src[pid], func() { w.party(pid) }) }
	}
	done := w.r.Running(map[string]any{"curve": w.e.name, "parties": w.n, "pattern": w.seed, "tasks": fmt.Sprint(w.tasks), "choices": w.net.Ch.Prefix()})
	out := w.net.Run(theT, mains)
	done()
	for pid, o := range out {
		if o.Panic != nil {
			w.r.Try(w.show(), func() {
				if mc.UnderTest(o.Stack) {
					panic(mc.Broken("panic of party %d: %v\n%s", pid, o.Panic, o.Stack))
				}
				panic(o.Panic)
			})
		}
	}
}

func (w *whole) party(pid int) {
	srv := psync.NewServer(uint16(pid), uint16(w.n), time.Now().Add(50*time.Millisecond), 400*time.Millisecond, w.net.Server(pid))
	srv.Start()
	time.Sleep(25 * time.Millisecond)
	e := &ear{Server: srv, net: w.net, pid: pid}
	w.ears[pid] = e
	signing := -1
	if w.dead>>pid&1 == 1 {
		e.die = func(round int) bool { return signing >= 0 && round == signing+w.at }
	}
	begin := func(what string) *call {
		c := &call{what: what, from: len(e.rounds)}
		w.calls[pid] = append(w.calls[pid], c)
		return c
	}
	var p *tecdsa.Protocol
	c := begin("initialise")
	p, c.err = tecdsa.Init(uint16(pid), uint16(w.n), e)
	c.to, c.done = len(e.rounds), true
	if (p == nil) == (c.err == nil) {
		panic(mc.Broken("party %d initialises to %v with error %v", pid, p, c.err))
	}
	ok := c.err == nil
	for i := 0; i < len(w.tasks) && ok; i++ {
		k := w.tasks[i]
		c := begin(k.String())
		if k.t > 0 {
			c.t = k.t
			c.err = p.Presign(uint16(k.t))
			ok = c.err == nil
		} else {
			c.m = B(k.m)
			if signing < 0 {
				signing = len(e.rounds)
			}
			c.sig, c.err = p.Sign(B(k.m))
			ok = w.goOn || c.err == nil
		}
		c.to, c.done = len(e.rounds), true
	}
	w.net.SetMark(pid, -1)
	srv.Stop()
}

// judge compares an execution with what its parties were told.
func (w *whole) judge() {
	if w.net.Stuck != nil {
		w.fail("the parties do not finish; waiting: %v", w.net.Stuck)
	}
	quiet := len(w.net.Happened) == 0
	for p := 0; p < w.n; p++ {
		var left []*call // presignatures
		for _, c := range w.calls[p] {
			w.r.Step(1)
			if !c.done && w.dead>>p&1 == 1 {
				break
			}
			if !c.done {
				w.fail("party %d does not come back from the call to %s", p, c.what)
			}
			if quiet && c.err != nil && c.t > 0 {
				w.fail("party %d fails to %s though nothing went wrong: %v", p, c.what, c.err)
			}
			rounds := w.ears[p].rounds[c.from:c.to]
			if c.m == nil {
				w.full(p, c, rounds)
				if c.t > 0 && c.err == nil {
					w.secrets(p, c, rounds)
					left = append(left, c)
				}
				w.r.Outcome("calls", map[bool]string{true: "presign", false: "initialise"}[c.t > 0]+map[bool]string{true: "", false: " fails"}[c.err == nil])
				continue
			}
			if len(left) == 0 {
				if c.err == nil {
					w.fail("party %d signs without a presignature", p)
				}
				w.r.Outcome("calls", "nothing to sign with")
				continue
			}
			ps := left[0]
			left = left[1:]
			c.t, c.secret, c.values = ps.t, ps.secret, ps.values
			w.signing(p, c, rounds)
		}
	}
	w.together()
	w.r.Trace(1)
	w.r.State(w.net.Steps)
}

// full: initialising and presigning need everybody in every round.
func (w *whole) full(p int, c *call, rounds []*heard) {
	for k, h := range rounds {
		miss := ""
		for q := 0; q < w.n; q++ {
			if q == p {
				continue
			}
			if _, ok := h.got[q]; !ok {
				miss = fmt.Sprintf("the data of party %d is missing", q)
			} else if why, ok := h.bad[q]; ok {
				miss = fmt.Sprintf("the data of party %d is refused: %s", q, why)
				w.honest(p, q, c, k, why)
			}
		}
		if miss == "" && h.err != nil {
			miss = h.err.Error()
		}
		if miss != "" && c.err == nil {
			w.fail("the call of party %d to %s succeeds though in its round %d %s (faults %v)", p, c.what, k, miss, w.net.Happened)
		}
		if miss != "" && k < len(rounds)-1 {
			w.fail("the call of party %d to %s enters another round after round %d, where %s (faults %v)", p, c.what, k, miss, w.net.Happened)
		}
		if miss == "" && k == len(rounds)-1 && c.err != nil {
			w.fail("the call of party %d to %s fails after %d rounds in which everything arrived and was accepted: %v (faults %v)", p, c.what, k+1, c.err, w.net.Happened)
		}
	}
}

// accepted is the number of parties, itself included, whose data a party accepted in a round.
func (w *whole) accepted(h *heard) int { return 1 + len(h.got) - len(h.bad) }

// honest: a party that is in the same call, and has what it needs, does not send what is refused.
func (w *whole) honest(p, q int, c *call, round int, why string) {
	for _, d := range w.calls[q] {
		if d.what != c.what || d.from != c.from || d.from+round >= len(w.ears[q].rounds) {
			continue
		}
		need := w.n
		if d.m != nil {
			need = c.t
		}
		able := true
		for _, h := range w.ears[q].rounds[d.from : d.from+round] {
			able = able && h.done && w.accepted(h) >= need && (need < w.n || h.err == nil)
		}
		if able && !(c.m != nil && c.values[role.tau].Inf) {
			w.fail("in round %d of the call to %s party %d refuses what party %d sent: %s (faults %v)", round, c.what, p, q, why, w.net.Happened)
		}
	}
}

// secrets are the four secrets of the presignature that a party made, as it saw them.
func (w *whole) secrets(p int, c *call, rounds []*heard) {
	var all [][]point2
	id := ""
	for _, h := range rounds {
		var cs []point2
		for q := 0; q < w.n; q++ {
			d := h.got[q]
			if q == p {
				d = h.sent
			}
			ps, err := cut("C", d)
			if err != nil || len(ps[0].raw) != len(d) {
				cs = nil
				break
			}
			pt, _ := comm(d)
			cs = append(cs, pt)
			id += ps[0].mean
		}
		if cs != nil {
			all = append(all, cs)
			id += "|"
		}
	}
	if len(all) != 4 {
		w.r.Skip("a presignature has %d secrets, not four", len(all))
		panic(mc.Stop)
	}
	c.secret = id
	m := w.memory
	m.mu.Lock()
	defer m.mu.Unlock()
	key := fmt.Sprint(w.e.name, w.n, w.seed, id)
	if _, ok := m.vals[key]; !ok {
		e := w.e.key(w.exponent(p))
		var vs [4]lab.Aff
		for i, cs := range all {
			vs[i] = lab.Aff{Inf: true}
			for _, pt := range cs {
				vs[i] = e.Add(vs[i], e.value(pt))
			}
		}
		m.vals[key] = vs
	}
	c.values = m.vals[key]
}

// exponent is the discrete logarithm of the commitment key of a party.
func (w *whole) exponent(p int) *big.Int {
	h := B(0)
	var sum []lab.Aff
	var parts [][]lab.Aff
	c := w.calls[p][0]
	id := fmt.Sprint(w.e.name, w.n, w.seed)
	if k, ok := w.memory.h[id]; ok {
		return k
	}
	for _, r := range w.ears[p].rounds[c.from:c.to] {
		var as []lab.Aff
		s := lab.Aff{Inf: true}
		for q := 0; q < w.n; q++ {
			d := r.got[q]
			if q == p {
				d = r.sent
			}
			a, rest, err := lab.Unwire(d)
			if err != nil || len(rest) > 0 || !w.e.On(a) {
				as = nil
				break
			}
			as = append(as, a)
			s = w.e.Add(s, a)
		}
		if as != nil {
			parts = append(parts, as)
			sum = append(sum, s)
		}
	}
	if len(sum) != 2 {
		w.r.Skip("initialisation announces %d keys, not two", len(sum))
		panic(mc.Stop)
	}
	if w.e.Tiny {
		h = B(w.e.Log(sum[role.com]))
	} else {
		for q, a := range parts[role.com] {
			found := false
			for _, k := range w.src[q].Ints() {
				if w.e.Mul(k).Same(a) {
					h.Add(h, k)
					found = true
					break
				}
			}
			if !found {
				w.r.Skip("the contribution of party %d to the commitment key is not among what it drew", q)
				panic(mc.Stop)
			}
		}
		h = w.e.Mod(h)
	}
	w.memory.h[id] = h
	return h
}

// signing: a round of signing needs the shares of as many as the threshold tells.
func (w *whole) signing(p int, c *call, rounds []*heard) {
	tau := c.values[role.tau]
	enough := true
	for k, h := range rounds {
		for q, why := range h.bad {
			w.honest(p, q, c, k, why)
		}
		n := w.accepted(h)
		enough = enough && n >= c.t
		if n < c.t && c.err == nil {
			w.fail("party %d, with threshold %d, gets a signature of %v though only %d shares were accepted in round %d (faults %v)", p, c.t, c.m, n, k, w.net.Happened)
		}
	}
	if enough && c.err != nil && !tau.Inf {
		w.fail("party %d, with threshold %d, fails to sign %v though enough shares were accepted in each of %d rounds: %v (faults %v)", p, c.t, c.m, len(rounds), c.err, w.net.Happened)
	}
	if (c.err == nil) == (c.sig == nil) {
		w.fail("party %d gets the signature %v with error %v", p, c.sig, c.err)
	}
	if tau.Inf {
		if c.err == nil {
			w.fail("party %d signs with a mask of zero", p)
		}
		w.r.Outcome("calls", "zero mask")
		return
	}
	if c.err != nil {
		w.r.Outcome("calls", "sign fails")
		return
	}
	_, ints := held(c.sig)
	if len(ints) != 2 || ints[0] == nil || ints[1] == nil {
		w.r.Skip("a signature holds %d numbers, not two", len(ints))
		panic(mc.Stop)
	}
	c.r, c.s = ints[0], ints[1]
	v := c.values
	m := w.memory
	m.mu.Lock()
	key := fmt.Sprint(c.m, c.r, c.s, v)
	bad, ok := m.sigs[key]
	if !ok {
		x := &house{exec: &exec{e: w.e}}
		bad = x.correct(c.m, &made{k: v[role.k], rho: v[role.rho], eta: v[role.eta], tau: tau}, c.r, c.s)
		m.sigs[key] = bad
	}
	m.mu.Unlock()
	if bad != "" {
		w.fail("party %d: %s (faults %v)", p, bad, w.net.Happened)
	}
	w.r.Outcome("calls", "sign")
}

// together compares the parties with each other.
func (w *whole) together() {
	// what the parties opened in initialisation is the same for all that finished
	first := -1
	for p := 0; p < w.n; p++ {
		c := w.calls[p][0]
		if c.err != nil {
			continue
		}
		if first < 0 {
			first = p
			continue
		}
		for k := range w.ears[first].rounds[:w.calls[first][0].to] {
			a, b := w.ears[first].rounds[k], w.ears[p].rounds[k]
			for q := 0; q < w.n; q++ {
				if q != p && q != first && !bytes.Equal(a.got[q], b.got[q]) {
					w.fail("parties %d and %d finish initialisation after getting %x and %x from party %d in round %d", first, p, a.got[q], b.got[q], q, k)
				}
			}
		}
	}
	for i := range w.tasks {
		var one *call
		who := -1
		for p := 0; p < w.n; p++ {
			if i+1 >= len(w.calls[p]) {
				continue
			}
			c := w.calls[p][i+1]
			if c.err != nil || !c.done {
				continue
			}
			if one == nil {
				one, who = c, p
				continue
			}
			if c.secret != one.secret {
				w.fail("parties %d and %d succeed to %s, with presignatures of different secrets: %v and %v (faults %v)", who, p, c.what, one.values, c.values, w.net.Happened)
			}
			if c.m != nil && (c.r.Cmp(one.r) != 0 || c.s.Cmp(one.s) != 0) {
				w.fail("parties %d and %d succeed to %s, with (%v, %v) and (%v, %v) (faults %v)", who, p, c.what, one.r, one.s, c.r, c.s, w.net.Happened)
			}
		}
	}
	// what a failure costs
	if !w.everybody() || len(w.net.Happened) > 1 && w.timedOut() {
		return // a party that waits on one link may keep others waiting for longer than they wait
	}
	gone := make([]bool, w.n)
	for p := range gone {
		gone[p] = w.net.Crashed[p] || w.dead>>p&1 == 1
	}
	broken := map[[2]int]bool{}
	for _, h := range w.net.Hit {
		if h.Link != nil {
			broken[[2]int{h.Link.From, h.Link.To}] = true
		}
	}
	for i, k := range w.tasks {
		if k.t > 0 {
			continue
		}
		// who has what it needs from those who do
		able := make([]bool, w.n)
		t := 0
		for p := range able {
			able[p] = !gone[p]
			if i+1 < len(w.calls[p]) {
				t = max(t, w.calls[p][i+1].t)
			}
		}
		for again := true; again; {
			again = false
			for p := range able {
				n := 1
				for q := range able {
					if q != p && able[q] && !broken[[2]int{q, p}] {
						n++
					}
				}
				if able[p] && n < t {
					able[p], again = false, true
				}
			}
		}
		for p := range able {
			if !able[p] {
				gone[p] = gone[p] || !w.goOn
				continue
			}
			if i+1 >= len(w.calls[p]) {
				if w.goOn {
					w.fail("party %d does not get to %v", p, k)
				}
				continue
			}
			c := w.calls[p][i+1]
			if c.err != nil && !c.values[role.tau].Inf {
				w.fail("party %d, which has working links to enough others, can not sign %v with threshold %d among %d: %v (faults %v)", p, c.m, c.t, w.n, c.err, w.net.Happened)
			}
		}
	}
}

func (w *whole) timedOut() bool {
	for _, l := range w.net.Trace {
		if strings.HasSuffix(l, "(times out)") {
			return true
		}
	}
	return false
}

// everybody tells whether all parties made all presignatures.
func (w *whole) everybody() bool {
	for p := 0; p < w.n; p++ {
		for i, k := range w.tasks {
			if k.t > 0 && (i+1 >= len(w.calls[p]) || w.calls[p][i+1].err != nil) {
				return false
			}
		}
	}
	return true
}

var theT *testing.T

// sessionFaults are the things that may go wrong in a session.
func sessionFaults(net *simnet.Net, from int, rich bool) func(o *simnet.Op) []simnet.Fault {
	return func(o *simnet.Op) []simnet.Fault {
		if net.Mark[o.By] <= from {
			return nil
		}
		switch o.Kind {
		case simnet.Read:
			if rich {
				return []simnet.Fault{simnet.Error, simnet.End, simnet.Timeout}
			}
			return []simnet.Fault{simnet.Timeout}
		case simnet.Write:
			if rich {
				return []simnet.Fault{simnet.Error, simnet.Glitch}
			}
			return nil
		case simnet.Flush:
			if rich {
				return []simnet.Fault{simnet.Crash, simnet.Half, simnet.Error, simnet.Timeout, simnet.Glitch}
			}
			return []simnet.Fault{simnet.Crash, simnet.Half}
		}
		return nil
	}
}

// plan is a kind of session with what may go wrong in it.
type plan struct {
	n, seed    int
	tasks      []task
	before     int // tasks during which nothing goes wrong; -1: nothing goes wrong before the first signing
	bound      int
	faults     int
	rich       bool
	orders     bool // the order of events is varied
	rendezvous bool
	goOn       bool
}

func (k plan) run(r *mc.Run, e *env, mem *memory) {
	one := func(ch *mc.Chooser, from, faults int) *whole {
		w := &whole{e: e, r: r, n: k.n, seed: k.seed, tasks: k.tasks, goOn: k.goOn, memory: mem}
		w.net = simnet.New(k.n, ch)
		w.net.Rendezvous = k.rendezvous
		w.net.Limit = 400000
		w.net.Order = func(o *simnet.Op) bool { return w.net.Mark[o.By] > from }
		w.net.Faults = sessionFaults(w.net, from, k.rich)
		w.net.MaxFaults = faults
		w.net.Patience = 100 * time.Millisecond
		w.net.Quiet = !k.orders
		w.run()
		w.judge()
		return w
	}
	from := 0
	if k.before != 0 {
		// the rounds of what comes before, from an execution without faults
		w := func() *whole {
			o := k.orders
			k.orders = false
			defer func() { k.orders = o }()
			return one(&mc.Chooser{}, 0, 0)
		}()
		i := k.before
		if i < 0 {
			for i = 0; i < len(k.tasks) && k.tasks[i].t > 0; i++ {
			}
		}
		for p := range w.calls {
			if len(w.calls[p]) <= i {
				w.fail("party %d does not get beyond call %d though nothing went wrong", p, len(w.calls[p]))
				return
			}
		}
		from = w.calls[0][i].to
	}
	r.ExploreP(k.bound, func(ch *mc.Chooser) { one(ch, from, k.faults) })
}

func TestX01(t *testing.T) {
	theT = t
	check(t, "X01", func(r *mc.Run) {
		mem := &memory{h: map[string]*big.Int{}, vals: map[string][4]lab.Aff{}, sigs: map[string]string{}}
		var knows bool
		know := func(e *env) {
			if !knows {
				learn(r, e)
			}
			knows = true
		}
		part := func(where func(*mc.Run, string, func(*env)), name string, plans ...plan) {
			where(r, name, func(e *env) {
				know(e)
				for i, k := range plans {
					start := time.Now()
					k.run(r, e, mem)
					r.Note("%s %d: %v", name, i, time.Since(start).Round(time.Second/10))
				}
			})
		}
		small := func(r *mc.Run, name string, body func(*env)) { tiny(r, 199, name, body) }
		one := []task{{t: 2}, {m: 5}}
		two := []task{{t: 3}, {t: 2}, {m: 5}, {m: 6}}
		// any set of parties goes away in any round of signing
		survivors := func(where func(*mc.Run, string, func(*env)), from, to, seed int) {
			where(r, "any set of parties goes away", func(e *env) {
				know(e)
				type job struct{ n, t, dead, at int }
				var jobs []job
				for n := from; n <= to; n++ {
					for t := 1; t <= n; t++ {
						for dead := 0; dead < 1<<n; dead++ {
							for at := 0; at < 3 && (dead > 0 || at == 0); at++ {
								jobs = append(jobs, job{n, t, dead, at})
							}
						}
					}
				}
				r.Parallel(len(jobs), func(i int) {
					k := jobs[i]
					w := &whole{e: e, r: r, n: k.n, seed: seed, tasks: []task{{t: k.t}, {m: int64(7 + k.t)}}, memory: mem, dead: k.dead, at: k.at}
					w.net = simnet.New(k.n, &mc.Chooser{})
					w.net.Limit, w.net.Quiet, w.net.Patience = 400000, true, 100*time.Millisecond
					w.run()
					w.judge()
				})
			})
		}
		// many calls one after another
		long := func(n, k int) []task {
			var ts []task
			for i := 0; i < k; i++ {
				ts = append(ts, task{t: 1 + i%n})
			}
			for i := 0; i < k; i++ {
				ts = append(ts, task{m: int64(i)})
			}
			return ts
		}
		part(small, "one failure",
			plan{n: 2, seed: 1, tasks: one, bound: 1, faults: 1, rich: true},
			plan{n: 2, seed: 2, tasks: []task{{t: 1}, {m: 5}}, bound: 1, faults: 1, rich: true, rendezvous: true},
			plan{n: 3, seed: 1, tasks: one, bound: 1, faults: 1, rich: r.Thorough},
			plan{n: 4, seed: 1, tasks: []task{{t: 3}, {m: 5}}, bound: 1, faults: 1, before: -1, rich: true},
		)
		part(small, "any order",
			plan{n: 2, seed: 3, tasks: one, bound: 1, orders: true},
			plan{n: 3, seed: 3, tasks: one, bound: 1, orders: true, rendezvous: true, before: -1},
		)
		part(small, "two signatures",
			plan{n: 3, seed: 4, tasks: two, bound: 1, faults: 1, before: -1, rich: true},
			plan{n: 4, seed: 4, tasks: []task{{t: 4}, {t: 2}, {m: 5}, {m: 6}}, bound: 1, faults: 1, before: -1, rich: r.Thorough},
		)
		part(small, "a long session",
			plan{n: 2, seed: 5, tasks: long(2, 20)},
			plan{n: 3, seed: 5, tasks: long(3, 20)},
		)
		survivors(small, 2, 5, 1)
		part(small, "two failures",
			plan{n: 3, seed: 1, tasks: one, bound: 2, faults: 2, before: -1},
		)
		part(small, "out of step",
			plan{n: 4, seed: 4, tasks: []task{{t: 4}, {t: 2}, {m: 5}, {m: 6}}, bound: 1, faults: 1, before: -1, goOn: true, rich: r.Thorough},
			plan{n: 3, seed: 4, tasks: two, bound: 1, faults: 1, before: -1, goOn: true, rich: true},
		)
		if r.Thorough {
			part(small, "more failures",
				plan{n: 4, seed: 6, tasks: one, bound: 2, faults: 2, before: -1},
				plan{n: 3, seed: 6, tasks: []task{{t: 3}, {m: 5}}, bound: 2, faults: 2, before: -1, rendezvous: true},
			)
			part(small, "failures and orders",
				plan{n: 2, seed: 3, tasks: one, bound: 2, faults: 1, orders: true, before: -1},
				plan{n: 3, seed: 3, tasks: one, bound: 2, faults: 1, orders: true, before: -1},
			)
			survivors(small, 6, 7, 2)
			survivors(real, 4, 4, 2)
		}
		survivors(real, 2, 3, 1)
		part(real, "out of step",
			plan{n: 3, seed: 1, tasks: two, bound: 1, faults: 1, before: -1, goOn: true},
		)
	})
}
