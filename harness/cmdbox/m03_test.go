package cmdbox

import (
	"bufio"
	"errors"
	"fmt"
	"math/big"
	"net"
	"os"
	"regexp"
	"strings"
	gosync "sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/harness/mc"

	"gitlab.com/alephledger/core-go/pkg/network"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"
)

// A node is one party of a committee whose other parties are in this process. They talk over
// local sockets whose names are the addresses in the committee file.

type link struct {
	net.Conn
	r     *bufio.Reader
	w     *bufio.Writer
	first *atomic.Int64 // when something arrived behind the introduction
	n     int
	intro []byte
}

func (l *link) Read(b []byte) (int, error) {
	n, err := l.r.Read(b)
	for i := 0; i < n && len(l.intro) < 2; i++ {
		l.intro = append(l.intro, b[i])
	}
	if l.n += n; l.n > 2 {
		l.first.CompareAndSwap(0, time.Now().UnixNano())
	}
	return n, err
}
func (l *link) Write(b []byte) (int, error) { return l.w.Write(b) }
func (l *link) Flush() error                { return l.w.Flush() }

type local struct {
	net.Listener
	addrs []string
	first atomic.Int64
	mx    gosync.Mutex
	in    []*link
	done  atomic.Bool
}

func sockets(addr string, addrs []string) (*local, error) {
	l, err := net.Listen("unix", "@"+addr)
	if err != nil {
		return nil, err
	}
	return &local{Listener: l, addrs: addrs}, nil
}

func (l *local) link(c net.Conn) *link {
	return &link{Conn: c, r: bufio.NewReader(c), w: bufio.NewWriter(c), first: &l.first}
}

func (l *local) Dial(pid uint16) (network.Connection, error) {
	for l.done.Load() {
		time.Sleep(time.Second)
	}
	if int(pid) >= len(l.addrs) {
		return nil, errors.New("no such party")
	}
	c, err := net.DialTimeout("unix", "@"+l.addrs[pid], time.Second)
	if err != nil {
		time.Sleep(5 * time.Millisecond)
		return nil, err
	}
	return l.link(c), nil
}

func (l *local) Listen() (network.Connection, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		time.Sleep(5 * time.Millisecond)
		return nil, err
	}
	k := l.link(c)
	l.mx.Lock()
	defer l.mx.Unlock()
	l.in = append(l.in, k)
	return k, nil
}

func (l *local) Stop() { l.Listener.Close() }

func onSockets(addr string, addrs []string) (network.Server, error) {
	l, err := sockets(addr, addrs)
	if err != nil {
		return nil, err
	}
	return l, nil
}

// peer is a server that misbehaves in one round, and remembers what is sent.
type peer struct {
	psync.Server
	round, at int
	kind      string
	gone      bool
	mine      [][]byte            // by round
	got       []map[uint16][]byte // by round
}

var errGone = errors.New("gone")

func (p *peer) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	if p.gone {
		return errGone
	}
	if p.round == p.at {
		switch p.kind {
		case "garbage":
			toSend = [][]byte{{1}}
		case "gone":
			p.gone = true
			p.Server.Stop()
			return errGone
		}
	}
	p.round++
	got := map[uint16][]byte{}
	p.mine = append(p.mine, append([]byte(nil), toSend[0]...))
	p.got = append(p.got, got)
	return p.Server.Round(toSend, func(pid uint16, data []byte) error {
		got[pid] = append([]byte(nil), data...)
		return check(pid, data)
	})
}

// session is a committee with a node in it.
type session struct {
	N, Pid, T, Signatures int
	Late                  bool   // the start time has passed
	By, At                int    // the party that misbehaves, and when
	Kind                  string // how it does

	files  string
	addrs  []string
	rounds [4]int // where the phases begin and end
	log    string
	why    string // what is wrong
	hung   bool   // it is that the node does not end
}

var sessions atomic.Int64

func (s *session) wrong(format string, args ...any) {
	if s.why == "" {
		s.why = fmt.Sprintf(format, args...)
	}
}

// play runs a session once. There is a margin for everything to come up before the start.
func (s *session) play(scratch string, margin, round time.Duration) {
	s.why, s.hung = "", false
	work, err := os.MkdirTemp(scratch, "node")
	must(err)
	defer os.RemoveAll(work)
	// the addresses of this session, in the place of the ones that were generated
	id := fmt.Sprintf("verif-%d-%x-%d", os.Getpid(), time.Now().UnixNano(), sessions.Add(1))
	b, err := os.ReadFile(s.files + "/keys_addrs")
	must(err)
	text := string(b)
	addrs := make([]string, s.N)
	for i := range addrs {
		addrs[i] = fmt.Sprintf("%s-%d:1", id, i)
		text = strings.Replace(text, "|"+s.addrs[i]+"\n", "|"+addrs[i]+"\n", 1)
	}
	must(os.WriteFile(work+"/keys_addrs", []byte(text), 0o600))
	start := time.Now().Add(margin).Truncate(time.Second).Add(time.Second)
	told := start
	if s.Late {
		told = start.Add(-margin - 5*time.Second)
	}
	c, out := command(work, "node", []string{"VERIF_SOCKETS=1"},
		"-pk", fmt.Sprintf("%s/%d.pk", s.files, s.Pid), "-keys_addrs", "keys_addrs",
		"-startTime", strings.ReplaceAll(told.UTC().Format(time.UnixDate), " ", "-"), "-roundDuration", round.String(),
		"-sigNumber", fmt.Sprint(s.Signatures), "-threshold", fmt.Sprint(s.T))
	type side struct {
		*peer
		net  *local
		errs []string
	}
	all := make([]*side, s.N)
	var up gosync.WaitGroup
	for i := range all {
		if i == s.Pid {
			continue
		}
		l, err := sockets(addrs[i], addrs)
		must(err)
		p := &side{peer: &peer{at: -1}, net: l}
		if i == s.By {
			p.at, p.kind = s.At, s.Kind
		}
		p.Server = psync.NewServer(uint16(i), uint16(s.N), start, round, l)
		all[i] = p
	}
	must(c.Start())
	for i, p := range all {
		if p == nil {
			continue
		}
		up.Add(1)
		go func() {
			defer up.Done()
			defer p.net.done.Store(true)
			defer p.net.Stop()
			p.Start()
			fail := func(what string, err error) bool {
				if err != nil {
					p.errs = append(p.errs, fmt.Sprintf("%s fails at party %d: %v", what, i, err))
				}
				return err != nil
			}
			stop := func() {
				if !p.gone {
					p.Stop()
				}
			}
			proto, err := tecdsa.Init(uint16(i), uint16(s.N), p.peer)
			if fail("the initialisation", err) {
				stop()
				return
			}
			if i != s.By {
				s.rounds[0] = p.round
			}
			for k := 0; k < s.Signatures; k++ {
				if fail("making a presignature", proto.Presign(uint16(s.T))) {
					stop()
					return
				}
			}
			s.mark(i, 1, p.round)
			for k := 0; k < s.Signatures; k++ {
				_, err := proto.Sign(big.NewInt(int64(k)))
				fail(fmt.Sprintf("signature %d", k), err)
			}
			s.mark(i, 2, p.round)
			if p.gone {
				return
			}
			// the node has nothing more to say
			p.net.mx.Lock()
			in := append([]*link(nil), p.net.in...)
			p.net.mx.Unlock()
			for _, l := range in {
				if len(l.intro) < 2 || int(l.intro[0])|int(l.intro[1])<<8 != s.Pid {
					continue
				}
				l.SetReadDeadline(time.Now().Add(20 * time.Second))
				if n, err := l.Read(make([]byte, 1)); n > 0 {
					p.errs = append(p.errs, fmt.Sprintf("party %d is sent something after the last signature", i))
				} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
					p.errs = append(p.errs, fmt.Sprintf("a link to party %d is still open 20 seconds after the last signature", i))
				}
			}
			stop()
		}()
	}
	o := finish(c, out, margin+50*time.Second+time.Duration(s.Signatures)*300*time.Millisecond)
	s.log, s.hung = o.log, o.hung
	if s.Late {
		for _, p := range all {
			if p != nil {
				p.net.Stop()
			}
		}
	}
	if s.Late {
		// the others may be waiting for it
		if crash := o.crash(); crash != "" {
			s.wrong("the node %s", crash)
		} else if o.exit == 0 {
			s.wrong("the start time has passed, but the node ends with success and says: %s", cut(o.log, 600))
		}
		return
	}
	ended := make(chan struct{})
	go func() { up.Wait(); close(ended) }()
	select {
	case <-ended:
	case <-time.After(60 * time.Second):
		s.wrong("the other parties do not come to an end")
		return
	}
	if crash := o.crash(); crash != "" {
		s.wrong("the node %s", crash)
		return
	}
	var errs []string
	for _, p := range all {
		if p != nil {
			errs = append(errs, p.errs...)
			if f := p.net.first.Load(); f != 0 && f < start.Add(-50*time.Millisecond).UnixNano() {
				s.wrong("the first round begins %v before the start time", time.Duration(start.UnixNano()-f))
			}
		}
	}
	if s.Kind == "" && len(errs) > 0 {
		s.wrong("%s; the node says: %s", strings.Join(errs, "; "), cut(o.log, 600))
	}
	if s.Kind != "" && s.At < s.rounds[1] {
		if o.exit == 0 {
			s.wrong("the node ends with success and says: %s", cut(o.log, 600))
		}
		return
	}
	if o.exit != 0 {
		s.wrong("the node ends with %d and says: %s", o.exit, cut(o.log, 600))
	}
	if s.Kind == "garbage" {
		// signatures that the party takes no wrong part in are made
		for _, e := range errs {
			if !strings.Contains(e, fmt.Sprintf("signature %d fails", (s.At-s.rounds[1])/3)) {
				s.wrong("%s; the node says: %s", e, cut(o.log, 600))
			}
		}
	}
	// what the node contributes to a signature belongs to the message
	var others []int
	for i, p := range all {
		if p != nil && i != s.By {
			others = append(others, i)
		}
	}
	if s.rounds[2]-s.rounds[1] == 3*s.Signatures && len(others) >= s.T {
		for k := 0; k < s.Signatures; k++ {
			round := s.rounds[1] + 3*k + 2
			see := all[others[0]]
			b := see.got[round][uint16(s.Pid)]
			if len(b) == 0 {
				continue // it failed before
			}
			share := map[int]*big.Int{s.Pid: new(big.Int).SetBytes(b)}
			for _, i := range others {
				share[i] = new(big.Int).SetBytes(all[i].mine[round])
			}
			with := at0(append([]int{s.Pid}, others[:s.T-1]...), share)
			if without := at0(others[:s.T], share); with.Cmp(without) != 0 {
				s.wrong("with what the node contributes signature %d is %s and without it %s", k, with.Text(16), without.Text(16))
			}
		}
	}
}

// mark notes where a phase ends.
func (s *session) mark(i, k, round int) {
	marks.Lock()
	defer marks.Unlock()
	if i != s.By || s.Kind != "gone" {
		s.rounds[k] = round
	}
}

var marks gosync.Mutex

// at0 interpolates.
func at0(parties []int, share map[int]*big.Int) *big.Int {
	q := curve.NewSecp256k1Group().Order()
	sum := new(big.Int)
	for _, i := range parties {
		num, den := big.NewInt(1), big.NewInt(1)
		for _, j := range parties {
			if i != j {
				num.Mul(num, big.NewInt(int64(j+1)))
				den.Mul(den, big.NewInt(int64(j-i)))
			}
		}
		den.Mod(den, q)
		num.Mul(num, den.ModInverse(den, q))
		sum.Add(sum, num.Mul(num, share[i]))
	}
	return sum.Mod(sum, q)
}

var figures = regexp.MustCompile(`[0-9][0-9.:]*(ns|µs|ms|s|m|h)?`)

// news are the lines of a log that do not occur in another, whatever the figures.
func news(log, other string) (out []string) {
	known := map[string]bool{}
	for _, l := range strings.Split(figures.ReplaceAllString(other, "#"), "\n") {
		known[l] = true
	}
	for _, l := range strings.Split(figures.ReplaceAllString(log, "#"), "\n") {
		if !known[l] {
			out = append(out, l)
		}
	}
	return
}

func TestM03(t *testing.T) {
	check(t, "M03", func(r *mc.Run, scratch string) {
		max := 3
		if r.Thorough {
			max = 5
		}
		files, addrs := map[int]string{}, map[int][]string{}
		for n := 2; n <= max; n++ {
			files[n] = fresh(scratch)
			for i := 0; i < n; i++ {
				addrs[n] = append(addrs[n], fmt.Sprintf("party-%d.example:%d", i, 100+i))
			}
			must(os.WriteFile(files[n]+"/addresses", []byte(strings.Join(addrs[n], "\n")+"\n"), 0o600))
			if o := generate(files[n], "", fmt.Sprint(n), "addresses"); o.crash() != "" || o.log != "" {
				r.Skip("the generator says %q", o.log)
				return
			}
		}
		// Most of the time of a session is spent waiting for its start. It is played again with
		// more time to come up before it counts against the node.
		play := func(all []*session, judge func(s *session)) {
			slots := make(chan bool, 24)
			var wg gosync.WaitGroup
			var failed atomic.Bool // one session failed for good: the others are not finished
			ended := make([]bool, len(all))
			for i, s := range all {
				slots <- true
				if failed.Load() || r.Late() {
					break
				}
				wg.Add(1)
				go func() {
					defer func() { <-slots; wg.Done() }()
					s.files, s.addrs = files[s.N], addrs[s.N]
					hung := 0
					for j, margin := range []time.Duration{300 * time.Millisecond, 4 * time.Second, 15 * time.Second} {
						s.play(scratch, margin, []time.Duration{50, 200, 500}[j]*time.Millisecond)
						if s.hung {
							hung++
						}
						if s.why == "" || hung == 2 {
							break
						}
						if failed.Load() {
							return
						}
					}
					if s.why != "" {
						failed.Store(true)
					}
					ended[i] = true
				}()
			}
			wg.Wait()
			for i, s := range all {
				if !ended[i] {
					continue
				}
				r.State(1)
				r.Trace(1)
				r.Step(s.rounds[2])
				if s.why != "" {
					r.Fail(s, "%s", s.why)
				}
				judge(s)
			}
		}
		plain := func(n, pid, t, k int) *session {
			return &session{N: n, Pid: pid, T: t, Signatures: k, By: -1}
		}
		r.Part("sessions", func() {
			var all []*session
			for n := 2; n <= max; n++ {
				for pid := 0; pid < n; pid++ {
					for t := 1; t <= n; t++ {
						for k := 1; k <= 3; k++ {
							if n > 2 && k > 1 && !r.Thorough && (t+pid+k)%3 > 0 || n > 3 && k > 1 {
								continue
							}
							all = append(all, plain(n, pid, t, k))
						}
					}
				}
			}
			// more messages than a byte can tell apart
			all = append([]*session{plain(2, 1, 1, 260)}, all...)
			play(all, func(s *session) {
				r.Outcome("session", map[bool]string{true: "completes", false: "completes with hundreds of signatures"}[s.Signatures < 100])
			})
		})
		r.Part("late", func() {
			late := []*session{plain(2, 0, 1, 1), plain(2, 1, 2, 1), plain(3, 1, 2, 1)}
			for _, s := range late {
				s.Late = true
			}
			play(late, func(s *session) { r.Outcome("session", "late") })
		})
		r.Part("failures", func() {
			var all []*session
			base := map[string]*session{}
			var bases []*session
			for n := 2; n <= 3; n++ {
				for pid := 0; pid < n; pid++ {
					for t := 1; t <= n; t++ {
						if !r.Thorough && n > 2 && t != 2 {
							continue
						}
						bases = append(bases, plain(n, pid, t, 2))
					}
				}
			}
			play(bases, func(*session) {})
			for _, b := range bases {
				base[fmt.Sprint(b.N, b.Pid, b.T)] = b
				for at := 0; at < b.rounds[2]; at++ {
					for i, kind := range []string{"garbage", "gone"} {
						// while presignatures are made, some of the rounds do
						if !r.Thorough && at > 4 && at < b.rounds[1]-2 && (b.N == 2 && (at+b.Pid)%2 != i || b.N == 3 && at%6 != b.Pid+3*i) {
							continue
						}
						s := *b
						s.By, s.At, s.Kind = (b.Pid+1+at%(b.N-1))%b.N, at, kind
						all = append(all, &s)
					}
				}
			}
			play(all, func(s *session) {
				b := base[fmt.Sprint(s.N, s.Pid, s.T)]
				what := "signing"
				if s.At < b.rounds[1] {
					what = "preparing"
				}
				r.Outcome("failure", s.Kind+" when "+what)
				// a failure that leaves fewer than the threshold is reported
				if (s.At < b.rounds[1] || s.T == s.N) && len(news(s.log, b.log)) == 0 {
					r.Fail(s, "nothing is reported; the node says: %s", cut(s.log, 600))
				}
			})
		})
	})
}
