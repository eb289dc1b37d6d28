// Package cmdbox runs the two commands as processes of their own.
package cmdbox

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"verif/harness/mc"

	"github.com/binance-chain/tss-lib/crypto/paillier"
	"gitlab.com/alephledger/core-go/pkg/network"
	"gitlab.com/alephledger/core-go/pkg/network/tcp"
	"gitlab.com/alephledger/threshold-ecdsa/cmd/verifgen"
	"gitlab.com/alephledger/threshold-ecdsa/cmd/verifnode"
)

// A child is this same program; it runs one of the commands in the current directory.
func TestMain(m *testing.M) {
	switch os.Getenv("VERIF_CHILD") {
	case "":
		os.Exit(m.Run())
	case "gen":
		if f := os.Getenv("VERIF_PRIMES"); f != "" {
			given(f)
		}
		if n, err := strconv.Atoi(os.Getenv("VERIF_FILES")); err == nil {
			// no more than that many open files
			must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: uint64(n), Max: uint64(n)}))
		}
		os.Args[0] = "gen_keys"
		verifgen.Main()
	case "node":
		if os.Getenv("VERIF_RECORD") != "" {
			tcp.Hook = record
		}
		if os.Getenv("VERIF_SOCKETS") != "" {
			tcp.Hook = onSockets
		}
		os.Args[0] = "tecdsa"
		verifnode.Main()
	}
	os.Exit(0)
}

// given makes key pairs of the primes in a file.
func given(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		os.Exit(70)
	}
	lines := strings.Fields(string(b))
	var mu sync.Mutex
	paillier.Hook = func(int) (*paillier.PrivateKey, *paillier.PublicKey, error) {
		mu.Lock()
		defer mu.Unlock()
		if len(lines) < 2 {
			return nil, nil, errors.New("no more primes")
		}
		p, _ := new(big.Int).SetString(lines[0], 10)
		q, _ := new(big.Int).SetString(lines[1], 10)
		lines = lines[2:]
		priv, pub := paillier.FromPrimes(p, q)
		return priv, pub, nil
	}
}

// seen is what a node does to the network before its first round.
type seen struct {
	Local   string
	Remotes []string
	Dialled int
	Intro   string
}

type recorder struct{ s seen }
type recording struct {
	r   *recorder
	pid int
	b   bytes.Buffer
}

func record(local string, remotes []string) (network.Server, error) {
	r := &recorder{seen{local, append([]string(nil), remotes...), -1, ""}}
	r.write()
	return r, nil
}

func (r *recorder) write() {
	b, _ := json.Marshal(r.s)
	if os.WriteFile(os.Getenv("VERIF_RECORD"), b, 0o600) != nil {
		os.Exit(71)
	}
}

func (r *recorder) Dial(pid uint16) (network.Connection, error) {
	return &recording{r: r, pid: int(pid)}, nil
}
func (r *recorder) Listen() (network.Connection, error) { select {} }
func (r *recorder) Stop()                               {}

var once atomic.Bool

func (c *recording) Read([]byte) (int, error)    { select {} }
func (c *recording) Write(b []byte) (int, error) { return c.b.Write(b) }
func (c *recording) Flush() error {
	if !once.CompareAndSwap(false, true) {
		select {}
	}
	c.r.s.Dialled, c.r.s.Intro = c.pid, hex.EncodeToString(c.b.Bytes())
	c.r.write()
	os.Exit(0)
	return nil
}
func (c *recording) Close() error         { return nil }
func (c *recording) RemoteAddr() net.Addr { return &net.TCPAddr{} }

// outcome is how a command ended.
type outcome struct {
	exit int
	log  string // aleph.log and what it wrote to its standard outputs
	saw  *seen
	hung bool
}

var crashed = regexp.MustCompile(`(?m)^(panic: |fatal error: |goroutine \d+ \[|SIG[A-Z]+: |unexpected fault address)`)

func (o *outcome) crash() string {
	if o.hung {
		return "does not end"
	}
	if o.saw != nil && o.saw.Dialled >= 0 {
		return ""
	}
	if crashed.MatchString(o.log) {
		return "crashes: " + cut(o.log, 600)
	}
	return ""
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// command starts a child in dir.
func command(dir, which string, env []string, args ...string) (*exec.Cmd, *bytes.Buffer) {
	c := exec.Command(self, args...)
	c.Dir = dir
	c.Env = append([]string{"VERIF_CHILD=" + which, "GOTRACEBACK=single", "PATH=/usr/bin:/bin"}, env...)
	out := &bytes.Buffer{}
	c.Stdout, c.Stderr = out, out
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	return c, out
}

var self = func() string {
	p, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return p
}()

// finish waits for a child that was started.
func finish(c *exec.Cmd, out *bytes.Buffer, limit time.Duration) *outcome {
	o := &outcome{}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(limit):
		o.hung = true
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		<-done
	}
	o.exit = c.ProcessState.ExitCode()
	b, _ := os.ReadFile(filepath.Join(c.Dir, "aleph.log"))
	o.log = string(b) + out.String()
	if o.exit == 70 || o.exit == 71 {
		panic(fmt.Sprintf("the child can not do its part: %d", o.exit))
	}
	return o
}

func generate(dir string, primes string, args ...string) *outcome {
	return generateWith(nil, dir, primes, args...)
}

func generateWith(env []string, dir string, primes string, args ...string) *outcome {
	if primes != "" {
		must(os.WriteFile(filepath.Join(dir, "primes"), []byte(primes), 0o600))
		env = append(env, "VERIF_PRIMES="+filepath.Join(dir, "primes"))
	}
	c, out := command(dir, "gen", env, args...)
	must(c.Start())
	o := finish(c, out, 60*time.Second)
	os.Remove(filepath.Join(dir, "primes"))
	return o
}

// node runs a node until it introduces itself to the first peer.
func node(dir string, args ...string) *outcome {
	return nodeIn(dir, nil, args...)
}

// nodeIn runs it where there are some directories already.
func nodeIn(dir string, dirs []string, args ...string) *outcome {
	work, err := os.MkdirTemp(dir, "node")
	must(err)
	defer os.RemoveAll(work)
	for _, d := range dirs {
		must(os.Mkdir(filepath.Join(work, d), 0o700))
	}
	rec := filepath.Join(work, "record")
	c, out := command(work, "node", []string{"VERIF_RECORD=" + rec}, args...)
	must(c.Start())
	o := finish(c, out, 30*time.Second)
	if b, err := os.ReadFile(rec); err == nil {
		o.saw = &seen{}
		must(json.Unmarshal(b, o.saw))
	}
	return o
}

func (o *outcome) started() bool { return o.saw != nil && o.saw.Dialled >= 0 }

// pid is the party the node introduces itself as.
func (o *outcome) pid() int {
	b, err := hex.DecodeString(o.saw.Intro)
	if err != nil || len(b) != 2 {
		return -1
	}
	return int(b[0]) | int(b[1])<<8
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func check(t *testing.T, id string, body func(r *mc.Run, dir string)) {
	mc.Check(t, id, func(r *mc.Run) {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "cmd")
		must(err)
		defer os.RemoveAll(dir)
		body(r, dir)
	})
}

// fresh is a new directory.
func fresh(dir string) string {
	d, err := os.MkdirTemp(dir, "case")
	must(err)
	return d
}

// options are valid ones.
func options(dir string, pid int) []string {
	return []string{"-pk", fmt.Sprintf("%s/%d.pk", dir, pid), "-keys_addrs", dir + "/keys_addrs", "-startTime", "Thu-Nov-19-12:00:00-UTC-2020", "-roundDuration", "1s"}
}
