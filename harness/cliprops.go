package main

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/BurntSushi/toml"
	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/bots"
	clientapp "github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/client"
)

func init() {
	register(&Property{ID: "C28", Level: "exploration", Run: runC28, Hang: 200 * time.Second,
		Rule: "the built programs themselves: init over every set of existing files, servers run from generated configurations and observed through epochs, reloads, interrupts and restarts, interactive clients on a pseudo terminal against honest servers and against a directory that holds the keys and forges answers; non-trivial: a command or start whose outcome the model determines, distinct by (kind, state, alteration)",
		Need: map[string]int64{"odd keys": 22, "inits": 100, "existing files kept": 70, "epochs timed": 30, "reloads followed": 5, "interrupts": 30, "early interrupts": 14, "registrations": 40, "lookups answered": 80,
			"commands against forged answers": 800, "errors reported": 300, "keys reported": 100, "missed epochs reported": 4, "known keys changed": 60}})
}

func runC28(c *Ctx) {
	syscall.Umask(0)
	for i := 0; i < c.N(8, 60); i++ {
		c.Case(fmt.Sprintf("server-%d", i), func(r *rand.Rand) { c28server(c, r, i) })
	}
	for i := 0; i < c.N(24, 300); i++ {
		c.Case(fmt.Sprintf("early-%d", i), func(r *rand.Rand) { c28early(c, r) })
	}
	for i := 0; i < c.N(8, 60); i++ {
		c.Case(fmt.Sprintf("epochs-%d", i), func(r *rand.Rand) { c28session(c, r, true) })
	}
	for i := 0; i < c.N(16, 200); i++ {
		c.Case(fmt.Sprintf("session-%d", i), func(r *rand.Rand) { c28session(c, r, false) })
	}
	for i := 0; i < c.N(16, 400); i++ {
		c.Case(fmt.Sprintf("forged-%d", i), func(r *rand.Rand) { c28forged(c, r) })
	}
	for i := 0; i < c.N(32, 300); i++ {
		c.Case(fmt.Sprintf("init-%d", i), func(r *rand.Rand) { c28init(c, r) })
	}
}

// cliLimit is how long a program may take to do what takes it milliseconds.
const cliLimit = 90 * time.Second

// ---- running programs ----

func program(name string) string { return filepath.Join(os.Getenv("VERIF_BIN"), name) }

func command(dir, name string, args ...string) *exec.Cmd {
	cmd := exec.Command(program(name), args...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd
}

// runToEnd runs a program that ends by itself.
func runToEnd(c *Ctx, dir, name string, args ...string) (out string, err error) {
	cmd := command(dir, name, args...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	c.Must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(cliLimit):
		cmd.Process.Kill()
		c.Fail("a program does not end", "%s %q after %v: %s", name, args, cliLimit, clip(b.String(), 600))
	}
	c.Tick()
	if strings.Contains(b.String(), "goroutine ") {
		c.Fail("a program crashes", "%s %q: %s", name, args, clip(b.String(), 2500))
	}
	return b.String(), err
}

// ---- init ----

var initFiles = map[string][]string{
	"coniksserver": {"config.toml", "sign.priv", "sign.pub", "vrf.priv", "vrf.pub", "server.pem", "server.key"},
	"coniksclient": {"config.toml"},
	"coniksbot":    {"botconfig.toml"},
}

// initDir makes a directory to initialise, and how to name it on the command
// line with the working directory to run in.
func initDir(c *Ctx, r *rand.Rand) (dir, cwd string, args []string) {
	base, err := os.MkdirTemp(c.Dir, "i")
	c.Must(err)
	dir = filepath.Join(base, []string{"d", "a b", "ключи", "x.y", "config.toml", "deep/er/dir"}[r.Intn(6)])
	c.Must(os.MkdirAll(dir, 0755))
	switch r.Intn(4) {
	case 0:
		return dir, dir, nil
	case 1:
		rel, _ := filepath.Rel(base, dir)
		return dir, base, []string{"--dir=" + rel}
	case 2:
		return dir, "/", []string{"-d", dir}
	}
	return dir, dir, []string{"-d", "."}
}

func snapshot(c *Ctx, dir string) map[string]string {
	out := map[string]string{}
	c.Must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		rel, _ := filepath.Rel(dir, p)
		out[rel] = fmt.Sprintf("%v %x", fi.Mode(), b)
		return err
	}))
	return out
}

func names(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func c28init(c *Ctx, r *rand.Rand) {
	prog := []string{"coniksserver", "coniksserver", "coniksserver", "coniksclient", "coniksbot"}[r.Intn(5)]
	dir, cwd, args := initDir(c, r)
	defer os.RemoveAll(filepath.Dir(dir))
	cert := prog == "coniksserver" && r.Intn(3) > 0
	if cert {
		args = append(args, []string{"-c", "--cert", "--cert=true"}[r.Intn(3)])
	}
	args = append([]string{"init"}, args...)
	c.Eval(1)
	// files that are there already
	for _, f := range initFiles[prog] {
		if r.Intn(3) > 0 {
			continue
		}
		p := filepath.Join(dir, f)
		switch r.Intn(8) {
		case 0:
			c.Must(os.WriteFile(p, nil, 0644))
		case 1: // a link to a file elsewhere, or to nowhere
			if r.Intn(2) == 0 {
				c.Must(os.WriteFile(p+".target", randBytes(r, 40), 0600))
			}
			c.Must(os.Symlink(f+".target", p))
		case 2:
			c.Must(os.WriteFile(p, randBytes(r, 5000), 0400))
		default:
			c.Must(os.WriteFile(p, randBytes(r, 1+r.Intn(100)), 0600))
		}
	}
	links := map[string]bool{}
	for _, f := range initFiles[prog] {
		if fi, err := os.Lstat(filepath.Join(dir, f)); err == nil && fi.Mode()&os.ModeSymlink != 0 {
			links[f] = true
		}
	}
	before := map[string]string{}
	for _, f := range append([]string{}, initFiles[prog]...) {
		for _, g := range []string{f, f + ".target"} {
			if fi, err := os.Lstat(filepath.Join(dir, g)); err == nil && fi.Mode()&os.ModeSymlink == 0 {
				b, _ := os.ReadFile(filepath.Join(dir, g))
				before[g] = fmt.Sprintf("%v %x", fi.Mode(), b)
			}
		}
	}
	rounds := 1 + r.Intn(2)
	crowd := r.Intn(5) == 0 && !cert
	var ran string
	if crowd {
		rounds = 2 + r.Intn(5)
		var wg sync.WaitGroup
		outs := make([]string, rounds)
		for i := range outs {
			cmd := command(cwd, prog, args...)
			var b bytes.Buffer
			cmd.Stdout, cmd.Stderr = &b, &b
			c.Must(cmd.Start())
			wg.Add(1)
			go func(i int) { defer wg.Done(); cmd.Wait(); outs[i] = b.String() }(i)
		}
		wg.Wait()
		ran = strings.Join(outs, "\n")
		c.Count("inits", rounds)
	} else {
		first := map[string]string{}
		for i := 0; i < rounds; i++ {
			o, _ := runToEnd(c, cwd, prog, args...)
			ran += o
			c.Count("inits", 1)
			if i == 0 {
				first = snapshot2(dir, initFiles[prog])
				continue
			}
			for f, was := range first {
				c.Check(snapshot2(dir, []string{f})[f] == was, "initialisation overwrites an existing file", "%s %q, run twice: %s: was %s, is %s", prog, args, f,
					clip(was, 200), clip(snapshot2(dir, []string{f})[f], 200))
				c.Count("existing files kept", 1)
			}
		}
	}
	for f, was := range before {
		fi, err := os.Lstat(filepath.Join(dir, f))
		now := "missing"
		if err == nil {
			b, _ := os.ReadFile(filepath.Join(dir, f))
			now = fmt.Sprintf("%v %x", fi.Mode(), b)
		}
		c.Check(was == now, "initialisation overwrites an existing file", "%s %q (%d runs, at once %v): %s: was %s, is %s\nother files before: %s\noutput: %s",
			prog, args, rounds, crowd, f, clip(was, 200), clip(now, 200), names(before), clip(ran, 500))
		c.Count("existing files kept", 1)
	}
	c.Distinct("init", prog, names(before), len(links), cert, rounds, crowd)
	// what it made
	have := func(f string) bool { _, old := before[f]; return !old && !links[f] }
	read := func(f string) []byte {
		b, err := os.ReadFile(filepath.Join(dir, f))
		c.Check(err == nil, "initialisation leaves a file out", "%s %q: %s: %v\nfiles before: %s\noutput: %s", prog, args, f, err, names(before), clip(ran, 500))
		return b
	}
	if c.Prop == "C25" {
		for _, f := range []string{"sign.priv", "vrf.priv", "server.key"} {
			if fi, err := os.Lstat(filepath.Join(dir, f)); err == nil && have(f) {
				c.Check(fi.Mode()&077 == 0, "a private key can be read by others", "%s %q makes %s with mode %v", prog, args, f, fi.Mode())
				c.Count("private keys generated", 1)
			}
		}
	}
	file := initFiles[prog][0]
	if have(file) {
		read(file)
		c.Count("configurations generated", 1)
	}
	if prog != "coniksserver" {
		if have(file) {
			c28loads(c, prog, dir)
		}
		return
	}
	if have("sign.priv") && have("sign.pub") {
		sk, pk := sign.PrivateKey(read("sign.priv")), sign.PublicKey(read("sign.pub"))
		c.Check(len(sk) == sign.PrivateKeySize && len(pk) == sign.PublicKeySize && pk.Verify([]byte("m"), sk.Sign([]byte("m"))), "the generated signing keys do not belong together",
			"%s %q (%d runs, at once %v)", prog, args, rounds, crowd)
		c.Count("key pairs", 1)
	}
	for _, f := range []string{"sign", "vrf"} {
		// a public key made beside a private key that was there already
		// must be the key of that private key
		if fi, err := os.Lstat(filepath.Join(dir, f+".pub")); err != nil || !fi.Mode().IsRegular() || !have(f+".pub") || have(f+".priv") {
			continue
		}
		priv, _ := os.ReadFile(filepath.Join(dir, f+".priv"))
		pub := read(f + ".pub")
		ok := false
		if f == "sign" && len(priv) == sign.PrivateKeySize && len(pub) == sign.PublicKeySize {
			ok = sign.PublicKey(pub).Verify([]byte("m"), sign.PrivateKey(priv).Sign([]byte("m")))
		} else if f == "vrf" && len(priv) == vrf.PrivateKeySize && len(pub) == vrf.PublicKeySize {
			i, p := vrf.PrivateKey(priv).Prove([]byte("m"))
			ok = vrf.PublicKey(pub).Verify([]byte("m"), i, p)
		}
		c.Check(ok, "a generated public key is not that of the private key there", "%s %q (%d runs, at once %v): %s.pub\nfiles before: %s",
			prog, args, rounds, crowd, f, names(before))
	}
	if have("vrf.priv") && have("vrf.pub") {
		sk, pk := vrf.PrivateKey(read("vrf.priv")), vrf.PublicKey(read("vrf.pub"))
		ok := len(sk) == vrf.PrivateKeySize && len(pk) == vrf.PublicKeySize
		if ok {
			i, p := sk.Prove([]byte("m"))
			ok = pk.Verify([]byte("m"), i, p)
		}
		c.Check(ok, "the generated index keys do not belong together", "%s %q (%d runs, at once %v)", prog, args, rounds, crowd)
		c.Count("key pairs", 1)
	}
	if cert && have("server.pem") && have("server.key") && names(before) == "" && len(links) == 0 {
		_, err := tls.X509KeyPair(read("server.pem"), read("server.key"))
		c.Check(err == nil, "the generated certificate cannot be used", "%v", err)
	}
	if names(before) == "" && len(links) == 0 {
		c28loads(c, prog, dir)
	}
}

func snapshot2(dir string, files []string) map[string]string {
	out := map[string]string{}
	for _, f := range files {
		if fi, err := os.Lstat(filepath.Join(dir, f)); err == nil {
			b, _ := os.ReadFile(filepath.Join(dir, f))
			out[f] = fmt.Sprintf("%v %x", fi.Mode(), b)
		}
	}
	return out
}

// c28loads checks that a generated configuration can be loaded.
func c28loads(c *Ctx, prog, dir string) {
	file := filepath.Join(dir, initFiles[prog][0])
	switch prog {
	case "coniksserver":
		conf := &server.Config{}
		err := conf.Load(file, "toml")
		c.Check(err == nil, "a generated configuration is not loaded", "%s: %v", prog, err)
		c.Check(conf.Policies.EpochDeadline > 0 && len(conf.Addresses) > 0, "a generated configuration cannot work", "%s: %s", prog, jsonOf(conf.Policies.EpochDeadline))
	case "coniksbot":
		conf := &bots.TwitterConfig{}
		err := conf.Load(file, "toml")
		c.Check(err == nil && conf.CONIKSAddress != "", "a generated configuration is not loaded", "%s: %v", prog, err)
	case "coniksclient":
		var m map[string]interface{}
		_, err := toml.DecodeFile(file, &m)
		c.Check(err == nil && m["address"] != nil && m["sign_pubkey_path"] != nil && m["init_str_path"] != nil, "a generated configuration is not loaded", "%s: %v %v", prog, err, m)
	}
}

// ---- a server program ----

type cliServer struct {
	c        *Ctx
	dir, cwd string
	args     []string
	conf     map[string]interface{}
	cmd      *exec.Cmd
	out      *lockedBuffer
	done     chan error
	addrs    []*srvAddr
	reg      *srvAddr // an address that accepts registrations
	started  time.Time
	signPK   sign.PublicKey
	vrfPK    []byte
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuffer) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

// newCLIServer initialises a server from its command line and replaces the
// addresses and the deadline of the configuration it generates.
func newCLIServer(c *Ctx, r *rand.Rand, deadline int, open bool) *cliServer {
	base, err := os.MkdirTemp(c.Dir, "s")
	c.Must(err)
	s := &cliServer{c: c, dir: filepath.Join(base, []string{"d", "a b", "ü", "x/y"}[r.Intn(4)]), cwd: base}
	c.Must(os.MkdirAll(s.dir, 0755))
	o, err := runToEnd(c, base, "coniksserver", "init", "-c", "-d", s.dir)
	c.Check(err == nil, "initialisation fails", "%v: %s", err, clip(o, 500))
	c.Count("inits", 1)
	if _, err := toml.DecodeFile(filepath.Join(s.dir, "config.toml"), &s.conf); err != nil {
		c.Fail("a generated configuration is not loaded", "%v", err)
	}
	list, _ := s.conf["addresses"].([]map[string]interface{})
	c.Check(len(list) > 0, "a generated configuration cannot work", "%v", s.conf)
	if open { // further addresses, on any of which registration may be allowed
		for j := r.Intn(3); j > 0; j-- {
			m := map[string]interface{}{"address": "unix:///x"}
			if r.Intn(2) == 0 {
				m = map[string]interface{}{"address": "tcp://x", "cert": "server.pem", "key": "server.key"}
			}
			if r.Intn(2) == 0 {
				m["allow_registration"] = true
			}
			list = append(list, m)
		}
		r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	}
	for i, m := range list {
		a := &srvAddr{}
		u, _ := m["address"].(string)
		a.reg, _ = m["allow_registration"].(bool)
		if strings.HasPrefix(u, "tcp") {
			a.tcp = true
			a.host = fmt.Sprintf("%s:%d", loopIP(), freePort(c))
			a.url = "tcp://" + a.host
		} else {
			a.path = filepath.Join(base, fmt.Sprintf("k%d", i))
			a.url = "unix://" + a.path
		}
		m["address"] = a.url
		s.addrs = append(s.addrs, a)
		if a.reg {
			s.reg = a
		}
	}
	s.conf["addresses"] = list
	c.Check(s.reg != nil, "a generated configuration permits no registration", "%v", list)
	s.writeConfig(deadline)
	s.signPK, err = os.ReadFile(filepath.Join(s.dir, "sign.pub"))
	c.Must(err)
	s.vrfPK, err = os.ReadFile(filepath.Join(s.dir, "vrf.pub"))
	c.Must(err)
	return s
}

func (s *cliServer) writeConfig(deadline int) {
	pol, _ := s.conf["policies"].(map[string]interface{})
	s.c.Check(pol != nil, "a generated configuration cannot work", "%v", s.conf)
	pol["epoch_deadline"] = deadline
	var b bytes.Buffer
	s.c.Must(toml.NewEncoder(&b).Encode(s.conf))
	tmp := filepath.Join(s.dir, "config.new")
	s.c.Must(os.WriteFile(tmp, b.Bytes(), 0600))
	s.c.Must(os.Rename(tmp, filepath.Join(s.dir, "config.toml")))
}

func (s *cliServer) start(r *rand.Rand) {
	cwd, args := s.dir, []string{"run"}
	switch r.Intn(3) {
	case 0:
		cwd, args = s.cwd, append(args, "-c", filepath.Join(s.dir, "config.toml"))
	case 1:
		rel, _ := filepath.Rel(s.cwd, filepath.Join(s.dir, "config.toml"))
		cwd, args = s.cwd, append(args, "--config="+rel)
	}
	pid := r.Intn(2) == 0
	if pid {
		args = append(args, "-p")
		if r.Intn(2) == 0 { // left behind by an earlier run
			s.c.Must(os.WriteFile(filepath.Join(cwd, "coniks.pid"), []byte("12345678901234567890"), 0600))
		}
	}
	s.args = args
	s.cmd = command(cwd, "coniksserver", args...)
	s.out = &lockedBuffer{}
	s.cmd.Stdout, s.cmd.Stderr = s.out, s.out
	s.started = time.Now()
	s.c.Must(s.cmd.Start())
	s.done = make(chan error, 1)
	go func() { s.done <- s.cmd.Wait() }()
	for _, a := range s.addrs {
		for {
			conn, err := a.raw()
			if err == nil {
				conn.Close()
				break
			}
			s.alive()
			s.c.Check(time.Since(s.started) < cliLimit, "a server does not serve its configured address", "%q, %s: %v: %s", args, a.url, err, clip(s.out.String(), 800))
			time.Sleep(5 * time.Millisecond)
		}
	}
	if pid {
		b, _ := os.ReadFile(filepath.Join(cwd, "coniks.pid"))
		s.c.Check(string(b) == fmt.Sprint(s.cmd.Process.Pid), "the process id is not written down", "%q, pid %d", b, s.cmd.Process.Pid)
	}
	s.c.Tick()
	s.c.Count("servers", 1)
}

func (s *cliServer) alive() {
	select {
	case err := <-s.done:
		s.done <- err
		s.c.Fail("a server program ends by itself", "%q: %v: %s", s.args, err, clip(s.out.String(), 2500))
	default:
	}
}

func (s *cliServer) ask(a *srvAddr, t int, req interface{}) *protocol.Response {
	b, err := a.exchange(mustRequest(s.c, t, req))
	if err != nil || len(b) == 0 {
		return nil
	}
	return application.UnmarshalResponse(t, b)
}

// latest asks for the current root.
func (s *cliServer) latest() *protocol.DirSTR {
	for i := 0; ; i++ {
		res := s.ask(s.addrs[i%len(s.addrs)], protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: "nobody at all"})
		if res == nil {
		} else if p := proofOf(res); p != nil && len(p.STR) == 1 && whole(p.STR[0]) {
			return p.STR[0]
		}
		s.alive()
		s.c.Check(time.Since(s.started) < 4*cliLimit && i < 50, "a server does not answer a lookup", "%s: %s", s.addrs[i%len(s.addrs)].url, clip(jsonOf(res), 300))
		time.Sleep(20 * time.Millisecond)
	}
}

// interrupt sends SIGINT and checks that the server stops cleanly.
func (s *cliServer) interrupt(state string) {
	c := s.c
	s.alive()
	c.Must(s.cmd.Process.Signal(syscall.SIGINT))
	select {
	case err := <-s.done:
		s.done <- err
		c.Check(err == nil, "a server does not stop cleanly on interrupt", "%s: %v: %s", state, err, clip(s.out.String(), 1500))
	case <-time.After(cliLimit):
		c.Fail("a server does not stop on interrupt", "%s: %s", state, clip(s.out.String(), 1500))
	}
	c.Check(!strings.Contains(s.out.String(), "panic"), "a server panics on interrupt", "%s: %s", state, clip(s.out.String(), 2500))
	for _, a := range s.addrs {
		if !a.tcp {
			_, err := os.Lstat(a.path)
			c.Check(os.IsNotExist(err), "a stopped server leaves its socket behind", "%s: %s", state, a.path)
		}
		conn, err := a.raw()
		if err == nil {
			conn.Close()
		}
		c.Check(err != nil, "a stopped server still listens", "%s: %s", state, a.url)
	}
	c.Count("interrupts", 1)
	c.Tick()
	s.cmd = nil
}

func (s *cliServer) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		<-s.done
	}
	os.RemoveAll(s.cwd)
}

// initialRoot reads the root the server published at its start.
func (s *cliServer) initialRoot() *protocol.DirSTR {
	b, err := os.ReadFile(filepath.Join(s.dir, "init.str"))
	s.c.Check(err == nil, "a started server has not published its initial root", "%v", err)
	str := new(protocol.DirSTR)
	err = json.Unmarshal(b, str)
	s.c.Check(err == nil && whole(str) && str.Epoch == 0 && refSTRSigned(str, s.signPK) && bytes.Equal(str.Policies.VrfPublicKey, s.vrfPK),
		"the published initial root is not the server's", "%v: %s", err, clip(string(b), 300))
	res := s.ask(s.reg, protocol.KeyLookupInEpochType, &protocol.KeyLookupInEpochRequest{Username: "nobody at all", Epoch: 0})
	s.c.Check(res != nil, "a past lookup isn't answered", "by a server just started")
	p := proofOf(res)
	s.c.Check(p != nil && len(p.STR) > 0 && whole(p.STR[0]) && sameSTR(p.STR[0], str), "the published initial root is not the one the server serves", "%s", clip(jsonOf(res), 400))
	return str
}

// epochSeen is what the answers tell about one epoch: it had not begun when
// the last request answered for an earlier epoch was sent, and had begun when
// the first answer arrived.
type epochSeen struct {
	str                *protocol.DirSTR
	notBefore, sawAt   time.Time
	earlierNoted, seen bool
}

// watch polls the current root until the epoch is at least e.
func (s *cliServer) watch(seen map[uint64]*epochSeen, upto func() bool) {
	c := s.c
	start, answers := time.Now(), 0
	for !upto() {
		sent := time.Now()
		str := s.latest()
		got := time.Now()
		answers++
		x := seen[str.Epoch]
		if x == nil {
			x = &epochSeen{str: str}
			seen[str.Epoch] = x
			start, answers = time.Now(), 0
			c.Tick()
		}
		c.Check(sameSTR(x.str, str), "two roots for one epoch", "%s and %s", strString(x.str), strString(str))
		c.Check(refSTRSigned(str, s.signPK), "a root with a bad signature", "%s", strString(str))
		if !x.seen {
			x.seen, x.sawAt = true, got
		}
		n := seen[str.Epoch+1]
		c.Check(n == nil || !n.seen, "the epoch goes backwards", "%d after %d", str.Epoch, str.Epoch+1)
		if n == nil {
			n = &epochSeen{str: nil}
		}
		x.notBeforeNext(sent)
		limit := time.Duration(str.Policies.EpochDeadline)*time.Second*3 + 40*time.Second
		c.Check(time.Since(start) < limit || answers < 500, "no new epoch at the announced deadline", "epoch %d announces %d s, now for %v (%d answers)", str.Epoch, str.Policies.EpochDeadline, time.Since(start), answers)
		time.Sleep(4 * time.Millisecond)
	}
}

func (x *epochSeen) notBeforeNext(t time.Time) { x.notBefore, x.earlierNoted = t, true }

// judgeTimes checks that no epoch lasted less than its announced deadline.
func (s *cliServer) judgeTimes(seen map[uint64]*epochSeen, history string) {
	c := s.c
	var es []uint64
	for e := range seen {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i] < es[j] })
	for i, e := range es {
		x := seen[e]
		if i == 0 || es[i-1] != e-1 {
			continue
		}
		// epoch e-1 began after `from` and ended before x.sawAt
		from := s.started
		if e-1 > 0 {
			if i < 2 || es[i-2] != e-2 {
				continue
			}
			from = seen[e-2].notBefore
		}
		d := time.Duration(seen[e-1].str.Policies.EpochDeadline) * time.Second
		lasted := x.sawAt.Sub(from)
		c.Check(lasted >= d-d/10, "an epoch ends before its announced deadline", "epoch %d announced %v and lasted at most %v (%s)", e-1, d, lasted, history)
		c.Check(x.str.PreviousEpoch == e-1 && refLinks(seen[e-1].str, x.str), "the roots of a server are not one chain", "%s after %s", strString(x.str), strString(seen[e-1].str))
		c.Count("epochs timed", 1)
		c.Distinct("epoch", d, e, history)
	}
}

func c28server(c *Ctx, r *rand.Rand, no int) {
	d, d2 := 1+r.Intn(2), 0
	switch no % 3 {
	case 0: // the deadline gets shorter
		d, d2 = 3, 1
	case 1: // or so long that no other epoch follows
		d2 = 90
	default:
		d2 = 1 + (d+r.Intn(2))%3
	}
	s := newCLIServer(c, r, d, true)
	defer s.close()
	s.start(r)
	// registrations and lookups on the configured addresses
	model := map[string][]byte{}
	seen := map[uint64]*epochSeen{}
	work := func() {
		for j := 0; j < 6; j++ {
			a := s.addrs[r.Intn(len(s.addrs))]
			name, key := fmt.Sprintf("user%d", r.Intn(12)), randBytes(r, 1+r.Intn(60))
			c.Eval(1)
			if r.Intn(2) == 0 {
				res := s.ask(a, protocol.RegistrationType, &protocol.RegistrationRequest{Username: name, Key: key})
				if !a.reg {
					c.Check(res != nil && res.Error == protocol.ErrMalformedMessage, "a registration on an address without permission", "%s: %s", a.url, clip(jsonOf(res), 300))
					c.Count("registrations refused", 1)
					continue
				}
				want := protocol.ReqSuccess
				if model[name] != nil {
					want = protocol.ReqNameExisted
				} else {
					model[name] = key
				}
				c.Check(res != nil && res.Error == want, "a registration is not served", "%s for %q on %s: %s", want, name, a.url, clip(jsonOf(res), 400))
				c.Count("registrations", 1)
			} else {
				res := s.ask(a, protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: name})
				if model[name] == nil {
					c.Check(res != nil && res.Error == protocol.ReqNameNotFound, "a lookup is not served", "unknown %q on %s: %s", name, a.url, clip(jsonOf(res), 400))
				} else {
					k, err := []byte(nil), error(nil)
					if res != nil && proofOf(res) != nil {
						k, err = res.GetKey()
					}
					c.Check(res != nil && res.Error == protocol.ReqSuccess && err == nil && bytes.Equal(k, model[name]), "a lookup is not served", "%q is %x on %s: %s", name, model[name], a.url, clip(jsonOf(res), 400))
				}
				c.Count("lookups answered", 1)
			}
		}
	}
	last := func() uint64 {
		m := uint64(0)
		for e := range seen {
			if e > m {
				m = e
			}
		}
		return m
	}
	s.watch(seen, func() bool { return len(seen) > 0 })
	init0 := s.initialRoot()
	work()
	s.watch(seen, func() bool { return last() >= 2 })
	if seen[0] != nil {
		c.Check(sameSTR(seen[0].str, init0), "the published initial root is not the one the server serves", "%s and %s", strString(init0), strString(seen[0].str))
	}
	work()
	for e, x := range seen {
		c.Check(x.str.Policies.EpochDeadline == protocol.Timestamp(d), "the announced deadline is not the configured one", "epoch %d announces %d, configured %d", e, x.str.Policies.EpochDeadline, d)
	}
	// another deadline, at some moment of the epoch
	e0 := last()
	s.watch(seen, func() bool { return last() > e0 })
	wait := time.Duration(r.Intn(d*600)) * time.Millisecond
	t0 := time.Now()
	s.watch(seen, func() bool { return time.Since(t0) > wait })
	before := last()
	s.writeConfig(d2)
	c.Must(s.cmd.Process.Signal(syscall.SIGUSR2))
	history := fmt.Sprintf("deadline %d, then %d from epoch %d on", d, d2, before)
	s.watch(seen, func() bool {
		m := seen[last()].str.Policies.EpochDeadline
		return last() >= before+6 || m == protocol.Timestamp(d2) && (last() >= before+3 || d2 == 90)
	})
	if d2 != d {
		c.Check(seen[last()].str.Policies.EpochDeadline == protocol.Timestamp(d2), "a reload has no effect", "%s, epoch %d announces %d", history, last(), seen[last()].str.Policies.EpochDeadline)
		c.Check(seen[before].str.Policies.EpochDeadline == protocol.Timestamp(d), "a reload changes a published root", "%s", history)
		c.Count("reloads followed", 1)
	}
	// a reload that cannot succeed changes nothing
	if d2 < 90 && r.Intn(2) == 0 {
		c.Must(os.WriteFile(filepath.Join(s.dir, "config.toml"), []byte("[policies\nepoch_deadline = 1"), 0600))
		c.Must(s.cmd.Process.Signal(syscall.SIGUSR2))
		e := last()
		s.watch(seen, func() bool { return last() >= e+2 })
		c.Check(seen[last()].str.Policies.EpochDeadline == protocol.Timestamp(d2), "a failed reload changes the policies", "%s, then %d", history, seen[last()].str.Policies.EpochDeadline)
		c.Count("failed reloads", 1)
		s.writeConfig(d2)
	}
	work()
	s.judgeTimes(seen, history)
	c.Sample("server", "%s: %d epochs", history, len(seen))
	// stop it, with or without clients that say nothing
	var idle []net.Conn
	for j := r.Intn(4); j > 0; j-- {
		if conn, err := s.addrs[r.Intn(len(s.addrs))].raw(); err == nil {
			idle = append(idle, conn)
		}
	}
	s.interrupt(fmt.Sprintf("%d idle connections", len(idle)))
	for _, conn := range idle {
		conn.Close()
	}
	// and start it again in the same place, with the same keys
	c.Must(os.Remove(filepath.Join(s.dir, "init.str")))
	s.start(r)
	str := s.latest()
	c.Check(refSTRSigned(str, s.signPK), "a root with a bad signature", "%s", strString(str))
	s.initialRoot()
	model = map[string][]byte{}
	work()
	s.interrupt("soon after the start")
}

// c28early interrupts a server as soon as its first address is served.
func c28early(c *Ctx, r *rand.Rand) {
	s := newCLIServer(c, r, 60, r.Intn(2) == 0)
	defer s.close()
	s.cmd = command(s.dir, "coniksserver", "run")
	s.out = &lockedBuffer{}
	s.cmd.Stdout, s.cmd.Stderr = s.out, s.out
	s.started = time.Now()
	c.Must(s.cmd.Start())
	s.done = make(chan error, 1)
	go func() { s.done <- s.cmd.Wait() }()
	list, _ := s.conf["addresses"].([]map[string]interface{})
	u, _ := list[0]["address"].(string)
	var first *srvAddr
	for _, a := range s.addrs {
		if a.url == u {
			first = a
		}
	}
	for {
		conn, err := first.raw()
		if err == nil {
			conn.Close()
			break
		}
		s.alive()
		c.Check(time.Since(s.started) < cliLimit, "a server does not serve its configured address", "%s: %v: %s", u, err, clip(s.out.String(), 800))
		time.Sleep(50 * time.Microsecond)
	}
	time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
	c.Eval(1)
	s.interrupt("at once after the start")
	c.Count("early interrupts", 1)
}

// ---- an interactive client ----

type repl struct {
	c      *Ctx
	cmd    *exec.Cmd
	master *os.File
	mu     sync.Mutex
	buf    []byte
	eof    bool
	done   chan error
}

const prompt = "coniks-client> "

func openPTY(c *Ctx) (m, s *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR, 0)
	c.Must(err)
	var n uint32
	var zero int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); e != 0 {
		c.Harness("unlocking a pseudo terminal: %v", e)
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		c.Harness("naming a pseudo terminal: %v", e)
	}
	s, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	c.Must(err)
	return m, s
}

func newREPL(c *Ctx, cwd string, args ...string) *repl {
	m, sl := openPTY(c)
	t := &repl{c: c, master: m, done: make(chan error, 1)}
	t.cmd = command(cwd, "coniksclient", append([]string{"run"}, args...)...)
	t.cmd.Stdin, t.cmd.Stdout, t.cmd.Stderr = sl, sl, sl
	c.Must(t.cmd.Start())
	sl.Close()
	go func() { t.done <- t.cmd.Wait() }()
	go func() {
		b := make([]byte, 65536)
		for {
			n, err := m.Read(b)
			t.mu.Lock()
			t.buf = append(t.buf, b[:n]...)
			if err != nil {
				t.eof = true
				t.mu.Unlock()
				return
			}
			t.mu.Unlock()
		}
	}()
	return t
}

// upTo waits for output that ends with a prompt and takes it.
func (t *repl) upTo(what string) (string, bool) {
	for start := time.Now(); ; {
		t.mu.Lock()
		b, eof := string(t.buf), t.eof
		if strings.HasSuffix(b, prompt) {
			t.buf = nil
			t.mu.Unlock()
			t.c.Tick()
			return strings.TrimSuffix(b, prompt), true
		}
		t.mu.Unlock()
		if eof {
			return b, false
		}
		if time.Since(start) > cliLimit {
			t.c.Fail("the client program does not answer a command", "%s: %q", what, clip(b, 600))
		}
		time.Sleep(500 * time.Microsecond)
	}
}

// do gives one command and returns what is printed for it.
func (t *repl) do(line string) string {
	t.master.WriteString(line + "\r")
	out, ok := t.upTo(line)
	if !ok {
		t.c.Fail("the client program ends by itself", "after %q: %q", clip(line, 200), clip(out, 3000))
	}
	// drop the echo: everything up to the first line that is a message
	for _, mark := range []string{"[+] ", "[!] "} {
		if i := strings.Index(out, mark); i >= 0 {
			return strings.TrimRight(out[i:], "\r\n")
		}
	}
	return out
}

func (t *repl) quit(r *rand.Rand) {
	line := []string{"exit\r", "q\r", "\x04"}[r.Intn(3)]
	t.master.WriteString(line)
	select {
	case err := <-t.done:
		t.done <- nil
		t.c.Check(err == nil, "the client program does not end cleanly", "after %q: %v", line, err)
	case <-time.After(cliLimit):
		t.c.Fail("the client program does not end", "after %q", line)
	}
}

func (t *repl) close() {
	t.cmd.Process.Kill()
	<-t.done
	t.master.Close()
}

const (
	saysError = "error"
	saysFound = "found"
	saysNone  = "not registered"
	saysDone  = "registered"
	saysTaken = "taken"
	saysOther = "another key was registered"
	saysWhat  = "nothing"
)

// says classifies what the client reports.
func says(out string) (kind, key string) {
	m := strings.TrimPrefix(out, "[+] ")
	switch {
	case strings.HasPrefix(m, "Error"):
		return saysError, ""
	case strings.HasPrefix(m, "Found!"):
		i, j := strings.Index(m, "["), strings.LastIndex(m, "]")
		if i >= 0 && j > i {
			return saysFound, m[i+1 : j]
		}
		return saysFound, ""
	case strings.HasPrefix(m, "Name isn't registered"):
		return saysNone, ""
	case strings.HasPrefix(m, "Succesfully registered name: "):
		return saysDone, strings.TrimPrefix(m, "Succesfully registered name: ")
	case strings.HasPrefix(m, "Name is already registered"), strings.HasPrefix(m, "Are you trying to update"):
		return saysTaken, ""
	case strings.HasPrefix(m, "Oops!"):
		return saysOther, ""
	}
	return saysWhat, ""
}

// clientFiles writes the configuration of a client program: the generated one
// with other paths and addresses.
func clientFiles(c *Ctx, r *rand.Rand, dir, pub, str, reg, addr string) []string {
	c.Must(os.MkdirAll(dir, 0755))
	_, err := runToEnd(c, dir, "coniksclient", "init")
	c.Check(err == nil, "initialisation fails", "coniksclient: %v", err)
	c.Count("inits", 1)
	file := filepath.Join(dir, "config.toml")
	var m map[string]interface{}
	if _, err := toml.DecodeFile(file, &m); err != nil {
		c.Fail("a generated configuration is not loaded", "%v", err)
	}
	rel := func(p string) string {
		if q, err := filepath.Rel(dir, p); err == nil && r.Intn(2) == 0 {
			return q
		}
		return p
	}
	m["sign_pubkey_path"], m["init_str_path"], m["address"] = rel(pub), rel(str), addr
	if reg == "" {
		delete(m, "registration_address")
	} else {
		m["registration_address"] = reg
	}
	var b bytes.Buffer
	c.Must(toml.NewEncoder(&b).Encode(m))
	c.Must(os.WriteFile(file, b.Bytes(), 0600))
	if r.Intn(2) == 0 {
		return []string{"-c", file}
	}
	return []string{"--config=config.toml"}
}

var alphabets = []string{"abcdefghijklmnopqrstuvwxyz", "aAbBcCdD", "abcdefghijklmnopqrstuvwxyz0123456789.@-_+=/", "aé漢字ñüл", "[]?:\"'\\<>{}%$"}

func word(r *rand.Rand, n int) string {
	a := []rune(alphabets[r.Intn(len(alphabets))])
	out := make([]rune, 1+r.Intn(n))
	for i := range out {
		out[i] = a[r.Intn(len(a))]
	}
	return string(out)
}

// oddKey makes a key with spaces or brackets around it, or a long one.
func oddKey(r *rand.Rand) string {
	w := word(r, 30)
	switch r.Intn(7) {
	case 0:
		return " " + w
	case 1:
		return w + "  "
	case 2:
		return " " + w + " " + word(r, 10) + " "
	case 3:
		return w + "   " + word(r, 10)
	case 4:
		return "[" + w + "]"
	case 5:
		return "]" + w + "["
	}
	b := make([]byte, 500+r.Intn(1500))
	for i := range b {
		b[i] = alphabets[0][r.Intn(26)]
	}
	return string(b)
}

// c28session runs interactive clients against a server program.
func c28session(c *Ctx, r *rand.Rand, moving bool) {
	d := 3600
	if moving {
		d = 1 + r.Intn(2)
	}
	s := newCLIServer(c, r, d, false)
	defer s.close()
	s.start(r)
	s.initialRoot()
	model := map[string]string{}
	var pool []string
	for i := 0; i < 8; i++ {
		pool = append(pool, word(r, 20))
	}
	// names registered otherwise, with keys that can't be typed
	for i := r.Intn(4); i > 0; i-- {
		name, key := pool[r.Intn(len(pool))], oddKey(r)
		if _, ok := model[name]; ok {
			continue
		}
		res := s.ask(s.reg, protocol.RegistrationType, &protocol.RegistrationRequest{Username: name, Key: []byte(key), AllowUnsignedKeychange: true})
		c.Check(res != nil && res.Error == protocol.ReqSuccess, "a registration is refused", "%q: %s", name, clip(jsonOf(res), 300))
		c.Count("odd keys", 1)
		model[name] = key
	}
	type cl struct {
		*repl
		lo, hi uint64 // epoch of the last root it has verified
		reg    bool
	}
	var cls []*cl
	newClient := func() *cl {
		dir := filepath.Join(s.cwd, fmt.Sprintf("c%d-%d", len(cls), r.Intn(1000000)))
		any := s.addrs[r.Intn(len(s.addrs))]
		regURL := s.reg.url
		x := &cl{reg: true}
		switch r.Intn(6) {
		case 0: // everything at one address
			any, regURL = s.reg, ""
		case 1: // an address that refuses registrations
			for _, a := range s.addrs {
				if !a.reg {
					regURL = a.url
					x.reg = false
				}
			}
		}
		args := clientFiles(c, r, dir, filepath.Join(s.dir, "sign.pub"), filepath.Join(s.dir, "init.str"), regURL, any.url)
		if r.Intn(4) == 0 {
			args = append(args, "-d")
		}
		x.repl = newREPL(c, dir, args...)
		cls = append(cls, x)
		out, ok := x.upTo("start")
		c.Check(ok, "the client program does not start", "%q: %q", args, clip(out, 1500))
		return x
	}
	defer func() {
		for _, x := range cls {
			x.close()
		}
	}()
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		newClient()
	}
	var trace []string
	// one command, judged
	step := func(x *cl, id int) {
		name := pool[r.Intn(len(pool))]
		e0 := s.latest().Epoch
		var out, line, want, wantKey string
		c.Eval(1)
		var after func()
		if r.Intn(5) < 2 {
			key := word(r, 40)
			if k, ok := model[name]; ok && len(k) < 100 && !strings.Contains(k, " ") && r.Intn(3) == 0 {
				key = k
			}
			line = "register " + name + " " + key
			want = saysDone
			if _, ok := model[name]; ok {
				want = saysTaken
			} else if x.reg {
				after = func() { model[name] = key }
			}
			if !x.reg {
				want = saysError
			}
			wantKey = name
		} else {
			line = "lookup " + name
			want = saysNone
			if k, ok := model[name]; ok {
				want, wantKey = saysFound, k
			}
		}
		out = x.do(line)
		e1 := s.latest().Epoch
		if after != nil {
			after() // the registration took place whatever the client makes of the answer
		}
		kind, key := says(out)
		trace = append(trace, fmt.Sprintf("%d: %s -> %s", id, line, clip(out, 60)))
		if len(trace) > 25 {
			trace = trace[1:]
		}
		detail := func() string {
			return fmt.Sprintf("%q at epoch %d..%d (client at %d..%d): %q, expected %s %q\n%s", line, e0, e1, x.lo, x.hi, out, want, wantKey, strings.Join(trace, "\n"))
		}
		if strings.HasPrefix(line, "register") && !x.reg {
			c.Check(kind == saysError, "a refused registration is not reported as an error", "%s", detail())
			c.Count("errors reported", 1)
			return
		}
		// may the client verify the answer at all?
		must, may := e1 <= x.lo+1 && e0 >= x.hi, e0 <= x.hi+1
		if kind == saysError {
			c.Check(!must, "the client reports an error for an honest answer", "%s", detail())
			if !may {
				c.Count("missed epochs reported", 1)
			}
			return
		}
		c.Check(may, "the client accepts an answer after missing an epoch", "%s", detail())
		if e0 > x.lo {
			x.lo = e0
		}
		if e1 > x.hi {
			x.hi = e1
		}
		c.Check(kind == want && (kind == saysTaken || kind == saysNone || key == wantKey), "the client does not report what the directory holds", "%s", detail())
		c.Distinct("command", want, moving, e1-e0, len(model), id, n)
		switch want {
		case saysFound:
			c.Count("keys reported", 1)
			c.Count("lookups answered", 1)
		case saysDone:
			c.Count("registrations", 1)
		case saysTaken:
			c.Count("taken reported", 1)
		case saysNone:
			c.Count("lookups answered", 1)
		}
	}
	if !moving {
		for i := 0; i < 40; i++ {
			id := r.Intn(len(cls))
			if r.Intn(10) == 0 {
				c28noise(c, r, cls[id].repl)
			}
			step(cls[id], id)
		}
		for _, x := range cls {
			if r.Intn(2) == 0 {
				x.quit(r)
			}
		}
		c.Sample("session", "%d clients, %s", n, strings.Join(trace[len(trace)-3:], "; "))
		s.interrupt("after a session")
		// and without a server every command fails
		for _, x := range cls {
			select {
			case <-x.done:
				x.done <- nil
				continue
			default:
			}
			for _, l := range []string{"lookup " + pool[0], "register " + pool[1] + " k"} {
				out := x.do(l)
				kind, _ := says(out)
				c.Check(kind == saysError, "the client reports no error without a server", "%q: %q", l, out)
				c.Count("errors reported", 1)
			}
		}
		// an address that can't be used
		bad := []string{"unix:///tmp/%zz", "tcp://[::1", "://x", "tcp://127.0.0.1:x", "http://127.0.0.1:1", "", "%", "127.0.0.1:1", "tcp://a b:1", "unix:\x7f"}
		for i := 0; i < 2; i++ {
			any, reg := s.addrs[0].url, s.reg.url
			switch r.Intn(3) {
			case 0:
				any = bad[r.Intn(len(bad))]
			case 1:
				reg = bad[r.Intn(len(bad))]
			default:
				any, reg = bad[r.Intn(len(bad))], bad[r.Intn(len(bad))]
			}
			dir := filepath.Join(s.cwd, fmt.Sprintf("bad%d", i))
			x := newREPL(c, dir, clientFiles(c, r, dir, filepath.Join(s.dir, "sign.pub"), filepath.Join(s.dir, "init.str"), reg, any)...)
			if _, ok := x.upTo("start"); !ok {
				x.close() // it may refuse such a configuration
				continue
			}
			for _, l := range []string{"lookup " + pool[0], "register " + pool[1] + " k", "lookup " + pool[1]} {
				out := x.do(l)
				kind, _ := says(out)
				c.Check(kind == saysError || kind == saysWhat && out != "", "the client reports no error without a server", "%q with the addresses %q and %q: %q", l, any, reg, out)
				c.Count("errors reported", 1)
			}
			c.Count("unusable addresses", 1)
			x.quit(r)
			x.close()
		}
		return
	}
	for e := s.latest().Epoch; s.latest().Epoch < e+4; {
		for id, x := range cls {
			step(x, id)
		}
		time.Sleep(30 * time.Millisecond)
	}
	// miss some epochs
	for e := s.latest().Epoch; s.latest().Epoch < e+3; {
		time.Sleep(50 * time.Millisecond)
		c.Tick()
	}
	for id, x := range cls {
		step(x, id)
		step(x, id)
	}
	x := newClient() // starts at the initial root
	step(x, len(cls)-1)
	s.interrupt("after a session over epochs")
}

// c28noise gives commands that must reach no server.
func c28noise(c *Ctx, r *rand.Rand, t *repl) {
	line := []string{"", "help", "lookup", "register", "register x", "register a b c", "lookup a b", "foo", "enable", "disable x", "Lookup a", "quit", "REGISTER a b"}[r.Intn(13)]
	out := t.do(line)
	kind, _ := says(out)
	c.Check(kind == saysWhat, "the client reports a result for what is no request", "%q: %q", line, out)
	if line == "enable" {
		t.master.WriteString("enable timestamp\r")
		t.upTo("enable timestamp")
	}
	c.Count("other input", 1)
}

// ---- forged answers ----

// wireDir answers each connection with the next prepared bytes.
type wireDir struct {
	mu   sync.Mutex
	next []byte
	gone bool // close without an answer
	req  []byte
	n    int32
}

func (d *wireDir) serve(l net.Listener) {
	for {
		conn, err := l.Accept()
		if err != nil {
			return
		}
		go func() {
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(60 * time.Second))
			b := make([]byte, 65536)
			n, err := conn.Read(b)
			if err != nil && err != io.EOF {
				return
			}
			atomic.AddInt32(&d.n, 1)
			d.mu.Lock()
			d.req = append([]byte{}, b[:n]...)
			out, gone := d.next, d.gone
			d.mu.Unlock()
			if !gone {
				conn.Write(out)
			}
		}()
	}
}

func newNamedWorld(c *Ctx, r *rand.Rand, names []string) *clientWorld {
	w := &clientWorld{c: c, r: r, e: newEvil(r), prop: "C11", names: names}
	t := w.e.tree(randBytes(r, 32))
	for j := r.Intn(4); j > 0; j-- {
		t.set(w.names[r.Intn(len(w.names))], []byte(word(r, 30)))
	}
	w.at = &worldNode{evilNode: w.e.first(t), pending: map[string][]byte{}, kind: "pinned"}
	w.cc = client.New(copySTR(w.at.str), true, w.e.signPK)
	w.rc = newRefClient(w.e, w.at.str)
	return w
}

func c28forged(c *Ctx, r *rand.Rand) {
	base, err := os.MkdirTemp(c.Dir, "f")
	c.Must(err)
	defer os.RemoveAll(base)
	var pool []string
	for len(pool) < 7 {
		n := word(r, 12)
		if !strings.Contains(" "+strings.Join(pool, " ")+" ", " "+n+" ") {
			pool = append(pool, n)
		}
	}
	w := newNamedWorld(c, r, pool)
	sock := filepath.Join(base, "sock")
	c.Must(os.WriteFile(filepath.Join(base, "sign.pub"), w.e.signPK, 0600))
	c.Must(os.WriteFile(filepath.Join(base, "init.str"), []byte(jsonOf(w.at.str)), 0600))
	d := &wireDir{}
	l, err := net.Listen("unix", sock)
	c.Must(err)
	defer l.Close()
	url := "unix://" + sock
	if r.Intn(3) == 0 {
		writeCert(c, base)
		cert, err := tls.LoadX509KeyPair(filepath.Join(base, "server.pem"), filepath.Join(base, "server.key"))
		c.Must(err)
		tl, err := tls.Listen("tcp", fmt.Sprintf("%s:%d", loopIP(), freePort(c)), &tls.Config{Certificates: []tls.Certificate{cert}})
		c.Must(err)
		l.Close()
		l = tl
		defer tl.Close()
		url = "tcp://" + tl.Addr().String()
	}
	go d.serve(l)
	reg := url
	if r.Intn(2) == 0 {
		reg = ""
	}
	args := clientFiles(c, r, filepath.Join(base, "c"), filepath.Join(base, "sign.pub"), filepath.Join(base, "init.str"), reg, url)
	t := newREPL(c, filepath.Join(base, "c"), args...)
	defer t.close()
	out, ok := t.upTo("start")
	c.Check(ok, "the client program does not start", "%q: %q", args, clip(out, 1500))
	steps := c.N(80, 200)
	for i := 0; i < steps; i++ {
		c28forgedStep(c, r, w, d, t)
	}
	t.quit(r)
}

func c28forgedStep(c *Ctx, r *rand.Rand, w *clientWorld, d *wireDir, t *repl) {
	name := w.names[r.Intn(len(w.names))]
	typ, line := protocol.KeyLookupType, "lookup "+name
	var key []byte
	if r.Intn(5) < 2 {
		typ = protocol.RegistrationType
		key = []byte(word(r, 30))
		if k, ok := w.rc.known[name]; ok && r.Intn(2) == 0 && plain(k) {
			key = k
		}
		line = "register " + name + " " + string(key)
	}
	n := w.at
	switch x := r.Intn(10); {
	case x == 0:
		n = w.honestNext(w.at)
	case x < 3:
		n = w.otherRoot()
		if len(w.alt) < 8 {
			w.alt = append(w.alt, n)
		}
	}
	if _, known := w.rc.known[name]; known && r.Intn(5) == 0 {
		// the directory changes, or takes back, a key the client knows
		h := w.honestNext(w.at)
		t2 := h.tree.clone()
		if r.Intn(2) == 0 {
			t2.set(name, []byte(word(r, 20)))
			n = &worldNode{evilNode: w.e.next(w.at.evilNode, t2), pending: map[string][]byte{}, prev: w.at, kind: "next with another key"}
		} else {
			t2.del(name)
			n = &worldNode{evilNode: w.e.next(w.at.evilNode, t2), pending: map[string][]byte{}, prev: w.at, kind: "next without a key"}
			if r.Intn(2) == 0 {
				n.pending[name] = []byte(word(r, 20))
			}
		}
		c.Count("known keys changed", 1)
	}
	regKey := key
	if typ == protocol.RegistrationType && r.Intn(12) == 0 {
		regKey = []byte(word(r, 30)) // the directory registers another key
	}
	a := w.base(typ, name, regKey, n)
	spoiled := ""
	if r.Intn(2) == 0 {
		spoiled = w.spoil(a, typ, name, n)
	}
	wire, err := application.MarshalResponse(a.response())
	c.Must(err)
	transport := ""
	d.mu.Lock()
	d.gone = false
	switch r.Intn(14) {
	case 0:
		transport, d.gone = "no answer", true
	case 1:
		wire, transport = wire[:r.Intn(len(wire))], "cut off"
	case 2:
		wire, transport = randBytes(r, r.Intn(200)), "noise"
	case 3:
		wire, transport = []byte(fmt.Sprintf(`{"Error":%d}`, []int{0, 100, 101, 102, 103, 200, 201, -1, 7}[r.Intn(9)])), "no proof"
	}
	d.next = wire
	d.mu.Unlock()
	// what the client passes to the checks, and what they make of it
	expect := key
	if typ == protocol.KeyLookupType {
		expect = w.rc.known[name]
	}
	reasons, value := w.rc.reasons(typ, a, name, expect)
	if transport != "" {
		reasons = []string{transport}
	}
	shadowKey := key
	if typ == protocol.KeyLookupType {
		if k, ok := w.cc.Bindings[name]; ok {
			shadowKey = []byte(k)
		}
	}
	var serr error = io.ErrUnexpectedEOF
	if !d.gone {
		if p, st := Guard(func() {
			serr = w.cc.HandleResponse(typ, application.UnmarshalResponse(typ, wire), name, shadowKey)
		}); p != nil {
			c.Sample("shadow", "crash %v %s", p, clip(st, 200))
			return // other properties' business
		}
	}
	c.Eval(1)
	calls := atomic.LoadInt32(&d.n)
	out := t.do(line)
	c.Count("commands against forged answers", 1)
	kind, got := says(out)
	d.mu.Lock()
	req := d.req
	d.mu.Unlock()
	w.logf("%s [%s/%s%s] -> %s", clip(line, 20), n.kind, spoiled, transport, clip(out, 40))
	detail := func() string {
		return fmt.Sprintf("%q: %q; answer %s, root is %q, alteration %q, transport %q; specification: %v; checks: %v\nclient at %s, known key %q, history: %s",
			line, clip(out, 300), a, n.kind, spoiled, transport, reasons, serr, strString(w.rc.verified), clipB(w.rc.known[name]), strings.Join(w.ops, "\n"))
	}
	if atomic.LoadInt32(&d.n) == calls {
		c.Fail("a command sends no request", "%s", detail())
	}
	c28request(c, req, typ, name, key, detail)
	wrongAccept := serr == nil && len(reasons) > 0
	switch {
	case wrongAccept:
		// the checks themselves are wrong here, which other properties find
	case serr == protocol.CheckBindingsDiffer && typ == protocol.RegistrationType && a.status == protocol.ReqNameExisted:
		c.Check(kind == saysTaken || kind == saysError, "a failed check is not reported", "%s", detail())
		c.Count("taken reported", 1)
	case serr == protocol.CheckBindingsDiffer && typ == protocol.RegistrationType:
		c.Check(kind == saysOther || kind == saysError, "a failed check is not reported", "%s", detail())
		c.Count("errors reported", 1)
	case len(reasons) > 0:
		c.Check(kind == saysError, "a failed check is not reported", "%s", detail())
		c.Count("errors reported", 1)
		c.Distinct("forged", strings.Join(reasons, ","), spoiled, n.kind, typ)
		c.Sample(strings.Join(reasons, ","), "%q: %s", line, clip(out, 80))
	case serr == nil:
		want, wantKey := saysDone, name
		switch {
		case typ == protocol.KeyLookupType && value != nil:
			want, wantKey = saysFound, strings.ReplaceAll(string(value), "\n", "\r\n")
		case typ == protocol.KeyLookupType:
			want, wantKey = saysNone, ""
		case a.status == protocol.ReqNameExisted:
			want, wantKey = saysTaken, ""
		}
		c.Check(kind == want && got == wantKey, "the client does not report what was proved", "expected %s %q: %s", want, wantKey, detail())
		if want == saysFound {
			c.Count("keys reported", 1)
		}
		c.Count("accepted", 1)
		c.Distinct("accepted", want, n.kind, spoiled)
	}
	// follow the checks
	if serr == nil && len(reasons) == 0 {
		incl := value != nil && bytes.Equal(a.ap.LookupIndex, a.ap.Leaf.Index)
		moved := !sameSTR(w.rc.verified, a.str)
		w.rc.apply(a, name, value, incl)
		if moved {
			w.at = n
		}
		return
	}
	w.rc.verified = copySTR(w.cc.VerifiedSTR())
	if serr == nil {
		w.resync(name)
	} else if !sameSTR(w.at.str, w.rc.verified) {
		if sameSTR(n.str, w.rc.verified) {
			w.at = n
		} else {
			w.find(w.rc.verified)
		}
	}
}

func plain(k []byte) bool {
	for _, b := range k {
		if b <= 32 || b >= 127 {
			return false
		}
	}
	return len(k) > 0
}

// c28request checks the request the client sent for a command.
func c28request(c *Ctx, req []byte, typ int, name string, key []byte, detail func() string) {
	var m struct {
		Type    *int
		Request struct {
			Username *string
			Key      []byte
		}
	}
	err := json.Unmarshal(req, &m)
	c.Check(err == nil && m.Type != nil && *m.Type == typ && m.Request.Username != nil && *m.Request.Username == name && (typ != protocol.RegistrationType || bytes.Equal(m.Request.Key, key)),
		"the client sends another request than its user asked for", "%q: %s", clip(string(req), 300), detail())
}

var _ = clientapp.NewConfig
