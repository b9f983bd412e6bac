package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

func init() {
	register(&Property{ID: "C19", Level: "exploration", Run: runC19, Hang: 200 * time.Second,
		Rule: "base servers whose handlers are held while Shutdown runs, real servers under load shut down at random moments, servers with idle, slow and unfinished connections; answers, listeners, sockets, goroutines and published roots observed afterwards, and the addresses used again at once; non-trivial: a shutdown with requests in flight, distinct by (addresses, kinds of requests in flight, moment)",
		Need: map[string]int64{"held for long": 6, "ended just before shutdown answered": 120, "in flight answered": 120, "waiting for the lock answered": 35, "shutdowns": 220, "listeners gone": 500, "restarts": 150, "load answers": 300, "held tasks": 18, "idle connections": 70, "quiet afterwards": 100}})
}

func runC19(c *Ctx) {
	for i := 0; i < c.N(90, 2500); i++ {
		c.Case(fmt.Sprintf("flight-%d", i), func(r *rand.Rand) { c19flight(c, r, i%4 == 3, false) })
	}
	for i := 0; i < c.N(8, 100); i++ {
		c.Case(fmt.Sprintf("held-%d", i), func(r *rand.Rand) { c19flight(c, r, i%4 == 3, true) })
	}
	for i := 0; i < c.N(48, 1500); i++ {
		c.Case(fmt.Sprintf("load-%d", i), func(r *rand.Rand) { c19load(c, r) })
	}
	for i := 0; i < c.N(40, 600); i++ {
		c.Case(fmt.Sprintf("tasks-%d", i), func(r *rand.Rand) { c19tasks(c, r) })
	}
	for i := 0; i < c.N(8, 100); i++ {
		c.Case(fmt.Sprintf("idle-%d", i), func(r *rand.Rand) { c19idle(c, r) })
	}
	for i := 0; i < c.N(48, 800); i++ {
		c.Case(fmt.Sprintf("quick-%d", i), func(r *rand.Rand) { c19quick(c, r) })
	}
}

// appGoroutines returns the stacks of goroutines started by the code under test.
func appGoroutines() (out []string) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "created by "+modPath) {
			out = append(out, g)
		}
	}
	return out
}

// openSockets counts the sockets of this process.
func openSockets() (n int) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

// eventually polls for up to 30 s of a condition that normally holds at once.
func eventually(f func() bool) bool {
	for i := 0; i < 3000; i++ {
		if f() {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

// shutdown runs Shutdown; it is given far longer than the server waits for
// its clients.
func (c *Ctx) shutdown(f func() error, during func(returned func() bool)) {
	done := make(chan struct{})
	go func() {
		f()
		close(done)
	}()
	if during != nil {
		during(func() bool {
			select {
			case <-done:
				return true
			default:
				return false
			}
		})
	}
	for i := 0; i < 600; i++ {
		select {
		case <-done:
			c.Count("shutdowns", 1)
			return
		case <-time.After(100 * time.Millisecond):
			c.Tick()
		}
	}
	c.Fail("shutdown doesn't return", "after 60 s; the server's goroutines:\n%s", strings.Join(appGoroutines(), "\n\n"))
}

// gone checks that nothing listens on the addresses.
func gone(c *Ctx, addrs []*srvAddr) {
	for _, a := range addrs {
		conn, err := a.raw()
		if err == nil {
			conn.Close()
			c.Fail("an address still accepts connections after shutdown", "%s", a.url)
		}
		if !a.tcp {
			_, err := os.Lstat(a.path)
			c.Check(os.IsNotExist(err), "a socket file remains after shutdown", "%s", a.path)
		}
		c.Count("listeners gone", 1)
	}
}

// residue checks that no goroutine and no socket remains.
func residue(c *Ctx, sockets int) {
	var gs []string
	c.Check(eventually(func() bool { gs = appGoroutines(); return len(gs) == 0 }), "background tasks remain after shutdown", "%s", strings.Join(gs, "\n\n"))
	n := 0
	c.Check(eventually(func() bool { n = openSockets(); return n <= sockets }), "sockets remain open after shutdown", "%d, %d before the server was started", n, sockets)
	c.Count("quiet afterwards", 1)
}

type base struct {
	sb    *application.ServerBase
	addrs []*srvAddr
	dir   string
	perms map[*application.ServerAddress]map[int]bool
}

func newBase(c *Ctx, r *rand.Rand, specs []addrSpec) *base {
	dir, err := os.MkdirTemp(c.Dir, "b")
	c.Must(err)
	b := &base{dir: dir, addrs: newAddrs(c, dir, specs), perms: map[*application.ServerAddress]map[int]bool{}}
	for _, a := range b.addrs {
		b.perms[a.sa] = map[int]bool{0: true, 1: true, 2: true, 3: true}
	}
	b.fresh()
	return b
}

func (b *base) fresh() {
	b.sb = application.NewServerBase(&application.CommonConfig{Path: b.dir + "/config", Logger: &application.LoggerConfig{Environment: "production", Path: b.dir + "/log"}}, "Listen", b.perms)
}

// listen starts all listeners; an address that can't be used is a violation.
func (b *base) listen(c *Ctx, h func(*protocol.Request) *protocol.Response) {
	for _, a := range b.addrs {
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Fail("an address can't be used again at once after shutdown", "%s: %v", a.url, e)
				}
			}()
			b.sb.ListenAndHandle(a.sa, h)
		}()
	}
}

func manySpecs(r *rand.Rand, n int) []addrSpec {
	specs := make([]addrSpec, 1+r.Intn(n))
	for i := range specs {
		specs[i] = addrSpec{r.Intn(4) == 0, r.Intn(2) == 0}
	}
	return specs
}

var shared struct {
	sync.Once
	dir *directory.ConiksDirectory
}

// sharedDir is a directory for answers; it is only read.
func sharedDir() *directory.ConiksDirectory {
	shared.Do(func() {
		r := rand.New(rand.NewSource(19))
		ssk, _, vsk, _ := newKeys(r)
		shared.dir = directory.New(protocol.Timestamp(60), vsk, ssk, 1000, true)
		for i := 0; i < 12; i++ {
			shared.dir.Register(&protocol.RegistrationRequest{Username: fmt.Sprint("user", i), Key: randBytes(r, 20)})
		}
		for i := 0; i < 60; i++ {
			shared.dir.Update()
		}
	})
	return shared.dir
}

// flight is one client whose request is in the server during shutdown.
type flight struct {
	a    *srvAddr
	t    int
	name string
	conn net.Conn
	t0   time.Time
	want []byte
	got  []byte
	err  error
	took time.Duration
	lock bool // waits for the lock only
	open bool // complete just before the server is shut down
}

var atOnce struct {
	sync.Once
	ok bool
}

// parallelLookups tells whether the server handles several lookups at once,
// which nothing promises.
func parallelLookups(c *Ctx) bool {
	atOnce.Do(func() {
		b := newBase(c, rand.New(rand.NewSource(7)), []addrSpec{{false, true}})
		defer os.RemoveAll(b.dir)
		release := make(chan struct{})
		var entered int32
		b.listen(c, func(req *protocol.Request) *protocol.Response {
			atomic.AddInt32(&entered, 1)
			<-release
			return protocol.NewErrorResponse(protocol.ErrDirectory)
		})
		for i := 0; i < 2; i++ {
			conn, err := b.addrs[0].dial()
			c.Must(err)
			defer conn.Close()
			conn.Write(mustRequest(c, protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: "x"}))
			closeWrite(conn)
		}
		for i := 0; i < 800 && atomic.LoadInt32(&entered) < 2; i++ {
			time.Sleep(5 * time.Millisecond)
		}
		atOnce.ok = atomic.LoadInt32(&entered) >= 2
		close(release)
		b.sb.Shutdown()
		for i := 0; i < 400 && len(appGoroutines()) > 0; i++ {
			time.Sleep(5 * time.Millisecond)
		}
	})
	return atOnce.ok
}

// c19flight holds handlers while the server shuts down, for a moment or for
// half of the time a connection has.
func c19flight(c *Ctx, r *rand.Rand, locked, long bool) {
	several := parallelLookups(c)
	sockets := openSockets()
	b := newBase(c, r, manySpecs(r, 5))
	defer os.RemoveAll(b.dir)
	dir := sharedDir()
	release := make(chan struct{})
	var entered int32
	var mu sync.Mutex
	late := map[string]bool{} // requests that reached a handler
	answer := func(req *protocol.Request) *protocol.Response {
		switch q := req.Request.(type) {
		case *protocol.KeyLookupRequest:
			return dir.KeyLookup(q)
		case *protocol.KeyLookupInEpochRequest:
			return dir.KeyLookupInEpoch(q)
		case *protocol.MonitoringRequest:
			return dir.Monitor(q)
		}
		return protocol.NewErrorResponse(protocol.ErrDirectory)
	}
	b.listen(c, func(req *protocol.Request) *protocol.Response {
		if q, ok := req.Request.(*protocol.KeyLookupRequest); ok && strings.HasPrefix(q.Username, "late") {
			mu.Lock()
			late[q.Username] = true
			mu.Unlock()
			return protocol.NewErrorResponse(protocol.ErrDirectory)
		}
		atomic.AddInt32(&entered, 1)
		<-release
		return answer(req)
	})
	var fs []*flight
	kinds := ""
	open := false // leave the sending side open
	send := func(t int, lock bool) {
		f := &flight{a: b.addrs[r.Intn(len(b.addrs))], t: t, name: fmt.Sprint("user", r.Intn(15)), lock: lock, t0: time.Now()}
		var req interface{}
		switch t {
		case protocol.KeyLookupType:
			req = &protocol.KeyLookupRequest{Username: f.name}
		case protocol.KeyLookupInEpochType:
			req = &protocol.KeyLookupInEpochRequest{Username: f.name, Epoch: uint64(r.Intn(2))}
		case protocol.MonitoringType:
			req = &protocol.MonitoringRequest{Username: f.name, EndEpoch: 1 << 30}
		default:
			req = &protocol.RegistrationRequest{Username: f.name, Key: []byte("key")}
		}
		var err error
		f.want, err = application.MarshalResponse(answer(&protocol.Request{Type: t, Request: req}))
		c.Must(err)
		f.conn, err = f.a.dial()
		c.Check(err == nil, "a running server doesn't accept a connection", "%v", err)
		f.conn.Write(mustRequest(c, t, req))
		if open {
			f.open = true
		} else {
			closeWrite(f.conn)
		}
		fs = append(fs, f)
		kinds += fmt.Sprint(t)
	}
	expect := int32(0)
	if locked {
		send(protocol.RegistrationType, false)
		expect = 1
	} else {
		expect = int32(2 + r.Intn(10))
		n := expect
		if !several {
			expect = 1
		}
		for i := int32(0); i < n; i++ {
			send(1+r.Intn(3), false)
		}
	}
	c.Check(eventually(func() bool { return atomic.LoadInt32(&entered) >= expect }), "a request isn't handled", "%d of %d requests reached a handler", atomic.LoadInt32(&entered), expect)
	if locked {
		for i := 0; i < 1+r.Intn(6); i++ {
			send(r.Intn(4), true)
		}
	}
	burst := r.Intn(2) * (1 + r.Intn(24))
	open = true
	for i := 0; i < burst; i++ {
		// lookups that end just before the server is shut down
		send(1+r.Intn(3), true)
	}
	if locked || !several || burst > 0 {
		// a later connection that needs no lock is answered: the server has
		// accepted the earlier ones
		for _, a := range b.addrs {
			bs, err := a.exchange([]byte(`{}x`))
			c.Check(err == nil && len(bs) > 0, "a malformed request isn't answered while another is handled", "%v", err)
		}
	}
	readAll := func() {
		var wg sync.WaitGroup
		for _, f := range fs {
			wg.Add(1)
			go func(f *flight) {
				defer wg.Done()
				f.got, f.err = io.ReadAll(f.conn)
				f.took = time.Since(f.t0)
			}(f)
		}
		wg.Wait()
	}
	var lateConns []net.Conn
	lateNames := []string{}
	early := false
	pause := time.Duration(r.Intn(25)) * time.Millisecond
	if long {
		pause = time.Duration(2600+r.Intn(300)) * time.Millisecond
		c.Count("held for long", 1)
	}
	for _, f := range fs {
		if f.open {
			closeWrite(f.conn)
		}
	}
	tries := r.Intn(2) * 3
	c.shutdown(b.sb.Shutdown, func(returned func() bool) {
		time.Sleep(pause)
		// connections opened after the stop: each may still be served as long
		// as the listeners haven't noticed
		for k := 0; k < tries; k++ {
			a := b.addrs[r.Intn(len(b.addrs))]
			if a.tcp {
				continue
			}
			conn, err := a.raw()
			if err != nil {
				break
			}
			name := fmt.Sprint("late", k)
			conn.Write(mustRequest(c, protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: name}))
			closeWrite(conn)
			lateConns = append(lateConns, conn)
			lateNames = append(lateNames, name)
			time.Sleep(5 * time.Millisecond)
		}
		early = returned()
		close(release)
		readAll()
	})
	for i, conn := range lateConns {
		conn.SetReadDeadline(time.Now().Add(30 * time.Second))
		bs, err := io.ReadAll(conn)
		ne, ok := err.(net.Error)
		conn.Close()
		c.Check(!ok || !ne.Timeout(), "a connection remains open after shutdown", "%s: %v", lateNames[i], err)
		mu.Lock()
		if !late[lateNames[i]] {
			c.Check(len(bs) == 0, "a connection is answered without being handled", "%s", clip(string(bs), 200))
			c.Count("late connections not served", 1)
		}
		mu.Unlock()
	}
	for _, f := range fs {
		f.conn.Close()
		ok := f.err == nil && bytes.Equal(f.got, f.want)
		if !ok && f.took > 3500*time.Millisecond {
			c.Count("too slow to judge", 1)
			continue
		}
		c.Check(ok, "a request received before shutdown isn't answered correctly", "kind %d (waiting for the lock: %v) after %v: %v, %d of %d bytes", f.t, f.lock, f.took, f.err, len(f.got), len(f.want))
		c.Eval(1)
		if f.open {
			c.Count("ended just before shutdown answered", 1)
		} else if f.lock {
			c.Count("waiting for the lock answered", 1)
		} else {
			c.Count("in flight answered", 1)
		}
	}
	c.Check(!early, "shutdown returns while requests are being handled", "%d requests held", expect)
	gone(c, b.addrs)
	c.Distinct(len(b.addrs), kinds, pause)
	c19again(c, b)
	residue(c, sockets)
}

// c19again uses the addresses again at once.
func c19again(c *Ctx, b *base) {
	b.fresh()
	b.listen(c, func(req *protocol.Request) *protocol.Response { return protocol.NewErrorResponse(protocol.ErrAuditLog) })
	for _, a := range b.addrs {
		bs, err := a.exchange(mustRequest(c, protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: "x"}))
		c.Check(err == nil && application.UnmarshalResponse(protocol.KeyLookupType, bs).Error == protocol.ErrAuditLog,
			"an address can't be used again at once after shutdown", "%s: %v %s", a.url, err, clip(string(bs), 200))
	}
	c.Count("restarts", 1)
	c.shutdown(b.sb.Shutdown, nil)
	gone(c, b.addrs)
}

// c19load shuts a real server down under load.
func c19load(c *Ctx, r *rand.Rand) {
	longDeadline(c, 0)
	sockets := openSockets()
	specs := manySpecs(r, 6)
	specs[0].reg = true
	s := newSrv(c, r, specs, 1000, longDeadline(c, 0))
	defer s.remove()
	s.start()
	for i := 0; i < 5; i++ {
		s.ask(s.addrs[0], protocol.RegistrationType, &protocol.RegistrationRequest{Username: fmt.Sprint("u", i), Key: randBytes(r, 9)})
	}
	for i, n := 0, r.Intn(30); i < n; i++ {
		s.nextEpoch()
		time.Sleep(time.Millisecond)
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var mu sync.Mutex
	type got struct {
		t int
		b []byte
		e error
	}
	var answers []got
	for k := 0; k < 3*len(s.addrs)+2; k++ {
		wg.Add(1)
		go func(a *srvAddr, r *rand.Rand) {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				t := 1 + r.Intn(3)
				name := fmt.Sprint("u", r.Intn(7))
				var req interface{} = &protocol.KeyLookupRequest{Username: name}
				switch {
				case t == protocol.KeyLookupInEpochType:
					req = &protocol.KeyLookupInEpochRequest{Username: name}
				case t == protocol.MonitoringType:
					req = &protocol.MonitoringRequest{Username: name, EndEpoch: 1 << 30}
				}
				if r.Intn(4) == 0 && a.reg {
					t, req = protocol.RegistrationType, &protocol.RegistrationRequest{Username: fmt.Sprint("new", r.Intn(1e9)), Key: []byte("k")}
				}
				conn, err := a.dial()
				if err != nil {
					time.Sleep(time.Millisecond)
					continue
				}
				conn.Write(mustRequest(c, t, req))
				closeWrite(conn)
				b, err := io.ReadAll(conn)
				conn.Close()
				c.Tick()
				if len(b) > 0 {
					mu.Lock()
					answers = append(answers, got{t, b, err})
					mu.Unlock()
				}
			}
		}(s.addrs[k%len(s.addrs)], sub(r))
	}
	at := time.Duration(r.Intn(60000)) * time.Microsecond
	time.Sleep(at)
	hurry := r.Intn(4)
	if hurry&1 != 0 {
		s.nextEpoch()
	}
	if hurry&2 != 0 {
		s.writeConfig(s.deadline + 1)
		reload()
	}
	old := s.s
	c.shutdown(old.Shutdown, nil)
	gone(c, s.addrs)
	latest := func() string {
		p := proofOf(old.HandleRequests(&protocol.Request{Type: protocol.KeyLookupType, Request: &protocol.KeyLookupRequest{Username: "u1"}}))
		if p == nil || len(p.STR) != 1 {
			return "?"
		}
		return strString(p.STR[0])
	}
	was := latest()
	oldTimer := s.timer
	if oldTimer != nil {
		oldTimer.Reset(0)
	}
	reload()
	close(stop)
	wg.Wait()
	for _, g := range answers {
		// the answer may be cut off only if the connection was lost
		a := application.UnmarshalResponse(g.t, g.b)
		p := proofOf(a)
		c.Check(g.e == nil && p != nil && a.Validate() == nil, "a request received before shutdown isn't answered correctly", "kind %d: %v %s", g.t, g.e, clip(string(g.b), 400))
		for _, str := range p.STR {
			c.Check(s.verifySTR(str), "a request received before shutdown isn't answered correctly", "root %s", strString(str))
		}
		c.Count("load answers", 1)
		c.Eval(1)
	}
	residue(c, sockets)
	c.Check(latest() == was, "a root is published after shutdown", "%s, then %s", was, latest())
	c.Distinct(len(s.addrs), len(answers), at, hurry)
	// the same configuration again
	func() {
		defer func() {
			if e := recover(); e != nil {
				if v, ok := e.(violated); ok {
					panic(v)
				}
				c.Fail("an address can't be used again at once after shutdown", "%v", e)
			}
		}()
		s.start()
	}()
	for _, a := range s.addrs {
		_, ok := s.epoch(a)
		c.Check(ok, "an address can't be used again at once after shutdown", "%s isn't served", a.url)
	}
	c.Count("restarts", 1)
	c.shutdown(s.s.Shutdown, nil)
	gone(c, s.addrs)
	residue(c, sockets)
}

// c19tasks holds background tasks while the server shuts down and counts
// what runs afterwards.
func c19tasks(c *Ctx, r *rand.Rand) {
	sockets := openSockets()
	b := newBase(c, r, manySpecs(r, 3))
	defer os.RemoveAll(b.dir)
	b.listen(c, func(*protocol.Request) *protocol.Response { return protocol.NewErrorResponse(protocol.ErrDirectory) })
	timer := application.NewEpochTimer(3600)
	var updates, reloads, others, inside int32
	hold := make(chan struct{})
	which := r.Intn(4)
	entered := make(chan struct{}, 100)
	run := func(n *int32, held bool) {
		atomic.AddInt32(&inside, 1)
		if held {
			entered <- struct{}{}
			<-hold
		}
		atomic.AddInt32(n, 1)
		atomic.AddInt32(&inside, -1)
	}
	b.sb.RunInBackground(func() { b.sb.EpochUpdate(timer, func() { run(&updates, which == 0) }) })
	b.sb.RunInBackground(func() { b.sb.HotReload(func() { run(&reloads, which == 1) }) })
	if which == 2 {
		b.sb.RunInBackground(func() { run(&others, true) })
	}
	switch which {
	case 0:
		timer.Reset(0)
		<-entered
	case 1:
		reload()
		<-entered
	case 2:
		<-entered
	default: // everything at the very moment
		timer.Reset(time.Duration(r.Intn(300)) * time.Microsecond)
		reload()
	}
	early := false
	c.shutdown(b.sb.Shutdown, func(returned func() bool) {
		if which < 3 {
			if r.Intn(8) == 0 {
				time.Sleep(2700 * time.Millisecond)
			}
			time.Sleep(time.Duration(1+r.Intn(15)) * time.Millisecond)
			early = returned()
			c.Count("held tasks", 1)
		}
		close(hold)
	})
	u, l, o, in := atomic.LoadInt32(&updates), atomic.LoadInt32(&reloads), atomic.LoadInt32(&others), atomic.LoadInt32(&inside)
	timer.Reset(0)
	reload()
	time.Sleep(10 * time.Millisecond)
	c.Check(!early, "shutdown returns while a background task runs", "task %d", which)
	c.Check(in == 0, "a background task runs after shutdown", "task %d", which)
	c.Check(u == atomic.LoadInt32(&updates) && l == atomic.LoadInt32(&reloads) && o == atomic.LoadInt32(&others), "a background task runs after shutdown",
		"updates %d then %d, reloads %d then %d", u, atomic.LoadInt32(&updates), l, atomic.LoadInt32(&reloads))
	c.Check(which == 0 && u >= 1 || which == 1 && l >= 1 || which == 2 && o == 1 || which == 3, "a background task isn't finished by shutdown", "task %d: %d %d %d", which, u, l, o)
	gone(c, b.addrs)
	residue(c, sockets)
	c.Eval(1)
	c.Distinct(len(b.addrs), which, u, l)
	c19again(c, b)
	residue(c, sockets)
}

// c19idle shuts a server down that has idle, slow and unfinished connections.
func c19idle(c *Ctx, r *rand.Rand) {
	sockets := openSockets()
	b := newBase(c, r, []addrSpec{{true, true}, {false, true}, {r.Intn(2) == 0, true}})
	defer os.RemoveAll(b.dir)
	dir := sharedDir()
	b.listen(c, func(req *protocol.Request) *protocol.Response {
		if q, ok := req.Request.(*protocol.MonitoringRequest); ok {
			res := dir.Monitor(q)
			p := *proofOf(res)
			p.STR = append([]*protocol.DirSTR{}, p.STR...)
			for len(p.STR) < 3000 {
				p.STR = append(p.STR, p.STR...)
			}
			return &protocol.Response{Error: res.Error, DirectoryResponse: &p}
		}
		return protocol.NewErrorResponse(protocol.ErrDirectory)
	})
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var conns []net.Conn
	bg := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(20 * time.Millisecond):
					f()
				}
			}
		}()
	}
	for _, a := range b.addrs {
		for k := 0; k < 5; k++ {
			conn, err := a.raw()
			if err == nil && a.tcp && k != 0 {
				conn.Close()
				conn, err = a.dial()
			}
			c.Check(err == nil, "a running server doesn't accept a connection", "%v", err)
			conn.SetDeadline(time.Time{})
			conns = append(conns, conn)
			switch k {
			case 0, 1: // idle, unfinished handshake
			case 2:
				conn.Write([]byte(`{"Type":1,`))
			case 3: // a byte now and then
				bg(func() { conn.Write([]byte(" ")) })
			case 4: // doesn't read its large answer
				conn.Write(mustRequest(c, protocol.MonitoringType, &protocol.MonitoringRequest{Username: "x", EndEpoch: 1 << 30}))
				closeWrite(conn)
			}
			c.Count("idle connections", 1)
		}
	}
	time.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
	c.shutdown(b.sb.Shutdown, nil)
	gone(c, b.addrs)
	// no connection remains
	for _, conn := range conns {
		conn.SetReadDeadline(time.Now().Add(30 * time.Second))
		if nc, ok := conn.(interface{ NetConn() net.Conn }); ok {
			conn = nc.NetConn() // whatever was sent, not only whole records
		}
		_, err := io.Copy(io.Discard, conn)
		ne, ok := err.(net.Error)
		c.Check(!ok || !ne.Timeout(), "a connection remains open after shutdown", "%v", err)
	}
	close(stop)
	wg.Wait()
	for _, conn := range conns {
		conn.Close()
	}
	c.Eval(1)
	c.Distinct("idle", len(conns))
	residue(c, sockets)
	c19again(c, b)
	residue(c, sockets)
}

// c19quick shuts real servers down right after they were started, many times
// with the same addresses.
func c19quick(c *Ctx, r *rand.Rand) {
	dl := longDeadline(c, 0)
	sockets := openSockets()
	specs := manySpecs(r, 4)
	s := newSrv(c, r, specs, 10, dl)
	defer s.remove()
	c.Must(os.RemoveAll(s.dir + "/init.str"))
	s.conf = &server.Config{}
	c.Must(s.conf.Load(s.cfg, "toml"))
	for i := 0; i < 3; i++ {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if v, ok := e.(violated); ok {
						panic(v)
					}
					c.Fail("an address can't be used again at once after shutdown", "%v", e)
				}
			}()
			s.s = server.NewConiksServer(s.conf)
			s.s.Run(s.conf.Addresses)
		}()
		if n := r.Intn(4); n > 0 {
			time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
		}
		c.shutdown(s.s.Shutdown, nil)
		gone(c, s.addrs)
		c.Count("restarts", 1)
		c.Eval(1)
		c.Distinct(len(specs), i, r.Int63())
	}
	residue(c, sockets)
}
