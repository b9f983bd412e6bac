package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"os"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/protocol/auditor"
	"github.com/coniks-sys/coniks-go/protocol/client"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

func init() {
	register(&Property{ID: "C15", Level: "exploration", Run: runC15,
		Rule: "race detector over concurrent sessions with real servers, a monitor of the lock discipline inside wrapped handlers, and concurrent reads and verifications of shared values compared with sequential results; non-trivial: a session in which a modification waited for or was requested during another operation, distinct by the observed sequence of operation kinds",
		Need: map[string]int64{"requests": 3000, "modifications": 600, "epoch changes": 150, "reloads": 30, "shutdowns": 20,
			"shared reads": 3000, "shared verifications": 3000}})
}

func runC15(c *Ctx) {
	for i := 0; i < c.N(24, 700); i++ {
		c.Case(fmt.Sprintf("server-%d", i), func(r *rand.Rand) { c15server(c, r) })
	}
	for i := 0; i < c.N(18, 500); i++ {
		c.Case(fmt.Sprintf("locks-%d", i), func(r *rand.Rand) { c15locks(c, r) })
	}
	for i := 0; i < c.N(18, 500); i++ {
		c.Case(fmt.Sprintf("reads-%d", i), func(r *rand.Rand) { c15reads(c, r) })
	}
	for i := 0; i < c.N(18, 400); i++ {
		c.Case(fmt.Sprintf("values-%d", i), func(r *rand.Rand) { c15values(c, r) })
	}
	for i := 0; i < c.N(6, 200); i++ {
		c.Case(fmt.Sprintf("shutdown-%d", i), func(r *rand.Rand) { c15shutdown(c, r) })
	}
}

// c15server drives a real server with everything at once.
func c15server(c *Ctx, r *rand.Rand) {
	s := newSrv(c, r, randSpecs(r, 4, true), []uint64{100000, 3, 10}[r.Intn(3)], longDeadline(c, 0))
	defer s.remove()
	s.start()
	w := &workload{s: s, t0: time.Now()}
	for len(w.names) < 5 {
		w.names = append(w.names, fmt.Sprintf("user%d", len(w.names)))
	}
	stop := make(chan struct{})
	var bg, wg sync.WaitGroup
	every := func(r *rand.Rand, us int, f func()) {
		bg.Add(1)
		go func() {
			defer bg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(r.Intn(us)) * time.Microsecond):
					f()
				}
			}
		}()
	}
	every(sub(r), []int{3000, 20000}[r.Intn(2)], func() { s.nextEpoch(); c.Count("epoch changes", 1) })
	v := s.deadline
	every(sub(r), 40000, func() {
		if force.ok {
			v++
		}
		s.writeConfig(v)
		reload()
		c.Count("reloads", 1)
	})
	early := r.Intn(3) == 0
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int, r *rand.Rand) {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				h := w.pick(r, 3)
				w.do(k, s.addrs[r.Intn(len(s.addrs))], h)
				c.Count("requests", 1)
				if h.t == protocol.RegistrationType {
					c.Count("modifications", 1)
				}
				if h.err != nil && early {
					return
				}
			}
		}(k, sub(r))
	}
	if early { // shut down in the middle
		time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		s.s.Shutdown()
		c.Count("shutdowns", 1)
	}
	wg.Wait()
	close(stop)
	bg.Wait()
	if !early {
		s.s.Shutdown()
		c.Count("shutdowns", 1)
	}
	c.Eval(len(w.ops))
	kinds := ""
	for _, h := range w.ops {
		kinds += fmt.Sprint(h.t)
	}
	c.Distinct(kinds)
}

// lockMonitor watches what runs at the same time.
type lockMonitor struct {
	c                       *Ctx
	readers, writers        int32
	maxReaders, maxOverlaps int32
	bad                     atomic.Value
	mu                      sync.Mutex
	seq                     []byte
}

func (m *lockMonitor) enter(write bool, what string) func() {
	var rd, wr int32
	if write {
		wr = atomic.AddInt32(&m.writers, 1)
		rd = atomic.LoadInt32(&m.readers)
	} else {
		rd = atomic.AddInt32(&m.readers, 1)
		wr = atomic.LoadInt32(&m.writers)
	}
	check := func() {
		if write && (wr > 1 || rd > 0) || !write && wr > 0 {
			m.bad.CompareAndSwap(nil, fmt.Sprintf("%s while %d modifications and %d reads are in progress", what, wr, rd))
		}
		if rd > atomic.LoadInt32(&m.maxReaders) {
			atomic.StoreInt32(&m.maxReaders, rd)
		}
	}
	check()
	m.mu.Lock()
	m.seq = append(m.seq, what[0])
	m.mu.Unlock()
	return func() {
		rd, wr = atomic.LoadInt32(&m.readers), atomic.LoadInt32(&m.writers)
		check()
		if write {
			atomic.AddInt32(&m.writers, -1)
		} else {
			atomic.AddInt32(&m.readers, -1)
		}
	}
}

// c15locks runs the server base with handlers that stay inside for a while.
func c15locks(c *Ctx, r *rand.Rand) {
	dir, err := os.MkdirTemp(c.Dir, "l")
	c.Must(err)
	defer os.RemoveAll(dir)
	addrs := newAddrs(c, dir, randSpecs(r, 3, r.Intn(3) == 0))
	perms := map[*application.ServerAddress]map[int]bool{}
	for _, a := range addrs {
		perms[a.sa] = map[int]bool{protocol.KeyLookupType: true, protocol.KeyLookupInEpochType: true, protocol.MonitoringType: true,
			protocol.RegistrationType: a.reg, protocol.AuditType: true, protocol.STRType: true, 77: true}
	}
	sb := application.NewServerBase(&application.CommonConfig{Path: dir + "/config", Logger: &application.LoggerConfig{Environment: "production", Path: dir + "/log"}}, "Listen", perms)
	ssk, _, vsk, _ := newKeys(r)
	d := directory.New(60, vsk, ssk, 1000, true)
	m := &lockMonitor{c: c}
	inside := func(d time.Duration) {
		runtime.Gosched()
		time.Sleep(d)
	}
	handler := func(req *protocol.Request) *protocol.Response {
		write := true
		switch req.Type {
		case protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType:
			write = false
		}
		leave := m.enter(write, fmt.Sprintf("%d: request of type %d", req.Type%10, req.Type))
		defer leave()
		inside(300 * time.Microsecond)
		switch x := req.Request.(type) {
		case *protocol.RegistrationRequest:
			return d.Register(x)
		case *protocol.KeyLookupRequest:
			return d.KeyLookup(x)
		case *protocol.KeyLookupInEpochRequest:
			return d.KeyLookupInEpoch(x)
		case *protocol.MonitoringRequest:
			return d.Monitor(x)
		}
		return protocol.NewErrorResponse(protocol.ErrMalformedMessage)
	}
	timer := application.NewEpochTimer(protocol.Timestamp(3600))
	tm := findTimer(reflect.ValueOf(timer), 0)
	sb.RunInBackground(func() {
		sb.EpochUpdate(timer, func() {
			leave := m.enter(true, "Epoch change")
			defer leave()
			inside(300 * time.Microsecond)
			d.Update()
			c.Count("epoch changes", 1)
		})
	})
	sb.RunInBackground(func() {
		sb.HotReload(func() {
			leave := m.enter(true, "Reload")
			defer leave()
			inside(200 * time.Microsecond)
			d.SetPolicies(protocol.Timestamp(1 + len(m.seq)%100))
			c.Count("reloads", 1)
		})
	})
	for i, a := range addrs {
		sb.Verb = fmt.Sprint("Listen ", i)
		sb.ListenAndHandle(a.sa, handler)
	}
	stop := make(chan struct{})
	var bg, wg sync.WaitGroup
	bg.Add(1)
	go func(r *rand.Rand) {
		defer bg.Done()
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(r.Intn(6000)) * time.Microsecond):
				if tm != nil {
					tm.Reset(0)
				}
				if r.Intn(3) == 0 {
					reload()
				}
			}
		}
	}(sub(r))
	for k := 0; k < 10; k++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				a := addrs[r.Intn(len(addrs))]
				name := fmt.Sprint("n", r.Intn(6))
				var msg []byte
				switch r.Intn(8) {
				case 0, 1, 2:
					msg = mustRequest(c, protocol.RegistrationType, &protocol.RegistrationRequest{Username: name, Key: []byte{1}})
					c.Count("modifications", 1)
				case 3:
					msg = mustRequest(c, protocol.KeyLookupInEpochType, &protocol.KeyLookupInEpochRequest{Username: name})
				case 4:
					msg = mustRequest(c, protocol.MonitoringType, &protocol.MonitoringRequest{Username: name, EndEpoch: 3})
				case 5: // a type the base doesn't know is treated as a modification
					msg = mustRequest(c, []int{protocol.AuditType, protocol.STRType, 77}[r.Intn(3)], &protocol.KeyLookupRequest{Username: name})
				default:
					msg = mustRequest(c, protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: name})
				}
				a.exchange(msg)
				c.Count("requests", 1)
				c.Eval(1)
			}
		}(sub(r))
	}
	wg.Wait()
	close(stop)
	bg.Wait()
	sb.Shutdown()
	c.Count("shutdowns", 1)
	if b := m.bad.Load(); b != nil {
		c.Fail("a modification is handled at the same time as something else", "%s", b)
	}
	if m.maxReaders > 1 {
		c.Count("handlers at once", int(m.maxReaders))
	}
	c.Distinct(string(m.seq))
	c.Sample("order of handlers", "%s", clip(string(m.seq), 200))
}

// c15reads reads one directory from many goroutines.
func c15reads(c *Ctx, r *rand.Rand) {
	s := newSim(c, r, 1000, 5, false)
	for j := 0; j < 25; j++ {
		s.randomOp(false)
	}
	s.update()
	for j := 0; j < 4; j++ { // pending registrations
		n := fmt.Sprint("pending", j)
		s.expectRegister(s.register(n, []byte(n)), n, []byte(n))
	}
	s.d.SetPolicies(9)
	names := []string{"absent", "pending0", "pending3"}
	for _, g := range s.order {
		names = append(names, g.name)
	}
	type q struct {
		t    int
		req  interface{}
		want string
	}
	var qs []*q
	for j := 0; j < 40; j++ {
		n := names[r.Intn(len(names))]
		a := uint64(r.Intn(int(s.epoch) + 1))
		var x q
		switch r.Intn(4) {
		case 0:
			x = q{t: protocol.KeyLookupType, req: &protocol.KeyLookupRequest{Username: n}}
		case 1:
			x = q{t: protocol.KeyLookupInEpochType, req: &protocol.KeyLookupInEpochRequest{Username: n, Epoch: a}}
		case 2:
			x = q{t: protocol.MonitoringType, req: &protocol.MonitoringRequest{Username: n, StartEpoch: a, EndEpoch: s.epoch + 1}}
		default:
			x = q{t: protocol.STRType, req: &protocol.STRHistoryRequest{StartEpoch: a, EndEpoch: s.epoch}}
		}
		x.want = jsonOf(dispatch(s.d, x.t, x.req))
		qs = append(qs, &x)
	}
	latest := jsonOf(s.d.LatestSTR())
	var wg sync.WaitGroup
	var bad atomic.Value
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			for j := 0; j < 40; j++ {
				x := qs[r.Intn(len(qs))]
				if got := jsonOf(dispatch(s.d, x.t, x.req)); got != x.want {
					bad.Store(fmt.Sprintf("alone: %s\nconcurrently: %s", clip(x.want, 1200), clip(got, 1200)))
				}
				if j%8 == 0 && (s.d.EpochDeadline() != 5 && s.d.EpochDeadline() != protocol.Timestamp(s.strs[len(s.strs)-1].Policies.EpochDeadline) || jsonOf(s.d.LatestSTR()) != latest) {
					bad.Store("latest root or deadline")
				}
				c.Count("shared reads", 1)
				c.Tick()
			}
		}(sub(r))
	}
	wg.Wait()
	if b := bad.Load(); b != nil {
		c.Fail("concurrent reads of one directory differ from sequential ones", "%s", b)
	}
	c.Eval(320)
	c.Distinct(latest, len(names))
}

// c15values uses shared keys, proofs, roots and logs from many goroutines.
func c15values(c *Ctx, r *rand.Rand) {
	e := newEvil(r)
	signPriv, vrfPriv := e.signSK, e.vrfSK
	hist := e.chain(5)
	wired := wireRange(hist)
	t := e.tree(randBytes(r, 32))
	var names []string
	for j := 0; j < 6; j++ {
		n := fmt.Sprint("u", j, genName(r, true))
		names = append(names, n)
		t.set(n, genKey(r))
	}
	aps := map[string]*merkletree.AuthenticationPath{}
	for _, n := range names {
		aps[n] = t.path(n)
	}
	aps["absent"] = t.path("absent")
	root := t.root()
	msg := randBytes(r, 50)
	sig := signPriv.Sign(msg)
	commit, err := crypto.NewCommit([]byte("a"), []byte("b"))
	c.Must(err)
	idx, proof := vrfPriv.Prove(msg)
	tb := e.tb(hist[0], "x", []byte("k"))
	tbb := tb.Serialize(hist[0].Signature)
	log := auditlog.New()
	c.Must(log.InitHistory("d", e.signPK, wired))
	id := auditor.ComputeDirectoryIdentity(hist[0])
	wantLog := jsonOf(log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: 0, EndEpoch: 4}))
	aud := auditor.New(e.signPK, wired[0])
	cc := client.New(wired[4], true, e.signPK)
	rng := protocol.NewSTRHistoryRange(wired)
	doc := []byte(jsonOf(rng))
	var answers [][]byte // encoded answers about the names
	for _, n := range names {
		a := &answer{status: protocol.ReqSuccess, ap: t.path(n), str: copySTR(hist[0]), tb: e.tb(hist[0], n, t.keys[n])}
		b, err := application.MarshalResponse(a.response())
		c.Must(err)
		answers = append(answers, b)
	}
	pk, ok := signPriv.Public()
	c.Check(ok && bytes.Equal(pk, e.signPK), "public key", "%x", pk)
	var wg sync.WaitGroup
	var bad atomic.Value
	fail := func(what string) { bad.CompareAndSwap(nil, what) }
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			for j := 0; j < 40; j++ {
				c.Count("shared verifications", 1)
				c.Tick()
				switch r.Intn(18) {
				case 0:
					if !e.signPK.Verify(msg, sig) {
						fail("signature")
					}
				case 1:
					if !bytes.Equal(signPriv.Sign(msg), sig) {
						fail("signing")
					}
				case 2:
					if !e.vrfPK.Verify(msg, idx, proof) {
						fail("index proof")
					}
				case 3:
					i2, p2 := vrfPriv.Prove(msg)
					if !bytes.Equal(i2, idx) || !e.vrfPK.Verify(msg, i2, p2) {
						fail("evaluating the index function")
					}
				case 4:
					if !bytes.Equal(vrfPriv.Compute(msg), idx) {
						fail("evaluating the index function")
					}
				case 5, 6:
					n := names[r.Intn(len(names))]
					if aps[n].Verify([]byte(n), t.keys[n], root) != nil || aps[n].ProofType() != merkletree.ProofOfInclusion {
						fail("proof of inclusion")
					}
					if aps[n].Verify([]byte(n), []byte("other"), root) == nil {
						fail("proof of inclusion of another key")
					}
				case 7:
					if aps["absent"].Verify([]byte("absent"), nil, root) != nil || aps["absent"].ProofType() != merkletree.ProofOfAbsence {
						fail("proof of absence")
					}
				case 8:
					if !commit.Verify([]byte("a"), []byte("b")) || commit.Verify([]byte("b"), []byte("a")) {
						fail("commitment")
					}
				case 9:
					i := 1 + r.Intn(4)
					if !wired[i].VerifyHashChain(wired[i-1]) || !e.signPK.Verify(wired[i].Serialize(), wired[i].Signature) {
						fail("root")
					}
				case 10:
					if !bytes.Equal(tb.Serialize(hist[0].Signature), tbb) {
						fail("promise")
					}
				case 11:
					if jsonOf(log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: 0, EndEpoch: 4})) != wantLog {
						fail("audit log")
					}
				case 12:
					if aud.VerifySTRRange(wired[0], wired[1:]) != nil || aud.AuditDirectory(wired[:1]) != nil {
						fail("verifying a range")
					}
				case 13:
					if cc.CheckEquivocation(rng) != nil {
						fail("comparing with an auditor")
					}
				case 14, 15:
					doc := answers[r.Intn(len(answers))]
					if jsonOf(application.UnmarshalResponse(protocol.KeyLookupType, doc)) != string(doc) {
						fail("decoding an answer")
					}
				case 16:
					n := names[r.Intn(len(names))]
					b, err := application.MarshalRequest(protocol.RegistrationType, &protocol.RegistrationRequest{Username: n, Key: t.keys[n]})
					if err != nil {
						fail("encoding a request")
					} else if req, err := application.UnmarshalRequest(b); err != nil {
						fail("decoding a request")
					} else if q, ok := req.Request.(*protocol.RegistrationRequest); !ok || q.Username != n || !bytes.Equal(q.Key, t.keys[n]) {
						fail("decoding a request")
					}
				default:
					if jsonOf(application.UnmarshalResponse(protocol.STRType, doc)) != string(doc) {
						fail("decoding")
					}
				}
			}
		}(sub(r))
	}
	wg.Wait()
	if b := bad.Load(); b != nil {
		c.Fail("an operation on shared values gives another result concurrently", "%s", b)
	}
	c.Eval(320)
	c.Distinct(msg)
}

// c15shutdown shuts servers down while clients keep connecting to all their
// addresses.
func c15shutdown(c *Ctx, r *rand.Rand) {
	for i := 0; i < 4; i++ {
		specs := make([]addrSpec, 2+r.Intn(4))
		for j := range specs {
			specs[j] = addrSpec{r.Intn(6) == 0, j == 0}
		}
		s := newSrv(c, r, specs, 100, longDeadline(c, 0))
		s.start()
		stop := make(chan struct{})
		var wg sync.WaitGroup
		msg := mustRequest(c, protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: "x"})
		for k := 0; k < 12; k++ {
			wg.Add(1)
			go func(a *srvAddr, r *rand.Rand) {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					var conn net.Conn
					var err error
					if a.tcp {
						conn, err = a.dial()
					} else {
						conn, err = a.raw()
					}
					if err != nil {
						time.Sleep(time.Millisecond)
						continue
					}
					if r.Intn(3) > 0 {
						conn.SetDeadline(time.Now().Add(100 * time.Second))
						talk(conn, msg)
						c.Count("requests", 1)
					}
					conn.Close()
				}
			}(s.addrs[k%len(s.addrs)], sub(r))
		}
		time.Sleep(time.Duration(10+r.Intn(40)) * time.Millisecond)
		s.nextEpoch()
		reload()
		s.s.Shutdown()
		c.Count("shutdowns", 1)
		close(stop)
		wg.Wait()
		s.remove()
		c.Eval(1)
		c.Tick()
	}
}
