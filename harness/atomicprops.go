package main

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
)

func init() {
	register(&Property{ID: "C14", Level: "exploration", Run: runC14,
		Rule: "concurrent sessions with a real server (unix sockets and TLS, forced epoch changes, policy reloads); the history of requests and answers is recorded with its real-time order and checked for linearizability with respect to the directory's specification; non-trivial: a history in which requests of several clients overlap an epoch change, distinct by the multiset of (name, epoch, kind of answer)",
		Need: map[string]int64{"answers": 4000, "competing registrations": 400, "successes": 200, "epochs": 60, "overlapping pairs": 5000, "promises": 200, "inclusions": 100, "absences": 300, "reloads": 20}})
}

func runC14(c *Ctx) {
	for i := 0; i < c.N(32, 1200); i++ {
		c.Case(fmt.Sprintf("mix-%d", i), func(r *rand.Rand) { c14mix(c, r, false) })
	}
	for i := 0; i < c.N(24, 900); i++ {
		c.Case(fmt.Sprintf("storm-%d", i), func(r *rand.Rand) { c14mix(c, r, true) })
	}
}

// hop is one request with its answer.
type hop struct {
	client, t int
	name      string
	key       []byte
	a, b      uint64 // epochs asked for
	inv, resp int64
	raw       []byte
	err       error
	// judged
	lo, hi   uint64 // bounds on the epoch it took effect in
	before   bool   // saw the name without promise or binding in epoch lo == hi
	pending  bool   // saw the promise in that epoch
	success  bool   // is the successful registration
	earliest int64
	desc     string
}

const never = int64(1) << 62
const noEpoch = ^uint64(0) - 1

func (h *hop) String() string {
	return fmt.Sprintf("client %d [%d..%d us] kind %d %q (%d..%d) -> %s", h.client, h.inv/1000, h.resp/1000, h.t, clip(h.name, 20), h.a, h.b, h.desc)
}

// workload drives clients against a server and returns what they observed.
type workload struct {
	s       *srv
	names   []string
	t0      time.Time
	mu      sync.Mutex
	ops     []*hop
	reloads []reloadEv
}

type reloadEv struct {
	value  uint64
	before int64 // not earlier than this
}

func (w *workload) now() int64 { return int64(time.Since(w.t0)) }

func (w *workload) do(client int, a *srvAddr, h *hop) {
	var req interface{}
	switch h.t {
	case protocol.RegistrationType:
		req = &protocol.RegistrationRequest{Username: h.name, Key: h.key}
	case protocol.KeyLookupType:
		req = &protocol.KeyLookupRequest{Username: h.name}
	case protocol.KeyLookupInEpochType:
		req = &protocol.KeyLookupInEpochRequest{Username: h.name, Epoch: h.a}
	default:
		req = &protocol.MonitoringRequest{Username: h.name, StartEpoch: h.a, EndEpoch: h.b}
	}
	msg, _ := application.MarshalRequest(h.t, req)
	h.client = client
	h.inv = w.now()
	h.raw, h.err = a.exchange(msg)
	h.resp = w.now()
	w.s.c.Tick()
	w.mu.Lock()
	w.ops = append(w.ops, h)
	w.mu.Unlock()
}

func (w *workload) pick(r *rand.Rand, e uint64) *hop {
	h := &hop{name: w.names[r.Intn(len(w.names))]}
	switch k := r.Intn(10); {
	case k < 4:
		h.t, h.key = protocol.RegistrationType, randBytes(r, 12)
	case k < 7:
		h.t = protocol.KeyLookupType
	case k < 9:
		h.t, h.a = protocol.KeyLookupInEpochType, uint64(r.Intn(int(e)+2))
	default:
		h.t = protocol.MonitoringType
		h.a = uint64(r.Intn(int(e) + 1))
		h.b = h.a + uint64(r.Intn(4))
		if r.Intn(2) == 0 {
			h.b = 1 << 40
		}
	}
	return h
}

func c14mix(c *Ctx, r *rand.Rand, storm bool) {
	s := newSrv(c, r, randSpecs(r, 4, true), 100000, longDeadline(c, 0))
	defer s.remove()
	s.start()
	w := &workload{s: s, t0: time.Now()}
	regs := []*srvAddr{}
	for _, a := range s.addrs {
		if a.reg {
			regs = append(regs, a)
		}
	}
	for len(w.names) < 4+r.Intn(8) {
		w.names = append(w.names, fmt.Sprintf("user%d-%s", len(w.names), genName(r, true)))
	}
	clients := 6 + r.Intn(10)
	stop := make(chan struct{})
	var bg, wg sync.WaitGroup
	bg.Add(1)
	go func(r *rand.Rand) { // epochs
		defer bg.Done()
		gap := []int{2, 10, 40}[r.Intn(3)]
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(r.Intn(gap*1000)) * time.Microsecond):
				s.nextEpoch()
			}
		}
	}(sub(r))
	bg.Add(1)
	go func(r *rand.Rand) { // reloads
		defer bg.Done()
		v := s.deadline
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(5+r.Intn(60)) * time.Millisecond):
				if force.ok {
					v++
				}
				w.mu.Lock()
				w.reloads = append(w.reloads, reloadEv{v, w.now()})
				w.mu.Unlock()
				s.writeConfig(v)
				reload()
			}
		}
	}(sub(r))
	var tcps []*srvAddr
	for _, a := range s.addrs {
		if a.tcp {
			tcps = append(tcps, a)
		}
	}
	var aborted int64
	if len(tcps) > 0 && r.Intn(2) == 0 {
		bg.Add(1)
		go func(r *rand.Rand, names []string) { // requests that are cut off
			defer bg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(r.Intn(20000)) * time.Microsecond):
				}
				msg, _ := application.MarshalRequest(protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: names[r.Intn(len(names))]})
				if r.Intn(2) == 0 {
					msg, _ = application.MarshalRequest(protocol.RegistrationType, &protocol.RegistrationRequest{Username: names[r.Intn(len(names))], Key: randBytes(r, 12)})
				}
				conn, err := tcps[r.Intn(len(tcps))].dial()
				if err != nil {
					continue
				}
				conn.Write(msg[:1+r.Intn(len(msg)-1)])
				time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
				if tc, ok := conn.(*tls.Conn).NetConn().(*net.TCPConn); ok {
					tc.SetLinger(0) // reset the connection
					tc.Close()
				}
				conn.Close()
				aborted++
			}
		}(sub(r), append([]string{}, w.names...))
	}
	if storm {
		// all clients ask about the same fresh name at once
		for round := 0; round < 10; round++ {
			name := fmt.Sprintf("storm%d-%s", round, genName(r, true))
			w.names = append(w.names, name)
			gate := make(chan struct{})
			for k := 0; k < clients; k++ {
				wg.Add(1)
				go func(k int, r *rand.Rand) {
					defer wg.Done()
					<-gate
					for j := 0; j < 3; j++ {
						h := &hop{name: name, t: protocol.RegistrationType, key: randBytes(r, 12)}
						a := regs[r.Intn(len(regs))]
						if r.Intn(3) == 0 {
							h.t, h.key, a = protocol.KeyLookupType, nil, s.addrs[r.Intn(len(s.addrs))]
						}
						w.do(k, a, h)
					}
				}(k, sub(r))
			}
			close(gate)
			wg.Wait()
		}
	} else {
		steps := 20 + r.Intn(20)
		for k := 0; k < clients; k++ {
			wg.Add(1)
			go func(k int, r *rand.Rand) {
				defer wg.Done()
				guess := uint64(1)
				for j := 0; j < steps; j++ {
					h := w.pick(r, guess)
					a := s.addrs[r.Intn(len(s.addrs))]
					if h.t == protocol.RegistrationType {
						a = regs[r.Intn(len(regs))]
					}
					if !force.ok { // the history has to last for some epochs
						time.Sleep(time.Duration(r.Intn(150)) * time.Millisecond)
					}
					w.do(k, a, h)
					if h.err == nil && r.Intn(4) == 0 {
						if res := application.UnmarshalResponse(h.t, h.raw); proofOf(res) != nil && len(proofOf(res).STR) > 0 {
							if str := proofOf(res).STR[len(proofOf(res).STR)-1]; whole(str) {
								guess = str.Epoch
							}
						}
					}
				}
			}(k, sub(r))
		}
		wg.Wait()
	}
	close(stop)
	bg.Wait()
	c.Count("requests cut off", int(aborted))
	e, ok := s.epoch(s.addrs[0])
	for !ok {
		e, ok = s.epoch(s.addrs[0])
	}
	s.waitEpoch(s.addrs[0], e+2)
	c14judge(c, w)
	s.s.Shutdown()
}

// c14judge decides whether the recorded history is one of the atomic
// directory.
func c14judge(c *Ctx, w *workload) {
	s := w.s
	ops := w.ops
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	trace := func(name string, bad *hop) string {
		var out []string
		for _, h := range ops {
			if h.name == name {
				out = append(out, h.String())
			}
		}
		if bad != nil {
			out = append([]string{"contradicted by: " + bad.String()}, out...)
		}
		return clip(strings.Join(out, "\n"), 3000)
	}
	chain := s.chain(s.addrs[0])
	last := uint64(len(chain) - 1)
	// what became of every name, from the roots themselves
	final := map[string]*reg{}
	for _, n := range w.names {
		res := s.ask(s.addrs[0], protocol.MonitoringType, &protocol.MonitoringRequest{Username: n, StartEpoch: 0, EndEpoch: last})
		p := proofOf(res)
		if p == nil || uint64(len(p.AP)) != last+1 || len(p.STR) != len(p.AP) {
			c.Fail("a monitoring request isn't answered", "%s", clip(jsonOf(res), 300))
		}
		for i, ap := range p.AP {
			ep := uint64(i)
			c.Check(sameSTR(p.STR[i], chain[i]), "an epoch has several roots", "%s and %s", strString(p.STR[i]), strString(chain[i]))
			ok, incl, value := refVerify(ap, s.idx(n), n, chain[i].TreeHash)
			c.Check(ok, "a proof doesn't verify", "%q in epoch %d: %s", n, ep, apString(ap))
			g := final[n]
			switch {
			case g == nil && incl:
				c.Check(ep > 0, "a name is in the first root", "%q", n)
				final[n] = &reg{n, value, ep - 1}
			case g != nil:
				c.Check(incl, "a name goes back from registered to unregistered", "%q was in epoch %d, not in %d", n, g.epoch+1, ep)
				c.Check(bytes.Equal(value, g.key), "the key of a name changes", "%q in epoch %d", n, ep)
			}
		}
	}
	c.Count("epochs", len(chain))
	c.Count("reloads", len(w.reloads))
	signature := []string{}
	for _, h := range ops {
		c.Eval(1)
		h.lo, h.hi = 0, noEpoch
		if h.err != nil || len(h.raw) == 0 {
			c.Count("unanswered", 1)
			h.resp = never
			h.desc = "no answer"
			if h.t != protocol.RegistrationType {
				continue
			}
			if g := final[h.name]; g != nil && bytes.Equal(g.key, h.key) {
				h.success, h.lo, h.hi = true, g.epoch, g.epoch
				h.desc = "no answer, took effect"
			}
			continue
		}
		c.Count("answers", 1)
		c14answer(c, w, h, chain, final)
		if h.t == protocol.RegistrationType {
			c.Count("competing registrations", 1)
		}
		signature = append(signature, fmt.Sprint(h.t, h.name, h.lo, h.hi, h.before, h.pending))
	}
	// at most one success per name, and every binding has one
	winners := map[string][]*hop{}
	byName := map[string][]*hop{}
	for _, h := range ops {
		byName[h.name] = append(byName[h.name], h)
		if h.success {
			winners[h.name] = append(winners[h.name], h)
		}
	}
	for _, n := range w.names {
		g, ws := final[n], winners[n]
		c.Check(len(ws) <= 1, "several registrations of a name succeed", "%s", trace(n, nil))
		if g != nil {
			c.Check(len(ws) == 1 && bytes.Equal(ws[0].key, g.key), "a key is bound that no successful registration gave", "%q: %x\n%s", n, g.key, trace(n, nil))
			c.Count("successes", 1)
		} else {
			c.Check(len(ws) == 0, "a successful registration isn't bound", "%s", trace(n, nil))
		}
	}
	// linearizability: give every request the earliest possible instant that
	// the order of epochs and of events within an epoch allows
	starts := make([]int64, last+3) // earliest start of each epoch
	maxEarliest := int64(-1)        // over all requests that precede the epoch
	type key struct {
		name string
		ep   uint64
	}
	level := func(h *hop) int {
		switch {
		case h.success:
			return 1
		case h.pending:
			return 2
		}
		return 0
	}
	fixed := map[key][]*hop{}
	var loose []*hop
	for _, h := range ops {
		if h.before || h.pending || h.success {
			fixed[key{h.name, h.lo}] = append(fixed[key{h.name, h.lo}], h)
		} else {
			loose = append(loose, h)
		}
	}
	var loBucket = map[uint64][]*hop{}
	for _, h := range loose {
		loBucket[h.lo] = append(loBucket[h.lo], h)
	}
	hiMax := make([]int64, last+4) // latest "earliest" of requests that end before epoch k
	judge := func(h *hop, atLeast int64, why string) int64 {
		h.earliest = h.inv
		if atLeast > h.earliest {
			h.earliest = atLeast
		}
		if h.earliest > h.resp {
			c.Fail("the answers have no order in which each takes effect at once", "%s %d us, but it had been answered: %s\n%s",
				why, atLeast/1000, h, trace(h.name, h))
		}
		if h.hi < last+3 && h.earliest > hiMax[h.hi+1] {
			hiMax[h.hi+1] = h.earliest
		}
		return h.earliest
	}
	names := append([]string{}, w.names...)
	sort.Strings(names)
	for ep := uint64(0); ep <= last; ep++ {
		if hiMax[ep] > maxEarliest {
			maxEarliest = hiMax[ep]
		}
		starts[ep] = maxEarliest
		why := fmt.Sprintf("epoch %d cannot have begun before", ep)
		for _, h := range loBucket[ep] {
			judge(h, starts[ep], why)
		}
		for _, n := range names {
			g := fixed[key{n, ep}]
			at := starts[ep]
			y := why
			for lv := 0; lv < 3; lv++ {
				top := at
				for _, h := range g {
					if level(h) == lv {
						if e := judge(h, at, y); e > top {
							top = e
						}
					}
				}
				if top > at {
					at, y = top, fmt.Sprintf("the state of %q it saw cannot have begun before", n)
				}
			}
		}
	}
	// policies: a value appears at the earliest in the second root after the
	// change was asked for, and values never go back
	first := make([]int64, last+2) // an answer from this epoch or a later one had arrived
	for i := range first {
		first[i] = never
	}
	for _, h := range ops {
		if h.lo <= last && h.resp < first[h.lo] {
			first[h.lo] = h.resp
		}
	}
	for i := int(last); i >= 0; i-- {
		if first[i+1] < first[i] {
			first[i] = first[i+1]
		}
	}
	if force.ok {
		prev := s.deadline
		for ep, str := range chain {
			v := uint64(str.Policies.EpochDeadline)
			c.Check(v >= prev, "a changed policy is taken back", "epoch %d announces %d after %d", ep, v, prev)
			prev = v
			if v == s.deadline {
				continue
			}
			known := false
			for _, ev := range w.reloads {
				if ev.value == v {
					known = true
					c.Check(ep >= 2 && first[ep-1] >= ev.before, "a policy appears before the second root after the change",
						"epoch %d announces %d, written after %d us; epoch %d was seen at %d us", ep, v, ev.before/1000, ep-1, first[ep-1]/1000)
					c.Count("changed policies seen", 1)
				}
			}
			c.Check(known, "a policy that was never configured", "%d", v)
		}
	}
	// evidence: overlapping requests
	over := 0
	for i, h := range ops {
		for j := i + 1; j < len(ops) && j < i+40 && ops[j].inv < h.resp; j++ {
			over++
		}
	}
	c.Count("overlapping pairs", over)
	sort.Strings(signature)
	c.Distinct(strings.Join(signature, ";"))
	if len(ops) > 3 {
		c.Sample("history", "%d requests, %d epochs, %d overlapping pairs, e.g. %s; %s", len(ops), len(chain), over, ops[len(ops)/2], ops[len(ops)/2+1])
	}
}

// c14answer verifies one answer and extracts what it says about when it took
// effect.
func c14answer(c *Ctx, w *workload, h *hop, chain []*protocol.DirSTR, final map[string]*reg) {
	s := w.s
	const what = "answer of a concurrent server"
	ctx := func() string { return h.String() + ": " + clip(string(h.raw), 700) }
	last := uint64(len(chain) - 1)
	res := application.UnmarshalResponse(h.t, h.raw)
	h.desc = fmt.Sprint(res.Error)
	g := final[h.name]
	p := proofOf(res)
	if isErrorCode(res.Error) {
		// the only refusals: epochs that didn't exist yet
		c.Check(res.Error == protocol.ErrMalformedMessage && (h.t == protocol.KeyLookupInEpochType || h.t == protocol.MonitoringType) && h.a > 0,
			"a well-formed request is refused", "%s", ctx())
		h.hi = h.a - 1
		h.desc = "not yet"
		return
	}
	if p == nil || len(p.STR) == 0 || len(p.AP) == 0 {
		c.Fail(what, "no proof: %s", ctx())
	}
	for _, str := range p.STR {
		c.Check(whole(str) && str.Epoch <= last && sameSTR(str, chain[str.Epoch]), "an epoch has several roots", "%s: %s", strString(str), ctx())
	}
	ep0, ep1 := p.STR[0].Epoch, p.STR[len(p.STR)-1].Epoch
	c.Check(ep1-ep0 == uint64(len(p.STR)-1), what, "roots %d..%d: %s", ep0, ep1, ctx())
	for i, str := range p.STR {
		c.Check(str.Epoch == ep0+uint64(i), what, "roots out of order: %s", ctx())
	}
	// each proof under its root
	for i, ap := range p.AP {
		if i >= len(p.STR) {
			c.Fail(what, "more proofs than roots: %s", ctx())
		}
		ep := ep0 + uint64(i)
		ok, incl, value := refVerify(ap, s.idx(h.name), h.name, chain[ep].TreeHash)
		c.Check(ok, "a proof doesn't verify under the root it comes with", "epoch %d: %s: %s", ep, apString(ap), ctx())
		c.Check(s.vrfPK.Verify([]byte(h.name), ap.LookupIndex, ap.VrfProof), "an index proof doesn't verify", "%s", ctx())
		want := g != nil && g.epoch < ep
		c.Check(incl == want, "an answer contradicts the root", "%q in epoch %d: %s", h.name, ep, ctx())
		if incl {
			c.Check(bytes.Equal(value, g.key) && ap.ProofType() == merkletree.ProofOfInclusion, "an answer contradicts the root", "key: %s", ctx())
			c.Count("inclusions", 1)
		} else {
			c.Count("absences", 1)
		}
	}
	tbFor := func() {
		c.Check(p.TB != nil && refTBSigned(p.TB, p.STR[0], s.signPK) && bytes.Equal(p.TB.Index, s.idx(h.name)), "a promise doesn't verify", "%s", ctx())
		c.Check(g != nil && g.epoch == ep0 && bytes.Equal(g.key, p.TB.Value), "a promise isn't kept", "%q, key %x, bound: %+v\n%s", h.name, p.TB.Value, g, ctx())
		c.Count("promises", 1)
	}
	switch h.t {
	case protocol.RegistrationType, protocol.KeyLookupType:
		c.Check(len(p.STR) == 1 && len(p.AP) == 1, what, "several proofs: %s", ctx())
		h.lo, h.hi = ep0, ep0
		incl := g != nil && g.epoch < ep0
		h.desc = fmt.Sprintf("%d in epoch %d", res.Error, ep0)
		existed := protocol.ErrorCode(protocol.ReqSuccess)
		if h.t == protocol.RegistrationType {
			existed = protocol.ReqNameExisted
		}
		switch {
		case incl:
			c.Check(res.Error == existed && p.TB == nil, what, "status of a registered name: %s", ctx())
		case p.TB == nil:
			c.Check(h.t == protocol.KeyLookupType && res.Error == protocol.ReqNameNotFound, what, "no promise: %s", ctx())
			h.before = true
		default:
			tbFor()
			if h.t == protocol.RegistrationType && res.Error == protocol.ReqSuccess {
				c.Check(bytes.Equal(p.TB.Value, h.key), "a registration succeeds with another key", "%s", ctx())
				h.success = true
			} else {
				c.Check(res.Error == existed, what, "status of a pending name: %s", ctx())
				h.pending = true
			}
			h.desc += " with promise"
		}
	case protocol.KeyLookupInEpochType:
		want := protocol.ErrorCode(protocol.ReqNameNotFound)
		if g != nil && g.epoch < h.a {
			want = protocol.ReqSuccess
		}
		c.Check(res.Error == want && p.TB == nil && ep0 == h.a && len(p.AP) == 1, what, "expected %d from epoch %d: %s", want, h.a, ctx())
		h.lo, h.hi = ep1, ep1
		h.desc = fmt.Sprintf("%d, latest %d", res.Error, ep1)
	case protocol.MonitoringType:
		c.Check(res.Error == protocol.ReqSuccess && p.TB == nil && ep0 == h.a && ep1 <= h.b && len(p.AP) == len(p.STR), what, "monitoring: %s", ctx())
		h.lo = ep1
		if ep1 < h.b {
			h.hi = ep1
		}
		h.desc = fmt.Sprintf("%d, up to %d", res.Error, ep1)
	}
}
