package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/protocol"
)

func init() {
	childModes["c17server"] = c17server
	register(&Property{ID: "C16", Level: "exploration", Run: runC16,
		Rule: "servers with up to 70 addresses and every kind of permission, each kind of request sent to each address in random order; answers, and the directory afterwards, compared with the permissions; a base server with arbitrary permission tables and a handler that records what reaches it; non-trivial: a request that must be refused where another address permits it, distinct by (permissions, address, request)",
		Need: map[string]int64{"registrations refused": 450, "registrations accepted": 250, "lookups served": 1800, "malformed types": 2000, "handler calls": 350, "handler withheld": 900}})
	register(&Property{ID: "C17", Level: "exploration", Run: runC17,
		Rule: "hostile connections of every kind (random, altered, truncated, oversized and split requests, aborts, resets, silence, unfinished handshakes, floods) against real servers, with canary clients that compare the answers about known names with the model all the time; non-trivial: a hostile message, distinct by (kind, address, alteration)",
		Need: map[string]int64{"slow connections": 90, "silent connections ended by the server": 35, "hostile messages": 2500, "refused": 1200, "closed": 50, "canary answers": 1500, "silent connections": 100, "aborted": 150, "handshakes spoiled": 50, "not served one after the other": 4}})
}

// ---- C16 ----

func runC16(c *Ctx) {
	for i := 0; i < c.N(120, 3000); i++ {
		c.Case(fmt.Sprintf("server-%d", i), func(r *rand.Rand) { c16server(c, r) })
	}
	for i := 0; i < c.N(40, 800); i++ {
		c.Case(fmt.Sprintf("base-%d", i), func(r *rand.Rand) { c16base(c, r) })
	}
}

// badTypes are requests no address permits.
func badTypes(r *rand.Rand, name string) []string {
	reg := fmt.Sprintf(`{"Username":%s,"Key":"a2V5"}`, jsonOf(name))
	var out []string
	for _, t := range []string{"-1", "4", "5", "6", "77", "100", "2147483648", "4294967296", "4294967297", "18446744073709551616", `"0"`, `"1"`, "true", "[0]", "{}", "0.5", "1e1", `""`} {
		out = append(out, fmt.Sprintf(`{"Type":%s,"Request":%s}`, t, reg))
	}
	for _, t := range []string{"0", "1", "2", "3"} {
		for _, q := range []string{"null", "[]", `"x"`, "7", "{}", `{"Username":""}`, `{"Username":7,"Key":"a2V5"}`, `{"Key":"a2V5"}`, `{"Username":null,"Key":"a2V5"}`, "[" + reg + "]", "true"} {
			out = append(out, fmt.Sprintf(`{"Type":%s,"Request":%s}`, t, q))
		}
		out = append(out, fmt.Sprintf(`{"Type":%s}`, t))
	}
	out = append(out, fmt.Sprintf(`{"Type":0,"Request":{"Username":%s}}`, jsonOf(name)),
		fmt.Sprintf(`{"Type":0,"Request":{"Username":%s,"Key":""}}`, jsonOf(name)),
		fmt.Sprintf(`{"Type":0,"Request":{"Username":%s,"Key":null}}`, jsonOf(name)),
		fmt.Sprintf(`{"Type":2,"Request":{"Username":%s,"Epoch":-1}}`, jsonOf(name)),
		fmt.Sprintf(`{"Type":2,"Request":{"Username":%s,"Epoch":99999999}}`, jsonOf(name)),
		fmt.Sprintf(`{"Type":3,"Request":{"Username":%s,"StartEpoch":5,"EndEpoch":2}}`, jsonOf(name)),
		`null`, `[]`, `0`, `"x"`, ``, `{`, `{}`, reg)
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func c16server(c *Ctx, r *rand.Rand) {
	n := 1 + r.Intn(5)
	if r.Intn(8) == 0 {
		n = 12
	}
	many := r.Intn(16) == 0
	if many {
		n = 40 + r.Intn(30)
	}
	specs := make([]addrSpec, n)
	perm := ""
	for i := range specs {
		specs[i] = addrSpec{r.Intn(5) == 0 && (!many || i < 3), r.Intn(2) == 0}
		perm += fmt.Sprint(specs[i].reg)[:1]
	}
	s := newSrv(c, r, specs, 1000, longDeadline(c, 0))
	defer s.remove()
	s.start()
	defer s.s.Shutdown()
	regs := map[string][]byte{} // bound
	pend := map[string][]byte{}
	anyAddr := func() *srvAddr { return s.addrs[r.Intn(len(s.addrs))] }
	// look asks one address about a name and compares with the model
	look := func(a *srvAddr, name string) {
		t := []int{protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType}[r.Intn(3)]
		var req interface{} = &protocol.KeyLookupRequest{Username: name}
		switch t {
		case protocol.KeyLookupInEpochType:
			req = &protocol.KeyLookupInEpochRequest{Username: name}
		case protocol.MonitoringType:
			req = &protocol.MonitoringRequest{Username: name, EndEpoch: 1 << 30}
		}
		res := s.ask(a, t, req)
		p := proofOf(res)
		c.Check(p != nil && len(p.STR) > 0 && len(p.AP) > 0, "a lookup isn't served on an address", "type %d on %s (registration %v): %s", t, a.url, a.reg, clip(jsonOf(res), 300))
		c.Count("lookups served", 1)
		if t != protocol.KeyLookupType {
			return
		}
		want, key := protocol.ErrorCode(protocol.ReqNameNotFound), []byte(nil)
		if k, ok := regs[name]; ok {
			want, key = protocol.ReqSuccess, k
		} else if k, ok := pend[name]; ok {
			want, key = protocol.ReqSuccess, k
		}
		got, err := res.GetKey()
		c.Check(res.Error == want && err == nil && bytes.Equal(got, key), "the directory changed by a refused request, or not by an accepted one",
			"%q on %s: status %d, key %x, expected %d, %x", name, a.url, res.Error, got, want, key)
	}
	names := []string{}
	for i := 0; i < 8; i++ {
		names = append(names, fmt.Sprintf("n%d%s", i, genName(r, true)))
	}
	steps := 30
	for j := 0; j < steps; j++ {
		c.Eval(1)
		ai := r.Intn(len(s.addrs))
		a := s.addrs[ai]
		name := names[r.Intn(len(names))]
		switch k := r.Intn(10); {
		case k < 5:
			key := genKey(r)
			res := s.ask(a, protocol.RegistrationType, &protocol.RegistrationRequest{Username: name, Key: key,
				AllowUnsignedKeychange: r.Intn(2) == 0, AllowPublicLookup: r.Intn(2) == 0})
			_, b := regs[name]
			_, q := pend[name]
			if !a.reg {
				c.Check(res != nil && res.Error == protocol.ErrMalformedMessage && isNilResponse(res), "a registration isn't refused on a read-only address",
					"address %d of %s: %s", ai, perm, clip(jsonOf(res), 300))
				c.Count("registrations refused", 1)
				if strings.Contains(perm, "t") {
					c.Distinct(perm, ai, a.tcp, b, q)
				}
			} else {
				c.Check(res != nil && proofOf(res) != nil && (res.Error == protocol.ReqSuccess) == !(b || q) && (res.Error == protocol.ReqNameExisted) == (b || q),
					"a registration isn't accepted on an address that permits it", "address %d of %s: %s", ai, perm, clip(jsonOf(res), 300))
				c.Count("registrations accepted", 1)
				if !b && !q {
					pend[name] = key
				}
			}
			look(anyAddr(), name)
		case k < 7:
			bad := badTypes(r, name)
			for _, m := range bad[:6] {
				b, err := a.exchange([]byte(m))
				res := application.UnmarshalResponse(protocol.KeyLookupType, b)
				c.Check(err == nil && len(b) > 0 && res.Error == protocol.ErrMalformedMessage && isNilResponse(res), "a malformed request isn't refused",
					"%s on address %d of %s: %v %s", m, ai, perm, err, clip(string(b), 300))
				c.Count("malformed types", 1)
			}
			look(anyAddr(), name)
		case k < 9:
			look(a, name)
		default:
			if r.Intn(3) > 0 {
				break
			}
			e, ok := s.epoch(a)
			c.Check(ok, "a lookup isn't served on an address", "%s", a.url)
			s.waitEpoch(a, e+1)
			for n, k := range pend {
				regs[n] = k
			}
			pend = map[string][]byte{}
		}
	}
	for _, n := range names {
		look(anyAddr(), n)
	}
	if many { // every address once
		for ai, a := range s.addrs {
			name := fmt.Sprintf("many%d", ai)
			res := s.ask(a, protocol.RegistrationType, &protocol.RegistrationRequest{Username: name, Key: []byte("k")})
			if a.reg {
				c.Check(res != nil && res.Error == protocol.ReqSuccess, "a registration isn't accepted on an address that permits it", "address %d of %s: %s", ai, perm, clip(jsonOf(res), 300))
				pend[name] = []byte("k")
				c.Count("registrations accepted", 1)
			} else {
				c.Check(res != nil && res.Error == protocol.ErrMalformedMessage && isNilResponse(res), "a registration isn't refused on a read-only address", "address %d of %s: %s", ai, perm, clip(jsonOf(res), 300))
				c.Count("registrations refused", 1)
			}
			look(anyAddr(), name)
			c.Eval(1)
		}
	}
	c.Sample("permissions", "%s", perm)
}

// c16base gives a base server arbitrary permissions and records what reaches
// the handler.
func c16base(c *Ctx, r *rand.Rand) {
	dir, err := os.MkdirTemp(c.Dir, "b")
	c.Must(err)
	defer os.RemoveAll(dir)
	specs := make([]addrSpec, 2+r.Intn(5))
	if r.Intn(12) == 0 {
		specs = make([]addrSpec, 40)
	}
	for i := range specs {
		specs[i].tcp = r.Intn(6) == 0 && i < 8
	}
	addrs := newAddrs(c, dir, specs)
	perms := map[*application.ServerAddress]map[int]bool{}
	types := []int{protocol.RegistrationType, protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType, protocol.AuditType, protocol.STRType, 50}
	for i, a := range addrs {
		if i == 0 && r.Intn(3) == 0 {
			continue // no permissions at all
		}
		m := map[int]bool{}
		for _, t := range types {
			switch r.Intn(3) {
			case 0:
				m[t] = true
			case 1:
				m[t] = false
			}
		}
		perms[a.sa] = m
	}
	sb := application.NewServerBase(&application.CommonConfig{Path: dir + "/config", Logger: &application.LoggerConfig{Environment: "production", Path: dir + "/log"}}, "Listen", perms)
	type seenT struct {
		addr, t int
		name    string
	}
	var mu sync.Mutex
	var seen []seenT
	for i, a := range addrs {
		i := i
		sb.ListenAndHandle(a.sa, func(req *protocol.Request) *protocol.Response {
			mu.Lock()
			defer mu.Unlock()
			name := "?"
			switch x := req.Request.(type) {
			case *protocol.RegistrationRequest:
				name = x.Username
			case *protocol.KeyLookupRequest:
				name = x.Username
			case *protocol.KeyLookupInEpochRequest:
				name = x.Username
			case *protocol.MonitoringRequest:
				name = x.Username
			}
			seen = append(seen, seenT{i, req.Type, name})
			return protocol.NewErrorResponse(protocol.ErrAuditLog)
		})
	}
	for j := 0; j < 60; j++ {
		c.Eval(1)
		i, t, name := r.Intn(len(addrs)), types[r.Intn(len(types))], fmt.Sprint("name", j)
		if r.Intn(10) == 0 {
			t = r.Intn(400) - 200
		}
		mu.Lock()
		seen = nil
		mu.Unlock()
		var req interface{} = &protocol.RegistrationRequest{Username: name, Key: []byte("k")}
		b, err := addrs[i].exchange(mustRequest(c, t, req))
		res := application.UnmarshalResponse(protocol.KeyLookupType, b)
		mu.Lock()
		got := append([]seenT{}, seen...)
		mu.Unlock()
		allowed := perms[addrs[i].sa] != nil && perms[addrs[i].sa][t]
		if allowed {
			known := t >= 0 && t <= 3
			c.Check(err == nil && len(got) == 1 && got[0].addr == i && got[0].t == t && (!known || got[0].name == name) && res.Error == protocol.ErrAuditLog,
				"a permitted request isn't handled once by its address's handler", "type %d on address %d: %v, handled %v, %s", t, i, err, got, clip(string(b), 200))
			c.Count("handler calls", 1)
		} else {
			c.Check(len(got) == 0, "a request that isn't permitted reaches the handler", "type %d on address %d: %v", t, i, got)
			c.Check(err == nil && res.Error == protocol.ErrMalformedMessage && isNilResponse(res), "a request that isn't permitted isn't refused", "type %d on address %d: %v %s", t, i, err, clip(string(b), 200))
			c.Count("handler withheld", 1)
			c.Distinct(i, t, j)
		}
	}
	sb.Shutdown()
}

// ---- C17 ----

func runC17(c *Ctx) {
	for i := 0; i < c.N(20, 500); i++ {
		c.Case(fmt.Sprintf("hostile-%d", i), func(r *rand.Rand) { c17hostile(c, r) })
	}
	for i := 0; i < c.N(2, 12); i++ {
		c.Case(fmt.Sprintf("flood-%d", i), func(r *rand.Rand) { c17flood(c, r) })
	}
	for i := 0; i < c.N(4, 40); i++ {
		c.Case(fmt.Sprintf("files-%d", i), func(r *rand.Rand) { c17files(c, r) })
	}
	for i := 0; i < c.N(4, 40); i++ {
		c.Case(fmt.Sprintf("slow-%d", i), func(r *rand.Rand) { c17slow(c, r) })
	}
	for i := 0; i < c.N(8, 60); i++ {
		c.Case(fmt.Sprintf("silent-%d", i), func(r *rand.Rand) { c17silent(c, r, i%2 == 0) })
	}
}

// judgeRequest classifies bytes independently: "bad" if they are certainly
// not a well-formed request.
func certainlyBad(b []byte) bool {
	if len(b) > 8192 {
		b = b[:8192]
	}
	var m map[string]json.RawMessage
	if json.Unmarshal(b, &m) != nil {
		return true
	}
	var types, reqs []json.RawMessage
	for k, v := range m {
		switch {
		case strings.EqualFold(k, "type"):
			types = append(types, v)
		case strings.EqualFold(k, "request"):
			reqs = append(reqs, v)
		}
	}
	if len(reqs) == 0 {
		return true
	}
	if len(reqs) == 1 && len(types) < 2 {
		if q := bytes.TrimSpace(reqs[0]); len(q) == 0 || q[0] != '{' {
			return true
		}
		var name map[string]json.RawMessage
		json.Unmarshal(reqs[0], &name)
		found := false
		for k, v := range name {
			var s string
			if strings.EqualFold(k, "username") && (json.Unmarshal(v, &s) != nil || s != "") {
				found = true
			}
		}
		if !found {
			return true
		}
	}
	if len(types) == 1 {
		var n *float64
		if json.Unmarshal(types[0], &n) != nil || n != nil && *n != 0 && *n != 1 && *n != 2 && *n != 3 {
			return true
		}
	}
	return false
}

// wellFormedAnswer tells whether bytes are an answer a client can read.
func wellFormedAnswer(b []byte) (protocol.ErrorCode, bool) {
	var m map[string]json.RawMessage
	var e protocol.ErrorCode
	if json.Unmarshal(b, &m) != nil || json.Unmarshal(m["Error"], &e) != nil {
		return 0, false
	}
	if isErrorCode(e) {
		return e, len(m) == 1 || len(m) == 2 && (string(m["DirectoryResponse"]) == "null")
	}
	a := application.UnmarshalResponse(protocol.KeyLookupType, b)
	return e, (e == protocol.ReqSuccess || e == protocol.ReqNameExisted || e == protocol.ReqNameNotFound) && a.Validate() == nil
}

type c17world struct {
	c     *Ctx
	s     *srv
	known map[string][]byte
	names []string
	bad   atomic.Value
	stop  chan struct{}
	wg    sync.WaitGroup
	fresh int64
}

func (w *c17world) fail(what string, format string, a ...interface{}) {
	w.bad.CompareAndSwap(nil, [2]string{what, clip(fmt.Sprintf(format, a...), 2500)})
}

func newC17(c *Ctx, r *rand.Rand, specs []addrSpec) *c17world {
	s := newSrv(c, r, specs, 1000, longDeadline(c, 0))
	s.start()
	w := &c17world{c: c, s: s, known: map[string][]byte{}, stop: make(chan struct{})}
	var reg *srvAddr
	for _, a := range s.addrs {
		if a.reg {
			reg = a
		}
	}
	for i := 0; i < 4; i++ {
		n, k := fmt.Sprintf("canary%d%s", i, genName(r, true)), genKey(r)
		res := s.ask(reg, protocol.RegistrationType, &protocol.RegistrationRequest{Username: n, Key: k})
		c.Check(res != nil && res.Error == protocol.ReqSuccess, "a registration fails", "%s", clip(jsonOf(res), 300))
		w.known[n] = k
		w.names = append(w.names, n)
	}
	s.waitEpoch(s.addrs[0], 1)
	w.names = append(w.names, "absent1", "absent2")
	return w
}

// canary asks for known names and compares; a lost connection is tried again.
func (w *c17world) canary(a *srvAddr, r *rand.Rand) bool {
	n := w.names[r.Intn(len(w.names))]
	msg := mustRequest(w.c, protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: n})
	var b []byte
	var err error
	for i, t0 := 0, time.Now(); i < 40 && time.Since(t0) < 150*time.Second; i++ {
		if b, err = a.exchange(msg); err == nil && len(b) > 0 {
			break
		}
		w.c.Count("canary retries", 1)
		time.Sleep(50 * time.Millisecond)
	}
	if err != nil || len(b) == 0 {
		w.fail("other clients are no longer served", "%s: %v", a.url, err)
		return false
	}
	res := application.UnmarshalResponse(protocol.KeyLookupType, b)
	key, kerr := res.GetKey()
	want := protocol.ErrorCode(protocol.ReqNameNotFound)
	if w.known[n] != nil {
		want = protocol.ReqSuccess
	}
	if res.Error != want || kerr != nil || !bytes.Equal(key, w.known[n]) {
		w.fail("hostile input changes what other clients get", "%q: %s", n, clip(string(b), 600))
		return false
	}
	w.c.Count("canary answers", 1)
	w.c.Tick()
	return true
}

func (w *c17world) canaries(r *rand.Rand) {
	for _, a := range w.s.addrs {
		w.wg.Add(1)
		go func(a *srvAddr, r *rand.Rand) {
			defer w.wg.Done()
			for {
				select {
				case <-w.stop:
					return
				default:
					if !w.canary(a, r) {
						return
					}
				}
			}
		}(a, sub(r))
	}
}

func (w *c17world) finish() {
	close(w.stop)
	w.wg.Wait()
	if b := w.bad.Load(); b != nil {
		x := b.([2]string)
		w.c.Fail(x[0], "%s", x[1])
	}
}

func c17hostile(c *Ctx, r *rand.Rand) {
	specs := []addrSpec{{false, true}, {false, false}, {true, r.Intn(2) == 0}}
	w := newC17(c, r, specs)
	s := w.s
	defer s.remove()
	w.canaries(r)
	var wg sync.WaitGroup
	var mu sync.Mutex
	untouched := map[string]string{} // names only certainly malformed messages carried
	for k := 0; k < 6; k++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			for j := 0; j < 25; j++ {
				a := s.addrs[r.Intn(len(s.addrs))]
				// no name is a slight alteration of another one
				no := atomic.AddInt64(&w.fresh, 1)
				h := sha256.Sum256([]byte(fmt.Sprint("fresh", no)))
				fresh := fmt.Sprintf("fresh%d-%x", no, h[:8])
				base := [][]byte{
					mustRequest(c, protocol.RegistrationType, &protocol.RegistrationRequest{Username: fresh, Key: randBytes(r, 20)}),
					mustRequest(c, protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: fresh}),
					mustRequest(c, protocol.KeyLookupInEpochType, &protocol.KeyLookupInEpochRequest{Username: fresh, Epoch: 0}),
					mustRequest(c, protocol.MonitoringType, &protocol.MonitoringRequest{Username: fresh, StartEpoch: 0, EndEpoch: 3})}
				msg := base[r.Intn(4)]
				if r.Intn(2) == 0 {
					msg = base[0]
				}
				how := "unaltered"
				switch x := r.Intn(20); {
				case x < 11:
					msg, how = alter(r, msg, base)
				case x == 11:
					msg, how = randBytes(r, r.Intn(12000)), "random bytes"
				case x == 12:
					msg, how = msg[:r.Intn(len(msg))], "truncated"
				case x == 13: // larger than the server's buffer
					big := mustRequest(c, protocol.RegistrationType, &protocol.RegistrationRequest{Username: fresh, Key: randBytes(r, 7000+r.Intn(3000))})
					msg, how = big, "large key"
				case x == 14:
					msg, how = append(append([]byte{}, msg...), bytes.Repeat([]byte{' '}, 8192-len(msg)+r.Intn(3)-1)...), "padded to the size of the buffer"
				case x == 15:
					msg, how = append(bytes.Repeat([]byte{'\n'}, r.Intn(9000)), msg...), "leading space"
				case x == 16:
					msg, how = append(append([]byte{}, msg...), base[r.Intn(4)]...), "two requests"
				case x == 17:
					msg, how = []byte(badTypes(r, fresh)[0]), "unsuitable request"
				case x == 18:
					msg, how = []byte(strings.Repeat(`{"Request":`, 1+r.Intn(9000))), "deep nesting"
				}
				bad := certainlyBad(msg)
				if bad && bytes.Contains(msg, []byte(fresh)) {
					mu.Lock()
					untouched[fresh] = how + ": " + clip(string(msg), 400)
					mu.Unlock()
				}
				c.Count("hostile messages", 1)
				c.Eval(1)
				c.Distinct(how, a.tcp, a.reg, bad, len(msg)/1000)
				w.send(a, r, msg, how, bad)
				if w.bad.Load() != nil {
					return
				}
			}
		}(sub(r))
	}
	wg.Wait()
	c.Sample("untouched", "%d names", len(untouched))
	// nothing a malformed message mentioned is in the directory
	if w.bad.Load() == nil {
		for n, m := range untouched {
			res := s.ask(s.addrs[1], protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: n})
			if res == nil || res.Error != protocol.ReqNameNotFound {
				w.fail("a malformed message changes the directory", "%q after %s: %s", n, m, clip(jsonOf(res), 200))
			}
		}
	}
	w.finish()
	s.s.Shutdown()
}

// send delivers a message in some manner.
func (w *c17world) send(a *srvAddr, r *rand.Rand, msg []byte, how string, bad bool) {
	c := w.c
	manner := r.Intn(12)
	if a.tcp && manner == 11 { // spoil the handshake
		conn, err := a.raw()
		if err != nil {
			return
		}
		if r.Intn(2) == 0 {
			conn.Write(msg)
		} else {
			conn.Write([]byte{0x16, 3, 1, 0, byte(r.Intn(256))})
			conn.Write(randBytes(r, r.Intn(300)))
		}
		if r.Intn(2) == 0 {
			if t, ok := conn.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
		}
		conn.Close()
		c.Count("handshakes spoiled", 1)
		return
	}
	conn, err := a.dial()
	if err != nil {
		// only a server that no longer accepts is a violation, which the
		// canaries see
		c.Count("dial failed", 1)
		return
	}
	defer conn.Close()
	switch manner {
	case 0: // in pieces
		for len(msg) > 0 && err == nil {
			n := 1 + r.Intn(len(msg))
			_, err = conn.Write(msg[:n])
			msg = msg[n:]
			time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
		}
	case 1: // reset without reading
		conn.Write(msg)
		if t, ok := conn.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
		c.Count("aborted", 1)
		return
	case 2:
		conn.Write(msg[:r.Intn(len(msg)+1)])
		c.Count("aborted", 1)
		return
	case 3:
		closeWrite(conn)
		conn.Write(msg)
		c.Count("aborted", 1)
		return
	default:
		conn.Write(msg)
	}
	closeWrite(conn)
	if manner == 4 {
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond) // read late
	}
	if manner == 5 { // read a part
		conn.Read(make([]byte, r.Intn(40)))
		c.Count("aborted", 1)
		return
	}
	b, err := io.ReadAll(conn)
	if err != nil || len(b) == 0 {
		c.Count("closed", 1)
		return
	}
	code, ok := wellFormedAnswer(b)
	if !ok {
		w.fail("a hostile message gets a malformed answer", "%s: %s\nanswer: %s", how, clip(string(msg), 600), clip(string(b), 600))
		return
	}
	if code == protocol.ErrMalformedMessage {
		c.Count("refused", 1)
	} else if bad {
		w.fail("a malformed message isn't refused", "%s: %s\nanswer: %s", how, clip(string(msg), 900), clip(string(b), 600))
	}
}

// c17flood: thousands of connections that end before a request is read, or
// carry one that is refused; nothing of them may stay behind.
func c17flood(c *Ctx, r *rand.Rand) {
	w := newC17(c, r, []addrSpec{{true, true}, {false, true}})
	s := w.s
	defer s.remove()
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int, r *rand.Rand) {
			defer wg.Done()
			for j := 0; j < c.N(280, 1500); j++ {
				a := s.addrs[(j+k)%2]
				conn, err := a.raw()
				if err != nil {
					c.Count("dial failed", 1)
					continue
				}
				switch j / 2 % 5 {
				case 0: // nothing at all
				case 1:
					conn.Write([]byte("{"))
				case 2:
					conn.Write([]byte{0x16, 3, 1, 0, 200, 1})
				case 3:
					conn.Write([]byte(`{"Type":1,"Request":{"Username":7}}`))
					closeWrite(conn)
					if j%20 == 0 {
						io.ReadAll(conn)
					}
				case 4:
					closeWrite(conn)
				}
				if t, ok := conn.(*net.TCPConn); ok && j%3 == 0 {
					t.SetLinger(0)
				}
				conn.Close()
				c.Count("flood", 1)
				if j%50 == 49 && !w.canary(a, r) {
					return
				}
			}
		}(k, sub(r))
	}
	wg.Wait()
	for i := 0; i < 20 && w.bad.Load() == nil; i++ {
		w.canary(s.addrs[i%2], r)
	}
	c.Eval(1)
	c.Distinct("flood", r.Int())
	w.finish()
	s.s.Shutdown()
}

// c17server runs a server in a process with few file descriptors until its
// input ends.
func c17server(args []string) {
	limit, err := strconv.Atoi(args[1])
	if err != nil {
		os.Exit(2)
	}
	conf := &server.Config{}
	if err := conf.Load(args[0], "toml"); err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	lim := &syscall.Rlimit{Cur: uint64(limit), Max: uint64(limit)}
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, lim); err != nil {
		fmt.Println("setrlimit:", err)
		os.Exit(2)
	}
	s := server.NewConiksServer(conf)
	s.Run(conf.Addresses)
	fmt.Println("ready")
	io.Copy(io.Discard, os.Stdin)
	s.Shutdown()
	fmt.Println("done")
}

// c17files: more connections than the server has file descriptors. They may
// wait, but once they are gone everybody is served again.
func c17files(c *Ctx, r *rand.Rand) {
	s := newSrv(c, r, []addrSpec{{false, true}, {true, false}, {false, false}}, 100, 3600)
	defer s.remove()
	limit := 24 + r.Intn(60)
	cmd := selfChild("c17server", s.cfg, fmt.Sprint(limit))
	in, err := cmd.StdinPipe()
	c.Must(err)
	out, err := cmd.StdoutPipe()
	c.Must(err)
	errs, err := os.Create(filepath.Join(s.dir, "stderr"))
	c.Must(err)
	defer errs.Close()
	cmd.Stderr = errs
	c.Must(cmd.Start())
	defer cmd.Process.Kill()
	lines := bufio.NewScanner(out)
	if !lines.Scan() || lines.Text() != "ready" {
		c.Harness("the server process doesn't start: %s", lines.Text())
		return
	}
	w := &c17world{c: c, s: s, known: map[string][]byte{}, stop: make(chan struct{})}
	died := func() string {
		b, _ := os.ReadFile(filepath.Join(s.dir, "stderr"))
		if i := bytes.Index(b, []byte("panic:")); i >= 0 {
			return clip(string(b[i:]), 2500)
		}
		return ""
	}
	for i := 0; i < 3; i++ {
		n, k := fmt.Sprintf("canary%d", i), genKey(r)
		res := s.ask(s.addrs[0], protocol.RegistrationType, &protocol.RegistrationRequest{Username: n, Key: k})
		c.Check(res != nil && res.Error == protocol.ReqSuccess, "a registration fails", "%s", clip(jsonOf(res), 300))
		w.known[n] = k
		w.names = append(w.names, n)
	}
	w.names = append(w.names, "absent1")
	for round := 0; round < 3; round++ {
		var conns []net.Conn
		for k := 0; k < 2*limit; k++ {
			conn, err := s.addrs[r.Intn(3)].raw()
			if err != nil {
				c.Fail("other clients are no longer served", "connecting with few file descriptors: %v %s", err, died())
			}
			if r.Intn(2) == 0 {
				conn.Write([]byte(`{"Type":`))
			}
			conns = append(conns, conn)
		}
		time.Sleep(time.Duration(50+r.Intn(150)) * time.Millisecond)
		for _, conn := range conns {
			conn.Close()
		}
		for _, a := range s.addrs {
			for i := 0; i < 4 && w.bad.Load() == nil; i++ {
				w.canary(a, r)
			}
		}
		if b := w.bad.Load(); b != nil {
			x := b.([2]string)
			c.Fail(x[0], "after more connections than file descriptors: %s %s", x[1], died())
		}
	}
	if strings.Contains(s.log(), "too many open files") {
		c.Count("descriptors exhausted", 1)
	}
	in.Close()
	ended := lines.Scan() && lines.Text() == "done"
	err = cmd.Wait()
	c.Check(ended && err == nil, "a server dies after running out of file descriptors", "%v %s", err, died())
	c.Eval(1)
	c.Distinct("files", limit)
}

// c17silent holds silent and slow connections while others are served.
func c17silent(c *Ctx, r *rand.Rand, tcp bool) {
	w := newC17(c, r, []addrSpec{{tcp, true}, {false, false}})
	s := w.s
	defer s.remove()
	a := s.addrs[0]
	serial := 0
	const rounds, nSilent = 3, 300
	for round := 0; round < rounds && serial == round; round++ {
		var conns []net.Conn
		for k := 0; k < nSilent; k++ {
			var conn net.Conn
			var err error
			if k%2 == 0 {
				conn, err = a.raw() // not even a handshake
			} else {
				conn, err = a.raw()
				if err == nil {
					conn.Write([]byte{0x16, 3, 1}[:1+r.Intn(3)])
				}
			}
			if err != nil {
				w.fail("other clients are no longer served", "%v", err)
				break
			}
			conns = append(conns, conn)
			c.Count("silent connections", 1)
		}
		// if the request isn't answered for very long, the silent
		// connections are closed: the server then has served them first
		answered := make(chan bool)
		go func() {
			select {
			case <-answered:
			case <-time.After(50 * time.Second):
				for _, conn := range conns {
					conn.Close()
				}
			}
		}()
		w.canary(a, r)
		close(answered)
		// most of the silent connections must still be open, or else they
		// were served before the request
		open := 0
		for _, conn := range conns {
			conn.SetReadDeadline(time.Now().Add(time.Millisecond))
			_, err := conn.Read(make([]byte, 1))
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				open++
			}
		}
		if open < nSilent/2 {
			serial++
		} else {
			c.Count("not served one after the other", 1)
		}
		for _, conn := range conns {
			conn.Close()
		}
		c.Eval(1)
		c.Distinct(tcp, round, open)
		if w.bad.Load() != nil {
			break
		}
	}
	if serial == rounds {
		w.fail("silent connections keep other clients from being served", "in %d of %d rounds a request was answered only after most of %d silent connections had been closed", serial, rounds, nSilent)
		w.finish()
	}
	// the server doesn't hold them forever
	var conns []net.Conn
	for _, a := range s.addrs {
		for k := 0; k < 4; k++ {
			conn, err := a.raw()
			if err != nil {
				continue
			}
			switch k {
			case 1:
				conn.Write([]byte{0x16})
			case 2:
				conn.Write([]byte(`{"Type":1,`))
			}
			conns = append(conns, conn)
		}
	}
	for _, conn := range conns {
		ended := false
		for i := 0; i < 120 && !ended; i++ {
			conn.SetReadDeadline(time.Now().Add(time.Second))
			_, err := io.Copy(io.Discard, conn)
			ne, ok := err.(net.Error)
			ended = !(ok && ne.Timeout())
			c.Tick()
		}
		if !ended {
			w.fail("a silent connection is neither answered nor closed", "for two minutes, on %s", conn.RemoteAddr())
			break
		}
		c.Count("silent connections ended by the server", 1)
	}
	for _, conn := range conns {
		conn.Close()
	}
	w.finish()
	s.s.Shutdown()
}

// c17slow has clients that don't read a large answer or send a byte now and
// then: the server doesn't serve them forever.
func c17slow(c *Ctx, r *rand.Rand) {
	b := newBase(c, r, []addrSpec{{true, true}, {false, true}})
	defer os.RemoveAll(b.dir)
	dir := sharedDir()
	b.listen(c, func(req *protocol.Request) *protocol.Response {
		if q, ok := req.Request.(*protocol.MonitoringRequest); ok {
			res := dir.Monitor(q)
			p := *proofOf(res)
			p.STR = append([]*protocol.DirSTR{}, p.STR...)
			for len(p.STR) < 3000 {
				p.STR = append(p.STR, p.STR...)
			}
			return &protocol.Response{Error: res.Error, DirectoryResponse: &p}
		}
		return protocol.NewErrorResponse(protocol.ErrDirectory)
	})
	alive := func() bool {
		for _, a := range b.addrs {
			if bs, err := a.exchange([]byte(`{}x`)); err != nil || len(bs) == 0 {
				return false
			}
		}
		return true
	}
	c.Check(alive(), "a request isn't answered", "before any other client")
	// what runs when nobody is connected
	before := len(appGoroutines())
	for same := 0; same < 100; same++ {
		time.Sleep(10 * time.Millisecond)
		if n := len(appGoroutines()); n != before {
			before, same = n, 0
		}
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var conns []net.Conn
	for _, a := range b.addrs {
		for k := 0; k < 24; k++ {
			conn, err := a.dial()
			c.Check(err == nil, "a running server doesn't accept a connection", "%v", err)
			conn.SetDeadline(time.Time{})
			conns = append(conns, conn)
			if k%3 < 2 {
				conn.Write(mustRequest(c, protocol.MonitoringType, &protocol.MonitoringRequest{Username: "x", EndEpoch: 1 << 30}))
				if k%3 == 0 {
					closeWrite(conn)
				}
			} else {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						select {
						case <-stop:
							return
						case <-time.After(300 * time.Millisecond):
							conn.Write([]byte(" "))
						}
					}
				}()
			}
			c.Count("slow connections", 1)
		}
	}
	c.Check(alive(), "slow clients keep others from being served", "%d of them", len(conns))
	left := 0
	for i := 0; i < 600; i++ {
		if left = len(appGoroutines()) - before; left <= 0 {
			break
		}
		time.Sleep(200 * time.Millisecond)
		c.Tick()
	}
	close(stop)
	wg.Wait()
	if left > 0 {
		for _, conn := range conns {
			conn.Close()
		}
		c.Fail("a slow client is served forever", "%d of %d connections are still served after two minutes:\n%s", left, len(conns), clip(strings.Join(appGoroutines(), "\n\n"), 2000))
	}
	c.Check(alive(), "slow clients keep others from being served", "%d of them", len(conns))
	c.shutdown(b.sb.Shutdown, nil)
	for _, conn := range conns {
		conn.Close()
	}
	gone(c, b.addrs)
	c.Eval(1)
	c.Distinct("slow", len(conns))
}
