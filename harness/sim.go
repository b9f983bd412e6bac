package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

// ---- names and keys ----

var oddNames = []string{
	"a", "b", "A", "alice", "alice@twitter", "alice@twitter ", " alice", "Alice@Twitter",
	"alice\x00", "alice\x00bob", "\x00", "bob", "bobby", "bo", "b@b", "\"quoted\"", "back\\slash",
	"\u00e9", "e\u0301", "\u212a", "k", "\u0130", "名前", "😀", "\u2028", "<script>&amp;", "a\tb\nc",
	"0", "1", "00", "-1", "null", "true", "{}", "[]", "name,with,commas", "\u202eevil", "ÿ", "\x7f",
}

// genName makes a name; utf8only keeps it representable in JSON.
func genName(r *rand.Rand, utf8only bool) string {
	switch r.Intn(10) {
	case 0, 1:
		return oddNames[r.Intn(len(oddNames))]
	case 2: // related to an odd name
		return oddNames[r.Intn(len(oddNames))] + oddNames[r.Intn(len(oddNames))]
	case 3:
		n := 300
		if r.Intn(5) == 0 { // a request still fits into 8192 bytes with any key
			n = 2400
		}
		return strings.Repeat(string(rune('a'+r.Intn(26))), 1+r.Intn(n))
	case 4:
		if !utf8only {
			return string(randBytes(r, 1+r.Intn(40)))
		}
		n := 1 + r.Intn(20)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			c := rune(r.Intn(0x10ffff + 1))
			if !utf8.ValidRune(c) {
				c = 'x'
			}
			sb.WriteRune(c)
		}
		return sb.String()
	default:
		return fmt.Sprintf("user%d@twitter", r.Intn(1<<20))
	}
}

func genKey(r *rand.Rand) []byte {
	switch r.Intn(8) {
	case 0:
		return []byte{byte(r.Intn(256))}
	case 1:
		return []byte("key")
	case 2:
		return randBytes(r, 1000+r.Intn(3000))
	case 3:
		return bytes.Repeat([]byte{0}, 1+r.Intn(40))
	case 4:
		return randBytes(r, 32)
	default:
		return randBytes(r, 1+r.Intn(100))
	}
}

// ---- an honest directory and the model of its history ----

type reg struct {
	name  string
	key   []byte
	epoch uint64 // epoch in which the registration was accepted
}

type sim struct {
	c        *Ctx
	r        *rand.Rand
	d        *directory.ConiksDirectory
	signSK   sign.PrivateKey
	signPK   sign.PublicKey
	vrfSK    vrf.PrivateKey
	vrfPK    vrf.PublicKey
	hist     uint64
	epoch    uint64
	regs     map[string]*reg
	order    []*reg
	strs     []*protocol.DirSTR // deep copies, by epoch
	deadline protocol.Timestamp
	wire     bool
	ops      []string
	nreq     int
	idxs     map[string][]byte
	kept     []keptAnswer
}

// A keptAnswer is an answer that is still in use, for instance because it
// hasn't been encoded and sent yet, while the directory goes on.
type keptAnswer struct {
	res  *protocol.Response
	json string
}

// idx returns the private index of the name.
func (s *sim) idx(name string) []byte {
	if i, ok := s.idxs[name]; ok {
		return i
	}
	i := s.vrfSK.Compute([]byte(name))
	if s.idxs == nil {
		s.idxs = map[string][]byte{}
	}
	s.idxs[name] = i
	return i
}

func newKeys(r *rand.Rand) (sign.PrivateKey, sign.PublicKey, vrf.PrivateKey, vrf.PublicKey) {
	s, err := sign.GenerateKey(r)
	if err != nil {
		panic(err)
	}
	v, err := vrf.GenerateKey(r)
	if err != nil {
		panic(err)
	}
	spk, _ := s.Public()
	vpk, _ := v.Public()
	return s, spk, v, vpk
}

func newSim(c *Ctx, r *rand.Rand, hist uint64, deadline protocol.Timestamp, wire bool) *sim {
	s := &sim{c: c, r: r, hist: hist, regs: map[string]*reg{}, deadline: deadline, wire: wire}
	s.signSK, s.signPK, s.vrfSK, s.vrfPK = newKeys(r)
	s.d = directory.New(deadline, append(vrf.PrivateKey(nil), s.vrfSK...), append(sign.PrivateKey(nil), s.signSK...), hist, true)
	s.strs = append(s.strs, copySTR(s.d.LatestSTR()))
	s.logf("new hist=%d deadline=%d", hist, deadline)
	return s
}

func (s *sim) logf(format string, a ...interface{}) {
	if len(s.ops) < 4000 {
		s.ops = append(s.ops, clip(fmt.Sprintf(format, a...), 120))
	}
}

// trace is the witness history.
func (s *sim) trace() string {
	o := s.ops
	if len(o) > 60 {
		o = append([]string{"..."}, o[len(o)-60:]...)
	}
	return strings.Join(o, "; ")
}

func (s *sim) fail(what, format string, a ...interface{}) {
	s.c.Fail(what, "%s\nhistory: %s", clip(fmt.Sprintf(format, a...), 1500), s.trace())
}

func (s *sim) check(ok bool, what, format string, a ...interface{}) {
	if !ok {
		s.fail(what, format, a...)
	}
}

func copySTR(str *protocol.DirSTR) *protocol.DirSTR {
	if str == nil || str.SignedTreeRoot == nil {
		return nil
	}
	o := &protocol.DirSTR{SignedTreeRoot: &merkletree.SignedTreeRoot{
		TreeHash:        append([]byte(nil), str.TreeHash...),
		Epoch:           str.Epoch,
		PreviousEpoch:   str.PreviousEpoch,
		PreviousSTRHash: append([]byte(nil), str.PreviousSTRHash...),
		Signature:       append([]byte(nil), str.Signature...),
	}}
	if str.Policies != nil {
		p := *str.Policies
		p.VrfPublicKey = append(vrf.PublicKey(nil), p.VrfPublicKey...)
		o.Policies = &p
	}
	return o
}

func sameSTR(a, b *protocol.DirSTR) bool {
	if a == nil || b == nil || a.SignedTreeRoot == nil || b.SignedTreeRoot == nil || a.Policies == nil || b.Policies == nil {
		return false
	}
	return a.Epoch == b.Epoch && a.PreviousEpoch == b.PreviousEpoch &&
		bytes.Equal(a.TreeHash, b.TreeHash) && bytes.Equal(a.PreviousSTRHash, b.PreviousSTRHash) &&
		bytes.Equal(a.Signature, b.Signature) && samePolicies(a.Policies, b.Policies)
}

func samePolicies(a, b *protocol.Policies) bool {
	return a.Version == b.Version && a.HashID == b.HashID && bytes.Equal(a.VrfPublicKey, b.VrfPublicKey) &&
		a.EpochDeadline == b.EpochDeadline
}

func strString(s *protocol.DirSTR) string {
	if s == nil || s.SignedTreeRoot == nil {
		return "<nil>"
	}
	return fmt.Sprintf("{epoch %d prev %d tree %x prevhash %x sig %x pol %+v}", s.Epoch, s.PreviousEpoch,
		clipB(s.TreeHash), clipB(s.PreviousSTRHash), clipB(s.Signature), s.Policies)
}

func clipB(b []byte) []byte {
	if len(b) > 6 {
		return b[:6]
	}
	return b
}

func jsonOf(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// ask sends a request, over the wire format if the simulation says so, and
// returns the answer as a client sees it.
func (s *sim) ask(reqType int, req interface{}) *protocol.Response {
	s.nreq++
	s.c.Count("requests", 1)
	if !s.wire {
		return s.dispatch(reqType, req)
	}
	b, err := application.MarshalRequest(reqType, req)
	if err != nil {
		s.fail("request cannot be encoded", "%v", err)
	}
	q, err := application.UnmarshalRequest(b)
	if err != nil {
		s.fail("request cannot be decoded", "%v: %s", err, b)
	}
	res := s.dispatch(q.Type, q.Request)
	rb, err := application.MarshalResponse(res)
	if err != nil {
		s.fail("response cannot be encoded", "%v", err)
	}
	t := reqType
	return application.UnmarshalResponse(t, rb)
}

// dispatch handles a request, reuses its memory, and keeps the answer.
func (s *sim) dispatch(reqType int, req interface{}) *protocol.Response {
	res := dispatch(s.d, reqType, req)
	if m, ok := req.(*protocol.RegistrationRequest); ok {
		for i := range m.Key {
			m.Key[i] ^= 0x55
		}
	}
	s.keep(res)
	return res
}

func (s *sim) keep(res *protocol.Response) {
	if s.nreq%3 == 0 {
		k := keptAnswer{res, jsonOf(res)}
		if len(s.kept) < 24 {
			s.kept = append(s.kept, k)
		} else {
			s.kept[s.nreq/3%len(s.kept)] = k
		}
	}
}

func (s *sim) recheckKept() {
	for _, k := range s.kept {
		now := jsonOf(k.res)
		s.check(now == k.json, "an answer changes after it was given", "it was %s, now it is %s", clip(k.json, 500), clip(now, 500))
	}
	s.c.Count("answers kept", len(s.kept))
}

func dispatch(d *directory.ConiksDirectory, reqType int, req interface{}) *protocol.Response {
	switch m := req.(type) {
	case *protocol.RegistrationRequest:
		return d.Register(m)
	case *protocol.KeyLookupRequest:
		return d.KeyLookup(m)
	case *protocol.KeyLookupInEpochRequest:
		return d.KeyLookupInEpoch(m)
	case *protocol.MonitoringRequest:
		return d.Monitor(m)
	case *protocol.STRHistoryRequest:
		return d.GetSTRHistory(m)
	}
	panic(fmt.Sprintf("harness: type %d %T", reqType, req))
}

func (s *sim) register(name string, key []byte) *protocol.Response {
	s.logf("register %q key %dB %x", clip(name, 20), len(key), clipB(key))
	if key != nil { // an empty key isn't the same as none
		key = append([]byte{}, key...)
	}
	return s.ask(protocol.RegistrationType, &protocol.RegistrationRequest{Username: name, Key: key,
		AllowUnsignedKeychange: s.r.Intn(2) == 0, AllowPublicLookup: s.r.Intn(2) == 0})
}
func (s *sim) lookup(name string) *protocol.Response {
	s.logf("lookup %q", clip(name, 20))
	return s.ask(protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: name})
}
func (s *sim) lookupIn(name string, ep uint64) *protocol.Response {
	s.logf("lookup %q in %d", clip(name, 20), ep)
	return s.ask(protocol.KeyLookupInEpochType, &protocol.KeyLookupInEpochRequest{Username: name, Epoch: ep})
}
func (s *sim) monitor(name string, a, b uint64) *protocol.Response {
	s.logf("monitor %q %d..%d", clip(name, 20), a, b)
	return s.ask(protocol.MonitoringType, &protocol.MonitoringRequest{Username: name, StartEpoch: a, EndEpoch: b})
}

// history asks for roots; it has no request type on the wire, its answer has.
func (s *sim) history(a, b uint64) *protocol.Response {
	s.logf("history %d..%d", a, b)
	s.nreq++
	s.c.Count("requests", 1)
	res := s.d.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: a, EndEpoch: b})
	s.keep(res)
	if !s.wire {
		return res
	}
	rb, err := application.MarshalResponse(res)
	if err != nil {
		s.fail("response cannot be encoded", "%v", err)
	}
	return application.UnmarshalResponse(protocol.STRType, rb)
}

func (s *sim) update() *protocol.DirSTR {
	s.logf("update")
	s.d.Update()
	s.epoch++
	s.strs = append(s.strs, copySTR(s.d.LatestSTR()))
	s.c.Count("epochs", 1)
	s.recheckKept()
	return s.strs[len(s.strs)-1]
}

func (s *sim) setPolicies(d protocol.Timestamp) {
	s.logf("set deadline %d", d)
	s.d.SetPolicies(d)
}

// accepted records a successful registration.
func (s *sim) accepted(name string, key []byte) {
	g := &reg{name, append([]byte(nil), key...), s.epoch}
	s.regs[name] = g
	s.order = append(s.order, g)
}

// boundAt returns the registration in force in the tree of the epoch.
func (s *sim) boundAt(name string, ep uint64) *reg {
	if g := s.regs[name]; g != nil && g.epoch < ep {
		return g
	}
	return nil
}

// pending returns the registration promised for the next epoch.
func (s *sim) pending(name string) *reg {
	if g := s.regs[name]; g != nil && g.epoch == s.epoch {
		return g
	}
	return nil
}

func (s *sim) leafKeys(ep uint64) map[string][]byte {
	m := map[string][]byte{}
	for n, g := range s.regs {
		if g.epoch < ep {
			m[n] = g.key
		}
	}
	return m
}

// pickName returns an existing name half of the time, or a name related to one.
func (s *sim) pickName() string {
	if len(s.order) > 0 && s.r.Intn(3) > 0 {
		n := s.order[s.r.Intn(len(s.order))].name
		switch s.r.Intn(8) {
		case 0:
			return n + "\x00"
		case 1:
			return strings.ToUpper(n)
		case 2:
			if len(n) > 1 && utf8.ValidString(n[:len(n)-1]) {
				return n[:len(n)-1]
			}
		}
		return n
	}
	return genName(s.r, s.wire)
}

// pickEpoch returns a current, past, future or extreme epoch.
func (s *sim) pickEpoch() uint64 {
	switch s.r.Intn(12) {
	case 0:
		return s.epoch + 1
	case 1:
		return math.MaxUint64 - uint64(s.r.Intn(3))
	case 2:
		return s.epoch + uint64(s.r.Intn(5))
	case 3:
		return 0
	case 4, 5:
		return s.epoch
	default:
		return uint64(s.r.Int63n(int64(s.epoch + 1)))
	}
}

// ---- the oracle for answers (C01) ----

func proofOf(res *protocol.Response) *protocol.DirectoryProof {
	if res == nil {
		return nil
	}
	p, _ := res.DirectoryResponse.(*protocol.DirectoryProof)
	return p
}

func (s *sim) expectError(res *protocol.Response, e protocol.ErrorCode, what string) {
	s.check(res != nil, what, "no response")
	s.check(res.Error == e, what, "answered %d, expected error %d", res.Error, e)
	s.check(isNilResponse(res), what, "error %d with contents %s", e, clip(jsonOf(res), 300))
}

func isNilResponse(res *protocol.Response) bool {
	switch v := res.DirectoryResponse.(type) {
	case nil:
		return true
	case *protocol.DirectoryProof:
		return v == nil
	case *protocol.STRHistoryRange:
		return v == nil
	}
	return false
}

// expectAP checks one path: it is for the name's index and of the right kind
// with the right key for the epoch.
func (s *sim) expectAP(ap *merkletree.AuthenticationPath, name string, ep uint64, what string) {
	s.check(ap != nil && ap.Leaf != nil, what, "no authentication path")
	idx := s.idx(name)
	s.check(bytes.Equal(ap.LookupIndex, idx), what, "path is for another index")
	if g := s.boundAt(name, ep); g != nil {
		s.check(!ap.Leaf.IsEmpty && bytes.Equal(ap.Leaf.Index, idx), what,
			"%q was registered in epoch %d, the answer for epoch %d has no proof of inclusion", name, g.epoch, ep)
		s.check(ap.ProofType() == merkletree.ProofOfInclusion, what, "proof type is not inclusion")
		s.check(bytes.Equal(ap.Leaf.Value, g.key), what, "key of %q is %x, registered was %x", name, clipB(ap.Leaf.Value), clipB(g.key))
		s.c.Count("inclusions", 1)
	} else {
		s.check(!bytes.Equal(ap.Leaf.Index, idx), what, "%q is not in epoch %d, the answer shows a leaf for it", name, ep)
		s.check(ap.ProofType() == merkletree.ProofOfAbsence, what, "proof type is not absence")
		s.check(len(ap.Leaf.Value) == 0, what, "a proof of absence carries a value")
		s.c.Count("absences", 1)
	}
}

func (s *sim) expectSTRs(strs []*protocol.DirSTR, a, b uint64, what string) {
	s.check(uint64(len(strs)) == b-a+1, what, "%d roots for epochs %d..%d", len(strs), a, b)
	for i, str := range strs {
		s.check(sameSTR(str, s.strs[a+uint64(i)]), what, "root of epoch %d is %s, published was %s",
			a+uint64(i), strString(str), strString(s.strs[a+uint64(i)]))
	}
}

func (s *sim) expectTB(tb *protocol.TemporaryBinding, name string, what string) {
	g := s.pending(name)
	if g == nil {
		s.check(tb == nil, what, "promise for %q, which has no pending registration", name)
		return
	}
	s.check(tb != nil, what, "no promise for %q, registered in this epoch", name)
	s.check(bytes.Equal(tb.Value, g.key), what, "promise for %q has key %x, registered was %x", name, clipB(tb.Value), clipB(g.key))
	s.check(bytes.Equal(tb.Index, s.idx(name)), what, "promise has another index")
	s.c.Count("promises", 1)
}

// expectKey checks what a user reads out of an answer.
func (s *sim) expectKey(res *protocol.Response, g *reg, what string) {
	k, err := res.GetKey()
	if g == nil {
		s.check(err == nil && len(k) == 0, what, "the answer has key %x, error %v, but there is none", clipB(k), err)
		return
	}
	s.check(err == nil && bytes.Equal(k, g.key), what, "the key in the answer is %x, error %v, registered was %x", clipB(k), err, clipB(g.key))
}

// expectRegister checks the answer to a registration and applies it to the model.
func (s *sim) expectRegister(res *protocol.Response, name string, key []byte) {
	const what = "answer to a registration"
	if name == "" || len(key) == 0 {
		s.expectError(res, protocol.ErrMalformedMessage, what)
		s.c.Count("refused", 1)
		return
	}
	known := s.regs[name] != nil
	want := protocol.ReqSuccess
	if known {
		want = protocol.ReqNameExisted
	}
	s.check(res != nil && res.Error == want, what, "status of registering %q is %d, expected %d", name, res.Error, want)
	if !known {
		s.accepted(name, key)
		s.c.Count("registered", 1)
	} else {
		s.c.Count("duplicates", 1)
	}
	p := proofOf(res)
	s.check(p != nil && len(p.AP) == 1, what, "answer has no or several proofs: %s", clip(jsonOf(res), 200))
	s.expectAP(p.AP[0], name, s.epoch, what)
	s.expectSTRs(p.STR, s.epoch, s.epoch, what)
	s.expectTB(p.TB, name, what)
	s.expectKey(res, s.regs[name], what)
}

func (s *sim) expectLookup(res *protocol.Response, name string) {
	const what = "answer to a lookup"
	if name == "" {
		s.expectError(res, protocol.ErrMalformedMessage, what)
		s.c.Count("refused", 1)
		return
	}
	want := protocol.ReqNameNotFound
	if s.regs[name] != nil {
		want = protocol.ReqSuccess
	}
	s.check(res != nil && res.Error == want, what, "status of %q is %d, expected %d", name, res.Error, want)
	p := proofOf(res)
	s.check(p != nil && len(p.AP) == 1, what, "answer has no or several proofs: %s", clip(jsonOf(res), 200))
	s.expectAP(p.AP[0], name, s.epoch, what)
	s.expectSTRs(p.STR, s.epoch, s.epoch, what)
	s.expectTB(p.TB, name, what)
	s.expectKey(res, s.regs[name], what)
}

// expectLookupIn checks a past lookup; kept tells whether the epoch may have
// been evicted (then an error is fine as well, and false is returned).
func (s *sim) expectLookupIn(res *protocol.Response, name string, ep uint64, mayEvict bool) bool {
	const what = "answer to a past lookup"
	if name == "" || ep > s.epoch {
		s.expectError(res, protocol.ErrMalformedMessage, what)
		s.c.Count("refused", 1)
		return true
	}
	if mayEvict && res != nil && res.Error == protocol.ErrDirectory {
		s.expectError(res, protocol.ErrDirectory, what)
		s.c.Count("evicted", 1)
		return false
	}
	want := protocol.ReqNameNotFound
	if s.boundAt(name, ep) != nil {
		want = protocol.ReqSuccess
	}
	s.check(res != nil && res.Error == want, what, "status of %q in epoch %d is %d, expected %d", name, ep, res.Error, want)
	p := proofOf(res)
	s.check(p != nil && len(p.AP) == 1, what, "answer has no or several proofs: %s", clip(jsonOf(res), 200))
	s.expectAP(p.AP[0], name, ep, what)
	s.expectSTRs(p.STR, ep, s.epoch, what)
	s.check(p.TB == nil, what, "a past lookup carries a promise")
	s.expectKey(res, s.boundAt(name, ep), what)
	s.c.Count("past lookups", 1)
	return true
}

func (s *sim) expectMonitor(res *protocol.Response, name string, a, b uint64, mayEvict bool) bool {
	const what = "answer to a monitoring request"
	if name == "" || a > s.epoch || a > b {
		s.expectError(res, protocol.ErrMalformedMessage, what)
		s.c.Count("refused", 1)
		return true
	}
	if mayEvict && res != nil && res.Error == protocol.ErrDirectory {
		s.expectError(res, protocol.ErrDirectory, what)
		s.c.Count("evicted", 1)
		return false
	}
	if b > s.epoch {
		b = s.epoch
	}
	s.check(res != nil && res.Error == protocol.ReqSuccess, what, "status is %d", res.Error)
	p := proofOf(res)
	s.check(p != nil && uint64(len(p.AP)) == b-a+1, what, "not one proof per epoch %d..%d", a, b)
	for i, ap := range p.AP {
		s.expectAP(ap, name, a+uint64(i), what)
	}
	s.expectSTRs(p.STR, a, b, what)
	s.check(p.TB == nil, what, "a monitoring answer carries a promise")
	s.expectKey(res, s.boundAt(name, b), what)
	s.c.Count("monitored", 1)
	return true
}

func (s *sim) expectHistory(res *protocol.Response, a, b uint64, mayEvict bool) bool {
	const what = "answer to a history request"
	if a > s.epoch || a > b {
		s.expectError(res, protocol.ErrMalformedMessage, what)
		s.c.Count("refused", 1)
		return true
	}
	if mayEvict && res != nil && res.Error == protocol.ErrDirectory {
		s.expectError(res, protocol.ErrDirectory, what)
		s.c.Count("evicted", 1)
		return false
	}
	if b > s.epoch {
		b = s.epoch
	}
	s.check(res != nil && res.Error == protocol.ReqSuccess, what, "status is %d", res.Error)
	h, ok := res.DirectoryResponse.(*protocol.STRHistoryRange)
	s.check(ok && h != nil, what, "no range of roots")
	s.expectSTRs(h.STR, a, b, what)
	s.c.Count("histories", 1)
	return true
}

// randomOp does one random operation and checks its answer against the model.
func (s *sim) randomOp(mayEvict bool) {
	switch k := s.r.Intn(100); {
	case k < 28:
		name, key := s.pickName(), genKey(s.r)
		if s.r.Intn(40) == 0 {
			name = ""
		}
		if s.r.Intn(40) == 0 {
			key = nil
		} else if s.r.Intn(40) == 0 {
			key = []byte{}
		}
		s.expectRegister(s.register(name, key), name, key)
	case k < 52:
		name := s.pickName()
		if s.r.Intn(40) == 0 {
			name = ""
		}
		s.expectLookup(s.lookup(name), name)
	case k < 66:
		name, ep := s.pickName(), s.pickEpoch()
		if s.r.Intn(40) == 0 {
			name = ""
		}
		s.expectLookupIn(s.lookupIn(name, ep), name, ep, mayEvict)
	case k < 80:
		name, a, b := s.pickName(), s.pickEpoch(), s.pickEpoch()
		if s.r.Intn(40) == 0 {
			name = ""
		}
		s.expectMonitor(s.monitor(name, a, b), name, a, b, mayEvict)
	case k < 86:
		a, b := s.pickEpoch(), s.pickEpoch()
		s.expectHistory(s.history(a, b), a, b, mayEvict)
	case k < 89:
		s.setPolicies(protocol.Timestamp(1 + s.r.Intn(1000)))
	default:
		s.update()
	}
	s.c.Eval(1)
}

// ---- tree of the model ----

// commits asks the directory for every binding of the epoch and returns the
// leaves of its tree, each opened with the salt the directory returned.
func (s *sim) leaves(ep uint64) (leaves []refLeaf, nonce []byte) {
	for _, g := range s.order {
		if g.epoch >= ep {
			continue
		}
		var ap *merkletree.AuthenticationPath
		res := dispatch(s.d, 0, &protocol.KeyLookupInEpochRequest{Username: g.name, Epoch: ep})
		p := proofOf(res)
		s.check(p != nil && len(p.AP) == 1, "lookup of a registered name", "%q in %d: %d", g.name, ep, res.Error)
		ap = p.AP[0]
		s.check(ap.Leaf != nil && !ap.Leaf.IsEmpty && ap.Leaf.Commitment != nil, "lookup of a registered name",
			"%q in %d has no leaf", g.name, ep)
		idx := s.idx(g.name)
		s.check(bytes.Equal(ap.Leaf.Index, idx), "lookup of a registered name", "%q in %d: leaf has another index", g.name, ep)
		s.check(bytes.Equal(ap.Leaf.Commitment.Value, refDigest(ap.Leaf.Commitment.Salt, []byte(g.name), g.key)),
			"commitment of a registered binding", "does not open to name %q and the registered key", g.name)
		leaves = append(leaves, refLeaf{idx, append([]byte(nil), ap.Leaf.Commitment.Value...)})
		nonce = ap.TreeNonce
	}
	if nonce == nil {
		res := dispatch(s.d, 0, &protocol.KeyLookupInEpochRequest{Username: "nobody", Epoch: ep})
		if p := proofOf(res); p != nil && len(p.AP) == 1 {
			nonce = p.AP[0].TreeNonce
		}
	}
	return leaves, nonce
}
