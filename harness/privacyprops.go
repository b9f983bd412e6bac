package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/protocol/auditor"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

func init() {
	register(&Property{ID: "C23", Level: "exploration", Run: runC23,
		Rule: "all answers of directories whose users have unique names, keys and salts are searched for the secrets of others in many encodings; pairs of runs that differ only in one user's key and salt are compared field by field; logs, output and files of real servers are searched; non-trivial: an answer that shows another user's leaf, or is given while another user's registration is pending, distinct by (name, epoch, kind)",
		Need: map[string]int64{"absence proofs with a deep foreign leaf": 110, "answers searched": 5000, "secrets": 500, "absence proofs with a foreign leaf": 700, "answers while another registration is pending": 1000, "twin answers": 2500, "twin answers that differ in hashes": 500, "log lines searched": 800, "roots searched": 5000}})
}

func runC23(c *Ctx) {
	for i := 0; i < c.N(96, 2500); i++ {
		c.Case(fmt.Sprintf("search-%d", i), func(r *rand.Rand) { c23search(c, r, nil) })
	}
	for k, fx := range deepFixtures() {
		for i := 0; i < c.N(3, 12); i++ {
			c.Case(fmt.Sprintf("deep-%d-%d", k, i), func(r *rand.Rand) { c23search(c, r, &fx) })
		}
	}
	for i := 0; i < c.N(140, 3000); i++ {
		c.Case(fmt.Sprintf("twins-%d", i), func(r *rand.Rand) { c23twins(c, r) })
	}
	for i := 0; i < c.N(32, 500); i++ {
		c.Case(fmt.Sprintf("server-%d", i), func(r *rand.Rand) { c23server(c, r) })
	}
}

// secret is something that must not be found, in all its encodings.
type secret struct {
	what, owner string
	forms       [][]byte
}

func newSecret(what, owner string, b []byte) *secret {
	s := &secret{what: what, owner: owner}
	add := func(f string) { s.forms = append(s.forms, []byte(f)) }
	add(string(b))
	h := hex.EncodeToString(b)
	add(h)
	add(strings.ToUpper(h))
	for _, e := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
		for k := 0; k < 3; k++ {
			// at any position of a longer encoded string: without the
			// characters that depend on what is before and after
			t := e.EncodeToString(append(make([]byte, k), b...))
			from, to := 0, (k+len(b))/3*4
			if k > 0 {
				from = 4
			}
			if t = t[from:to]; len(t) >= 10 {
				add(t)
			}
		}
	}
	for _, sep := range []string{",", " ", ", "} {
		var p []string
		for _, x := range b {
			p = append(p, fmt.Sprint(x))
		}
		add(strings.Join(p, sep))
	}
	if j := strings.Trim(jsonOf(string(b)), `"`); j != string(b) {
		add(j)
	}
	if q := strings.Trim(fmt.Sprintf("%q", b), `"`); q != string(b) {
		add(q)
	}
	return s
}

func (s *secret) in(doc []byte) bool {
	for _, f := range s.forms {
		if bytes.Contains(doc, f) {
			return true
		}
	}
	return false
}

// marker is an unmistakable name.
func marker(r *rand.Rand) string {
	n := hex.EncodeToString(randBytes(r, 7))
	switch r.Intn(4) {
	case 0:
		return "n" + n + "@example.org"
	case 1:
		return "Ünï " + n + "\"<&>"
	default:
		return "user" + n
	}
}

// core is the part of a marker that every encoding of text contains.
func markerCore(n string) []byte {
	for i := 0; i+14 <= len(n); i++ {
		if b, err := hex.DecodeString(n[i : i+14]); err == nil && len(b) == 7 {
			return []byte(n[i : i+14])
		}
	}
	panic("harness: no marker in " + n)
}

func keySecrets(signSK, vrfSK []byte) []*secret {
	h := sha512.Sum512(signSK[:32])
	return []*secret{newSecret("private signing key", "", signSK[:32]), newSecret("private index key", "", vrfSK[:32]),
		newSecret("private signing key", "", h[:32]), newSecret("private signing key", "", h[32:])}
}

type c23doc struct {
	name, kind string
	epoch      uint64
	doc        []byte
}

// c23search drives one directory, whose users may have common index prefixes.
func c23search(c *Ctx, r *rand.Rand, deep *fixture) {
	var s *sim
	var names []string
	if deep != nil {
		s = deep.sim(c, r, false)
		names = append(names, deep.names...)
		for len(names) > 24 {
			i := r.Intn(len(names))
			names = append(names[:i], names[i+1:]...)
		}
	} else {
		s = newSim(c, r, 1000, 60, false)
		for i, n := 0, 3+r.Intn(20); i < n; i++ {
			names = append(names, marker(r))
		}
	}
	reg, pend := map[string][]byte{}, map[string][]byte{}
	secrets := keySecrets(s.signSK, s.vrfSK)
	own := map[string]*secret{} // names
	for _, n := range names {
		if deep == nil {
			own[n] = newSecret("name", n, markerCore(n))
		}
	}
	var docs []c23doc
	keep := func(name, kind string, res *protocol.Response) {
		b, err := application.MarshalResponse(res)
		c.Must(err)
		docs = append(docs, c23doc{name, kind, uint64(len(s.strs)), b})
		c.Eval(1)
		p := proofOf(res)
		if p == nil {
			return
		}
		for _, ap := range p.AP {
			if bytes.Equal(ap.Leaf.Index, ap.LookupIndex) && !ap.Leaf.IsEmpty {
				continue
			}
			salt := ap.Leaf.Commitment != nil && len(ap.Leaf.Commitment.Salt) > 0
			s.check(len(ap.Leaf.Value) == 0 && !salt, "a proof of absence carries the value or salt of the leaf it shows", "%q, %s: value %x, salt %v", name, kind, ap.Leaf.Value, salt)
			if !ap.Leaf.IsEmpty {
				c.Count("absence proofs with a foreign leaf", 1)
				if ap.Leaf.Level > 20 {
					c.Count("absence proofs with a deep foreign leaf", 1)
				}
				c.Distinct(name, kind, len(s.strs), ap.Leaf.Index)
			}
		}
		for n := range pend {
			if n != name {
				c.Count("answers while another registration is pending", 1)
				break
			}
		}
	}
	for i, n := 0, 60+r.Intn(60); i < n; i++ {
		name := names[r.Intn(len(names))]
		switch k := r.Intn(12); {
		case k < 4:
			key := randBytes(r, 12+r.Intn(30))
			res := s.register(name, key)
			// also what was refused must not turn up
			secrets = append(secrets, newSecret("key", name, key))
			keep(name, "registration", res)
			if res.Error == protocol.ReqSuccess {
				pend[name] = key
			}
		case k < 6:
			keep(name, "lookup", s.lookup(name))
		case k < 8:
			keep(name, "past lookup", s.lookupIn(name, uint64(r.Intn(len(s.strs)))))
		case k < 9:
			keep(name, "monitoring", s.monitor(name, 0, 1<<40))
		case k < 10:
			b, err := application.MarshalResponse(s.history(0, uint64(len(s.strs)-1)))
			c.Must(err)
			docs = append(docs, c23doc{"", "history", uint64(len(s.strs)), b})
			docs = append(docs, c23doc{"", "root", uint64(len(s.strs)), []byte(jsonOf(s.d.LatestSTR()))})
			c.Count("roots searched", len(s.strs)+1)
		default:
			s.update()
			for n, k := range pend {
				reg[n] = k
			}
			pend = map[string][]byte{}
		}
	}
	for len(pend) > 0 {
		s.update()
		for n, k := range pend {
			reg[n] = k
		}
		pend = map[string][]byte{}
	}
	for n := range reg {
		// the salt, as the user itself learns it
		ap := proofOf(s.lookup(n)).AP[0]
		s.check(ap.Leaf.Commitment != nil && len(ap.Leaf.Commitment.Salt) >= 16, "a bound name has no salt", "%q", n)
		secrets = append(secrets, newSecret("salt", n, ap.Leaf.Commitment.Salt))
	}
	// the audit log holds the same roots
	log := auditlog.New()
	log.InitHistory("dir", s.signPK, s.strs)
	id := auditor.ComputeDirectoryIdentity(s.strs[0])
	b, err := application.MarshalResponse(log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: 0, EndEpoch: uint64(len(s.strs) - 1)}))
	c.Must(err)
	docs = append(docs, c23doc{"", "audit log", 0, b})
	c.Count("roots searched", len(s.strs))
	for _, x := range own {
		secrets = append(secrets, x)
	}
	c.Count("secrets", len(secrets))
	for _, d := range docs {
		c.Count("answers searched", 1)
		for _, x := range secrets {
			if x.owner == d.name && x.what != "name" && d.name != "" {
				continue
			}
			if x.in(d.doc) {
				s.fail("an answer contains a secret of another user", "%s of %q in %s about %q: %s", x.what, x.owner, d.kind, d.name, clip(string(d.doc), 1500))
			}
		}
	}
}

// jsonDiff calls f for every leaf in which two documents differ.
func jsonDiff(a, b interface{}, path string, f func(path string, a, b interface{})) {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			f(path, a, b)
			return
		}
		for k := range x {
			if _, ok := y[k]; !ok {
				f(path+"/"+k, x[k], nil)
				continue
			}
			jsonDiff(x[k], y[k], path+"/"+k, f)
		}
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			f(path, a, b)
			return
		}
		for i := range x {
			jsonDiff(x[i], y[i], path+"/[]", f)
		}
	default:
		if jsonOf(a) != jsonOf(b) {
			f(path, a, b)
		}
	}
}

// hashField tells whether a field holds a hash, a commitment or a signature.
func hashField(path string) bool {
	for _, f := range []string{"/TreeHash", "/PreviousSTRHash", "/Signature", "/Commitment/Value"} {
		if strings.HasSuffix(path, f) {
			return true
		}
	}
	return strings.Contains(path, "/PrunedTree/[]")
}

// c23twins runs the same history twice; the runs differ in the key and salt
// of one user.
func c23twins(c *Ctx, r *rand.Rand) {
	type op struct {
		kind, name string
		key        []byte
		a, b       uint64
	}
	names := []string{}
	for i, n := 0, 3+r.Intn(8); i < n; i++ {
		names = append(names, marker(r))
	}
	victim := names[0]
	k1, k2 := randBytes(r, 4+r.Intn(30)), randBytes(r, 4+r.Intn(30))
	ops := []op{}
	epochs := uint64(0)
	at := r.Intn(20)
	for i, n := 0, 50; i < n; i++ {
		o := op{name: names[1+r.Intn(len(names)-1)]}
		switch k := r.Intn(10); {
		case i == at:
			o.kind, o.name = "victim", victim
		case k < 3:
			o.kind, o.key = "register", randBytes(r, 9)
		case k < 5:
			o.kind = "lookup"
		case k < 7:
			o.kind, o.a = "past", uint64(r.Intn(int(epochs)+1))
		case k < 8:
			o.kind, o.a, o.b = "monitor", uint64(r.Intn(int(epochs)+1)), 1<<40
		default:
			o.kind = "update"
			epochs++
		}
		ops = append(ops, o)
	}
	ssk, _, vsk, _ := newKeys(r)
	seed := r.Int63()
	run := func(key []byte, salt int64) (out [][]byte) {
		entropy.reseed(seed)
		d := directory.New(60, vsk, ssk, 1000, true)
		for i, o := range ops {
			var res *protocol.Response
			switch o.kind {
			case "victim":
				entropy.reseed(salt)
				d.Register(&protocol.RegistrationRequest{Username: victim, Key: key})
				entropy.reseed(seed + int64(i))
			case "register":
				res = d.Register(&protocol.RegistrationRequest{Username: o.name, Key: o.key})
			case "lookup":
				res = d.KeyLookup(&protocol.KeyLookupRequest{Username: o.name})
			case "past":
				res = d.KeyLookupInEpoch(&protocol.KeyLookupInEpochRequest{Username: o.name, Epoch: o.a})
			case "monitor":
				res = d.Monitor(&protocol.MonitoringRequest{Username: o.name, StartEpoch: o.a, EndEpoch: o.b})
			default:
				d.Update()
			}
			if res == nil {
				out = append(out, nil)
				continue
			}
			b, err := application.MarshalResponse(res)
			c.Must(err)
			out = append(out, b)
		}
		return out
	}
	salt1, salt2 := r.Int63(), r.Int63()
	if r.Intn(3) == 0 {
		k2 = k1 // only the salt
	} else if r.Intn(2) == 0 {
		salt2 = salt1
	}
	x, y := run(k1, salt1), run(k2, salt2)
	entropy.reseed(seed + 77)
	published := false
	for i := range ops {
		if i > at && ops[i].kind == "update" {
			published = true
		}
		if x[i] == nil {
			continue
		}
		c.Eval(1)
		c.Count("twin answers", 1)
		what := "an answer depends on another user's key or salt"
		detail := fmt.Sprintf("%s of %q, key of %q %x or %x (registered by operation %d): operation %d\n%s\n%s", ops[i].kind, ops[i].name, victim, k1, k2, at, i, clip(string(x[i]), 1200), clip(string(y[i]), 1200))
		if !published {
			// the registration is pending: not even the hashes change
			c.Check(bytes.Equal(x[i], y[i]), what, "%s", detail)
			if i > at {
				c.Count("answers while another registration is pending", 1)
				c.Distinct(detail)
			}
			continue
		}
		var a, b interface{}
		c.Must(json.Unmarshal(x[i], &a))
		c.Must(json.Unmarshal(y[i], &b))
		differs := false
		jsonDiff(a, b, "", func(path string, p, q interface{}) {
			ps, ok1 := p.(string)
			qs, ok2 := q.(string)
			okLen := ok1 && ok2 && len(ps) == len(qs) || strings.Contains(path, "/PrunedTree/[]")
			c.Check(hashField(path) && okLen, what, "field %s: %s, %s\n%s", path, clip(jsonOf(p), 200), clip(jsonOf(q), 200), detail)
			differs = true
		})
		if differs {
			c.Count("twin answers that differ in hashes", 1)
			c.Distinct(detail)
		}
	}
}

// c23server searches logs, output and files of real servers.
func c23server(c *Ctx, r *rand.Rand) {
	specs := []addrSpec{{false, true}, {r.Intn(2) == 0, false}}
	s := newSrv(c, r, specs, []uint64{1000, 2, 3}[r.Intn(3)], longDeadline(c, 0))
	defer s.remove()
	s.env = []string{"production", "development"}[r.Intn(2)]
	s.writeConfig(s.deadline)
	s.start()
	names := []string{}
	secrets := keySecrets(s.signSK, s.vrfSK)
	for i := 0; i < 8; i++ {
		n := marker(r)
		names = append(names, n)
		secrets = append(secrets, newSecret("name", n, markerCore(n)))
	}
	var docs [][]byte
	ask := func(a *srvAddr, t int, req interface{}) {
		b, err := a.exchange(mustRequest(c, t, req))
		c.Check(err == nil, "a request isn't answered", "%v", err)
		docs = append(docs, b)
		c.Eval(1)
		c.Count("answers searched", 1)
	}
	for i := 0; i < 50; i++ {
		n, a := names[r.Intn(len(names))], s.addrs[r.Intn(2)]
		switch k := r.Intn(10); {
		case k < 4:
			key := randBytes(r, 16+r.Intn(40))
			secrets = append(secrets, newSecret("key", n, key))
			ask(a, protocol.RegistrationType, &protocol.RegistrationRequest{Username: n, Key: key, AllowPublicLookup: true})
		case k < 6:
			ask(a, protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: n})
		case k < 7:
			ask(a, protocol.KeyLookupInEpochType, &protocol.KeyLookupInEpochRequest{Username: n, Epoch: uint64(r.Intn(3))})
		case k < 8:
			ask(a, protocol.MonitoringType, &protocol.MonitoringRequest{Username: n, StartEpoch: uint64(r.Intn(3)), EndEpoch: uint64(r.Intn(5))})
		case k < 9:
			if e, ok := s.epoch(a); ok {
				s.waitEpoch(a, e+1)
				if e > 1 && r.Intn(2) == 0 { // the earliest epochs may be gone
					ask(a, protocol.KeyLookupInEpochType, &protocol.KeyLookupInEpochRequest{Username: n, Epoch: 0})
					ask(a, protocol.MonitoringType, &protocol.MonitoringRequest{Username: n, EndEpoch: e})
				}
			}
		default:
			reload()
			if r.Intn(2) == 0 { // a request that can't be answered
				conn, err := a.dial()
				if err == nil {
					conn.Write(mustRequest(c, protocol.RegistrationType, &protocol.RegistrationRequest{Username: n, Key: []byte("x")}))
					conn.Close()
				}
			}
		}
	}
	s.s.Shutdown()
	log := s.log()
	c.Count("log lines searched", strings.Count(log, "\n"))
	init, err := os.ReadFile(filepath.Join(s.dir, "init.str"))
	c.Check(err == nil, "the initial root isn't saved", "%v", err)
	var out []byte
	for _, fd := range []string{"1", "2"} {
		if p, err := os.Readlink("/proc/self/fd/" + fd); err == nil && strings.HasPrefix(p, c.Dir) {
			b, _ := os.ReadFile(p)
			out = append(out, b...)
		}
	}
	if len(out) > 0 {
		c.Count("output searched", 1)
	}
	c.Count("secrets", len(secrets))
	for _, x := range secrets {
		for f, b := range map[string][]byte{"the log": []byte(log), "the output of the server": out} {
			if x.in(b) {
				at := 0
				for _, form := range x.forms {
					if i := bytes.Index(b, form); i >= 0 {
						at = i
					}
				}
				c.Fail("a log contains a secret", "%s (%s) in %s: %q", x.what, x.owner, f, clip(string(b[max(0, at-150):]), 400))
			}
		}
		c.Check(!x.in(init), "the initial root's file contains a secret", "%s: %s", x.what, init)
		if x.owner == "" || x.what == "name" {
			for _, b := range docs {
				c.Check(!x.in(b), "an answer contains a secret of another user", "%s (%s): %s", x.what, x.owner, clip(string(b), 900))
			}
		}
	}
	c.Distinct(log)
}
