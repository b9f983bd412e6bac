package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/bots"
	appclient "github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/protocol/auditor"
	"github.com/coniks-sys/coniks-go/protocol/client"
)

func init() {
	register(&Property{ID: "C18", Level: "exploration", Run: runC18,
		Rule: "altered answers, root ranges, initial roots and configuration files given to every decoder and check, with the effects on client, auditor and audit log compared with what an independent decoder and verifier allow; non-trivial: an altered document, distinct by (document, place, alteration)",
		Need: map[string]int64{"altered answers": 12000, "altered ranges": 6000, "altered roots": 3000, "altered files": 2500,
			"refused": 10000, "accepted": 300, "malformed": 2000, "decoded": 5000}})
}

func runC18(c *Ctx) {
	for i := 0; i < c.N(128, 4000); i++ {
		c.Case(fmt.Sprintf("client-%d", i), func(r *rand.Rand) { c18client(c, r) })
	}
	for i := 0; i < c.N(96, 3000); i++ {
		c.Case(fmt.Sprintf("auditor-%d", i), func(r *rand.Rand) { c18auditor(c, r) })
	}
	for i := 0; i < c.N(64, 1500); i++ {
		c.Case(fmt.Sprintf("files-%d", i), func(r *rand.Rand) { c18files(c, r) })
	}
	for i := 0; i < c.N(48, 1500); i++ {
		c.Case(fmt.Sprintf("multi-%d", i), func(r *rand.Rand) { c18multi(c, r) })
	}
	for i := 0; i < c.N(16, 400); i++ {
		c.Case(fmt.Sprintf("structs-%d", i), func(r *rand.Rand) { c18structs(c, r) })
	}
}

var allKinds = []int{protocol.RegistrationType, protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType, protocol.STRType}

// alter makes a hostile document from honest ones.
func alter(r *rand.Rand, doc []byte, others [][]byte) ([]byte, string) {
	if r.Intn(6) == 0 {
		return mutateBytes(r, doc)
	}
	var os []interface{}
	for _, o := range others {
		os = append(os, parseJSON(o))
	}
	t := parseJSON(doc)
	var what []string
	for n := 1 + r.Intn(5)/3 + r.Intn(8)/7; n > 0; n-- {
		var w string
		t, w = mutateJSON(r, t, os)
		what = append(what, w)
	}
	return writeJSON(t), strings.Join(what, ", ")
}

// decodeAnswer is an independent decoder: nil if the text isn't an answer
// with exactly one path and root.
func decodeAnswer(b []byte) *answer {
	var d *protocol.DirectoryProof
	status, ok := decodeOuter(b, &d)
	if !ok || d == nil || len(d.AP) != 1 || len(d.STR) != 1 || d.AP[0] == nil || d.AP[0].Leaf == nil || !whole(d.STR[0]) {
		return nil
	}
	return &answer{status, d.AP[0], d.STR[0], d.TB}
}

// decodeOuter takes the last of several contents, as JSON decoders do.
func decodeOuter(b []byte, content interface{}) (protocol.ErrorCode, bool) {
	var m struct {
		Error             protocol.ErrorCode
		DirectoryResponse json.RawMessage
	}
	if json.Unmarshal(b, &m) != nil || m.DirectoryResponse == nil || json.Unmarshal(m.DirectoryResponse, content) != nil {
		return 0, false
	}
	return m.Error, true
}

// carries tells whether the answer holds the root.
func carries(b []byte, str *protocol.DirSTR) bool {
	var d *protocol.DirectoryProof
	if _, ok := decodeOuter(b, &d); !ok || d == nil {
		return false
	}
	for _, s := range d.STR {
		if whole(s) && sameSTR(s, str) {
			return true
		}
	}
	return false
}

func whole(s *protocol.DirSTR) bool { return s != nil && s.SignedTreeRoot != nil && s.Policies != nil }

func decodeRange(b []byte) (protocol.ErrorCode, []*protocol.DirSTR) {
	var d *protocol.STRHistoryRange
	status, ok := decodeOuter(b, &d)
	if !ok || d == nil || len(d.STR) == 0 {
		return 0, nil
	}
	for _, s := range d.STR {
		if !whole(s) {
			return 0, nil
		}
	}
	return status, d.STR
}

// guarded runs a step of the code under test on hostile input.
func guarded(c *Ctx, what string, input []byte, how string, f func()) {
	p, st := Guard(f)
	if p != nil {
		c.Fail(what+" crashes on hostile input", "%v\nalteration: %s\ninput: %s\n%s", p, how, clip(string(input), 1500), clip(st, 1500))
	}
}

func isErrorCode(e protocol.ErrorCode) bool {
	return e == protocol.ErrMalformedMessage || e == protocol.ErrDirectory || e == protocol.ErrAuditLog
}

// decodeAll runs every decoder on the text and every inspection on what
// comes out.
func decodeAll(c *Ctx, b []byte, how string) map[int]*protocol.Response {
	out := map[int]*protocol.Response{}
	for _, t := range allKinds {
		var res *protocol.Response
		guarded(c, fmt.Sprintf("UnmarshalResponse(%d)", t), b, how, func() { res = application.UnmarshalResponse(t, b) })
		c.Check(res != nil, "no response decoded", "kind %d, %s: %s", t, how, clip(string(b), 500))
		var verr, kerr error
		var key []byte
		guarded(c, "Validate", b, how, func() { verr = res.Validate() })
		guarded(c, "GetKey", b, how, func() { key, kerr = res.GetKey() })
		if verr != nil {
			c.Check(kerr != nil && key == nil, "a key is returned from an invalid response", "kind %d, %s: %x %v", t, how, key, verr)
			c.Count("malformed", 1)
		} else {
			c.Count("decoded", 1)
			c.Check(!isErrorCode(res.Error), "an error answer is valid", "kind %d, %s: %d", t, how, res.Error)
			if df, ok := res.DirectoryResponse.(*protocol.DirectoryProof); ok {
				guarded(c, "using a valid response", b, how, func() {
					for _, ap := range df.AP {
						ap.ProofType()
						ap.Verify([]byte("x"), []byte("y"), df.STR[0].TreeHash)
						ap.Verify(nil, ap.Leaf.Value, nil)
					}
					useRoots(df.STR)
					if df.TB != nil {
						df.TB.Serialize(df.STR[0].Signature)
					}
				})
			}
			if df, ok := res.DirectoryResponse.(*protocol.STRHistoryRange); ok {
				guarded(c, "using a valid response", b, how, func() { useRoots(df.STR) })
			}
		}
		out[t] = res
	}
	return out
}

// useRoots uses every part of the roots of a valid answer.
func useRoots(strs []*protocol.DirSTR) {
	for _, str := range strs {
		str.Serialize()
		str.VerifyHashChain(strs[0])
	}
}

// c18multi alters answers with several paths and roots.
func c18multi(c *Ctx, r *rand.Rand) {
	e := newEvil(r)
	hist := e.chain(5)
	var corpus [][]byte
	for j := 0; j < 60; j++ {
		c.Eval(1)
		var res *protocol.Response
		if r.Intn(4) == 0 {
			res = protocol.NewSTRHistoryRange(wireRange(hist)[:1+r.Intn(5)])
		} else {
			df := &protocol.DirectoryProof{}
			for n := 1 + r.Intn(5); n > 0; n-- {
				t := e.tree(randBytes(r, 32))
				for k := r.Intn(4); k > 0; k-- {
					t.set(fmt.Sprint("name", r.Intn(6)), randBytes(r, r.Intn(20)))
				}
				df.AP = append(df.AP, t.path(fmt.Sprint("name", r.Intn(6))))
				df.STR = append(df.STR, copySTR(hist[r.Intn(5)]))
			}
			if r.Intn(2) == 0 {
				df.STR = append(df.STR, copySTR(hist[r.Intn(5)]))
			}
			if r.Intn(2) == 0 {
				df.TB = e.tb(hist[0], "name1", []byte("k"))
			}
			res = &protocol.Response{Error: protocol.ErrorCode(100 + r.Intn(7)), DirectoryResponse: df}
		}
		how := "unaltered"
		if df, ok := res.DirectoryResponse.(*protocol.DirectoryProof); ok && r.Intn(2) == 0 {
			i, k := r.Intn(len(df.AP)), r.Intn(len(df.STR))
			switch r.Intn(6) {
			case 0:
				df.AP[i], how = nil, "nil path"
			case 1:
				df.AP[i].Leaf, how = nil, "nil leaf"
			case 2:
				df.AP[i].Leaf.Commitment, how = nil, "nil commitment"
			case 3:
				df.STR[k], how = nil, "nil root"
			case 4:
				df.STR[k].SignedTreeRoot, how = nil, "nil tree root"
			case 5:
				df.STR[k].Policies, how = nil, "nil policies"
			}
			how = fmt.Sprintf("%s (%d of %d, %d of %d)", how, i, len(df.AP), k, len(df.STR))
		} else if df, ok := res.DirectoryResponse.(*protocol.STRHistoryRange); ok && r.Intn(2) == 0 {
			k := r.Intn(len(df.STR))
			switch r.Intn(3) {
			case 0:
				df.STR[k], how = nil, "nil root"
			case 1:
				df.STR[k].SignedTreeRoot, how = nil, "nil tree root"
			case 2:
				df.STR[k].Policies, how = nil, "nil policies"
			}
			how = fmt.Sprintf("%s (%d of %d)", how, k, len(df.STR))
		}
		// as values, then as a document
		var verr error
		guarded(c, "Validate", []byte(how), how, func() { verr = res.Validate() })
		if strings.HasPrefix(how, "nil") && !strings.HasPrefix(how, "nil commitment") {
			c.Check(verr != nil, "an incomplete answer is valid", "%s", how)
		}
		doc := []byte(jsonOf(res))
		if len(corpus) < 6 {
			corpus = append(corpus, doc)
		} else {
			corpus[r.Intn(6)] = doc
		}
		b := doc
		if how == "unaltered" {
			b, how = alter(r, doc, corpus)
		}
		c.Count("altered answers", 1)
		c.Distinct("several", how, res.Error)
		decodeAll(c, b, how)
	}
}

func c18client(c *Ctx, r *rand.Rand) {
	w := newClientWorld(c, r, "C18")
	var corpus [][]byte
	for j := 0; j < 130; j++ {
		c.Eval(1)
		name := w.names[r.Intn(len(w.names))]
		t := protocol.KeyLookupType
		var key []byte
		if r.Intn(3) == 0 {
			t, key = protocol.RegistrationType, genKey(r)
		} else if k, ok := w.rc.known[name]; ok && r.Intn(2) == 0 {
			key = k
		}
		n := w.at
		if r.Intn(6) == 0 {
			n = w.honestNext(w.at)
			w.alt = append(w.alt, n)
		}
		a := w.base(t, name, key, n)
		doc := jsonOf(a.response())
		if len(corpus) < 6 {
			corpus = append(corpus, []byte(doc))
		} else {
			corpus[r.Intn(6)] = []byte(doc)
		}
		if r.Intn(5) == 0 { // an honest answer now and then
			w.judge(t, name, key, a, n, "", true)
			continue
		}
		if r.Intn(10) == 0 { // an answer to the other kind of request
			t = protocol.RegistrationType + protocol.KeyLookupType - t
		}
		b, how := alter(r, []byte(doc), corpus)
		c.Count("altered answers", 1)
		c.Distinct("answer", how, t, a.status, a.tb != nil)
		c.Sample("answer", "%s: %s", how, clip(string(b), 200))
		decs := decodeAll(c, b, how)
		res := decs[t]
		if r.Intn(12) == 0 { // decoded as another kind than it is handled as
			res = decs[allKinds[r.Intn(len(allKinds))]]
		}
		claim := decodeAnswer(b)
		var reasons []string
		var value []byte
		incl := false
		if claim == nil {
			reasons = []string{"not an answer"}
		} else {
			if !refSTRWellFormed(claim.str) {
				reasons = []string{"root"}
			} else {
				reasons, value = w.rc.reasons(t, claim, name, key)
			}
			incl = bytes.Equal(claim.ap.LookupIndex, claim.ap.Leaf.Index)
		}
		bindings, tbs := cloneMap(w.cc.Bindings), cloneTBs(w.cc.TBs)
		var err error
		guarded(c, "HandleResponse", b, how, func() { err = w.cc.HandleResponse(t, res, name, key) })
		ctx := fmt.Sprintf("request %d for %q, %s: %s\nspecification: %v", t, clip(name, 30), how, clip(string(b), 1500), reasons)
		if err == nil {
			c.Count("accepted", 1)
			c.Check(len(reasons) == 0, "an altered answer that doesn't verify is accepted", "%s", ctx)
			c.Check(sameSTR(w.cc.VerifiedSTR(), claim.str), "verified root after an accepted answer", "%s", ctx)
			if value != nil {
				c.Check(bytes.Equal(w.cc.Bindings[name], value), "key remembered after an accepted answer", "%x: %s", w.cc.Bindings[name], ctx)
			}
			c.Check(diffMap(bindings, cloneMap(w.cc.Bindings), name) == "" && diffMap(tbs, cloneTBs(w.cc.TBs), name) == "",
				"an answer changes what is known about another name", "%s", ctx)
			w.rc.apply(claim, name, value, incl)
			w.find(claim.str)
			continue
		}
		c.Count("refused", 1)
		d := diffMap(bindings, cloneMap(w.cc.Bindings), "") + diffMap(tbs, cloneTBs(w.cc.TBs), "")
		c.Check(d == "", "a refused answer changes what the client remembers", "%s: %s", d, ctx)
		if now := w.cc.VerifiedSTR(); !sameSTR(now, w.rc.verified) {
			c.Check(whole(now) && carries(b, now) && refSTRWellFormed(now) && w.rc.strOK(now), "an unverified root is stored", "%s", ctx)
			w.rc.verified = copySTR(now)
			w.find(now)
		}
	}
}

// c18auditor gives altered ranges to a client's comparison with an auditor,
// to an auditor and to an audit log.
func c18auditor(c *Ctx, r *rand.Rand) {
	e := newEvil(r)
	hist := e.chain(2 + r.Intn(6))
	at := r.Intn(len(hist))
	wired := wireRange(hist)
	cc := client.New(wireRange(hist)[at], true, e.signPK)
	aud := auditor.New(e.signPK, wireRange(hist)[at])
	log := auditlog.New()
	c.Must(log.InitHistory("d", e.signPK, wireRange(hist)[:at+1]))
	id := auditor.ComputeDirectoryIdentity(hist[0])
	view := func() string { return c18view(log, id, uint64(len(hist))) }
	for j := 0; j < 80; j++ {
		c.Eval(1)
		lo := at
		if r.Intn(4) == 0 {
			lo = r.Intn(len(hist))
		} else if r.Intn(2) == 0 && at+1 < len(hist) {
			lo = at + 1
		}
		hi := lo + 1 + r.Intn(len(hist)-lo)
		doc := []byte(jsonOf(protocol.NewSTRHistoryRange(hist[lo:hi])))
		b, how := doc, "unaltered"
		if r.Intn(10) > 0 {
			b, how = alter(r, doc, [][]byte{[]byte(jsonOf(protocol.NewSTRHistoryRange(hist)))})
			c.Count("altered ranges", 1)
			c.Distinct("range", how, hi-lo, lo-at)
		}
		res := decodeAll(c, b, how)[protocol.STRType]
		status, strs := decodeRange(b)
		wellFormed := strs != nil && !isErrorCode(status)
		for _, s := range strs {
			wellFormed = wellFormed && refSTRWellFormed(s)
		}
		ctx := func() string {
			return fmt.Sprintf("verified epoch %d, roots %d..%d, %s: %s", at, lo, hi-1, how, clip(string(b), 1500))
		}
		var err error
		// a client compares with an auditor
		guarded(c, "CheckEquivocation", b, how, func() { err = cc.CheckEquivocation(res) })
		ok := wellFormed
		if ok {
			for i, s := range strs {
				ok = ok && (len(strs) == 1 || refSTRSigned(s, e.signPK)) && (i == 0 || refLinks(strs[i-1], s))
			}
			last := strs[len(strs)-1]
			ok = ok && (sameSTR(last, hist[at]) || refLinks(hist[at], last) && refSTRSigned(last, e.signPK))
		}
		c.Check(err != nil || ok, "a client agrees with a range that doesn't verify", "%s", ctx())
		c.Check(sameSTR(cc.VerifiedSTR(), hist[at]), "comparing with an auditor changes the verified root", "%s", ctx())
		if err == nil {
			c.Count("accepted", 1)
		} else {
			c.Count("refused", 1)
		}
		// an auditor
		var in []*protocol.DirSTR
		if x, ok := res.DirectoryResponse.(*protocol.STRHistoryRange); ok && x != nil {
			in = x.STR
		}
		guarded(c, "AuditDirectory", b, how, func() { err = aud.AuditDirectory(in) })
		okb := strs != nil && refBatch(hist[at], strs, e)
		for _, s := range strs {
			okb = okb && refSTRWellFormed(s)
		}
		c.Check(err != nil || okb, "an auditor accepts a range that doesn't verify", "%s", ctx())
		c.Check(sameSTR(aud.VerifiedSTR(), hist[at]), "auditing changes the verified root", "%s", ctx())
		// an audit log
		before := view()
		h := log[id]
		guarded(c, "Audit", b, how, func() { err = h.Audit(res) })
		if err == nil {
			c.Check(okb && wellFormed, "the audit log accepts a range that doesn't verify", "%s", ctx())
			last := strs[len(strs)-1]
			c.Check(sameSTR(h.VerifiedSTR(), last), "verified root of the audit log", "%s", ctx())
			at = int(last.Epoch)
			if at >= len(hist) {
				c.Fail("the audit log verified a root that doesn't exist", "%s", ctx())
			}
			// the others follow
			cc = client.New(wired[at], true, e.signPK)
			aud = auditor.New(e.signPK, wireRange(hist)[at])
		} else {
			c.Check(view() == before, "a refused range changes the audit log", "%s", ctx())
		}
		// a new history from untrusted roots
		// (InitHistory relies on a history that was verified before it was
		// saved, so don't make it store a root at an enormous position)
		l2 := auditlog.New()
		err = nil
		if modest(in) {
			guarded(c, "InitHistory", b, how, func() { err = l2.InitHistory("x", e.signPK, in) })
		}
		if modest(in) && err == nil {
			c.Check(len(in) > 0 && whole(in[0]) && in[0].Epoch == 0 && len(l2) == 1, "a history is initialised without a first root", "%s", ctx())
			guarded(c, "using a new history", b, how, func() {
				for _, h2 := range l2 {
					h2.Audit(res)
					h2.Audit(protocol.NewSTRHistoryRange(wireRange(hist)))
				}
			})
		}
		// unusual but possible lists
		if r.Intn(4) == 0 {
			odd := append(append([]*protocol.DirSTR{}, in...), nil)
			r.Shuffle(len(odd), func(i, j int) { odd[i], odd[j] = odd[j], odd[i] })
			guarded(c, "AuditDirectory", b, "with a missing root", func() { err = aud.AuditDirectory(odd) })
			c.Check(err != nil, "a list with a missing root is accepted", "%s", ctx())
			if modest(in) {
				guarded(c, "InitHistory", b, "with a missing root", func() { err = auditlog.New().InitHistory("y", e.signPK, odd) })
				c.Check(err != nil, "a list with a missing root is accepted", "%s", ctx())
			}
			guarded(c, "VerifySTRRange", b, "with a missing root", func() { err = aud.VerifySTRRange(hist[at], odd) })
			c.Check(err != nil, "a list with a missing root is accepted", "%s", ctx())
		}
	}
}

func c18view(l auditlog.ConiksAuditLog, id [32]byte, n uint64) string {
	out := fmt.Sprint(len(l), strString(l[id].VerifiedSTR()))
	for ep := uint64(0); ep < n; ep++ {
		out += jsonOf(l.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: ep, EndEpoch: ep}))
	}
	return out
}

// c18files loads altered initial roots and configuration files.
func c18files(c *Ctx, r *rand.Rand) {
	dir, err := os.MkdirTemp(c.Dir, "files")
	c.Must(err)
	defer os.RemoveAll(dir)
	e := newEvil(r)
	hist := e.chain(3)
	write := func(name string, b []byte) { c.Must(os.WriteFile(filepath.Join(dir, name), b, 0600)) }
	signPub, signPriv, vrfPriv := []byte(e.signPK), []byte(e.signSK), []byte(e.vrfSK)
	initSTR := []byte(jsonOf(hist[0]))
	conf := filepath.Join(dir, "config.toml")
	clientConf := appclient.NewConfig(conf, "toml", "sign.pub", "init.str", "tcp://127.0.0.1:1", "unix:///nowhere/x.sock")
	c.Must(clientConf.Save())
	clientText, err := os.ReadFile(conf)
	c.Must(err)
	os.Remove(conf)
	serverConf := server.NewConfig(conf, "toml", []*server.Address{
		{ServerAddress: &application.ServerAddress{Address: "unix:///nowhere/s.sock"}, AllowRegistration: true},
		{ServerAddress: &application.ServerAddress{Address: "tcp://127.0.0.1:3000", TLSCertPath: "server.pem", TLSKeyPath: "server.key"}}},
		&application.LoggerConfig{EnableStacktrace: true, Environment: "development", Path: "s.log"}, 100,
		&server.Policies{EpochDeadline: 60, VRFKeyPath: "vrf.priv", SignKeyPath: "sign.priv"}, "init.str")
	c.Must(serverConf.Save())
	serverText, err := os.ReadFile(conf)
	c.Must(err)
	os.Remove(conf)
	botConf := bots.NewTwitterConfig(conf, "toml", "/nowhere/c.sock", "handle", bots.TwitterOAuth{ConsumerKey: "a", ConsumerSecret: "b", AccessToken: "c", AccessSecret: "d"})
	c.Must(botConf.Save())
	botText, err := os.ReadFile(conf)
	c.Must(err)

	for j := 0; j < 60; j++ {
		c.Eval(1)
		// an initial root
		b, how := alter(r, initSTR, [][]byte{[]byte(jsonOf(hist[1]))})
		if r.Intn(8) == 0 {
			b, how = []byte(jsonOf(hist[1])), "a later root"
		}
		write("init.str", b)
		c.Count("altered roots", 1)
		c.Distinct("init", how)
		var str *protocol.DirSTR
		guarded(c, "LoadInitSTR", b, how, func() { str, err = application.LoadInitSTR("init.str", conf) })
		var want protocol.DirSTR
		var want2 *protocol.DirSTR
		okWant := json.Unmarshal(b, &want2) == nil && want2 != nil && whole(want2) && want2.Epoch == 0 && refSTRWellFormed(want2)
		if okWant {
			want = *want2
		}
		if err == nil {
			c.Count("accepted", 1)
			c.Check(okWant && str != nil && sameSTR(str, &want), "an initial root is loaded from a file that doesn't hold one", "%s: %s", how, clip(string(b), 1000))
			c18use(c, r, e, str, hist, how, b)
		} else {
			c.Count("refused", 1)
			c.Check(!okWant, "a well-formed initial root is refused", "%v: %s: %s", err, how, clip(string(b), 1000))
		}
		// configuration files
		write("sign.pub", oddFile(r, signPub))
		write("sign.priv", oddFile(r, signPriv))
		write("vrf.priv", oddFile(r, vrfPriv))
		if r.Intn(2) == 0 {
			write("init.str", initSTR)
		}
		text := [][]byte{clientText, serverText, botText}[j%3]
		if r.Intn(8) > 0 {
			text, how = mutateTOML(r, text)
		} else {
			how = "unaltered"
		}
		if r.Intn(12) == 0 {
			text, how = [][]byte{clientText, serverText, botText, []byte(initSTR)}[r.Intn(4)], "another file"
		}
		write("config.toml", text)
		c.Count("altered files", 1)
		c.Distinct("config", j%3, how)
		enc := []string{"toml", "", "json"}[r.Intn(3)]
		c18config(c, j%3, conf, enc, text, how)
	}
}

func c18config(c *Ctx, kind int, conf, enc string, text []byte, how string) {
	var err error
	switch kind {
	case 0:
		cf := &appclient.Config{}
		guarded(c, "loading a client configuration", text, how, func() { err = cf.Load(conf, enc) })
		if err == nil {
			c.Count("accepted", 1)
			c.Check(len(cf.SigningPubKey) == 32 && whole(cf.InitSTR) && cf.InitSTR.Epoch == 0 && cf.CommonConfig != nil && cf.Path == conf,
				"an incomplete client configuration is loaded", "%s: %s", how, text)
			guarded(c, "using a client configuration", text, how, func() {
				cc := client.New(cf.InitSTR, true, cf.SigningPubKey)
				cc.HandleResponse(protocol.KeyLookupType, protocol.NewErrorResponse(protocol.ErrDirectory), "x", nil)
			})
		} else {
			c.Count("refused", 1)
		}
	case 1:
		cf := &server.Config{}
		guarded(c, "loading a server configuration", text, how, func() { err = cf.Load(conf, enc) })
		if err == nil {
			c.Count("accepted", 1)
			c.Check(cf.Policies != nil && cf.CommonConfig != nil && cf.Logger != nil && cf.Path == conf, "an incomplete server configuration is loaded", "%s: %s", how, text)
			for _, a := range cf.Addresses {
				c.Check(a != nil && a.ServerAddress != nil, "an incomplete server configuration is loaded", "%s: %s", how, text)
			}
		} else {
			c.Count("refused", 1)
		}
	default:
		cf := &bots.TwitterConfig{}
		guarded(c, "loading a bot configuration", text, how, func() { err = cf.Load(conf, enc) })
		if err == nil {
			c.Count("accepted", 1)
			c.Check(cf.CommonConfig != nil && cf.Path == conf, "an incomplete bot configuration is loaded", "%s: %s", how, text)
		} else {
			c.Count("refused", 1)
		}
	}
}

// modest reports whether the epochs of a saved history are plausible.
func modest(strs []*protocol.DirSTR) bool {
	for _, s := range strs {
		if whole(s) && s.Epoch > 1<<16 {
			return false
		}
	}
	return true
}

// c18use uses a root that was loaded.
func c18use(c *Ctx, r *rand.Rand, e *evilDir, str *protocol.DirSTR, hist []*protocol.DirSTR, how string, b []byte) {
	guarded(c, "using a loaded root", b, how, func() {
		cc := client.New(str, true, e.signPK)
		str.Serialize()
		cc.CheckEquivocation(protocol.NewSTRHistoryRange(wireRange(hist)[:1+r.Intn(2)]))
		t := e.tree(randBytes(r, 32))
		a := &answer{status: protocol.ReqNameNotFound, ap: t.path("alice"), str: copySTR(hist[r.Intn(3)])}
		cc.HandleResponse(protocol.KeyLookupType, a.response(), "alice", nil)
		l := auditlog.New()
		if l.InitHistory("d", e.signPK, []*protocol.DirSTR{str}) == nil {
			for _, h := range l {
				h.Audit(protocol.NewSTRHistoryRange(wireRange(hist)[1:2]))
			}
		}
	})
}

func oddFile(r *rand.Rand, b []byte) []byte {
	if r.Intn(3) > 0 {
		return b
	}
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		return b[:r.Intn(len(b))]
	case 2:
		return append(append([]byte{}, b...), '\n')
	case 3:
		return bytes.Repeat(b, 1+r.Intn(1000))
	}
	return randBytes(r, len(b))
}

// mutateTOML alters lines of a configuration file.
func mutateTOML(r *rand.Rand, b []byte) ([]byte, string) {
	if r.Intn(4) == 0 {
		return mutateBytes(r, b)
	}
	lines := strings.Split(string(b), "\n")
	i := r.Intn(len(lines))
	key, val := lines[i], ""
	if k := strings.Index(key, "="); k >= 0 {
		key, val = key[:k], key[k+1:]
	}
	id := strings.TrimSpace(key)
	switch r.Intn(10) {
	case 0:
		lines = append(lines[:i:i], lines[i+1:]...)
		return []byte(strings.Join(lines, "\n")), "without " + id
	case 1:
		lines = append(lines[:i:i], append([]string{lines[i]}, lines[i:]...)...)
		return []byte(strings.Join(lines, "\n")), "twice " + id
	case 2, 3, 4:
		v := []string{"0", "-1", `""`, "[]", "{}", "true", "1.5", "99999999999999999999", "18446744073709551615", "[1]", `"../../../x"`, `"/"`, `"` + strings.Repeat("a", 5000) + `"`, `"\u0000"`, "1979-05-27T07:32:00Z", `[["a"]]`, `"a`}[r.Intn(17)]
		lines[i] = key + "= " + v
		return []byte(strings.Join(lines, "\n")), id + " = " + clip(v, 20)
	case 5:
		lines[i] = "[" + id + "]"
		return []byte(strings.Join(lines, "\n")), id + " as a table"
	case 6:
		lines[i] = "[[" + id + "]]"
		return []byte(strings.Join(lines, "\n")), id + " as a list"
	case 7:
		lines[i] = id + "x =" + val
		return []byte(strings.Join(lines, "\n")), id + " renamed"
	case 8:
		r.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
		return []byte(strings.Join(lines, "\n")), "lines shuffled"
	default:
		k := r.Intn(len(lines) + 1)
		return []byte(strings.Join(lines[:k], "\n")), fmt.Sprintf("first %d lines", k)
	}
}

// c18structs hands over messages that were not decoded from text.
func c18structs(c *Ctx, r *rand.Rand) {
	e := newEvil(r)
	hist := e.chain(2)
	t := e.tree(randBytes(r, 32))
	t.set("alice", []byte("k"))
	for j := 0; j < 60; j++ {
		c.Eval(1)
		cc := client.New(copySTR(hist[0]), true, e.signPK)
		a := &answer{status: protocol.ErrorCode([]int{100, 101, 102, 103, 104, 105, 106, 0, -1, 200, 206, 999}[r.Intn(12)]), ap: t.path([]string{"alice", "bob"}[r.Intn(2)]), str: copySTR(hist[r.Intn(2)])}
		if r.Intn(2) == 0 {
			a.tb = e.tb(a.str, "bob", []byte("k"))
		}
		res := a.response()
		df := res.DirectoryResponse.(*protocol.DirectoryProof)
		how := "none"
		switch r.Intn(16) {
		case 0:
			df.AP, how = nil, "no paths"
		case 1:
			df.STR, how = nil, "no roots"
		case 2:
			df.AP[0], how = nil, "nil path"
		case 3:
			df.STR[0], how = nil, "nil root"
		case 4:
			df.AP[0].Leaf, how = nil, "nil leaf"
		case 5:
			df.AP[0].Leaf.Commitment, how = nil, "nil commitment"
		case 6:
			df.STR[0].SignedTreeRoot, how = nil, "nil tree root"
		case 7:
			df.STR[0].Policies, how = nil, "nil policies"
		case 8:
			df.STR[0].Policies.VrfPublicKey, how = vrf.PublicKey(randBytes(r, r.Intn(70))), "index key of another size"
		case 9:
			df.AP[0].Leaf.Level, how = []uint32{0, 1, 255, 256, 257, 1 << 31, 1<<32 - 1}[r.Intn(7)], "level"
		case 10:
			df.AP[0].LookupIndex, how = randBytes(r, r.Intn(40)), "lookup index"
		case 11:
			df.AP[0].Leaf.Index, how = randBytes(r, r.Intn(40)), "leaf index"
		case 12:
			df.AP[0].PrunedTree, how = make([][32]byte, r.Intn(300)), "siblings"
		case 13:
			res.DirectoryResponse, how = (*protocol.DirectoryProof)(nil), "nil proof"
		case 14:
			res.DirectoryResponse, how = nil, "nil response"
		case 15:
			df.TB, how = &protocol.TemporaryBinding{}, "empty promise"
		}
		c.Distinct("struct", how, a.status)
		b := []byte(how)
		for _, t := range []int{protocol.RegistrationType, protocol.KeyLookupType} {
			var err error
			before := strString(cc.VerifiedSTR())
			guarded(c, "HandleResponse", b, how, func() { err = cc.HandleResponse(t, res, "alice", nil) })
			if err == nil {
				c.Check(how == "none" || how == "empty promise" || how == "level" && false, "an incomplete answer is accepted", "%s status %d", how, a.status)
				c.Count("accepted", 1)
			} else {
				c.Count("refused", 1)
				if now := cc.VerifiedSTR(); strString(now) != before {
					c.Check(sameSTR(now, hist[1]) || sameSTR(now, hist[0]), "an unverified root is stored", "%s", how)
				}
			}
		}
		guarded(c, "GetKey", b, how, func() { res.GetKey() })
	}
}
