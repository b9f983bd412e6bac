package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/bots"
	"github.com/coniks-sys/coniks-go/protocol"
)

func init() {
	register(&Property{ID: "C26", Level: "exploration", Run: runC26,
		Rule: "senders and messages given to bots in front of a recording directory that answers, hangs up, aborts or is absent, and in front of real servers; direct messages through a simulated messaging service; non-trivial: distinct by (verdict of the reference, alteration, behaviour of the directory)",
		Need: map[string]int64{"messages": 12000, "forwarded": 2500, "refused": 6000, "directory failures": 500, "large answers": 60,
			"names registered": 60, "direct messages": 12, "bots refused": 100}})
}

func runC26(c *Ctx) {
	c26service.install()
	c.Case("dms", func(r *rand.Rand) { c26dms(c, r) })
	for i := 0; i < c.N(60, 1500); i++ {
		c.Case(fmt.Sprintf("handle-%d", i), func(r *rand.Rand) { c26handle(c, r) })
	}
	for i := 0; i < c.N(8, 120); i++ {
		c.Case(fmt.Sprintf("server-%d", i), func(r *rand.Rand) { c26server(c, r) })
	}
	for i := 0; i < c.N(40, 400); i++ {
		c.Case(fmt.Sprintf("refuse-%d", i), func(r *rand.Rand) { c26refuse(c, r) })
	}
}

// ---- a messaging service ----

type sentDM struct{ to, text string }

// account is one account of the simulated service; bots are told apart by
// their access tokens.
type account struct {
	mu     sync.Mutex
	handle string
	status int // of the answer to the check of the credentials
	old    int // direct messages from earlier
	stream *io.PipeReader
	sent   []sentDM
	other  []string // unexpected requests
}

type messaging struct {
	mu       sync.Mutex
	accounts map[string]*account
	n        int
}

var c26service = &messaging{accounts: map[string]*account{}}

func (m *messaging) install() { http.DefaultTransport = m }

func (m *messaging) add(a *account) string {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.n++
	tok := fmt.Sprintf("token-%d-x", m.n)
	m.accounts[tok] = a
	return tok
}

func (m *messaging) remove(tok string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	delete(m.accounts, tok)
}

func (m *messaging) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	m.mu.Lock()
	var a *account
	for tok, x := range m.accounts {
		if strings.Contains(req.Header.Get("Authorization"), tok) {
			a = x
		}
	}
	m.mu.Unlock()
	answer := func(status int, b io.ReadCloser) (*http.Response, error) {
		return &http.Response{Status: fmt.Sprint(status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{"Content-Type": {"application/json"}}, Body: b, ContentLength: -1, Request: req}, nil
	}
	text := func(status int, s string) (*http.Response, error) {
		return answer(status, io.NopCloser(strings.NewReader(s)))
	}
	if a == nil {
		return text(401, `{"errors":[{"message":"Bad Authentication data","code":215}]}`)
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	p := req.URL.Path
	switch {
	case strings.HasSuffix(p, "verify_credentials.json"):
		if a.status != 200 {
			return text(a.status, `{"errors":[{"message":"Could not authenticate you","code":32}]}`)
		}
		b, _ := json.Marshal(map[string]interface{}{"id": 1, "screen_name": a.handle})
		return text(200, string(b))
	case strings.HasSuffix(p, "direct_messages.json"):
		if a.old == 0 {
			return text(200, "[]")
		}
		return text(200, fmt.Sprintf(`[{"id":%d,"text":"old","sender_screen_name":"someone"}]`, 1000+a.old))
	case strings.HasSuffix(p, "direct_messages/destroy.json"):
		if a.old > 0 {
			a.old--
		}
		return text(200, "{}")
	case strings.HasSuffix(p, "direct_messages/new.json"):
		v, _ := url.ParseQuery(string(body))
		if v.Get("text") == "" {
			v = req.URL.Query()
		}
		a.sent = append(a.sent, sentDM{v.Get("screen_name"), v.Get("text")})
		return text(200, `{"id":77}`)
	case strings.HasSuffix(p, "user.json") && a.stream != nil:
		return answer(200, a.stream)
	}
	a.other = append(a.other, p)
	return text(404, "{}")
}

// ---- a recording directory ----

const (
	dirAnswers = iota
	dirSlow
	dirHangsUp
	dirAborts
	dirEarly
	dirPartial
	dirDown
	dirGone
	dirFile
	dirKinds
)

var dirNames = [dirKinds]string{"answers", "answers in pieces", "hangs up", "aborts", "answers early", "answers partly and aborts", "is down", "is gone", "is a file"}

// recDir records every connection.
type recDir struct {
	mu   sync.Mutex
	l    *net.UnixListener
	path string
	kind int
	ans  []byte
	got  [][]byte
	conn int
	wg   sync.WaitGroup
}

func (d *recDir) serve(l *net.UnixListener) {
	for {
		conn, err := l.AcceptUnix()
		if err != nil {
			return
		}
		d.mu.Lock()
		kind, ans := d.kind, d.ans
		d.conn++
		d.mu.Unlock()
		d.wg.Add(1)
		go func() {
			defer d.wg.Done()
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(100 * time.Second))
			if kind == dirEarly {
				conn.Write(ans)
				return
			}
			if kind == dirAborts {
				var b [1]byte
				conn.Read(b[:])
				return
			}
			if kind == dirPartial {
				var b [1]byte
				conn.Read(b[:])
				conn.Write(ans[:len(ans)/2])
				return
			}
			msg, _ := io.ReadAll(conn)
			d.mu.Lock()
			d.got = append(d.got, msg)
			d.mu.Unlock()
			switch kind {
			case dirAnswers:
				conn.Write(ans)
			case dirSlow:
				for n := len(ans)/7 + 1; len(ans) > 0; {
					if n > len(ans) {
						n = len(ans)
					}
					conn.Write(ans[:n])
					ans = ans[n:]
					time.Sleep(200 * time.Microsecond)
				}
			}
		}()
	}
}

// become changes the behaviour and forgets what was recorded.
func (d *recDir) become(c *Ctx, kind int, ans []byte) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.kind, d.ans, d.got, d.conn = kind, ans, nil, 0
	if kind < dirDown {
		if d.l == nil {
			os.Remove(d.path)
			l, err := net.ListenUnix("unix", &net.UnixAddr{Name: d.path, Net: "unix"})
			c.Must(err)
			l.SetUnlinkOnClose(false)
			d.l = l
			go d.serve(l)
		}
		return
	}
	if d.l != nil {
		d.l.Close()
		d.l = nil
	}
	switch kind {
	case dirGone:
		os.Remove(d.path)
	case dirFile:
		os.Remove(d.path)
		c.Must(os.WriteFile(d.path, []byte("x"), 0600))
	case dirDown: // a socket nobody listens on
		os.Remove(d.path)
		l, err := net.ListenUnix("unix", &net.UnixAddr{Name: d.path, Net: "unix"})
		c.Must(err)
		l.SetUnlinkOnClose(false)
		l.Close()
	}
}

func (d *recDir) recorded() (conns int, msgs [][]byte) {
	d.wg.Wait()
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.conn, d.got
}

// ---- reference ----

const (
	mustForward = iota
	mayForward
	mustRefuse
)

func asciiLower(s string) (string, bool) {
	b := []byte(s)
	for i, x := range b {
		if x >= 0x80 {
			return s, false
		}
		if 'A' <= x && x <= 'Z' {
			b[i] = x + 32
		}
	}
	return string(b), true
}

// lastValue is the last value of a member that isn't null, if any is not.
type lastValue []byte

func (v *lastValue) UnmarshalJSON(b []byte) error {
	if len(*v) == 0 || string(b) != "null" {
		*v = append((*v)[:0], b...)
	}
	return nil
}

// c26judge is an independent reading of a message: which name would a
// directory register for it?
func c26judge(handle string, msg []byte) int {
	var outer struct {
		Type    int
		Request lastValue
	}
	var inner *struct {
		Username                                  string
		Key                                       []byte
		AllowUnsignedKeychange, AllowPublicLookup bool
	}
	if json.Unmarshal(msg, &outer) != nil || outer.Type != protocol.RegistrationType {
		return mustRefuse
	}
	if json.Unmarshal([]byte(outer.Request), &inner) != nil || inner == nil {
		return mustRefuse
	}
	want := handle + "@twitter"
	if !strings.EqualFold(want, inner.Username) {
		// letters that are folded with more than one other
		if strings.EqualFold(strings.ToLower(want), inner.Username) {
			return mayForward
		}
		return mustRefuse
	}
	a, ok1 := asciiLower(want)
	b, ok2 := asciiLower(inner.Username)
	if !ok1 || !ok2 || a != b {
		return mayForward
	}
	// required only for messages nobody can read in another way
	doc, ok := parseJSON(msg).(*jobj)
	if !ok || !c26plain(doc, "Type", "Request") {
		return mayForward
	}
	in, ok := doc.vals[1].(*jobj)
	if doc.keys[0] != "Type" {
		in, ok = doc.vals[0].(*jobj)
	}
	if !ok || !c26plain(in, "Username", "Key", "AllowUnsignedKeychange", "AllowPublicLookup") {
		return mayForward
	}
	return mustForward
}

// c26plain: only these members, the first two present, each once.
func c26plain(o *jobj, names ...string) bool {
	seen := map[string]bool{}
	for i, k := range o.keys {
		known := false
		for _, n := range names {
			known = known || k == n
		}
		if !known || seen[k] || o.vals[i] == jraw("null") {
			return false
		}
		seen[k] = true
	}
	return seen[names[0]] && seen[names[1]]
}

// ---- messages ----

func c26handleName(r *rand.Rand) string {
	const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
	n := 1 + r.Intn(15)
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[r.Intn(len(letters))]
	}
	return string(b)
}

func recase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 {
			if 'a' <= b[i] && b[i] <= 'z' {
				b[i] -= 32
			} else if 'A' <= b[i] && b[i] <= 'Z' {
				b[i] += 32
			}
		}
	}
	return string(b)
}

// c26name is a name a sender may ask for.
func c26name(r *rand.Rand, handle string, all []string) (string, string) {
	h := strings.ToLower(handle)
	other := strings.ToLower(all[r.Intn(len(all))])
	own := h + "@twitter"
	if r.Intn(4) == 0 {
		odd := []string{"\x00", "\t", "\r", "\n", "\v", "\u0085", "\u00a0", "\u00ad", "\u200b", "\u200d", "\u202e", "\u2060", "\u3000", "\ufeff", "\ufffd",
			".", "..", "/", "\\", "+", "%", "%40", "&", ":", ";", "#", "?", "|", ",", "'", "\"", "<", "-", "_", "@", "~", "*", "\x7f", "\u0301", "\ufe0f", " "}
		o := odd[r.Intn(len(odd))]
		i := r.Intn(len(own) + 1)
		switch r.Intn(8) {
		case 0, 1, 2:
			return own[:i] + o + own[i:], "odd character in it"
		case 3:
			return other + "@twitter" + o + own, "another name before it"
		case 4:
			return own + o + other + "@twitter", "another name behind it"
		case 5:
			return other + o + own, "another handle before it"
		case 6:
			i = r.Intn(len(own))
			return own[:i] + o + own[i+1:], "odd character instead"
		case 7:
			i = r.Intn(len(own))
			return own[:i] + own[i+1:], "without one character"
		}
	}
	switch r.Intn(26) {
	case 0:
		return recase(r, own), "other case"
	case 1:
		return other + "@twitter", "other handle"
	case 2:
		return h, "no suffix"
	case 3:
		return other, "other handle without suffix"
	case 4:
		return own + "x", "longer"
	case 5:
		return own[:len(own)-1], "shorter"
	case 6:
		return other + own, "prefixed"
	case 7:
		return own + "@twitter", "suffix twice"
	case 8:
		return own + "," + other + "@twitter", "two names"
	case 9:
		return " " + own, "space before"
	case 10:
		return own + " ", "space behind"
	case 11:
		return own + "\x00" + other, "nul"
	case 12:
		return h + "@twitterx", "other suffix"
	case 13:
		return h + "@facebook", "other service"
	case 14:
		return "@twitter", "no handle"
	case 15:
		return "", "empty"
	case 16:
		return strings.Replace(own, "@", "＠", 1), "wide at sign"
	case 17:
		return strings.NewReplacer("k", "\u212a", "s", "\u017f").Replace(own), "folded letters"
	case 18:
		return other + "@" + own, "other@own"
	case 19:
		return own + "\n", "newline"
	case 20:
		return h + "@twitter." + other, "domain"
	case 21:
		return strings.Replace(own, "t", "т", 1), "look-alike letter"
	case 22:
		return "@" + own, "at sign before"
	case 23:
		return h + "@@twitter", "two at signs"
	case 24:
		return own[:r.Intn(len(own))] + own[r.Intn(len(own)):], "part"
	}
	if len(h) > 1 {
		i := r.Intn(len(h) - 1)
		b := []byte(h)
		b[i], b[i+1] = b[i+1], b[i]
		return string(b) + "@twitter", "swapped letters"
	}
	return "x" + own, "longer"
}

// c26message is a message and how it was made.
func c26message(r *rand.Rand, handle string, all []string) ([]byte, string) {
	h := handle
	if r.Intn(2) == 0 {
		h = strings.ToLower(h)
	}
	req := &protocol.RegistrationRequest{Username: h + "@twitter", Key: randBytes(r, r.Intn(80)),
		AllowUnsignedKeychange: r.Intn(2) == 0, AllowPublicLookup: r.Intn(2) == 0}
	if r.Intn(40) == 0 {
		req.Key = randBytes(r, 1<<uint(10+r.Intn(8)))
	}
	if len(req.Key) == 0 {
		req.Key = []byte{}
	}
	how := "own"
	typ, content := protocol.RegistrationType, interface{}(req)
	switch r.Intn(10) {
	case 0, 1:
		req.Username, how = c26name(r, handle, all)
	case 2:
		typ = []int{protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType, protocol.AuditType, protocol.STRType, -1, 6, 1 << 40}[r.Intn(8)]
		how = fmt.Sprintf("type %d", typ)
		switch r.Intn(3) {
		case 0:
			content = &protocol.KeyLookupRequest{Username: req.Username}
		case 1:
			content = &protocol.MonitoringRequest{Username: req.Username, EndEpoch: 3}
		}
	}
	b, _ := application.MarshalRequest(typ, content)
	switch r.Intn(8) {
	case 0, 1, 2:
		o := *req
		o.Username, _ = c26name(r, handle, all)
		ob, _ := application.MarshalRequest(protocol.RegistrationType, &o)
		var w string
		b, w = alter(r, b, [][]byte{ob})
		how += ", " + w
	case 3: // two readings
		o := *req
		var w string
		o.Username, w = c26name(r, handle, all)
		in, _ := json.Marshal(req)
		in2, _ := json.Marshal(&o)
		name, _ := json.Marshal(req.Username)
		name2, _ := json.Marshal(o.Username)
		if r.Intn(2) == 0 {
			in, in2, name, name2 = in2, in, name2, name
		}
		b = []byte([]string{
			fmt.Sprintf(`{"Type":0,"Request":%s,"Request":%s}`, in, in2),
			fmt.Sprintf(`{"Type":0,"Request":{"Username":%s,"Username":%s,"Key":"AAAA"}}`, name, name2),
			fmt.Sprintf(`{"Type":0,"Request":{"Username":%s,"username":%s,"Key":"AAAA"}}`, name, name2),
			fmt.Sprintf(`{"Type":0,"request":%s,"REQUEST":%s}`, in, in2),
			fmt.Sprintf(`{"Type":0,"Request":%s}{"Type":0,"Request":%s}`, in, in2),
			fmt.Sprintf(`{"Type":0,"Request":[%s,%s]}`, in, in2),
			fmt.Sprintf(`{"Type":1,"Type":0,"Request":%s}`, in),
			fmt.Sprintf(`{"Type":0,"Type":1,"Request":%s}`, in),
			fmt.Sprintf(`{"Type":0,"Request":%s,"Type":2}`, in),
			fmt.Sprintf(`{"Type":0,"Username":%s,"Request":{"Username":%s,"Key":""}}`, name, name2),
			fmt.Sprintf(`{"Type":0,"Request":{"Username":%s,"Key":"AAAA"}} `, name),
			fmt.Sprintf("{\"Type\":0,\"Request\":{\"Username\":%s,\"Key\":\"AAAA\"}}\x00", name),
			fmt.Sprintf(`?CONIKS?{"Type":0,"Request":{"Username":%s,"Key":"AAAA"}}`, name),
		}[r.Intn(13)])
		how += ", two readings with " + w
	}
	return b, how
}

// ---- cases ----

func c26config(dir, addr, handle, token string) *bots.TwitterConfig {
	return bots.NewTwitterConfig(filepath.Join(dir, "bot.toml"), "toml", addr, handle,
		bots.TwitterOAuth{ConsumerKey: "ck", ConsumerSecret: "cs", AccessToken: token, AccessSecret: "as"})
}

// c26bot makes a bot in front of the directory at addr.
func c26bot(c *Ctx, dir, addr string, a *account) (bots.Bot, func()) {
	tok := c26service.add(a)
	bot, err := bots.NewTwitterBot(c26config(dir, addr, a.handle, tok))
	if err != nil {
		c.Fail("a bot with valid credentials doesn't start", "%v", err)
	}
	return bot, func() { c26service.remove(tok) }
}

func c26error(b string) (protocol.ErrorCode, bool) {
	var e struct {
		Error             *protocol.ErrorCode
		DirectoryResponse json.RawMessage
	}
	if json.Unmarshal([]byte(b), &e) != nil || e.Error == nil || len(e.DirectoryResponse) > 0 {
		return 0, false
	}
	return *e.Error, true
}

func c26handle(c *Ctx, r *rand.Rand) {
	dir, err := os.MkdirTemp(c.Dir, "b")
	c.Must(err)
	defer os.RemoveAll(dir)
	d := &recDir{path: filepath.Join(dir, "coniks.sock")}
	d.become(c, dirAnswers, nil)
	defer func() {
		if d.l != nil {
			d.l.Close()
		}
	}()
	bot, end := c26bot(c, dir, d.path, &account{handle: "bot" + c26handleName(r), status: 200, old: r.Intn(3)})
	defer end()
	all := []string{"alice", "bob"}
	for i := 0; i < 6; i++ {
		all = append(all, c26handleName(r))
	}
	success, _ := application.MarshalResponse(&protocol.Response{Error: protocol.ReqSuccess, DirectoryResponse: &protocol.DirectoryProof{}})
	for i := 0; i < 300; i++ {
		kind := dirAnswers
		if i >= 220 {
			kind = r.Intn(dirKinds)
		}
		ans := append([]byte(nil), success...)
		switch r.Intn(6) {
		case 0:
			ans = randBytes(r, 1+r.Intn(5000))
		case 1:
			ans = []byte(fmt.Sprintf(`{"Error":%d}`, protocol.ReqNameExisted))
		case 2:
			ans = bytes.Repeat(ans, 1+r.Intn(400))
		case 3:
			ans = append(ans, "\n"...)
		}
		if i%97 == 0 {
			ans = bytes.Repeat(randBytes(r, 1024), 200+r.Intn(3000))
		}
		d.become(c, kind, ans)
		sender := all[r.Intn(len(all))]
		msg, how := c26message(r, sender, all)
		keep := append([]byte(nil), msg...)
		var res string
		guarded(c, "HandleRegistration", msg, how, func() { res = bot.HandleRegistration(sender, msg) })
		conns, got := d.recorded()
		judge := c26judge(sender, keep)
		detail := fmt.Sprintf("sender %q, directory %s, message (%s) %s: %d connections, %d messages, answer %s", sender, dirNames[kind], how, clip(string(keep), 300), conns, len(got), clip(res, 200))
		c.Check(bytes.Equal(msg, keep), "the bot changed the sender's message", "%s", detail)
		code, isErr := c26error(res)
		c.Count("messages", 1)
		c.Eval(1)
		malformed := isErr && code == protocol.ErrMalformedMessage
		switch {
		case judge == mustRefuse:
			c.Check(conns == 0, "the bot forwarded what isn't the sender's own registration", "%s", detail)
			c.Check(malformed, "what isn't the sender's own registration isn't answered as malformed", "%s", detail)
			c.Count("refused", 1)
			c.Distinct("refused", how)
			continue
		case judge == mayForward && malformed && conns == 0:
			c.Count("ambiguous, refused", 1)
			continue
		}
		// forwarded
		c.Check(conns <= 1, "the bot forwarded a registration twice", "%s", detail)
		c.Count("forwarded", 1)
		c.Distinct("forwarded", how, kind)
		if kind < dirDown {
			c.Check(conns == 1, "the bot doesn't forward the sender's own registration", "%s", detail)
		}
		if kind == dirAnswers || kind == dirSlow || kind == dirHangsUp {
			c.Check(len(got) == 1 && bytes.Equal(got[0], keep), "the bot forwards a registration altered", "%s; got %s", detail, clip(fmt.Sprintf("%q", got), 300))
		}
		failed := isErr && code == protocol.ErrDirectory
		switch kind {
		case dirAnswers, dirSlow:
			c.Check(res == string(ans), "the bot doesn't relay the directory's answer unchanged", "%s; the directory sent %d bytes %s", detail, len(ans), clip(string(ans), 200))
			if len(ans) > 100000 {
				c.Count("large answers", 1)
			}
			if d2, ok := asciiLower(sender); ok {
				c.Distinct("own", d2)
			}
		case dirHangsUp, dirDown, dirGone, dirFile, dirAborts:
			c.Check(failed, "a failure of the directory isn't reported as an error", "%s", detail)
			c.Count("directory failures", 1)
		case dirEarly:
			c.Check(failed || res == string(ans), "a failure of the directory isn't reported as an error", "%s", detail)
			c.Count("directory failures", 1)
		case dirPartial:
			c.Check(failed || res == string(ans[:len(ans)/2]), "a failure of the directory isn't reported as an error", "%s", detail)
			c.Count("directory failures", 1)
		}
	}
}

// c26server puts bots in front of a real server: who can register what?
func c26server(c *Ctx, r *rand.Rand) {
	s := newSrv(c, r, []addrSpec{{false, true}, {false, false}}, 10, longDeadline(c, 7))
	defer s.remove()
	s.start()
	defer s.s.Shutdown()
	bot, end := c26bot(c, s.dir, s.addrs[0].path, &account{handle: "thebot", status: 200})
	defer end()
	all := []string{"alice", "bob", "carol"}
	for i := 0; i < 5; i++ {
		all = append(all, c26handleName(r))
	}
	names := map[string]bool{}
	for _, h := range all {
		for i := 0; i < 6; i++ {
			n, _ := c26name(r, h, all)
			names[n] = true
		}
		names[strings.ToLower(h)+"@twitter"] = true
		names[h+"@twitter"] = true
	}
	// victims never send anything
	victims := all[:3]
	senders := all[3:]
	keys := map[string][]string{} // keys successfully registered, by answer
	for i := 0; i < 120; i++ {
		sender := senders[r.Intn(len(senders))]
		msg, how := c26message(r, sender, all)
		var res string
		guarded(c, "HandleRegistration", msg, how, func() { res = bot.HandleRegistration(sender, msg) })
		var a struct{ Error protocol.ErrorCode }
		if json.Unmarshal([]byte(res), &a) == nil && a.Error == protocol.ReqSuccess {
			keys[sender] = append(keys[sender], string(msg))
			c.Check(c26judge(sender, msg) != mustRefuse, "the bot registered what isn't the sender's own name", "sender %q message %s", sender, clip(string(msg), 300))
			c.Count("registered through the bot", 1)
		}
		if i%40 == 39 {
			if e, ok := s.epoch(s.addrs[1]); ok {
				s.waitEpoch(s.addrs[1], e+1)
			}
		}
		c.Eval(1)
	}
	for n := range names {
		res := s.ask(s.addrs[1], protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: n})
		c.Check(res != nil, "a lookup isn't answered", "%q", n)
		if res.Error != protocol.ReqSuccess {
			continue
		}
		c.Count("names registered", 1)
		ok := false
		for _, h := range senders {
			ok = ok || strings.EqualFold(h+"@twitter", n)
		}
		c.Check(ok, "a name was registered that is none of the senders'", "%q by %q", n, senders)
		c.Eval(1)
	}
	for _, v := range victims {
		c.Distinct("victim", v, s.hist)
	}
}

// c26refuse starts bots that must not start.
func c26refuse(c *Ctx, r *rand.Rand) {
	dir, err := os.MkdirTemp(c.Dir, "b")
	c.Must(err)
	defer os.RemoveAll(dir)
	sock := filepath.Join(dir, "sock")
	l, err := net.Listen("unix", sock)
	c.Must(err)
	defer l.Close()
	for i := 0; i < 5; i++ {
		a := &account{handle: "x" + c26handleName(r), status: 200}
		handle, addr := a.handle, sock
		kind := r.Intn(4)
		switch kind {
		case 0:
			a.status = []int{401, 403, 404, 429, 500, 503}[r.Intn(6)]
		case 1:
			handle = []string{handle + "x", handle[1:], "y" + handle[1:], ""}[r.Intn(4)]
		case 2:
			addr = filepath.Join(dir, "missing")
		}
		tok := c26service.add(a)
		if kind == 3 {
			c26service.remove(tok)
		}
		var bot bots.Bot
		guarded(c, "NewTwitterBot", nil, fmt.Sprint("kind ", kind), func() { bot, err = bots.NewTwitterBot(c26config(dir, addr, handle, tok)) })
		c26service.remove(tok)
		c.Check(err != nil && bot == nil, "a bot starts without its directory or its account", "kind %d status %d handle %q of %q: %v", kind, a.status, handle, a.handle, err)
		c.Count("bots refused", 1)
		c.Distinct("refuse", kind, a.status)
		c.Eval(1)
	}
}

// c26dms runs bots that get direct messages. The bot waits some seconds
// before it answers one.
func c26dms(c *Ctx, r *rand.Rand) {
	type dm struct {
		sender, text, how string
		judge             int
		prefix            bool
	}
	type run struct {
		a    *account
		d    *recDir
		dms  []dm
		ans  []byte
		dir  string
		fail string
	}
	const prefix = "?CONIKS?"
	n := c.N(8, 40)
	runs := make([]*run, n)
	for i := range runs {
		dir, err := os.MkdirTemp(c.Dir, "d")
		c.Must(err)
		defer os.RemoveAll(dir)
		u := &run{dir: dir, a: &account{handle: "Bot" + c26handleName(r), status: 200, old: r.Intn(4)},
			d: &recDir{path: filepath.Join(dir, "s")}}
		u.ans = []byte(fmt.Sprintf(`{"Error":%d,"DirectoryResponse":{"n":"%x"}}`, protocol.ReqSuccess, randBytes(r, []int{4 + r.Intn(3000), 4 + r.Intn(3000), 6000 + r.Intn(100000)}[i%3])))
		u.d.become(c, dirAnswers, u.ans)
		handles := []string{"alice", c26handleName(r), "Bob_" + c26handleName(r)}
		for k, answered := 0, 0; k < 40 && answered < 3; k++ {
			s := handles[r.Intn(len(handles))]
			b, how := c26message(r, s, handles)
			if answered == 0 && k < 30 && c26judge(s, b) != mustForward || answered == 1 && k < 30 && c26judge(s, b) != mustRefuse || len(b) > 9000 {
				continue
			}
			if answered == 0 && i%2 == 1 {
				b, how = []byte(fmt.Sprintf(`{"Type":0,"Request":{"Username":"%s@twitter","Key":"%s"}}`, strings.ToLower(s),
					base64.StdEncoding.EncodeToString(randBytes(r, 1000+r.Intn(5000))))), "large"
			}
			x := dm{s, prefix + string(b), how, c26judge(s, b), true}
			if answered > 0 {
				switch (i + answered) % 3 {
				case 0:
					x.text, x.how = prefix+x.text, "prefix twice"
				case 1:
					x.text, x.how = fmt.Sprintf(`%s{"Type":0,"Request":{"Username":"%s@twitter","Key":"AAAA","Note":"a%sb"}}`, prefix, strings.ToLower(s), prefix), "prefix in a member"
				}
			}
			// what goes through the service is text
			t, _ := json.Marshal(x.text)
			json.Unmarshal(t, &x.text)
			x.judge = c26judge(s, []byte(strings.TrimPrefix(x.text, prefix)))
			answered++
			u.dms = append(u.dms, x)
			switch r.Intn(3) {
			case 0: // the bot's own message
				u.dms = append(u.dms, dm{u.a.handle, prefix + strings.Replace(string(b), strings.ToLower(s), strings.ToLower(u.a.handle), 1), "own message", mustRefuse, false})
			case 1:
				t := string(b)
				if strings.HasPrefix(t, prefix) {
					t = " " + t
				}
				u.dms = append(u.dms, dm{s, t, "without prefix", mustRefuse, false})
			case 2:
				u.dms = append(u.dms, dm{s, "hello " + prefix + string(b), "prefix inside", mustRefuse, false})
			}
		}
		runs[i] = u
	}
	var mu sync.Mutex
	fails := []string{}
	parallel(len(runs), len(runs), func(i int) {
		u := runs[i]
		pr, pw := io.Pipe()
		u.a.stream = pr
		tok := c26service.add(u.a)
		defer c26service.remove(tok)
		bot, err := bots.NewTwitterBot(c26config(u.dir, u.d.path, u.a.handle, tok))
		if err != nil {
			u.fail = err.Error()
			return
		}
		bot.Run()
		want := 0
		for k, m := range u.dms {
			b, _ := json.Marshal(map[string]interface{}{"direct_message": map[string]interface{}{"id": 100 + k, "sender_screen_name": m.sender,
				"recipient_screen_name": u.a.handle, "text": m.text}})
			pw.Write(append(b, "\r\n"...))
			if !m.prefix {
				continue
			}
			want++
			for t := 0; t < 1200; t++ { // a missing answer is judged below
				u.a.mu.Lock()
				got := len(u.a.sent)
				u.a.mu.Unlock()
				if got >= want {
					break
				}
				c.Tick()
				time.Sleep(50 * time.Millisecond)
			}
		}
		time.Sleep(100 * time.Millisecond)
		func() {
			defer func() {
				if p := recover(); p != nil {
					mu.Lock()
					fails = append(fails, fmt.Sprint(p))
					mu.Unlock()
				}
			}()
			bot.Stop()
		}()
		pw.Close()
		if u.d.l != nil {
			u.d.l.Close()
		}
	})
	c.Check(len(fails) == 0, "the bot doesn't stop", "%v", fails)
	for _, u := range runs {
		c.Check(u.fail == "", "a bot with valid credentials doesn't start", "%s", u.fail)
		_, got := u.d.recorded()
		u.a.mu.Lock()
		sent := u.a.sent
		u.a.mu.Unlock()
		k, f := 0, 0
		for _, m := range u.dms {
			if !m.prefix {
				c.Count("direct messages ignored", 1)
				continue
			}
			c.Check(k < len(sent), "a registration sent to the bot isn't answered", "%s by %q to %q (%s)", clip(m.text, 300), m.sender, u.a.handle, m.how)
			a := sent[k]
			k++
			c.Check(a.to == m.sender, "the bot answers somebody else", "%q instead of %q", a.to, m.sender)
			c.Check(strings.HasPrefix(a.text, prefix), "the bot's answer lacks the prefix", "%s", clip(a.text, 100))
			code, isErr := c26error(strings.TrimPrefix(a.text, prefix))
			refused := isErr && code == protocol.ErrMalformedMessage
			if m.judge == mustRefuse || m.judge == mayForward && refused {
				c.Check(refused, "what isn't the sender's own registration isn't answered as malformed", "%s by %q: %s", clip(m.text, 300), m.sender, clip(a.text, 200))
			} else {
				c.Check(a.text == prefix+string(u.ans), "the bot doesn't relay the directory's answer unchanged", "%s by %q: %s", clip(m.text, 300), m.sender, clip(a.text, 200))
				c.Check(f < len(got) && string(got[f]) == strings.TrimPrefix(m.text, prefix), "the bot forwards a registration altered", "%s by %q", clip(m.text, 300), m.sender)
				f++
				c.Count("direct messages forwarded", 1)
			}
			c.Count("direct messages", 1)
			c.Distinct("dm", m.how)
			c.Eval(1)
		}
		c.Check(k == len(sent), "the bot answers what it must ignore", "%d answers, %d expected", len(sent), k)
		c.Check(f == len(got), "the bot forwarded what it must not", "%d forwarded, %d expected", len(got), f)
	}
}
