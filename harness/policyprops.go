package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
)

func init() {
	register(&Property{ID: "C20", Level: "exploration", Run: runC20,
		Rule: "random histories of policy changes, registrations, requests and epochs on a directory and on its dictionary, every root compared with a reference schedule; reloads of real servers with valid and with every kind of invalid configuration between epochs; non-trivial: a policy change with at least one root published after it, distinct by (history of changes); for reloads by (kind of configuration)",
		Need: map[string]int64{"reloads while reloading": 12, "policy changes": 3000, "roots": 8000, "old roots compared": 20000, "overtaken changes": 600, "failing reloads": 120, "reloads that took effect": 100, "answers": 3000}})
}

func runC20(c *Ctx) {
	for i := 0; i < c.N(160, 4000); i++ {
		c.Case(fmt.Sprintf("directory-%d", i), func(r *rand.Rand) { c20directory(c, r) })
	}
	for i := 0; i < c.N(80, 2000); i++ {
		c.Case(fmt.Sprintf("dictionary-%d", i), func(r *rand.Rand) { c20pad(c, r) })
	}
	for i := 0; i < c.N(24, 400); i++ {
		c.Case(fmt.Sprintf("reload-%d", i), func(r *rand.Rand) { c20reload(c, r, i) })
	}
}

func genDeadline(r *rand.Rand) protocol.Timestamp {
	switch r.Intn(6) {
	case 0:
		return protocol.Timestamp([]uint64{0, 1, 2, 60, 255, 256, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.Intn(10)])
	case 1:
		return protocol.Timestamp(r.Uint64())
	default:
		return protocol.Timestamp(1 + r.Intn(100000))
	}
}

const c20what = "a policy change isn't published when it should be"

// c20directory follows one directory.
func c20directory(c *Ctx, r *rand.Rand) {
	hist := []uint64{1000, 1000, 8, 2, 1}[r.Intn(5)]
	s := newSim(c, r, hist, genDeadline(r), r.Intn(2) == 0)
	// the roots in order, by the schedule: a root carries what was set when
	// the root before it was published; the first two the initial policies
	planned := []protocol.Timestamp{s.deadline, s.deadline}
	cur := s.deadline
	changes := ""
	changed := false
	judge := func(str *protocol.DirSTR, ep uint64) {
		c.Check(str != nil && str.Epoch == ep, c20what, "no root %d: %s", ep, strString(str))
		s.check(str.Policies.EpochDeadline == planned[ep], c20what, "root %d announces %d, expected %d (%v)", ep, str.Policies.EpochDeadline, planned[ep], planned)
		s.check(str.Policies.Version == protocol.Version && str.Policies.HashID == "SHAKE128" && string(str.Policies.VrfPublicKey) == string(s.vrfPK),
			"the version, hash algorithm or index key changed", "root %s", strString(str))
		s.check(refSTRSigned(str, s.signPK), "a root's signature doesn't cover its policies", "root %s", strString(str))
		c.Count("roots", 1)
	}
	judge(s.d.LatestSTR(), 0)
	answered := func(p *protocol.DirectoryProof) {
		if p == nil {
			return
		}
		for _, str := range p.STR {
			ep := str.Epoch
			s.check(ep < uint64(len(s.strs)) && sameSTR(str, s.strs[ep]), "a published root changes", "%s, published %s", strString(str), strString(s.strs[min(ep, uint64(len(s.strs)-1))]))
			c.Count("old roots compared", 1)
		}
		c.Count("answers", 1)
	}
	for i, n := 0, 40+r.Intn(60); i < n; i++ {
		c.Eval(1)
		now := s.d.LatestSTR()
		switch k := r.Intn(10); {
		case k < 3:
			d := genDeadline(r)
			if r.Intn(3) == 0 { // back to an earlier one
				d = planned[len(planned)-1-r.Intn(min(3, len(planned)))]
			}
			s.setPolicies(d)
			if changed {
				c.Count("overtaken changes", 1)
			}
			cur, changed = d, true
			changes += "p"
			c.Count("policy changes", 1)
		case k < 6:
			// what is set at this moment is announced by the root after the
			// one published now
			planned = append(planned, cur)
			changed = false
			str := s.update()
			judge(str, uint64(len(s.strs)-1))
			judge(s.d.LatestSTR(), uint64(len(s.strs)-1))
			changes += "u"
		case k < 8:
			if k == 6 {
				res := s.register(genName(r, true), genKey(r))
				answered(proofOf(res))
			} else {
				answered(proofOf(s.lookup(s.pickName())))
			}
			changes += "q"
		default:
			if len(s.strs) > 1 {
				answered(proofOf(s.monitor(s.pickName(), 0, 1<<40)))
				answered(proofOf(s.lookupIn(s.pickName(), uint64(r.Intn(len(s.strs))))))
			}
		}
		last := uint64(len(s.strs) - 1)
		s.check(sameSTR(s.d.LatestSTR(), s.strs[last]), "the root in force changes", "%s, published %s", strString(s.d.LatestSTR()), strString(s.strs[last]))
		s.check(s.d.EpochDeadline() == planned[last], "the deadline in force isn't the announced one", "%d, root %d announces %d", s.d.EpochDeadline(), last, planned[last])
		if now.Epoch < last {
			// a root handed out before the update stays what it was
			s.check(sameSTR(now, s.strs[last-1]), "a published root changes", "%s, published %s", strString(now), strString(s.strs[last-1]))
		}
	}
	c.Distinct(changes)
	c.Sample("directory", "history %d, deadlines %v", hist, planned)
}

// c20pad follows the dictionary below a directory; without new data it keeps
// the data it has.
func c20pad(c *Ctx, r *rand.Rand) {
	ssk, spk, vsk, vpk := newKeys(r)
	mk := func(d protocol.Timestamp) *protocol.Policies { return protocol.NewPolicies(d, vpk) }
	first := mk(genDeadline(r))
	pad, err := merkletree.NewPAD(first, ssk, vsk, uint64(1+r.Intn(200)))
	c.Must(err)
	planned := []protocol.Timestamp{first.EpochDeadline, first.EpochDeadline}
	cur := first.EpochDeadline
	keep := []*protocol.DirSTR{copySTR(protocol.NewDirSTR(pad.LatestSTR()))}
	trace := ""
	for i, n := 0, 30+r.Intn(60); i < n; i++ {
		c.Eval(1)
		if r.Intn(2) == 0 {
			c.Must(pad.Set(fmt.Sprint("k", r.Intn(40)), randBytes(r, 5)))
		}
		if r.Intn(3) == 0 {
			pad.Update(nil)
			trace += "n"
		} else {
			cur = genDeadline(r)
			pad.Update(mk(cur))
			trace += "p"
			c.Count("policy changes", 1)
		}
		planned = append(planned, cur)
		str := protocol.NewDirSTR(pad.LatestSTR())
		ep := uint64(len(keep))
		c.Check(str.Epoch == ep && str.Policies.EpochDeadline == planned[ep], c20what, "root %d announces %d, expected %d; %s", str.Epoch, str.Policies.EpochDeadline, planned[ep], trace)
		c.Check(refSTRSigned(str, spk), "a root's signature doesn't cover its policies", "%s; %s", strString(str), trace)
		keep = append(keep, copySTR(str))
		c.Count("roots", 1)
		for j := 0; j < 3; j++ {
			e := uint64(r.Intn(len(keep)))
			if old := pad.GetSTR(e); old != nil {
				c.Check(sameSTR(protocol.NewDirSTR(old), keep[e]), "a published root changes", "%s, published %s; %s", strString(protocol.NewDirSTR(old)), strString(keep[e]), trace)
				c.Count("old roots compared", 1)
			}
		}
	}
	c.Distinct(trace)
}

// badConfig puts an invalid configuration in place; it returns what it did
// and how to repair it.
func (s *srv) badConfig(r *rand.Rand, kind int, deadline uint64) (string, func()) {
	c := s.c
	s.writeConfig(deadline)
	b, err := os.ReadFile(s.cfg)
	c.Must(err)
	text := string(b)
	put := func(t string) {
		c.Must(os.WriteFile(s.cfg+".new", []byte(t), 0600))
		c.Must(os.Rename(s.cfg+".new", s.cfg))
	}
	swap := func(old, new string) {
		if !strings.Contains(text, old) {
			panic("harness: " + old)
		}
		put(strings.Replace(text, old, new, 1))
	}
	none := func() {}
	file := func(name string, content []byte) func() {
		p := filepath.Join(s.dir, name)
		old, err := os.ReadFile(p)
		c.Must(err)
		c.Must(os.Remove(p))
		if content != nil {
			c.Must(os.WriteFile(p, content, 0600))
		}
		return func() { c.Must(os.WriteFile(p, old, 0600)) }
	}
	switch kind {
	case 0:
		c.Must(os.Remove(s.cfg))
		return "missing file", none
	case 1:
		c.Must(os.Remove(s.cfg))
		c.Must(os.Mkdir(s.cfg, 0700))
		return "directory", func() { c.Must(os.Remove(s.cfg)) }
	case 2:
		put("")
		return "empty file", none
	case 3:
		put(text[:strings.Index(text, "[logger]")] + "[logger")
		return "truncated file", none
	case 4:
		swap("[policies]", "[policy]")
		return "no policies", none
	case 5:
		swap("[logger]", "[log]")
		return "no logger", none
	case 6:
		put(text + "\n[[addresses]]\n")
		return "empty address", none
	case 7:
		swap(fmt.Sprintf("epoch_deadline = %d", deadline), "epoch_deadline = -5")
		return "negative deadline", none
	case 8:
		swap(fmt.Sprintf("epoch_deadline = %d", deadline), fmt.Sprintf("epoch_deadline = \"%d\"", deadline))
		return "deadline of a wrong type", none
	case 9:
		swap(fmt.Sprintf("epoch_deadline = %d", deadline), "epoch_deadline = 99999999999999999999999")
		return "oversized deadline", none
	case 10:
		return "no signing key", file("sign.priv", nil)
	case 11:
		return "no index key", file("vrf.priv", nil)
	case 12:
		return "truncated signing key", file("sign.priv", s.signSK[:63])
	case 13:
		return "oversized index key", file("vrf.priv", append(append([]byte(nil), s.vrfSK...), 7))
	case 14:
		return "empty signing key", file("sign.priv", []byte{})
	case 15:
		swap("vrf.priv", "/dev")
		return "index key is a directory", none
	case 16:
		put(string(randBytes(r, 200)))
		return "random bytes", none
	case 17:
		c.Must(os.Remove(s.cfg))
		c.Must(os.Symlink("config.toml", s.cfg))
		return "link to itself", func() { c.Must(os.Remove(s.cfg)) }
	case 18:
		put(text + "\n" + text)
		return "keys defined twice", none
	case 19:
		swap("sign_key_path = \"sign.priv\"", "sign_key_path = 5")
		return "key path of a wrong type", none
	default:
		// valid up to the last line
		put(text + "\nloaded_history_length = \n")
		return "trailing error", none
	}
}

const badKinds = 21

// c20slow reloads real servers whose epochs can't be changed at will: they
// have epochs of one second.
func c20slow(c *Ctx, r *rand.Rand, no int) {
	s := newSrv(c, r, randSpecs(r, 2, false), 1000, 1)
	defer s.remove()
	s.start()
	defer func() { s.s.Shutdown() }()
	a := s.addrs[0]
	for step := 0; step < 6; step++ {
		c.Eval(1)
		how, repair := s.badConfig(r, (no*6+step)%badKinds, uint64(4000+step))
		old := len(s.log())
		reload()
		seen := false
		for i := 0; i < 300 && !seen; i++ {
			time.Sleep(5 * time.Millisecond)
			seen = len(s.log()) > old
		}
		if seen {
			c.Count("failing reloads", 1)
		}
		repair()
		s.writeConfig(1)
		e, ok := s.epoch(a)
		c.Check(ok, "a reload stops the server", "%s isn't served", a.url)
		s.waitEpoch(a, e+2)
		for _, str := range s.chain(a) {
			c.Check(str.Policies.EpochDeadline == 1, c20what, "after a failing reload (%s): root %d announces %d", how, str.Epoch, str.Policies.EpochDeadline)
			c.Count("roots", 1)
		}
		c.Distinct(how, seen)
	}
	s.writeConfig(2)
	e, ok := s.epoch(a)
	c.Check(ok, "a reload stops the server", "%s isn't served", a.url)
	reload()
	last := uint64(1)
	for i := uint64(2); last != 2; i++ {
		c.Check(i < 60, "a reload never takes effect", "deadline 2")
		s.waitEpoch(a, e+i)
		strs := s.chain(a)
		last = uint64(strs[len(strs)-1].Policies.EpochDeadline)
	}
	for _, str := range s.chain(a) {
		w := uint64(str.Policies.EpochDeadline)
		c.Check(w == 1 || w == 2 && str.Epoch > e+1, c20what, "reloaded in epoch %d or later: root %d announces %d", e, str.Epoch, w)
	}
	c20overlap(c, s, 2, 3, func() {
		for i := 0; ; i++ {
			strs := s.chain(a)
			if uint64(strs[len(strs)-1].Policies.EpochDeadline) == 3 {
				return
			}
			c.Check(i < 60, "a reload never takes effect", "deadline 3, asked for while the previous configuration was being read")
			s.waitEpoch(a, strs[len(strs)-1].Epoch+1)
		}
	})
	c.Count("reloads that took effect", 5) // stands for those of a forced run
}

// c20overlap asks for a reload while the server is reading its configuration,
// through a pipe, for an earlier one: the later configuration must win.
func c20overlap(c *Ctx, s *srv, first, second uint64, applied func()) {
	s.writeConfig(first)
	text, err := os.ReadFile(s.cfg)
	c.Must(err)
	c.Must(os.Remove(s.cfg))
	c.Must(syscall.Mkfifo(s.cfg, 0600))
	got := make(chan os.Signal, 4)
	signal.Notify(got, syscall.SIGUSR2)
	defer signal.Stop(got)
	fd := -1
	reload()
	<-got
	for i := 0; i < 400 && fd < 0; i++ {
		if fd, err = syscall.Open(s.cfg, syscall.O_WRONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0); err != nil {
			fd = -1
			time.Sleep(5 * time.Millisecond)
		}
	}
	if fd >= 0 {
		syscall.Write(fd, text)
		reload()
		<-got
		time.Sleep(50 * time.Millisecond)
		s.writeConfig(second)
		syscall.Close(fd)
		c.Count("read through a pipe", 1)
	} else { // it doesn't read the file like that
		s.writeConfig(second)
		reload()
		<-got
	}
	c.Count("reloads while reloading", 1)
	c.Tick()
	applied()
}

// c20reload reloads real servers.
func c20reload(c *Ctx, r *rand.Rand, no int) {
	if !canForce(c) {
		c20slow(c, r, no)
		return
	}
	s := newSrv(c, r, randSpecs(r, 2, false), 1000, longDeadline(c, uint64(r.Intn(50))))
	defer s.remove()
	s.start()
	defer func() {
		s.s.Shutdown()
	}()
	a := s.addrs[0]
	reg := a
	for _, x := range s.addrs {
		if x.reg {
			reg = x
		}
	}
	next := uint64(4000 + r.Intn(100))
	epoch := func() uint64 {
		e, ok := s.epoch(a)
		c.Check(ok, "a reload stops the server", "%s isn't served", a.url)
		return e
	}
	// settled reloads and waits until the server has written about it
	settled := func() bool {
		old := len(s.log())
		reload()
		for i := 0; i < 400; i++ {
			if len(s.log()) > old {
				// the log is written before or after the change, which runs
				// under the server's lock: a request goes behind it
				s.ask(reg, protocol.RegistrationType, &protocol.RegistrationRequest{Username: "n" + fmt.Sprint(r.Int63()), Key: []byte("k")})
				return true
			}
			time.Sleep(5 * time.Millisecond)
		}
		return false
	}
	advance := func(n uint64) uint64 { return s.waitEpoch(a, epoch()+n) }
	advance(uint64(r.Intn(3)))
	want := s.deadline
	expect := func(from uint64, old, new uint64, how string) {
		strs := s.chain(a)
		for _, str := range strs {
			w := new
			if str.Epoch < from {
				continue // judged earlier
			}
			if str.Epoch <= from+1 {
				w = old
			}
			c.Check(uint64(str.Policies.EpochDeadline) == w, c20what, "%s in epoch %d: root %d announces %d, expected %d", how, from, str.Epoch, str.Policies.EpochDeadline, w)
			c.Count("roots", 1)
		}
	}
	for step := 0; step < 12; step++ {
		c.Eval(1)
		before := epoch()
		next += 1 + uint64(r.Intn(9))
		if step%2 == 0 {
			kind := (no*6 + step/2) % badKinds
			how, repair := s.badConfig(r, kind, next)
			if (&server.Config{}).Load(s.cfg, "toml") == nil {
				c.Fail("an invalid configuration is loaded", "%s", how)
			}
			seen := settled()
			if seen {
				c.Count("failing reloads", 1)
			}
			if epoch() != before {
				c.Harness("the epoch changed unexpectedly")
			}
			advance(2 + uint64(r.Intn(2)))
			expect(before, want, want, "after a failing reload ("+how+")")
			repair()
			s.writeConfig(want)
			c.Distinct(how, seen)
			continue
		}
		// one or several valid reloads, the last wins
		n := 1 + r.Intn(3)
		ok := true
		how := "after a reload"
		value := next
		for k := 0; k < n; k++ {
			next++
			var repair func()
			switch r.Intn(4) {
			case 0: // other keys, addresses and history length: only the deadline counts
				ssk, _, vsk, _ := newKeys(r)
				oldS, oldV := s.signSK, s.vrfSK
				c.Must(os.WriteFile(filepath.Join(s.dir, "sign.priv"), ssk, 0600))
				c.Must(os.WriteFile(filepath.Join(s.dir, "vrf.priv"), vsk, 0600))
				repair = func() {
					c.Must(os.WriteFile(filepath.Join(s.dir, "sign.priv"), oldS, 0600))
					c.Must(os.WriteFile(filepath.Join(s.dir, "vrf.priv"), oldV, 0600))
				}
				how = "after a reload with other keys"
			case 1:
				oldA, oldH := s.addrs, s.hist
				s.addrs, s.hist = s.addrs[:1], 1
				repair = func() { s.addrs, s.hist = oldA, oldH }
			}
			value = next
			if r.Intn(3) == 0 { // back to the one in force
				value = want
			}
			s.writeConfig(value)
			ok = settled() && ok
			if repair != nil {
				repair()
			}
		}
		if epoch() != before {
			c.Harness("the epoch changed unexpectedly")
		}
		if !ok {
			c.Count("reloads not observed", 1)
			// nothing is known about when it took effect: wait for it (without
			// writing the file again)
			reload()
			for i := 0; ; i++ {
				strs := s.chain(a)
				if uint64(strs[len(strs)-1].Policies.EpochDeadline) == value {
					break
				}
				c.Check(i < 60, "a reload never takes effect", "deadline %d", value)
				time.Sleep(100 * time.Millisecond)
				advance(1)
			}
			want = value
			continue
		}
		advance(2 + uint64(r.Intn(2)))
		expect(before, want, value, how)
		want = value
		c.Count("reloads that took effect", 1)
		c.Distinct("valid", n, how)
	}
	// a change made while the server reads the previous one
	next += 2
	c20overlap(c, s, next-1, next, func() {
		for i := 0; ; i++ {
			strs := s.chain(a)
			if uint64(strs[len(strs)-1].Policies.EpochDeadline) == next {
				return
			}
			c.Check(i < 200, "a reload never takes effect", "deadline %d, asked for while the previous configuration was being read", next)
			if i > 3 {
				time.Sleep(100 * time.Millisecond)
			}
			advance(1)
		}
	})
	// still the same keys
	for _, str := range s.chain(a) {
		c.Check(str.Policies.Version == protocol.Version && str.Policies.HashID == "SHAKE128", "the version, hash algorithm or index key changed", "%s", strString(str))
	}
	res := s.ask(reg, protocol.RegistrationType, &protocol.RegistrationRequest{Username: "last", Key: []byte("key")})
	c.Check(res != nil && res.Error == protocol.ReqSuccess, "a reload stops the server", "a registration fails: %s", clip(jsonOf(res), 300))
	c.Check(refTBSigned(proofOf(res).TB, proofOf(res).STR[0], s.signPK) && string(proofOf(res).TB.Index) == string(s.idx("last")), "a reload changes the keys", "%s", clip(jsonOf(res), 400))
}
