package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/protocol/auditor"
)

func init() {
	register(&Property{ID: "C08", Level: "exploration", Run: runC08,
		Rule: "chains and forks signed by a directory that holds the key; batches of 1..8 roots, honest or with one of 20 kinds of defect at every position, given to AuditDirectory and to the audit log in long histories of accepted and rejected batches; every verdict compared with the specified rule; non-trivial: a batch that some single condition makes unacceptable, distinct by (kind, position, length, offset)",
		Need: map[string]int64{"accepted": 1500, "rejected": 4000, "single defects": 1000, "state compared": 5000}})
	register(&Property{ID: "C09", Level: "exploration", Run: runC09,
		Rule: "random interleavings of initialisations, honest and defective audits and range requests over several directories (also with the same key or the same address), compared with a list per directory; non-trivial: a log with at least two directories and a rejected batch, distinct by operation list",
		Need: map[string]int64{"ranges": 3000, "refused": 1500, "rejected audits": 300, "refused initialisations": 100}})
}

// chain is a line of roots of one evil directory.
func (e *evilDir) chain(n int) []*protocol.DirSTR {
	strs := []*protocol.DirSTR{e.str(0, 0, randBytes(e.r, 32), randBytes(e.r, 32), e.policies(60))}
	for len(strs) < n {
		strs = append(strs, e.succ(strs[len(strs)-1]))
	}
	return strs
}

// succ is a fresh valid successor.
func (e *evilDir) succ(prev *protocol.DirSTR) *protocol.DirSTR {
	return e.str(prev.Epoch+1, prev.Epoch, randBytes(e.r, 32), refDigest(prev.Signature), e.policies(uint64(60+e.r.Intn(3))))
}

// refBatch is the specification of a linear, validly signed extension.
func refBatch(verified *protocol.DirSTR, strs []*protocol.DirSTR, e *evilDir) bool {
	if len(strs) == 0 {
		return false
	}
	prev := verified
	for i, s := range strs {
		if s == nil || s.SignedTreeRoot == nil || s.Policies == nil {
			return false
		}
		if i == 0 && sameSTR(s, verified) {
			prev = s
			continue
		}
		if !refLinks(prev, s) || !refSTRSigned(s, e.signPK) {
			return false
		}
		prev = s
	}
	return true
}

func copySTRs(in []*protocol.DirSTR) []*protocol.DirSTR {
	out := make([]*protocol.DirSTR, len(in))
	for i, s := range in {
		out[i] = copySTR(s)
	}
	return out
}

var otherEvil = newEvil(rand.New(rand.NewSource(77)))

// spoil breaks a batch at position i in one way; hist is the chain so far.
func (e *evilDir) spoil(batch, hist []*protocol.DirSTR, kind, i int) ([]*protocol.DirSTR, string) {
	b := copySTRs(batch)
	r := e.r
	resign := func(s *protocol.DirSTR) { e.sign(s, e.signSK) }
	relink := func(from int) {
		for j := from; j < len(b); j++ {
			b[j].PreviousSTRHash = refDigest(b[j-1].Signature)
			resign(b[j])
		}
	}
	switch kind {
	case 0:
		b[i].Signature = flip(r, b[i].Signature)
		return b, "signature"
	case 1:
		b[i].TreeHash = flip(r, b[i].TreeHash)
		return b, "tree hash, not signed again"
	case 2: // a fork inside the batch: valid signature, but the successor links to the original
		b[i].TreeHash = flip(r, b[i].TreeHash)
		resign(b[i])
		return b, "one root replaced and signed"
	case 3:
		b[i].PreviousSTRHash = flip(r, b[i].PreviousSTRHash)
		resign(b[i])
		return b, "previous hash, signed, successors not linked again"
	case 4:
		b[i].PreviousSTRHash = flip(r, b[i].PreviousSTRHash)
		resign(b[i])
		if i+1 < len(b) {
			relink(i + 1)
		}
		return b, "previous hash, signed and linked again"
	case 5:
		b[i].Epoch++
		resign(b[i])
		if i+1 < len(b) {
			relink(i + 1)
		}
		return b, "epoch + 1, signed"
	case 6:
		for j := i; j < len(b); j++ { // skip an epoch, otherwise consistent
			b[j].Epoch++
			b[j].PreviousEpoch++
			if j > 0 {
				b[j].PreviousSTRHash = refDigest(b[j-1].Signature)
			}
			resign(b[j])
		}
		return b, "an epoch is skipped, signed and linked"
	case 7:
		b[i].PreviousEpoch = b[i].PreviousEpoch + 1 + uint64(r.Intn(3))
		resign(b[i])
		if i+1 < len(b) {
			relink(i + 1)
		}
		return b, "previous epoch, signed"
	case 8:
		if len(b) > 1 {
			b = append(b[:i], b[i+1:]...)
		}
		return b, "a root left out"
	case 9:
		b = append(b[:i+1], append([]*protocol.DirSTR{copySTR(b[i])}, b[i+1:]...)...)
		return b, "a root repeated"
	case 10:
		if len(b) > 1 {
			j := (i + 1) % len(b)
			b[i], b[j] = b[j], b[i]
		}
		return b, "two roots exchanged"
	case 11: // a fork from before the verified root
		k := r.Intn(len(hist))
		f := e.succ(hist[k])
		b = []*protocol.DirSTR{f}
		for j := 0; j < i; j++ {
			b = append(b, e.succ(b[len(b)-1]))
		}
		return b, "a fork of an earlier root"
	case 12:
		k := r.Intn(len(hist))
		b = append([]*protocol.DirSTR{copySTR(hist[k])}, b...)
		return b, "an old root first"
	case 13:
		k := r.Intn(len(hist))
		return copySTRs(hist[k:]), "old roots only"
	case 14:
		otherEvil.sign(b[i], otherEvil.signSK)
		return b, "signed by another key, successors not linked again"
	case 15:
		otherEvil.sign(b[i], otherEvil.signSK)
		for j := i + 1; j < len(b); j++ {
			b[j].PreviousSTRHash = refDigest(b[j-1].Signature)
			resign(b[j])
		}
		return b, "signed by another key, successors linked again"
	case 16:
		b[i].Policies.EpochDeadline++
		return b, "policies, not signed again"
	case 17:
		b[i].Epoch, b[i].PreviousEpoch = 0, 0
		resign(b[i])
		return b, "epoch 0"
	case 18:
		b[i].Signature = b[i].Signature[:r.Intn(64)]
		return b, "signature truncated"
	case 19: // same epoch as the verified root, other content, validly signed
		last := hist[len(hist)-1]
		f := copySTR(last)
		f.TreeHash = flip(r, f.TreeHash)
		resign(f)
		out := []*protocol.DirSTR{f}
		for j := 0; j < i; j++ {
			out = append(out, e.succ(out[len(out)-1]))
		}
		return out, "another root for the verified epoch"
	case 20:
		last := hist[len(hist)-1]
		f := copySTR(last)
		f.Signature = flip(r, f.Signature)
		return append([]*protocol.DirSTR{f}, b...), "verified root with another signature"
	case 21:
		last := hist[len(hist)-1]
		f := copySTR(last)
		f.Policies.EpochDeadline += 7
		return append([]*protocol.DirSTR{f}, b...), "verified root with other policies"
	case 22:
		last := hist[len(hist)-1]
		f := copySTR(last)
		f.TreeHash = flip(r, f.TreeHash)
		return append([]*protocol.DirSTR{f}, b...), "verified root with another tree hash"
	case 23:
		last := hist[len(hist)-1]
		f := copySTR(last)
		f.PreviousSTRHash = flip(r, f.PreviousSTRHash)
		return append([]*protocol.DirSTR{f}, b...), "verified root with another previous hash"
	}
	panic("harness: kind")
}

const spoilKinds = 24

func runC08(c *Ctx) {
	for i := 0; i < c.N(48, 480); i++ {
		c.Case(fmt.Sprintf("hist-%d", i), func(r *rand.Rand) { c08history(c, r) })
	}
	// every kind of defect at every position of every length, fresh state
	for n := 1; n <= c.N(5, 8); n++ {
		for kind := 0; kind < spoilKinds; kind++ {
			c.Case(fmt.Sprintf("single-%d-%d", n, kind), func(r *rand.Rand) {
				for at := 0; at < n; at++ {
					for off := 0; off <= 2; off++ {
						e := newEvil(r)
						full := e.chain(6 + n)
						hist := full[:4+off]
						aud := auditor.New(e.signPK, copySTR(hist[len(hist)-1]))
						from := len(hist) - 1 + off%2
						if from+n > len(full) {
							from = len(full) - n
						}
						bad, what := e.spoil(full[from:from+n], hist, kind, at)
						c08try(c, e, aud, hist[len(hist)-1], bad, what)
						c.Count("single defects", 1)
						c.Distinct(kind, at, n, off)
						good := full[len(hist)-1+off%2:]
						c08try(c, e, aud, hist[len(hist)-1], copySTRs(good), "honest after a defect")
					}
				}
			})
		}
	}
	// long batches
	for kind := 0; kind < spoilKinds; kind++ {
		c.Case(fmt.Sprintf("wide-%d", kind), func(r *rand.Rand) {
			n := c.N(280, 1100)
			e := newEvil(r)
			full := e.chain(3 + n)
			aud := auditor.New(e.signPK, copySTR(full[2]))
			for _, at := range []int{n - 1, 15 + r.Intn(3), 31 + r.Intn(3), 63 + r.Intn(3), 98 + r.Intn(4), 127 + r.Intn(3), 255 + r.Intn(3), r.Intn(n)} {
				bad, what := e.spoil(full[3:], full[:3], kind, at)
				c08try(c, e, aud, full[2], bad, what)
				c.Count("single defects", 1)
				c.Distinct(kind, at, n)
			}
			c08try(c, e, aud, full[2], copySTRs(full[2+kind%2:]), "a long honest batch")
		})
	}
	c.Case("parts", func(r *rand.Rand) {
		e := newEvil(r)
		full := e.chain(5)
		aud := auditor.New(e.signPK, copySTR(full[1]))
		for _, b := range [][]*protocol.DirSTR{nil, {}, {nil}, {{}}, {{SignedTreeRoot: full[2].SignedTreeRoot}}, {{Policies: full[2].Policies}},
			{copySTR(full[1]), nil}, {copySTR(full[2]), {}}, {copySTR(full[2]), {SignedTreeRoot: full[3].SignedTreeRoot}},
			{copySTR(full[2]), nil, copySTR(full[3])}} {
			c08try(c, e, aud, full[1], b, "missing parts")
		}
		// extreme epochs
		for _, ep := range []uint64{math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1 << 32, 1<<32 + 2} {
			s := e.str(ep, 1, randBytes(r, 32), refDigest(full[1].Signature), e.policies(1))
			c08try(c, e, aud, full[1], []*protocol.DirSTR{s}, "extreme epoch")
			s = e.str(2, ep, randBytes(r, 32), refDigest(full[1].Signature), e.policies(1))
			c08try(c, e, aud, full[1], []*protocol.DirSTR{s}, "extreme previous epoch")
			s = e.str(2+1<<32, 1+1<<32, randBytes(r, 32), refDigest(full[1].Signature), e.policies(1))
			c08try(c, e, aud, full[1], []*protocol.DirSTR{s}, "epoch equal modulo 2^32")
			s = e.str(2+1<<8, 1, randBytes(r, 32), refDigest(full[1].Signature), e.policies(1))
			c08try(c, e, aud, full[1], []*protocol.DirSTR{s}, "epoch equal modulo 2^8")
		}
	})
}

// c08try gives one batch to the auditor and compares its verdict.
func c08try(c *Ctx, e *evilDir, aud *auditor.AudState, verified *protocol.DirSTR, batch []*protocol.DirSTR, what string) bool {
	c.Eval(1)
	want := refBatch(verified, batch, e)
	given := batch
	err := aud.AuditDirectory(given)
	desc := func() string {
		s := fmt.Sprintf("%s: verified %s, batch:", what, strString(verified))
		for _, b := range batch {
			s += " " + strString(b)
		}
		return s
	}
	if want {
		c.Check(err == nil, "a linear, signed extension is rejected", "%v: %s", err, desc())
		c.Count("accepted", 1)
	} else {
		c.Check(err != nil, "a batch that isn't a linear, signed extension is accepted", "%s", desc())
		c.Count("rejected", 1)
	}
	c.Check(sameSTR(aud.VerifiedSTR(), verified), "checking a batch changes the verified root", "%s", desc())
	c.Count("state compared", 1)
	c.Sample(what, "accepted=%v %s", want, clip(desc(), 250))
	return want
}

func c08history(c *Ctx, r *rand.Rand) {
	e := newEvil(r)
	full := e.chain(60)
	at := r.Intn(5) // position of the verified root
	verified := full[at]
	aud := auditor.New(e.signPK, copySTR(verified))
	log := auditlog.New()
	c.Must(log.InitHistory("d", e.signPK, copySTRs(full[:at+1])))
	id := auditor.ComputeDirectoryIdentity(full[0])
	line := append([]*protocol.DirSTR(nil), full[:at+1]...)
	for step := 0; step < 120; step++ {
		n := 1 + r.Intn(8)
		from := len(line) - 1 + r.Intn(2)
		// the directory may go on along any line; this is one honest continuation
		next := append([]*protocol.DirSTR(nil), line...)
		for len(next) < from+n {
			next = append(next, e.succ(next[len(next)-1]))
		}
		batch, what := copySTRs(next[from:from+n]), "honest"
		if r.Intn(3) > 0 {
			batch, what = e.spoil(batch, line, r.Intn(spoilKinds), r.Intn(n))
			if r.Intn(6) == 0 && len(batch) > 0 {
				batch, what = e.spoil(batch, line, r.Intn(spoilKinds), r.Intn(len(batch)))
				what += " and another"
			}
		}
		last := line[len(line)-1]
		want := c08try(c, e, aud, last, batch, what)
		before := c08snapshot(log, id, last.Epoch)
		err := log[id].Audit(protocol.NewSTRHistoryRange(copySTRs(batch)))
		c.Check((err == nil) == want, "audit log and specification disagree", "%s: %v, specified %v; verified %s", what, err, want, strString(last))
		if want {
			tail := batch
			if sameSTR(batch[0], last) {
				tail = batch[1:]
			}
			line = append(line, copySTRs(tail)...)
			aud.Update(copySTR(line[len(line)-1]))
		}
		now := c08snapshot(log, id, line[len(line)-1].Epoch)
		if !want {
			c.Check(before == now, "a rejected batch changes what the auditor reports", "%s", what)
		} else {
			c.Check(len(now) >= len(before) && now[:len(before)-2] == before[:len(before)-2], "an accepted batch changes earlier reports", "%s", what)
		}
		c.Check(sameSTR(log[id].VerifiedSTR(), line[len(line)-1]), "verified root of the audit log", "%s: %s, expected %s", what,
			strString(log[id].VerifiedSTR()), strString(line[len(line)-1]))
		res := log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: line[len(line)-1].Epoch + 1, EndEpoch: line[len(line)-1].Epoch + 1})
		c.Check(res.Error == protocol.ErrMalformedMessage, "audit log reports an epoch it hasn't verified", "%s: %d", what, res.Error)
		c.Count("state compared", 1)
	}
}

func c08snapshot(l auditlog.ConiksAuditLog, id [32]byte, last uint64) string {
	return jsonOf(l.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: 0, EndEpoch: last}).DirectoryResponse)
}

// ---- C09 ----

type loggedDir struct {
	e    *evilDir
	id   [32]byte
	full []*protocol.DirSTR
	seen int // verified: full[:seen]
	kept []keptAnswer
	n    int
}

// keep remembers an answer, to see that it stays as it was given.
func (d *loggedDir) keep(res *protocol.Response) {
	d.n++
	if d.n%7 == 0 {
		k := keptAnswer{res, jsonOf(res)}
		if len(d.kept) < 16 {
			d.kept = append(d.kept, k)
		} else {
			d.kept[d.n/7%len(d.kept)] = k
		}
	}
}

func runC09(c *Ctx) {
	for i := 0; i < c.N(60, 600); i++ {
		c.Case(fmt.Sprintf("rand-%d", i), func(r *rand.Rand) { c09case(c, r) })
	}
	for i := 0; i < c.N(2, 8); i++ {
		c.Case(fmt.Sprintf("long-%d", i), func(r *rand.Rand) { c09long(c, r) })
	}
	c.Case("many", func(r *rand.Rand) { c09many(c, r) })
}

// c09long follows two directories for hundreds of epochs.
func c09long(c *Ctx, r *rand.Rand) {
	log := auditlog.New()
	var dirs []*loggedDir
	for i := 0; i < 2; i++ {
		e := newEvil(r)
		d := &loggedDir{e: e, full: e.chain(c.N(700, 2500))}
		copy(d.id[:], refDigest(d.full[0].Signature))
		d.seen = []int{1, 300}[i]
		c.Check(log.InitHistory("addr", e.signPK, copySTRs(d.full[:d.seen])) == nil, "initialising a new directory fails", "with %d roots", d.seen)
		dirs = append(dirs, d)
	}
	for dirs[0].seen < len(dirs[0].full) || dirs[1].seen < len(dirs[1].full) {
		d := dirs[r.Intn(2)]
		n := min(1+r.Intn(40), len(d.full)-d.seen)
		if r.Intn(6) == 0 {
			n = min(290, len(d.full)-d.seen)
		}
		if n == 0 {
			continue
		}
		if r.Intn(3) == 0 { // a defect first
			bad, what := d.e.spoil(d.full[d.seen:d.seen+n], d.full[:d.seen], r.Intn(spoilKinds), r.Intn(n))
			if !refBatch(d.full[d.seen-1], bad, d.e) {
				c.Check(log[d.id].Audit(protocol.NewSTRHistoryRange(bad)) != nil, "audit log and specification disagree", "%s", what)
				c.Count("rejected audits", 1)
			}
		}
		lo := d.seen - r.Intn(2)
		err := log[d.id].Audit(protocol.NewSTRHistoryRange(copySTRs(d.full[lo : d.seen+n])))
		c.Check(err == nil, "audit log and specification disagree", "honest %d..%d: %v", lo, d.seen+n-1, err)
		d.seen += n
		for _, d := range dirs {
			for q := 0; q < 8; q++ {
				a, b := uint64(r.Intn(d.seen)), uint64(r.Intn(d.seen+2))
				switch q {
				case 0:
					a, b = 0, uint64(d.seen-1)
				case 1:
					a = b
				case 2:
					b = uint64(d.seen - 1)
				}
				c09range(c, log, d, a, b)
			}
		}
		c.Eval(1)
		c.Distinct("long", d.seen, lo)
	}
	for _, d := range dirs {
		c09all(c, log, d)
		for ep := 0; ep <= d.seen; ep++ {
			c09range(c, log, d, uint64(ep), uint64(ep))
		}
	}
}

// c09many logs many directories.
func c09many(c *Ctx, r *rand.Rand) {
	log := auditlog.New()
	var dirs []*loggedDir
	for i := 0; i < c.N(300, 1500); i++ {
		e := newEvil(r)
		d := &loggedDir{e: e, full: e.chain(4), seen: 1 + i%2}
		copy(d.id[:], refDigest(d.full[0].Signature))
		c.Check(log.InitHistory(fmt.Sprintf("addr%d", i%7), e.signPK, copySTRs(d.full[:d.seen])) == nil, "initialising a new directory fails", "number %d", i)
		dirs = append(dirs, d)
		if i%50 == 0 || i < 3 {
			o := dirs[r.Intn(len(dirs))]
			c.Check(log.InitHistory("x", o.e.signPK, copySTRs(o.full[:1])) == protocol.ErrAuditLog, "a directory is initialised twice", "")
			c.Count("refused initialisations", 1)
		}
	}
	for k := 0; k < 2; k++ {
		for _, d := range dirs {
			c09all(c, log, d)
			if k == 0 {
				err := log[d.id].Audit(protocol.NewSTRHistoryRange(copySTRs(d.full[d.seen:])))
				c.Check(err == nil, "audit log and specification disagree", "honest: %v", err)
				d.seen = len(d.full)
			}
			c.Eval(1)
		}
	}
}

func c09case(c *Ctx, r *rand.Rand) {
	log := auditlog.New()
	var dirs []*loggedDir
	var fresh []*loggedDir
	shared := newEvil(r)
	for i := 0; i < 5; i++ {
		e := newEvil(r)
		if i >= 3 { // directories of one operator, with the same keys
			e = shared
		}
		d := &loggedDir{e: e, full: e.chain(30)}
		d.id = [32]byte{}
		copy(d.id[:], refDigest(d.full[0].Signature))
		fresh = append(fresh, d)
	}
	rejected := false
	var ops []string
	for step := 0; step < 200; step++ {
		c.Eval(1)
		switch k := r.Intn(10); {
		case k == 0 && len(fresh) > 0: // initialise
			d := fresh[0]
			n := 1 + r.Intn(4)
			// malformed initialisations first
			for _, bad := range [][]*protocol.DirSTR{nil, {}, {nil}, copySTRs(d.full[1:3]), {copySTR(d.full[0]), nil}} {
				c.Check(log.InitHistory("addr", d.e.signPK, bad) != nil, "initialisation without an initial root succeeds", "%d roots", len(bad))
				c.Count("refused initialisations", 1)
			}
			fresh = fresh[1:]
			err := log.InitHistory("addr", d.e.signPK, copySTRs(d.full[:n]))
			c.Check(err == nil, "initialising a new directory fails", "%v", err)
			c.Check(bytes.Equal(d.id[:], idOf(d.full[0])), "identity of a directory", "isn't the hash of its first signature")
			d.seen = n
			dirs = append(dirs, d)
			ops = append(ops, fmt.Sprintf("init %d with %d", len(dirs), n))
		case k == 1 && len(dirs) > 0: // a second time
			d := dirs[r.Intn(len(dirs))]
			n := 1 + r.Intn(4)
			pk := d.e.signPK
			if r.Intn(2) == 0 {
				pk = otherEvil.signPK
			}
			err := log.InitHistory("addr2", pk, copySTRs(d.full[:n]))
			c.Check(err == protocol.ErrAuditLog, "a directory is initialised twice", "%v", err)
			c.Count("refused initialisations", 1)
			ops = append(ops, "init again")
		case k <= 4 && len(dirs) > 0: // audit
			d := dirs[r.Intn(len(dirs))]
			from := d.seen - r.Intn(2)
			n := 1 + r.Intn(5)
			if from+n > len(d.full) {
				continue
			}
			batch, what := copySTRs(d.full[from:from+n]), "honest"
			switch r.Intn(4) {
			case 0:
				batch, what = d.e.spoil(batch, d.full[:d.seen], r.Intn(spoilKinds), r.Intn(n))
			case 1: // roots of another directory
				o := dirs[r.Intn(len(dirs))]
				if o != d {
					lo := d.seen
					if lo+n <= len(o.full) {
						batch, what = copySTRs(o.full[lo:lo+n]), "roots of another directory"
					}
				}
			}
			want := refBatch(d.full[d.seen-1], batch, d.e)
			res := protocol.NewSTRHistoryRange(batch)
			if r.Intn(2) == 0 {
				res = wireResponse(protocol.STRType, res)
			}
			err := log[d.id].Audit(res)
			c.Check((err == nil) == want, "audit log and specification disagree", "%s: %v, specified %v", what, err, want)
			ops = append(ops, fmt.Sprintf("audit %s %d..%d: %v", what, from, from+n, want))
			if want {
				if !sameSTR(batch[0], d.full[d.seen-1]) || len(batch) > 1 {
					// the batch may be a valid continuation of its own
					tail := batch
					if sameSTR(batch[0], d.full[d.seen-1]) {
						tail = batch[1:]
					}
					line := append(append([]*protocol.DirSTR(nil), d.full[:d.seen]...), copySTRs(tail)...)
					d.seen = len(line)
					for len(line) < 30 {
						line = append(line, d.e.succ(line[len(line)-1]))
					}
					d.full = line
				}
			} else {
				rejected = true
				c.Count("rejected audits", 1)
			}
			// malformed responses
			for _, bad := range []*protocol.Response{protocol.NewErrorResponse(protocol.ErrDirectory), {Error: protocol.ReqSuccess},
				{Error: protocol.ReqSuccess, DirectoryResponse: &protocol.DirectoryProof{AP: []*merkletree.AuthenticationPath{{Leaf: &merkletree.ProofNode{}}}, STR: batch}},
				{Error: protocol.ReqSuccess, DirectoryResponse: &protocol.STRHistoryRange{}}} {
				c.Check(log[d.id].Audit(bad) != nil, "a malformed response is audited", "%s", jsonOf(bad))
			}
		default:
			c09query(c, r, log, dirs, fresh)
		}
		if step%20 == 0 {
			for _, d := range dirs {
				c09all(c, log, d)
			}
		}
	}
	for _, d := range dirs {
		c09all(c, log, d)
		for a := 0; a <= d.seen; a++ {
			for b := 0; b <= d.seen+1; b++ {
				c09range(c, log, d, uint64(a), uint64(b))
			}
		}
	}
	if len(dirs) > 1 && rejected {
		c.Distinct(fmt.Sprint(ops))
	}
	c.Sample("history", "%v", ops[:min(len(ops), 12)])
}

func idOf(str *protocol.DirSTR) []byte {
	id := auditor.ComputeDirectoryIdentity(str)
	return id[:]
}

func c09all(c *Ctx, log auditlog.ConiksAuditLog, d *loggedDir) {
	for _, k := range d.kept {
		now := jsonOf(k.res)
		c.Check(now == k.json, "an answer of the audit log changes after it was given", "it was %s, now it is %s", clip(k.json, 300), clip(now, 300))
		c.Count("answers kept", 1)
	}
	c09range(c, log, d, 0, uint64(d.seen-1))
}

func c09range(c *Ctx, log auditlog.ConiksAuditLog, d *loggedDir, a, b uint64) {
	res := log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: d.id, StartEpoch: a, EndEpoch: b})
	if a > b || b >= uint64(d.seen) {
		c.Check(res.Error == protocol.ErrMalformedMessage && isNilResponse(res), "answer of the audit log",
			"range %d..%d of %d verified roots is answered with %d", a, b, d.seen, res.Error)
		c.Count("refused", 1)
		return
	}
	d.keep(res)
	h, ok := res.DirectoryResponse.(*protocol.STRHistoryRange)
	c.Check(res.Error == protocol.ReqSuccess && ok && h != nil, "answer of the audit log", "range %d..%d of %d: %d", a, b, d.seen, res.Error)
	c.Check(uint64(len(h.STR)) == b-a+1, "answer of the audit log", "%d roots for %d..%d", len(h.STR), a, b)
	for i, s := range h.STR {
		c.Check(sameSTR(s, d.full[a+uint64(i)]), "answer of the audit log", "epoch %d of %d..%d is %s, verified was %s", a+uint64(i), a, b,
			strString(s), strString(d.full[a+uint64(i)]))
	}
	c.Count("ranges", 1)
}

func c09query(c *Ctx, r *rand.Rand, log auditlog.ConiksAuditLog, dirs, fresh []*loggedDir) {
	if len(dirs) == 0 || r.Intn(6) == 0 {
		var id [32]byte
		switch {
		case len(fresh) > 0 && r.Intn(2) == 0:
			id = fresh[0].id
		case len(dirs) > 0 && r.Intn(2) == 0:
			id = dirs[0].id
			id[r.Intn(32)] ^= 1
		default:
			r.Read(id[:])
		}
		res := log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: 0, EndEpoch: 0})
		c.Check(res.Error == protocol.ReqUnknownDirectory && isNilResponse(res), "answer about an unknown directory", "%d", res.Error)
		c.Count("refused", 1)
		return
	}
	d := dirs[r.Intn(len(dirs))]
	pick := func() uint64 {
		switch r.Intn(8) {
		case 0:
			return math.MaxUint64 - uint64(r.Intn(2))
		case 1:
			return uint64(d.seen + r.Intn(3))
		case 2:
			return 0
		default:
			return uint64(r.Intn(d.seen))
		}
	}
	for i := 0; i < 10; i++ {
		a, b := pick(), pick()
		if a <= b && b < uint64(d.seen) || a > b || b >= uint64(d.seen) {
			c09range(c, log, d, a, b)
		}
	}
}

var _ = sign.PublicKeySize
