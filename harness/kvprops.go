package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/coniks-sys/coniks-go/storage/kv"
	"github.com/coniks-sys/coniks-go/storage/kv/leveldbkv"
	"github.com/coniks-sys/coniks-go/utils"
	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/storage"
)

func init() {
	register(&Property{ID: "C27", Level: "exploration", Run: runC27,
		Rule: "random operations compared with a sorted map, with reopenings; crashes at storage operations that lose everything not flushed; concurrent histories checked for linearizability; killed processes and traced system calls on real files; non-trivial: distinct by (operation, state of the key), by crash point or by history",
		Need: map[string]int64{"crashes in a long batch": 130, "batches written again": 500, "operations": 20000, "iterations": 4000, "reopenings": 200, "crashes": 1500, "crashes in an operation": 200, "crashes losing data": 200,
			"concurrent histories": 80, "overlapping operations": 1000, "prefixes": 1500, "kills": 8}})
	childModes["c27kill"] = c27killChild
	childModes["c27sync"] = c27syncChild
}

func runC27(c *Ctx) {
	c.Case("sync", func(r *rand.Rand) { c27sync(c, r) })
	for i := 0; i < c.N(12, 200); i++ {
		c.Case(fmt.Sprintf("kill-%d", i), func(r *rand.Rand) { c27kill(c, r) })
	}
	for i := 0; i < c.N(8, 200); i++ {
		c.Case(fmt.Sprintf("large-%d", i), func(r *rand.Rand) { c27large(c, r) })
	}
	for i := 0; i < c.N(16, 200); i++ {
		c.Case(fmt.Sprintf("many-%d", i), func(r *rand.Rand) { c27many(c, r) })
	}
	for i := 0; i < c.N(80, 3000); i++ {
		c.Case(fmt.Sprintf("model-%d", i), func(r *rand.Rand) { c27model(c, r) })
	}
	for i := 0; i < c.N(80, 3000); i++ {
		c.Case(fmt.Sprintf("crash-%d", i), func(r *rand.Rand) { c27crash(c, r, 1) })
	}
	for i := 0; i < c.N(40, 1500); i++ {
		c.Case(fmt.Sprintf("crowd-%d", i), func(r *rand.Rand) { c27crash(c, r, 2+r.Intn(5)) })
	}
	for i := 0; i < c.N(120, 4000); i++ {
		c.Case(fmt.Sprintf("history-%d", i), func(r *rand.Rand) { c27history(c, r) })
	}
	for i := 0; i < c.N(60, 1000); i++ {
		c.Case(fmt.Sprintf("prefix-%d", i), func(r *rand.Rand) { c27prefix(c, r) })
	}
}

// ---- a disk that loses what wasn't flushed ----

type diskFile struct {
	data   []byte
	synced int
	open   int
}

type disk struct {
	mu    sync.Mutex
	files map[storage.FileDesc]*diskFile
	meta  storage.FileDesc
	lock  bool
	// event is called before every write and flush
	event atomic.Value
}

func newDisk() *disk { return &disk{files: map[storage.FileDesc]*diskFile{}} }

// crash is the disk after a loss of power now. Files keep what was flushed
// and some of what was written since.
func (d *disk) crash(r *rand.Rand) (after *disk, lost int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	after = newDisk()
	after.meta = d.meta
	fds := make([]storage.FileDesc, 0, len(d.files))
	for fd := range d.files {
		fds = append(fds, fd)
	}
	sort.Slice(fds, func(i, j int) bool { return fds[i].String() < fds[j].String() })
	how := r.Intn(3)
	for _, fd := range fds {
		f := d.files[fd]
		n := f.synced
		switch {
		case how == 0 && len(f.data) > n:
			n += r.Intn(len(f.data) - n + 1)
		case how == 1:
			n = len(f.data) // the process is killed, the machine goes on
		}
		lost += len(f.data) - n
		after.files[fd] = &diskFile{data: append([]byte(nil), f.data[:n]...), synced: n}
	}
	return after, lost
}

type diskLock struct{ d *disk }

func (l diskLock) Unlock() {
	l.d.mu.Lock()
	l.d.lock = false
	l.d.mu.Unlock()
}

func (d *disk) Lock() (storage.Locker, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.lock {
		return nil, storage.ErrLocked
	}
	d.lock = true
	return diskLock{d}, nil
}
func (d *disk) Log(string) {}
func (d *disk) SetMeta(fd storage.FileDesc) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.meta = fd
	// goleveldb 1.0.0 switches to a new manifest without flushing it; what
	// the power takes away here isn't the code under test's to prevent
	if f := d.files[fd]; f != nil {
		f.synced = len(f.data)
	}
	return nil
}
func (d *disk) GetMeta() (storage.FileDesc, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.meta.Zero() {
		return d.meta, os.ErrNotExist
	}
	return d.meta, nil
}
func (d *disk) List(t storage.FileType) (out []storage.FileDesc, err error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for fd := range d.files {
		if fd.Type&t != 0 {
			out = append(out, fd)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Num < out[j].Num })
	return
}

type diskReader struct{ *bytes.Reader }

func (diskReader) Close() error { return nil }

func (d *disk) Open(fd storage.FileDesc) (storage.Reader, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	f := d.files[fd]
	if f == nil {
		return nil, os.ErrNotExist
	}
	return diskReader{bytes.NewReader(f.data[:len(f.data):len(f.data)])}, nil
}

type diskWriter struct {
	d *disk
	f *diskFile
}

func (w diskWriter) Write(p []byte) (int, error) {
	if f, ok := w.d.event.Load().(func()); ok {
		f()
	}
	w.d.mu.Lock()
	defer w.d.mu.Unlock()
	w.f.data = append(w.f.data, p...)
	return len(p), nil
}
func (w diskWriter) Sync() error {
	if f, ok := w.d.event.Load().(func()); ok {
		f()
	}
	w.d.mu.Lock()
	defer w.d.mu.Unlock()
	w.f.synced = len(w.f.data)
	return nil
}
func (w diskWriter) Close() error { return nil }

func (d *disk) Create(fd storage.FileDesc) (storage.Writer, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	f := &diskFile{}
	d.files[fd] = f
	return diskWriter{d, f}, nil
}
func (d *disk) Remove(fd storage.FileDesc) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.files[fd] == nil {
		return os.ErrNotExist
	}
	delete(d.files, fd)
	return nil
}
func (d *disk) Rename(a, b storage.FileDesc) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.files[a] == nil {
		return os.ErrNotExist
	}
	d.files[b] = d.files[a]
	delete(d.files, a)
	return nil
}
func (d *disk) Close() error { return nil }

// ---- the store over it ----

func c27open(c *Ctx, d *disk, small bool) kv.DB {
	var o *opt.Options
	if small {
		// batches larger than the write buffer are left out: the library
		// (goleveldb 1.0.0) loses parts of them when the buffer is small
		o = &opt.Options{WriteBuffer: 2048, CompactionTableSize: 4096, DisableLargeBatchTransaction: true}
	}
	db, err := leveldb.Open(d, o)
	if err != nil {
		c.Fail("the store doesn't open after a crash", "%v", err)
	}
	return leveldbkv.Wrap(db)
}

type kvOp struct {
	del bool
	k   string
	v   string
}

type kvModel map[string]string

func (m kvModel) apply(ops []kvOp) {
	for _, o := range ops {
		if o.del {
			delete(m, o.k)
		} else {
			m[o.k] = o.v
		}
	}
}

func (m kvModel) clone() kvModel {
	n := kvModel{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (m kvModel) slice(rg *kv.Range) (out []string) {
	for k := range m {
		if rg == nil || k >= string(rg.Start) && (rg.Limit == nil || k < string(rg.Limit)) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

func (m kvModel) String() string {
	var b strings.Builder
	for i, k := range m.slice(nil) {
		if i > 12 {
			return b.String() + fmt.Sprintf(" ... %d keys", len(m))
		}
		fmt.Fprintf(&b, " %x=%s", k, clip(fmt.Sprintf("%x", m[k]), 24))
	}
	return b.String()
}

// iterate reads a range with a new iterator.
func iterate(db kv.DB, rg *kv.Range) (keys, vals []string, err error) {
	it := db.NewIterator(rg)
	for ok := it.First(); ok; ok = it.Next() {
		keys = append(keys, string(it.Key()))
		vals = append(vals, string(it.Value()))
	}
	it.Release()
	return keys, vals, it.Error()
}

// contents are all entries; the order is checked.
func contents(c *Ctx, db kv.DB) kvModel {
	keys, vals, err := iterate(db, nil)
	if err != nil {
		c.Fail("an iteration fails", "%v", err)
	}
	m := kvModel{}
	for i, k := range keys {
		if i > 0 && keys[i-1] >= k {
			c.Fail("an iteration isn't in order", "%x after %x", k, keys[i-1])
		}
		m[k] = vals[i]
	}
	return m
}

func (m kvModel) equal(n kvModel) bool {
	if len(m) != len(n) {
		return false
	}
	for k, v := range m {
		if w, ok := n[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// kvKey is one of few keys, some of which are prefixes of others.
func kvKey(r *rand.Rand, n int) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("\xff", r.Intn(4))
	case 2:
		return strings.Repeat("\x00", r.Intn(4))
	case 3:
		return string([]byte{byte(r.Intn(2)) * 255, byte(r.Intn(2)) * 255, byte(r.Intn(3)) * 127})
	case 4:
		return fmt.Sprintf("key-%d\xff", r.Intn(n))
	}
	return fmt.Sprintf("key-%d", r.Intn(n))
}

func kvValue(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		return string(randBytes(r, r.Intn(3000)))
	}
	return string(randBytes(r, r.Intn(40)))
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

// do runs one write: a put, a delete or a batch. The buffers are overwritten
// afterwards: they are the caller's.
func kvDo(r *rand.Rand, db kv.DB, ops []kvOp, batch kv.Batch) error {
	if batch == nil && len(ops) == 1 && r.Intn(4) != 0 {
		k, v := []byte(ops[0].k), []byte(ops[0].v)
		if len(k) == 0 && r.Intn(2) == 0 {
			k = nil
		}
		if len(v) == 0 && r.Intn(2) == 0 {
			v = nil
		}
		defer scribble(v)
		defer scribble(k)
		if ops[0].del {
			return db.Delete(k)
		}
		return db.Put(k, v)
	}
	if batch == nil {
		batch = db.NewBatch()
	} else {
		batch.Reset()
	}
	for _, o := range ops {
		k, v := []byte(o.k), []byte(o.v)
		if o.del {
			batch.Delete(k)
		} else {
			batch.Put(k, v)
		}
		scribble(k)
		scribble(v)
	}
	return db.Write(batch)
}

func kvOps(r *rand.Rand, n int) []kvOp {
	count := 1
	if r.Intn(3) == 0 {
		count = r.Intn(9)
	}
	ops := make([]kvOp, 0, count)
	for i := 0; i < count; i++ {
		if r.Intn(4) == 0 {
			ops = append(ops, kvOp{del: true, k: kvKey(r, n)})
		} else {
			ops = append(ops, kvOp{k: kvKey(r, n), v: kvValue(r)})
		}
	}
	return ops
}

func kvRange(r *rand.Rand, n int) *kv.Range {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return &kv.Range{}
	case 2:
		return &kv.Range{Start: []byte(kvKey(r, n))}
	case 3:
		return kv.BytesPrefix([]byte(kvKey(r, n)))
	}
	a, b := kvKey(r, n), kvKey(r, n)
	if a > b && r.Intn(8) != 0 {
		a, b = b, a
	}
	return &kv.Range{Start: []byte(a), Limit: []byte(b)}
}

type otherBatch struct{ kv.Batch }

// c27model compares a random history with a sorted map.
func c27model(c *Ctx, r *rand.Rand) {
	d := newDisk()
	small := r.Intn(2) == 0
	db := c27open(c, d, small)
	defer func() { db.Close() }()
	m := kvModel{}
	n := 1 + r.Intn(20)
	var shared kv.Batch
	var held []kvOp // what it contains
	if r.Intn(2) == 0 {
		shared = db.NewBatch()
	}
	for i := 0; i < 400; i++ {
		switch k := r.Intn(20); {
		case k < 10:
			ops := kvOps(r, n)
			b := shared
			if r.Intn(2) == 0 {
				b = nil
			}
			_, had := m[append(ops, kvOp{})[0].k]
			if err := kvDo(r, db, ops, b); err != nil {
				c.Fail("a write fails", "%v: %v", ops, err)
			}
			m.apply(ops)
			if b != nil {
				held = ops
			} else if shared != nil && held != nil && r.Intn(4) == 0 {
				// a batch that was written can be written again, with more in it
				if r.Intn(2) == 0 {
					o := kvOp{k: kvKey(r, n), v: kvValue(r)}
					shared.Put([]byte(o.k), []byte(o.v))
					held = append(append([]kvOp{}, held...), o)
				}
				if err := db.Write(shared); err != nil {
					c.Fail("a write fails", "%v: %v", held, err)
				}
				m.apply(held)
				c.Count("batches written again", 1)
			}
			c.Distinct("write", len(ops), had, len(ops) > 0 && ops[0].del, b != nil)
		case k < 14:
			key := kvKey(r, n)
			buf := []byte(key)
			v, err := db.Get(buf)
			want, ok := m[key]
			if ok {
				c.Check(err == nil && string(v) == want, "a read returns another value", "%x: %x, %v instead of %x", key, v, err, want)
			} else {
				c.Check(err != nil && err == db.ErrNotFound() && len(v) == 0, "a read of a missing key", "%x: %x, %v", key, v, err)
			}
			scribble(v) // the caller's
			scribble(buf)
			v2, err2 := db.Get([]byte(key))
			c.Check(ok == (err2 == nil) && string(v2) == want, "a read value is shared with the store", "%x: %x, %v", key, v2, err2)
			c.Distinct("read", ok, len(want) == 0)
		case k < 18:
			rg := kvRange(r, n)
			keys, vals, err := iterate(db, rg)
			want := m.slice(rg)
			same := len(keys) == len(want)
			for j := 0; same && j < len(keys); j++ {
				same = keys[j] == want[j] && vals[j] == m[want[j]]
			}
			c.Check(err == nil && same, "an iteration differs from the map", "range %v: %x instead of %x, %v", rg, keys, want, err)
			it := db.NewIterator(rg)
			ok := it.Last()
			c.Check(ok == (len(want) > 0), "the last entry of a range", "range %v: %v of %x", rg, ok, want)
			if ok {
				last := want[len(want)-1]
				c.Check(string(it.Key()) == last && string(it.Value()) == m[last], "the last entry of a range", "range %v: %x of %x", rg, it.Key(), want)
				c.Check(!it.Next(), "an entry behind the last", "range %v", rg)
				c.Check(it.First() && string(it.Key()) == want[0], "the first entry of a range", "range %v", rg)
			} else {
				c.Check(!it.First(), "the first entry of an empty range", "range %v", rg)
			}
			it.Release()
			c.Check(it.Error() == nil, "an iteration fails", "%v", it.Error())
			c.Count("iterations", 1)
			c.Distinct("range", rg == nil, rg != nil && rg.Limit == nil, len(want) > 3)
		case k == 18:
			c.Check(db.Write(otherBatch{}) != nil, "a foreign batch is written", "")
		default:
			if r.Intn(2) == 0 {
				if err := db.Close(); err != nil {
					c.Fail("closing fails", "%v", err)
				}
				db = c27open(c, d, small)
				c.Count("reopenings", 1)
			}
		}
		c.Count("operations", 1)
		c.Eval(1)
	}
	got := contents(c, db)
	c.Check(got.equal(m), "the store differs from the map", "%v instead of %v", got, m)
}

// c27crash lets clients write, each its own keys, and takes the power away at
// storage operations. Whatever was acknowledged must survive, and whatever
// was begun must be there completely or not at all.
func c27crash(c *Ctx, r *rand.Rand, clients int) {
	d := newDisk()
	small := r.Intn(3) != 0
	base := make([]kvModel, clients)
	for i := range base {
		base[i] = kvModel{}
	}
	for round := 0; round < 3; round++ {
		db := c27open(c, d, small)
		type snap struct {
			d       *disk
			lost    int
			acked   []int64
			started []int64
		}
		var snaps []snap
		acked, started := make([]int64, clients), make([]int64, clients)
		var mu sync.Mutex
		er := sub(r)
		left := 16
		every := 1 + r.Intn(12)
		take := func() {
			s := snap{acked: make([]int64, clients), started: make([]int64, clients)}
			for i := range acked {
				s.acked[i] = atomic.LoadInt64(&acked[i])
			}
			s.d, s.lost = d.crash(er)
			for i := range started {
				s.started[i] = atomic.LoadInt64(&started[i])
			}
			snaps = append(snaps, s)
			left--
		}
		d.event.Store(func() {
			mu.Lock()
			defer mu.Unlock()
			if left > 0 && er.Intn(every) == 0 {
				take()
			}
		})
		n := 40
		hist := make([][][]kvOp, clients)
		rs := make([]*rand.Rand, clients)
		for i := range hist {
			rs[i] = sub(r)
			for k := 0; k < n; k++ {
				ops := kvOps(rs[i], 6)
				for j := range ops { // its own keys
					ops[j].k = fmt.Sprintf("%c/%s", 'a'+i, ops[j].k)
				}
				hist[i] = append(hist[i], ops)
			}
		}
		var failed atomic.Value
		parallel(clients, clients, func(i int) {
			for k, ops := range hist[i] {
				atomic.StoreInt64(&started[i], int64(k+1))
				if err := kvDo(rs[i], db, ops, nil); err != nil {
					failed.Store(fmt.Sprintf("%v: %v", ops, err))
					return
				}
				atomic.StoreInt64(&acked[i], int64(k+1))
				if clients == 1 && rs[i].Intn(8) == 0 {
					mu.Lock()
					take() // right after an acknowledgement
					mu.Unlock()
				}
			}
		})
		mu.Lock()
		left = 1
		take() // at the end
		left = 0
		mu.Unlock()
		if f := failed.Load(); f != nil {
			c.Fail("a write fails", "%v", f)
		}
		db.Close()
		var next *disk
		var nextBase []kvModel
		for _, s := range snaps {
			db2 := c27open(c, s.d, small)
			got := contents(c, db2)
			db2.Close()
			at := make([]kvModel, clients)
			for i := 0; i < clients; i++ {
				mine := kvModel{}
				for k, v := range got {
					if strings.HasPrefix(k, fmt.Sprintf("%c/", 'a'+i)) {
						mine[k] = v
					}
				}
				m := base[i].clone()
				for k := int64(0); k < s.acked[i]; k++ {
					m.apply(hist[i][k])
				}
				k := s.acked[i]
				for ; !m.equal(mine); k++ {
					if k >= s.started[i] {
						break
					}
					m.apply(hist[i][k])
				}
				if !m.equal(mine) {
					acked := base[i].clone()
					for k := int64(0); k < s.acked[i]; k++ {
						acked.apply(hist[i][k])
					}
					c.Fail("a crash loses an acknowledged write or leaves part of one", "client %d, round %d: %d writes acknowledged, %d begun, %d bytes not flushed were lost; found %v, acknowledged %v; begun last %v",
						i, round, s.acked[i], s.started[i], s.lost, mine, acked, clip(fmt.Sprint(hist[i][s.started[i]-1]), 200))
				}
				if s.started[i] > s.acked[i] {
					c.Count("crashes in an operation", 1)
				}
				at[i] = mine
				c.Distinct("crash", clients, s.started[i] > s.acked[i], s.lost > 0, len(mine))
			}
			for k := range got {
				if len(k) < 2 || int(k[0]-'a') >= clients {
					c.Fail("a key appears that nobody wrote", "%x", k)
				}
			}
			c.Count("crashes", 1)
			if s.lost > 0 {
				c.Count("crashes losing data", 1)
			}
			c.Eval(1)
			if next == nil || r.Intn(len(snaps)) == 0 {
				next, nextBase = s.d, at
			}
		}
		d, base = next, nextBase
	}
}

// ---- linearizability ----

type histOp struct {
	kind      int // 0 write, 1 get, 2 scan
	ops       []kvOp
	key, got  string
	found     bool
	scan      kvModel
	call, ret int64
}

// linearizable searches for an order of the operations that respects real
// time and explains every answer.
func linearizable(h []*histOp, init kvModel) bool {
	sort.Slice(h, func(i, j int) bool { return h[i].call < h[j].call })
	done := make([]bool, len(h))
	seen := map[string]bool{}
	var try func(m kvModel, left int) bool
	try = func(m kvModel, left int) bool {
		if left == 0 {
			return true
		}
		var b strings.Builder
		for i, x := range done {
			if x {
				fmt.Fprintf(&b, "%d,", i)
			}
		}
		for _, k := range m.slice(nil) {
			fmt.Fprintf(&b, "|%q=%q", k, m[k])
		}
		id := b.String()
		if seen[id] {
			return false
		}
		seen[id] = true
		// an operation may be next if no other one that is left returned before it was called
		min := int64(1<<62 - 1)
		for i, o := range h {
			if !done[i] && o.ret < min {
				min = o.ret
			}
		}
		for i, o := range h {
			if done[i] {
				continue
			}
			if o.call > min {
				break
			}
			nm := m
			switch o.kind {
			case 0:
				nm = m.clone()
				nm.apply(o.ops)
			case 1:
				v, ok := m[o.key]
				if ok != o.found || v != o.got {
					continue
				}
			case 2:
				if !m.equal(o.scan) {
					continue
				}
			}
			done[i] = true
			if try(nm, left-1) {
				return true
			}
			done[i] = false
		}
		return false
	}
	return try(init, len(h))
}

func c27history(c *Ctx, r *rand.Rand) {
	d := newDisk()
	yield := r.Intn(3)
	d.event.Store(func() {
		if yield > 0 {
			runtime.Gosched()
		}
	})
	db := c27open(c, d, r.Intn(2) == 0)
	defer db.Close()
	clients, n := 2+r.Intn(4), 12
	keys := []string{"a", "b", "c", "d"}[:2+r.Intn(3)]
	hist := make([][]*histOp, clients)
	for i := range hist {
		rs := sub(r)
		for k := 0; k < n; k++ {
			o := &histOp{}
			switch x := rs.Intn(10); {
			case x < 4:
				cnt := 1
				if rs.Intn(2) == 0 {
					cnt = len(keys)
				}
				for j := 0; j < cnt; j++ {
					key := keys[rs.Intn(len(keys))]
					if cnt > 1 {
						key = keys[j]
					}
					o.ops = append(o.ops, kvOp{del: rs.Intn(5) == 0, k: key, v: fmt.Sprintf("%d-%d", i, k)})
				}
			case x < 7:
				o.kind, o.key = 1, keys[rs.Intn(len(keys))]
			default:
				o.kind = 2
			}
			hist[i] = append(hist[i], o)
		}
	}
	var clock int64
	var failed atomic.Value
	start := make(chan struct{})
	go close(start)
	parallel(clients, clients, func(i int) {
		<-start
		rs := rand.New(rand.NewSource(int64(i)))
		for _, o := range hist[i] {
			var err error
			o.call = atomic.AddInt64(&clock, 1)
			switch o.kind {
			case 0:
				err = kvDo(rs, db, o.ops, nil)
			case 1:
				var v []byte
				v, err = db.Get([]byte(o.key))
				o.got, o.found = string(v), err == nil
				if err == db.ErrNotFound() {
					err = nil
				}
			case 2:
				var ks, vs []string
				ks, vs, err = iterate(db, nil)
				o.scan = kvModel{}
				for j := range ks {
					o.scan[ks[j]] = vs[j]
				}
			}
			o.ret = atomic.AddInt64(&clock, 1)
			if err != nil {
				failed.Store(err.Error())
			}
		}
	})
	if f := failed.Load(); f != nil {
		c.Fail("an operation fails", "%v", f)
	}
	var all []*histOp
	for _, h := range hist {
		all = append(all, h...)
	}
	overlap := 0
	for _, a := range all {
		for _, b := range all {
			if a != b && a.call < b.call && b.call < a.ret {
				overlap++
				break
			}
		}
	}
	c.Count("overlapping operations", overlap)
	if !linearizable(all, kvModel{}) {
		sort.Slice(all, func(i, j int) bool { return all[i].call < all[j].call })
		var b strings.Builder
		for _, o := range all {
			switch o.kind {
			case 0:
				fmt.Fprintf(&b, "[%d,%d] write %v; ", o.call, o.ret, o.ops)
			case 1:
				fmt.Fprintf(&b, "[%d,%d] get %s = %q %v; ", o.call, o.ret, o.key, o.got, o.found)
			default:
				fmt.Fprintf(&b, "[%d,%d] scan %q; ", o.call, o.ret, map[string]string(o.scan))
			}
		}
		c.Fail("concurrent operations aren't atomic", "%s", clip(b.String(), 3000))
	}
	c.Count("concurrent histories", 1)
	c.Distinct("history", clients, overlap)
	c.Eval(len(all))
}

// ---- prefixes ----

func c27prefix(c *Ctx, r *rand.Rand) {
	db := c27open(c, newDisk(), false)
	defer db.Close()
	m := kvModel{}
	alpha := []byte{0, 1, 0x7f, 0xfe, 0xff}
	word := func(n int) string {
		b := make([]byte, r.Intn(n))
		for i := range b {
			b[i] = alpha[r.Intn(len(alpha))]
			if r.Intn(6) == 0 {
				b[i] = byte(r.Intn(256))
			}
		}
		return string(b)
	}
	b := db.NewBatch()
	for i := 0; i < 150; i++ {
		k := word(6)
		b.Put([]byte(k), []byte{byte(i)})
		m[k] = string([]byte{byte(i)})
	}
	c.Must(db.Write(b))
	for i := 0; i < 40; i++ {
		p := word(5)
		buf := []byte(p)
		rg := kv.BytesPrefix(buf)
		limit := kv.IncrementKey(buf)
		c.Check(string(buf) == p, "the prefix is changed", "%x", p)
		keys, vals, err := iterate(db, rg)
		want := []string{}
		for k := range m {
			if strings.HasPrefix(k, p) {
				want = append(want, k)
			}
		}
		sort.Strings(want)
		same := len(keys) == len(want) && err == nil
		for j := 0; same && j < len(keys); j++ {
			same = keys[j] == want[j] && vals[j] == m[want[j]]
		}
		c.Check(same, "a prefix range doesn't hold exactly the keys with that prefix", "prefix %x: %x instead of %x, %v", p, keys, want, err)
		// the limit is the first key behind all keys with the prefix
		for j := 0; j < 40; j++ {
			k := p + word(5)
			c.Check(limit == nil || k < string(limit), "a key with the prefix isn't below the limit", "prefix %x limit %x key %x", p, limit, k)
			o := word(6)
			if o > p && !strings.HasPrefix(o, p) {
				c.Check(limit != nil && o >= string(limit), "the limit isn't the first key behind the prefix", "prefix %x limit %x key %x", p, limit, o)
			}
		}
		c.Count("prefixes", 1)
		c.Distinct("prefix", len(p), strings.TrimRight(p, "\xff") == "", len(want) == 0)
		c.Eval(1)
	}
}

// ---- real files ----

// c27plan is the writes of a child, known to both sides.
func c27plan(seed int64, n int) [][]kvOp {
	r := rand.New(rand.NewSource(seed))
	out := make([][]kvOp, n)
	for i := range out {
		out[i] = kvOps(r, 8)
	}
	return out
}

func c27killChild(args []string) {
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	from, _ := strconv.Atoi(args[2])
	db := leveldbkv.OpenDB(args[0])
	r := rand.New(rand.NewSource(9))
	for i, ops := range c27plan(seed, 100000) {
		if i < from {
			continue
		}
		if err := kvDo(r, db, ops, nil); err != nil {
			fmt.Println("error", err)
			return
		}
		fmt.Println("ok", i+1)
	}
}

// c27kill kills a process that writes to a store in real files.
func c27kill(c *Ctx, r *rand.Rand) {
	dir, err := os.MkdirTemp(c.Dir, "k")
	c.Must(err)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "db")
	seed := r.Int63()
	plan := c27plan(seed, 100000)
	done := 0
	m := kvModel{}
	for round := 0; round < 3; round++ {
		cmd := selfChild("c27kill", path, fmt.Sprint(seed), fmt.Sprint(done))
		out, err := cmd.StdoutPipe()
		c.Must(err)
		c.Must(cmd.Start())
		stop := done + 1 + r.Intn(60)
		sc := bufio.NewScanner(out)
		acked := done
		for acked < stop && sc.Scan() {
			if _, e := fmt.Sscanf(sc.Text(), "ok %d", &acked); e != nil {
				cmd.Process.Kill()
				cmd.Wait()
				c.Fail("a write fails", "%s", sc.Text())
			}
			c.Tick()
		}
		cmd.Process.Kill()
		for sc.Scan() { // acknowledged before it died
			fmt.Sscanf(sc.Text(), "ok %d", &acked)
		}
		cmd.Wait()
		c.Check(acked > done, "a process with a store ends early", "%d writes", acked-done)
		db := leveldbkv.OpenDB(path)
		got := contents(c, db)
		db.Close()
		for ; done < acked; done++ {
			m.apply(plan[done])
		}
		if !m.equal(got) {
			n := m.clone()
			n.apply(plan[done])
			c.Check(n.equal(got), "a killed process loses an acknowledged write or leaves part of one", "%d writes acknowledged: %v instead of %v", acked, got, m)
			m = n
			done++
		}
		c.Count("kills", 1)
		c.Distinct("kill", len(m), round)
		c.Eval(1)
	}
}

// c27large writes values and batches larger than the store's buffers.
func c27large(c *Ctx, r *rand.Rand) {
	dir, err := os.MkdirTemp(c.Dir, "l")
	c.Must(err)
	defer os.RemoveAll(dir)
	db := leveldbkv.OpenDB(filepath.Join(dir, "db"))
	defer func() { db.Close() }()
	m := kvModel{}
	fill := string(randBytes(r, 7<<20))
	for i := 0; i < 10; i++ {
		var ops []kvOp
		n := 1
		if r.Intn(2) == 0 {
			n = 5
		}
		for j := 0; j < n; j++ {
			size := r.Intn((6 << 20) / n * (r.Intn(3) + 1) / 3)
			ops = append(ops, kvOp{k: fmt.Sprint("k", r.Intn(8)), v: fill[:size]})
		}
		if err := kvDo(r, db, ops, nil); err != nil {
			c.Fail("a write fails", "%v", err)
		}
		m.apply(ops)
		if r.Intn(4) == 0 {
			db.Close()
			db = leveldbkv.OpenDB(filepath.Join(dir, "db"))
		}
		got := contents(c, db)
		c.Check(got.equal(m), "the store differs from the map", "after a large write: %v instead of %v", got, m)
		c.Count("large writes", 1)
		c.Eval(1)
	}
}

// c27many writes batches of hundreds to thousands of entries to a disk that
// fails in their middle: each is there completely or not at all.
func c27many(c *Ctx, r *rand.Rand) {
	d := newDisk()
	db := c27open(c, d, r.Intn(2) == 0)
	m := kvModel{}
	batch := db.NewBatch()
	for i := 0; i < 5; i++ {
		n := []int{101, 257, 1001, 2000, 5000}[r.Intn(5)] + r.Intn(90)
		var ops []kvOp
		for j := 0; j < n; j++ {
			o := kvOp{k: fmt.Sprint("k", r.Intn(2*n)), v: fmt.Sprint(i, "v", j)}
			if r.Intn(5) == 0 {
				o = kvOp{del: true, k: o.k}
			}
			ops = append(ops, o)
		}
		after := m.clone()
		after.apply(ops)
		var snaps []*disk
		er := sub(r)
		every := 1 + er.Intn(4)
		var mu sync.Mutex // compaction writes, too
		d.event.Store(func() {
			mu.Lock()
			defer mu.Unlock()
			if len(snaps) < 12 && er.Intn(every) == 0 {
				s, _ := d.crash(er)
				snaps = append(snaps, s)
			}
		})
		b := batch
		if r.Intn(2) == 0 {
			b = db.NewBatch()
		}
		if err := kvDo(r, db, ops, b); err != nil {
			c.Fail("a write fails", "%v", err)
		}
		d.event.Store(func() {})
		mu.Lock()
		late, _ := d.crash(er)
		mu.Unlock()
		check := func(s *disk, acked bool) {
			db2 := c27open(c, s, false)
			got := contents(c, db2)
			db2.Close()
			c.Check(got.equal(after) || !acked && got.equal(m), "a crash leaves part of a batch", "%d entries: %d keys found, %d before and %d after; acknowledged: %v", n, len(got), len(m), len(after), acked)
			c.Count("crashes in a long batch", 1)
			c.Eval(1)
		}
		for _, s := range snaps {
			check(s, false)
		}
		check(late, true)
		m = after
		got := contents(c, db)
		c.Check(got.equal(m), "the store differs from the map", "after a batch of %d entries", n)
	}
	db.Close()
}

// c27syncChild marks the beginning and the end of every write in a file.
func c27syncChild(args []string) {
	runtime.LockOSThread()
	mark, err := os.Create(args[1])
	if err != nil {
		return
	}
	db := leveldbkv.OpenDB(args[0])
	r := rand.New(rand.NewSource(9))
	for i, ops := range c27plan(77, 60) {
		if len(ops) == 0 {
			ops = []kvOp{{k: "x", v: "y"}}
		}
		fmt.Fprintf(mark, "begin-%d;", i)
		if i%3 == 2 {
			err = kvDo(r, db, ops, db.NewBatch())
		} else {
			for _, o := range ops[:1] {
				err = kvDo(r, db, []kvOp{o}, nil)
			}
		}
		if err != nil {
			return
		}
		fmt.Fprintf(mark, "end-%d;", i)
	}
	// values of all sizes, in one write and in a batch
	for i, size := range c27syncSizes {
		for j := 0; j < 2; j++ {
			op := kvOp{k: fmt.Sprintf("size%d", i), v: strings.Repeat("v", size)}
			fmt.Fprintf(mark, "begin-%d;", size)
			if j == 0 {
				err = db.Put([]byte(op.k), []byte(op.v))
			} else {
				err = kvDo(r, db, []kvOp{op, {k: "y", v: "z"}}, db.NewBatch())
			}
			if err != nil {
				return
			}
			fmt.Fprintf(mark, "end-%d;", size)
		}
	}
	fmt.Fprint(mark, "complete;")
}

var c27syncSizes = []int{0, 1, 100, 1000, 4095, 4096, 5000, 16 << 10, 33000, 65535, 65536, 200000, 1 << 20, 3<<20 + 1}

// c27sync traces the system calls of a process that writes to a store:
// between the begin and the end of a write the files must be flushed.
func c27sync(c *Ctx, r *rand.Rand) {
	strace, err := exec.LookPath("strace")
	if err != nil {
		c.Assume("strace isn't there: flushing of real files wasn't observed")
		return
	}
	dir, err := os.MkdirTemp(c.Dir, "k")
	c.Must(err)
	defer os.RemoveAll(dir)
	log := filepath.Join(dir, "log")
	self, err := os.Executable()
	c.Must(err)
	cmd := exec.Command(strace, "-f", "-s", "64", "-e", "trace=write,fsync,fdatasync,sync,syncfs,msync,openat", "-o", log,
		self, "child", "c27sync", filepath.Join(dir, "db"), filepath.Join(dir, "marks"))
	cmd.Stdout, cmd.Stderr = io.Discard, io.Discard
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	done := make(chan error, 1)
	c.Must(cmd.Start())
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(90 * time.Second):
		cmd.Process.Kill()
		<-done
		err = errors.New("slow")
	}
	b, _ := os.ReadFile(log)
	if err != nil || !bytes.Contains(b, []byte("complete;")) {
		c.Assume("the store couldn't be traced: flushing of real files wasn't observed")
		return
	}
	inside, flushed, n := -1, false, 0
	osync := false
	for _, line := range strings.Split(string(b), "\n") {
		switch {
		case strings.Contains(line, "begin-"):
			fmt.Sscanf(line[strings.Index(line, "begin-"):], "begin-%d;", &inside)
			flushed = false
		case strings.Contains(line, "end-"):
			c.Check(flushed, "a write returns before it was flushed to the disk", "write %d", inside)
			n++
			inside = -1
		case strings.Contains(line, "openat") && (strings.Contains(line, "O_SYNC") || strings.Contains(line, "O_DSYNC")):
			osync = true
			flushed = true
		case strings.Contains(line, "sync(") || strings.Contains(line, "syncfs(") || strings.Contains(line, "sync resumed"):
			flushed = true
		}
		if osync {
			flushed = true
		}
	}
	c.Check(n == 60+2*len(c27syncSizes), "the trace of the store is incomplete", "%d writes", n)
	c.Count("traced writes", n)
	c.Distinct("traced", n)
	c.Eval(n)
	utils.WithDB(func(db kv.DB) {
		c.Check(len(contents(c, db)) == 0, "a new store isn't empty", "")
	})
}
