package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/bots"
	appclient "github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
	"github.com/coniks-sys/coniks-go/utils"
)

func init() {
	register(&Property{ID: "C25", Level: "exploration", Run: runC25,
		Rule: "random configurations, keys and roots saved and loaded from several working directories with decoy files of the same names; key and root files of every other size; saving onto every kind of existing object, concurrently, and with writes that fail at every size; the init commands run under an open umask; non-trivial: distinct by (application, layout, working directory) or by (kind of object, writer)",
		Need: map[string]int64{"contents of all sizes": 60, "configurations behind a link": 60, "configurations": 240, "decoys": 600, "servers from loaded configurations": 60, "damaged files": 3000, "objects kept": 400, "concurrent writes": 1500, "failing writes": 60, "roots": 150, "private keys generated": 10}})
	childModes["c25write"] = c25child
}

func runC25(c *Ctx) {
	for i := 0; i < c.N(400, 6000); i++ {
		c.Case(fmt.Sprintf("layout-%d", i), func(r *rand.Rand) { c25layout(c, r) })
	}
	for i := 0; i < c.N(16, 300); i++ {
		c.Case(fmt.Sprintf("damage-%d", i), func(r *rand.Rand) { c25damage(c, r) })
	}
	for i := 0; i < c.N(40, 600); i++ {
		c.Case(fmt.Sprintf("keep-%d", i), func(r *rand.Rand) { c25keep(c, r) })
	}
	for i := 0; i < c.N(24, 600); i++ {
		c.Case(fmt.Sprintf("concurrent-%d", i), func(r *rand.Rand) { c25concurrent(c, r) })
	}
	for i := 0; i < c.N(8, 60); i++ {
		c.Case(fmt.Sprintf("failing-%d", i), func(r *rand.Rand) { c25failing(c, r) })
	}
	for i := 0; i < c.N(24, 200); i++ {
		c.Case(fmt.Sprintf("init-%d", i), func(r *rand.Rand) {
			defer syscall.Umask(syscall.Umask(0))
			c28init(c, r)
		})
	}
	for i := 0; i < c.N(4, 40); i++ {
		c.Case(fmt.Sprintf("sizes-%d", i), func(r *rand.Rand) { c25sizes(c, r) })
	}
	c.Case("loadconfig", func(r *rand.Rand) { c25loadConfig(c, r) })
}

// genText is a string for a configuration file.
func genText(r *rand.Rand) string {
	parts := []string{"a", "handle", "\"", "\\", "'", "'''", "\n", "\t", "\r\n", "é", "😀", "\u2028", "#", " ", "=", "[x]", "\x7f", "\x01", "{", "}", "true", "5", "\\u0041", "%s", "./", "$HOME", "~"}
	s := ""
	for i, n := 0, r.Intn(7); i < n; i++ {
		s += parts[r.Intn(len(parts))]
	}
	return s
}

func genUint63(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return []uint64{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1}[r.Intn(8)]
	case 1:
		return r.Uint64() >> 1
	default:
		return uint64(r.Intn(100000))
	}
}

// inDir runs f in a working directory.
func inDir(c *Ctx, dir string, f func()) {
	old, err := os.Getwd()
	c.Must(err)
	c.Must(os.Chdir(dir))
	defer os.Chdir(old)
	f()
}

type c25world struct {
	c      *Ctx
	r      *rand.Rand
	root   string
	dirs   []string
	decoys map[string][]byte
}

// fileName picks a name for a file, as written in a configuration in dir, and
// the path it means.
func (w *c25world) fileName(dir, base string) (written, path string) {
	switch w.r.Intn(5) {
	case 0:
		path = filepath.Join(w.dirs[w.r.Intn(len(w.dirs))], base)
		return path, path
	case 1:
		return "sub/" + base, filepath.Join(dir, "sub", base)
	case 2:
		return "../" + base, filepath.Join(filepath.Dir(dir), base)
	case 3:
		return "./sub/../" + base, filepath.Join(dir, base)
	default:
		return base, filepath.Join(dir, base)
	}
}

// put writes a file, and other contents of the same kind wherever a wrong
// resolution might look.
func (w *c25world) put(written, path string, content []byte, other func() []byte) {
	if !filepath.IsAbs(written) {
		for _, d := range append([]string{w.root}, w.dirs...) {
			p := filepath.Join(d, written)
			if p == path {
				continue
			}
			if _, err := os.Lstat(filepath.Dir(p)); err != nil {
				continue
			}
			if _, ok := w.decoys[p]; !ok && !exists(p) {
				b := other()
				w.c.Must(os.WriteFile(p, b, 0600))
				w.decoys[p] = b
				w.c.Count("decoys", 1)
			}
		}
	}
	w.c.Must(os.WriteFile(path, content, 0600))
	delete(w.decoys, path)
}

func exists(p string) bool { _, err := os.Lstat(p); return err == nil }

// confPath is a way to name the configuration file from a working directory.
func (w *c25world) confPath(cwd, path string) string {
	if w.r.Intn(2) == 0 {
		return path
	}
	rel, err := filepath.Rel(cwd, path)
	w.c.Must(err)
	if w.r.Intn(3) == 0 {
		rel = "./" + rel
	}
	return rel
}

func c25layout(c *Ctx, r *rand.Rand) {
	root, err := os.MkdirTemp(c.Dir, "l")
	c.Must(err)
	root, err = filepath.EvalSymlinks(root)
	c.Must(err)
	defer os.RemoveAll(root)
	w := &c25world{c: c, r: r, root: root, decoys: map[string][]byte{}}
	for _, d := range []string{"a/b", "a/b/c d", "x", "x/a"} {
		c.Must(os.MkdirAll(filepath.Join(root, d, "sub"), 0700))
		w.dirs = append(w.dirs, filepath.Join(root, d))
	}
	dir := w.dirs[r.Intn(len(w.dirs))]
	cwd1, cwd2 := w.dirs[r.Intn(len(w.dirs))], w.dirs[r.Intn(len(w.dirs))]
	path := filepath.Join(dir, []string{"config.toml", "my config.toml", "c"}[r.Intn(3)])
	enc := []string{"toml", "", "other"}[r.Intn(3)]
	kind := r.Intn(3)
	c.Eval(1)
	c.Count("configurations", 1)
	c.Distinct(kind, dir, cwd1, cwd2, r.Int63())
	switch kind {
	case 0:
		w.server(dir, cwd1, cwd2, path, enc)
	case 1:
		w.client(dir, cwd1, cwd2, path, enc)
	default:
		w.bot(cwd1, cwd2, path, enc)
	}
	for p, b := range w.decoys {
		now, err := os.ReadFile(p)
		c.Check(err == nil && bytes.Equal(now, b), "a file that has nothing to do with a configuration changes", "%s", p)
	}
}

const c25differs = "a loaded configuration differs from the saved one"

// saved checks the file a configuration was saved to.
func (w *c25world) saved(path string, err error) {
	w.c.Check(err == nil, "a configuration isn't saved", "%s: %v", path, err)
	fi, err := os.Stat(path)
	w.c.Check(err == nil && fi.Size() > 0 && fi.Mode()&0022 == 0, "a configuration isn't saved", "%s: %v", path, err)
}

// relink sometimes moves the saved configuration elsewhere and leaves a link
// at its path: names are still relative to the path it is loaded by.
func (w *c25world) relink(path string) {
	if w.r.Intn(4) != 0 {
		return
	}
	to := filepath.Join(w.root, "x", "sub", "moved.toml")
	w.c.Must(os.Rename(path, to))
	w.c.Must(os.Symlink(to, path))
	w.c.Count("configurations behind a link", 1)
}

func (w *c25world) server(dir, cwd1, cwd2, path, enc string) {
	c, r := w.c, w.r
	ssk, spk, vsk, vpk := newKeys(r)
	signName, signPath := w.fileName(dir, "sign.priv")
	vrfName, vrfPath := w.fileName(dir, "vrf.priv")
	initName, initPath := w.fileName(dir, "init.str")
	logName, logPath := w.fileName(dir, "server.log")
	if r.Intn(4) == 0 {
		logName, logPath = "", ""
	}
	w.put(signName, signPath, ssk, func() []byte { s, _, _, _ := newKeys(r); return s })
	w.put(vrfName, vrfPath, vsk, func() []byte { _, _, v, _ := newKeys(r); return v })
	var addrs []*server.Address
	var certs [][2]string
	for i, n := 0, r.Intn(5); i < n; i++ {
		a := &server.Address{ServerAddress: &application.ServerAddress{Address: "unix:///nowhere/" + genText(r)}, AllowRegistration: r.Intn(2) == 0}
		cp := [2]string{}
		if r.Intn(2) == 0 {
			var cn, kn string
			cn, cp[0] = w.fileName(dir, "server.pem")
			kn, cp[1] = w.fileName(dir, "server.key")
			a.Address, a.TLSCertPath, a.TLSKeyPath = "tcp://127.0.0.1:"+strconv.Itoa(r.Intn(65536)), cn, kn
		}
		certs = append(certs, cp)
		addrs = append(addrs, a)
	}
	hist, deadline := uint64(1+r.Intn(2000)), protocol.Timestamp(genUint63(r))
	mk := func(p string) *server.Config {
		cp := []*server.Address{}
		for _, a := range addrs {
			sa := *a.ServerAddress
			cp = append(cp, &server.Address{ServerAddress: &sa, AllowRegistration: a.AllowRegistration})
		}
		return server.NewConfig(p, enc, cp, &application.LoggerConfig{EnableStacktrace: r.Intn(2) == 0, Environment: "production", Path: logName},
			hist, server.NewPolicies(deadline, vrfName, signName, vsk, ssk), initName)
	}
	var conf *server.Config
	inDir(c, cwd1, func() {
		conf = mk(w.confPath(cwd1, path))
		w.saved(path, conf.Save())
		w.relink(path)
	})
	judge := func(got *server.Config, given string, err error) {
		c.Check(err == nil, "a saved configuration isn't loaded", "%v", err)
		logOK := got.Logger != nil && got.Logger.Environment == "production" && got.Logger.EnableStacktrace == conf.Logger.EnableStacktrace &&
			(logPath == "" && got.Logger.Path == "" || logPath != "" && samePath(got.Logger.Path, logPath))
		c.Check(got.Path == given && got.LoadedHistoryLength == hist && got.Policies != nil && got.Policies.EpochDeadline == deadline &&
			samePath(utils.ResolvePath(got.Policies.VRFKeyPath, given), vrfPath) && samePath(utils.ResolvePath(got.Policies.SignKeyPath, given), signPath) &&
			samePath(utils.ResolvePath(got.InitSTRPath, given), initPath) && len(got.Addresses) == len(addrs) && logOK,
			c25differs, "saved %s\nloaded %s", jsonOf(conf), jsonOf(got))
		for i, a := range got.Addresses {
			ok := a.Address == addrs[i].Address && a.AllowRegistration == addrs[i].AllowRegistration
			if certs[i][0] != "" {
				ok = ok && samePath(a.TLSCertPath, certs[i][0]) && samePath(a.TLSKeyPath, certs[i][1])
			}
			c.Check(ok, c25differs, "address %d: saved %s, loaded %s, files %v", i, jsonOf(addrs[i]), jsonOf(a), certs[i])
		}
	}
	loaded := &server.Config{}
	var given string
	inDir(c, cwd2, func() {
		given = w.confPath(cwd2, path)
		judge(loaded, given, loaded.Load(given, enc))
		// what was loaded also holds the keys: a server made from it uses
		// them, and puts its first root where the configuration says
		if logPath != "" && !exists(filepath.Dir(logPath)) {
			return
		}
		delete(w.decoys, initPath)
		os.Remove(initPath)
		s := server.NewConiksServer(loaded)
		str, err := application.LoadInitSTR(initName, given)
		c.Check(err == nil, "the initial root isn't saved, or not where the configuration says", "%v", err)
		p := proofOf(s.HandleRequests(&protocol.Request{Type: protocol.KeyLookupType, Request: &protocol.KeyLookupRequest{Username: "x"}}))
		c.Check(p != nil && len(p.STR) == 1 && sameSTR(str, p.STR[0]) && refSTRSigned(str, spk) && bytes.Equal(str.Policies.VrfPublicKey, vpk) && str.Policies.EpochDeadline == deadline,
			"a server made from a loaded configuration uses other values", "%s, published %s", strString(str), jsonOf(p))
		c.Check(bytes.Equal(p.AP[0].LookupIndex, vsk.Compute([]byte("x"))), "a server made from a loaded configuration uses other values", "index key")
		c.Count("servers from loaded configurations", 1)
		c.Count("roots", 1)
	})
	if r.Intn(2) == 0 { // a loaded configuration is saved beside the old one and loaded again
		inDir(c, cwd2, func() {
			second := filepath.Join(dir, "second.toml")
			loaded.Path = second
			w.saved(second, loaded.Save())
			again := &server.Config{}
			judge(again, second, again.Load(second, enc))
		})
	}
	c.Check(!bytes.Contains(readFile(c, path), ssk[:8]), "a configuration contains a private key", "%s", path)
}

func readFile(c *Ctx, p string) []byte {
	b, err := os.ReadFile(p)
	c.Must(err)
	return b
}

func samePath(a, b string) bool {
	x, err1 := filepath.Abs(a)
	y, err2 := filepath.Abs(b)
	return a != "" && err1 == nil && err2 == nil && x == y
}

func (w *c25world) client(dir, cwd1, cwd2, path, enc string) {
	c, r := w.c, w.r
	ssk, spk, vsk, _ := newKeys(r)
	d := directory.New(protocol.Timestamp(r.Uint64()), vsk, ssk, 10, true)
	initSTR := copySTR(d.LatestSTR())
	keyName, keyPath := w.fileName(dir, "sign.pub")
	initName, initPath := w.fileName(dir, "init.str")
	w.put(keyName, keyPath, spk, func() []byte { _, p, _, _ := newKeys(r); return p })
	w.put(initName, initPath, nil, func() []byte {
		s, _, v, _ := newKeys(r)
		return []byte(jsonOf(directory.New(1, v, s, 10, true).LatestSTR()))
	})
	c.Must(os.Remove(initPath))
	c.Check(application.SaveSTR(initPath, initSTR) == nil, "a root isn't saved", "%s", initPath)
	reg, addr := genText(r), genText(r)
	var conf *appclient.Config
	inDir(c, cwd1, func() {
		conf = appclient.NewConfig(w.confPath(cwd1, path), enc, keyName, initName, reg, addr)
		w.saved(path, conf.Save())
		w.relink(path)
	})
	judge := func(got *appclient.Config, given string, err error) {
		c.Check(err == nil, "a saved configuration isn't loaded", "%v", err)
		c.Check(got.Path == given && bytes.Equal(got.SigningPubKey, spk) && sameSTR(got.InitSTR, initSTR) && got.RegAddress == reg && got.Address == addr,
			c25differs, "saved %s\nloaded %s", jsonOf(conf), jsonOf(got))
		c.Check(bytes.Equal(got.InitSTR.Serialize(), initSTR.Serialize()), c25differs, "initial root %s, %s", strString(got.InitSTR), strString(initSTR))
		c.Count("roots", 1)
	}
	inDir(c, cwd2, func() {
		given := w.confPath(cwd2, path)
		got := &appclient.Config{}
		judge(got, given, got.Load(given, enc))
	})
}

func (w *c25world) bot(cwd1, cwd2, path, enc string) {
	c, r := w.c, w.r
	var conf *bots.TwitterConfig
	inDir(c, cwd1, func() {
		conf = bots.NewTwitterConfig(w.confPath(cwd1, path), enc, genText(r), genText(r),
			bots.TwitterOAuth{ConsumerKey: genText(r), ConsumerSecret: genText(r), AccessToken: genText(r), AccessSecret: genText(r)})
		w.saved(path, conf.Save())
		w.relink(path)
	})
	inDir(c, cwd2, func() {
		got := &bots.TwitterConfig{}
		err := got.Load(w.confPath(cwd2, path), enc)
		c.Check(err == nil, "a saved configuration isn't loaded", "%v", err)
		c.Check(got.CONIKSAddress == conf.CONIKSAddress && got.Handle == conf.Handle && reflect.DeepEqual(got.TwitterOAuth, conf.TwitterOAuth),
			c25differs, "saved %s\nloaded %s", jsonOf(conf), jsonOf(got))
	})
}

// c25damage loads damaged files.
func c25damage(c *Ctx, r *rand.Rand) {
	dir, err := os.MkdirTemp(c.Dir, "d")
	c.Must(err)
	defer os.RemoveAll(dir)
	ssk, spk, vsk, _ := newKeys(r)
	d := directory.New(60, vsk, ssk, 10, true)
	str := []byte(jsonOf(d.LatestSTR()))
	files := map[string][]byte{"sign.pub": spk, "sign.priv": ssk, "vrf.priv": vsk, "init.str": str}
	for n, b := range files {
		c.Must(os.WriteFile(filepath.Join(dir, n), b, 0600))
	}
	sc, cc := filepath.Join(dir, "server.toml"), filepath.Join(dir, "client.toml")
	c.Must(server.NewConfig(sc, "toml", nil, &application.LoggerConfig{Environment: "production"}, 10, &server.Policies{EpochDeadline: 60, VRFKeyPath: "vrf.priv", SignKeyPath: "sign.priv"}, "init.str").Save())
	c.Must(appclient.NewConfig(cc, "toml", "sign.pub", "init.str", "", "x").Save())
	loaders := map[string][]func() error{
		"sign.pub": {func() error {
			k, err := application.LoadSigningPubKey("sign.pub", cc)
			c.Check(err == nil || k == nil, "a damaged file yields a value", "%x, %v", k, err)
			return err
		}, func() error { return (&appclient.Config{}).Load(cc, "toml") }},
		"sign.priv": {func() error { return (&server.Config{}).Load(sc, "toml") }},
		"vrf.priv":  {func() error { return (&server.Config{}).Load(sc, "toml") }},
		"init.str": {func() error {
			s, err := application.LoadInitSTR("init.str", cc)
			c.Check(err == nil || s == nil, "a damaged file yields a value", "%s, %v", strString(s), err)
			return err
		}, func() error { return (&appclient.Config{}).Load(cc, "toml") }},
	}
	for _, name := range []string{"sign.pub", "sign.priv", "vrf.priv", "init.str"} {
		good := files[name]
		p := filepath.Join(dir, name)
		for _, f := range loaders[name] {
			c.Check(f() == nil, "an intact file isn't loaded", "%s: %v", name, f())
		}
		try := func(how string, content []byte) {
			if content != nil {
				c.Must(os.WriteFile(p, content, 0600))
			}
			for i, f := range loaders[name] {
				var err error
				guarded(c, "loading "+name, content, how, func() { err = f() })
				c.Check(err != nil, "a damaged file is loaded", "%s %s, loader %d", name, how, i)
				c.Count("damaged files", 1)
				c.Eval(1)
			}
			c.Distinct(name, how)
		}
		if name == "init.str" {
			for n := 0; n < len(good); n++ {
				try(fmt.Sprintf("truncated to %d", n), good[:n])
			}
			try("twice", append(append([]byte{}, good...), good...))
			try("with more behind it", append(append([]byte{}, good...), "x"...))
			d.Update()
			try("a later root", []byte(jsonOf(d.LatestSTR())))
			try("null", []byte("null"))
			try("a list", []byte("["+string(good)+"]"))
		} else {
			for n := 0; n <= 3*len(good); n++ {
				if n != len(good) {
					try(fmt.Sprintf("of size %d", n), append(append([]byte{}, good...), randBytes(r, 2*len(good))...)[:n])
				}
			}
			try("with a newline", append(append([]byte{}, good...), '\n'))
			try("large", randBytes(r, 1<<20))
			try("in hex", []byte(fmt.Sprintf("%x", good)))
		}
		c.Must(os.Remove(p))
		try("missing", nil)
		c.Must(os.Mkdir(p, 0700))
		try("a directory", nil)
		c.Must(os.Remove(p))
		c.Must(os.Symlink(filepath.Join(dir, "nothing"), p))
		try("a dangling link", nil)
		c.Must(os.Remove(p))
		c.Must(os.WriteFile(p, good, 0600))
	}
	for _, conf := range []string{sc, cc} {
		good := readFile(c, conf)
		load := func() error {
			if conf == sc {
				return (&server.Config{}).Load(conf, "toml")
			}
			return (&appclient.Config{}).Load(conf, "toml")
		}
		try := func(how string) {
			var err error
			guarded(c, "loading a configuration", nil, how, func() { err = load() })
			c.Check(err != nil, "a damaged configuration is loaded", "%s: %s", conf, how)
			c.Count("damaged files", 1)
		}
		for n := 0; n < len(good); n += 1 + r.Intn(3) {
			// cut off within a value: an error, unless everything needed is there
			c.Must(os.WriteFile(conf, good[:n], 0600))
			var err error
			var sconf server.Config
			guarded(c, "loading a configuration", good[:n], "truncated", func() {
				if conf == sc {
					err = sconf.Load(conf, "toml")
				} else {
					err = (&appclient.Config{}).Load(conf, "toml")
				}
			})
			if err == nil && conf == sc {
				c.Check(sconf.Policies != nil && sconf.Logger != nil && (sconf.Policies.EpochDeadline == 60 || sconf.Policies.EpochDeadline == 0 || sconf.Policies.EpochDeadline == 6),
					"a truncated configuration yields wrong values", "%s", good[:n])
			}
			c.Count("damaged files", 1)
		}
		for _, how := range []string{"\x00", "[", "x", "a = ", "= 5", "\xff\xfe"} {
			c.Must(os.WriteFile(conf, append([]byte(how+"\n"), good...), 0600))
			try(fmt.Sprintf("after %q", how))
		}
		c.Must(os.Remove(conf))
		try("missing")
		c.Must(os.Mkdir(conf, 0700))
		try("a directory")
		c.Must(os.Remove(conf))
	}
}

// writers are all ways to save something to a path.
func writers(r *rand.Rand) map[string]func(p string) error {
	ssk, _, vsk, _ := newKeys(r)
	str := directory.New(60, vsk, ssk, 10, true).LatestSTR()
	text := genText(r)
	return map[string]func(p string) error{
		"WriteFile 0600": func(p string) error { return utils.WriteFile(p, ssk, 0600) },
		"WriteFile 0644": func(p string) error { return utils.WriteFile(p, []byte(text), 0644) },
		"WriteFile ''":   func(p string) error { return utils.WriteFile(p, nil, 0600) },
		"SaveSTR":        func(p string) error { return application.SaveSTR(p, str) },
		"server configuration": func(p string) error {
			return server.NewConfig(p, "toml", nil, &application.LoggerConfig{Environment: "production"}, 10, &server.Policies{EpochDeadline: 60}, "i").Save()
		},
		"client configuration": func(p string) error { return appclient.NewConfig(p, "toml", "a", "b", text, "d").Save() },
		"bot configuration":    func(p string) error { return bots.NewTwitterConfig(p, "", text, "b", bots.TwitterOAuth{}).Save() },
		"SaveConfig": func(p string) error {
			return application.SaveConfig(p, appclient.NewConfig(p, "toml", "a", "b", text, "d"))
		},
	}
}

func sortedKeys[T any](m map[string]T) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// c25keep saves onto existing objects.
func c25keep(c *Ctx, r *rand.Rand) {
	dir, err := os.MkdirTemp(c.Dir, "k")
	c.Must(err)
	defer os.RemoveAll(dir)
	ws := writers(r)
	for _, wn := range sortedKeys(ws) {
		w := ws[wn]
		p := filepath.Join(dir, "f")
		// what it writes where nothing is
		c.Check(w(p) == nil, "a file isn't saved", "%s", wn)
		fresh := readFile(c, p)
		fi, _ := os.Stat(p)
		c.Check(fi.Mode().Perm()&0133 == 0 && (strings.Contains(wn, "0600") == (fi.Mode().Perm() == 0600) || wn == "SaveSTR" || strings.HasSuffix(wn, "''")), "a file is saved with other permissions", "%s: %v", wn, fi.Mode())
		c.Check(w(p) != nil && bytes.Equal(readFile(c, p), fresh), "saving overwrites an existing file", "%s: twice", wn)
		c.Count("objects kept", 1)
		c.Must(os.Remove(p))
		old := randBytes(r, r.Intn(3000))
		target := filepath.Join(dir, "target")
		for _, kind := range []string{"file", "empty file", "read-only file", "link", "dangling link", "directory", "fifo", "socket", "hard link", "link loop"} {
			var ln net.Listener
			switch kind {
			case "file", "empty file":
				if kind == "empty file" {
					old = nil
				}
				c.Must(os.WriteFile(p, old, 0640))
			case "read-only file":
				c.Must(os.WriteFile(p, old, 0400))
			case "link":
				c.Must(os.WriteFile(target, old, 0600))
				c.Must(os.Symlink("target", p))
			case "dangling link":
				c.Must(os.Symlink("target", p))
			case "directory":
				c.Must(os.Mkdir(p, 0700))
			case "fifo":
				c.Must(syscall.Mkfifo(p, 0600))
			case "socket":
				if ln, err = net.Listen("unix", p); err != nil {
					continue // the path is too long
				}
			case "hard link":
				c.Must(os.WriteFile(target, old, 0600))
				c.Must(os.Link(target, p))
			case "link loop":
				c.Must(os.Symlink("f", p))
			}
			before, err := os.Lstat(p)
			c.Must(err)
			var werr error
			guarded(c, wn, nil, kind, func() { werr = w(p) })
			after, err := os.Lstat(p)
			c.Check(werr != nil, "saving onto an existing object succeeds", "%s onto a %s", wn, kind)
			c.Check(err == nil && os.SameFile(before, after) && before.Mode() == after.Mode() && before.Size() == after.Size(), "saving replaces an existing object", "%s onto a %s", wn, kind)
			switch kind {
			case "file", "empty file", "read-only file", "link", "hard link":
				c.Check(bytes.Equal(readFile(c, p), old), "saving overwrites an existing file", "%s onto a %s", wn, kind)
			case "dangling link":
				c.Check(!exists(target), "saving writes through a dangling link", "%s", wn)
			}
			if ln != nil {
				ln.Close()
			}
			os.Remove(p)
			os.Remove(target)
			c.Count("objects kept", 1)
			c.Eval(1)
			c.Distinct(wn, kind)
		}
		// a place that doesn't exist
		c.Check(w(filepath.Join(dir, "no", "f")) != nil, "saving to nowhere succeeds", "%s", wn)
	}
}

// c25sizes saves contents of all sizes.
func c25sizes(c *Ctx, r *rand.Rand) {
	dir, err := os.MkdirTemp(c.Dir, "z")
	c.Must(err)
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "f")
	for _, size := range []int{0, 1, 2, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 1 << 18, 1 << 20, 1<<20 + 1, 1<<22 + r.Intn(9), 5000000 + r.Intn(3000000)} {
		b := randBytes(r, size)
		err := utils.WriteFile(p, b, 0600)
		c.Check(err == nil && bytes.Equal(readFile(c, p), b), "a saved file has another content", "%d bytes, %d saved: %v", size, len(readFile(c, p)), err)
		c.Must(os.Remove(p))
		ssk, _, vsk, _ := newKeys(r)
		str := directory.New(60, vsk, ssk, 10, true).LatestSTR()
		if size < 1<<20 {
			str.Signature = b
			err = application.SaveSTR(p, str)
			c.Check(err == nil, "a root isn't saved", "with a signature of %d bytes: %v", size, err)
			var got protocol.DirSTR
			c.Check(json.Unmarshal(readFile(c, p), &got) == nil && bytes.Equal(got.Signature, b), "a saved root has another content", "with a signature of %d bytes", size)
			c.Must(os.Remove(p))
		}
		c.Eval(1)
		c.Distinct("size", size)
		c.Count("contents of all sizes", 1)
	}
}

// c25concurrent saves different contents to one path at once.
func c25concurrent(c *Ctx, r *rand.Rand) {
	dir, err := os.MkdirTemp(c.Dir, "c")
	c.Must(err)
	defer os.RemoveAll(dir)
	for round := 0; round < 10; round++ {
		p := filepath.Join(dir, fmt.Sprint("f", round))
		const n = 12
		gate := make(chan struct{})
		var wg sync.WaitGroup
		oks := make([]bool, n)
		contents := make([][]byte, n)
		for k := 0; k < n; k++ {
			contents[k] = append(randBytes(r, r.Intn(5000)), byte(k))
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-gate
				oks[k] = utils.WriteFile(p, contents[k], 0600) == nil
			}(k)
		}
		close(gate)
		wg.Wait()
		wins := []int{}
		for k, ok := range oks {
			if ok {
				wins = append(wins, k)
			}
		}
		c.Check(len(wins) == 1, "several concurrent savers of one file succeed, or none", "%v", wins)
		c.Check(bytes.Equal(readFile(c, p), contents[wins[0]]), "a concurrent saver overwrites the file", "saver %d succeeded", wins[0])
		c.Count("concurrent writes", n)
		c.Eval(1)
		c.Distinct(round, r.Int63())
	}
}

// c25child saves with a limit on the size of files; it prints whether each
// succeeded.
func c25child(args []string) {
	limit, _ := strconv.ParseUint(args[1], 10, 64)
	signal.Ignore(syscall.SIGXFSZ)
	ws := writers(rand.New(rand.NewSource(5)))
	full := map[string]int{}
	names := sortedKeys(ws)
	for i, n := range names {
		p := filepath.Join(args[0], fmt.Sprintf("full%d", i))
		if ws[n](p) == nil {
			fi, _ := os.Stat(p)
			full[n] = int(fi.Size())
		}
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: limit, Max: limit})
	for i, n := range names {
		p := filepath.Join(args[0], fmt.Sprintf("cut%d", i))
		err := ws[n](p)
		size := -1
		if fi, e := os.Stat(p); e == nil {
			size = int(fi.Size())
		}
		fmt.Printf("%q %v %d %d\n", n, err == nil, size, full[n])
	}
}

func c25failing(c *Ctx, r *rand.Rand) {
	for _, limit := range []int{0, 1, 10, 31, 63, 100} {
		dir, err := os.MkdirTemp(c.Dir, "w")
		c.Must(err)
		out, err := selfChild("c25write", dir, fmt.Sprint(limit)).Output()
		if err != nil {
			c.Harness("child: %v %s", err, out)
			return
		}
		for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
			var n string
			var ok bool
			var size, full int
			if _, err := fmt.Sscanf(l, "%q %v %d %d", &n, &ok, &size, &full); err != nil {
				c.Harness("child: %q", l)
				return
			}
			c.Check(!ok || size == full, "saving reports success though the file is incomplete", "%s with at most %d bytes: %d of %d", n, limit, size, full)
			if !ok && full > limit {
				c.Count("failing writes", 1)
			}
			c.Eval(1)
		}
		os.RemoveAll(dir)
	}
}

// c25loadConfig uses the function that loads any configuration.
func c25loadConfig(c *Ctx, r *rand.Rand) {
	dir, err := os.MkdirTemp(c.Dir, "g")
	c.Must(err)
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "c.toml")
	c.Must(appclient.NewConfig(p, "toml", "a", "b", "c", "d").Save())
	var got application.AppConfig
	guarded(c, "LoadConfig", nil, "intact", func() { got, err = application.LoadConfig(p) })
	if err != nil || got == nil {
		c.Finding("loadconfig-never-loads", "LoadConfig of an intact configuration: %v", err)
	}
	c.Eval(1)
}
