package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
)

// ---- addresses and connections ----

type addrSpec struct{ tcp, reg bool }

type srvAddr struct {
	addrSpec
	url  string
	path string // socket file
	host string
	sa   *application.ServerAddress
}

var certFiles struct {
	sync.Once
	pem, key []byte
}

// writeCert puts a self-signed certificate into the directory.
func writeCert(c *Ctx, dir string) {
	certFiles.Do(func() {
		k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		c.Must(err)
		t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"},
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
			IPAddresses: []net.IP{net.ParseIP(loopIP())}, IsCA: true, BasicConstraintsValid: true,
			KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
		der, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
		c.Must(err)
		kb, err := x509.MarshalECPrivateKey(k)
		c.Must(err)
		certFiles.pem = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
		certFiles.key = pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})
	})
	c.Must(os.WriteFile(filepath.Join(dir, "server.pem"), certFiles.pem, 0600))
	c.Must(os.WriteFile(filepath.Join(dir, "server.key"), certFiles.key, 0600))
}

var nextPort int

var loop struct {
	sync.Once
	ip string
}

// loopIP is a loopback address of this process alone, so that runs at the
// same time don't take each other's ports.
func loopIP() string {
	loop.Do(func() {
		pid := os.Getpid()
		loop.ip = fmt.Sprintf("127.%d.%d.%d", 1+pid/62500%250, 1+pid/250%250, 1+pid%250)
		l, err := net.Listen("tcp", loop.ip+":0")
		if err != nil {
			loop.ip = "127.0.0.1"
			return
		}
		l.Close()
	})
	return loop.ip
}

// freePort returns a port below the range for outgoing connections.
func freePort(c *Ctx) int {
	for i := 0; i < 2000; i++ {
		p := 12000 + (c.shard%16)*1000 + nextPort%1000
		nextPort++
		l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", loopIP(), p))
		if err == nil {
			l.Close()
			return p
		}
	}
	c.Harness("no free port")
	return 0
}

func newAddrs(c *Ctx, dir string, specs []addrSpec) (out []*srvAddr) {
	cert := false
	for i, sp := range specs {
		a := &srvAddr{addrSpec: sp}
		if sp.tcp {
			if !cert {
				writeCert(c, dir)
				cert = true
			}
			a.host = fmt.Sprintf("%s:%d", loopIP(), freePort(c))
			a.url = "tcp://" + a.host
		} else {
			a.path = filepath.Join(dir, fmt.Sprintf("s%d", i))
			a.url = "unix://" + a.path
		}
		a.sa = &application.ServerAddress{Address: a.url}
		if sp.tcp {
			a.sa.TLSCertPath, a.sa.TLSKeyPath = filepath.Join(dir, "server.pem"), filepath.Join(dir, "server.key")
		}
		out = append(out, a)
	}
	return out
}

// raw opens a connection without TLS.
func (a *srvAddr) raw() (net.Conn, error) {
	if a.tcp {
		return net.DialTimeout("tcp", a.host, 60*time.Second)
	}
	return net.DialTimeout("unix", a.path, 60*time.Second)
}

// dial opens a connection; the TLS handshake is done.
func (a *srvAddr) dial() (net.Conn, error) {
	conn, err := a.raw()
	if err != nil {
		return nil, err
	}
	conn.SetDeadline(time.Now().Add(100 * time.Second))
	if a.tcp {
		t := tls.Client(conn, &tls.Config{InsecureSkipVerify: true})
		if err := t.Handshake(); err != nil {
			conn.Close()
			return nil, err
		}
		return t, nil
	}
	return conn, nil
}

func closeWrite(conn net.Conn) {
	if w, ok := conn.(interface{ CloseWrite() error }); ok {
		w.CloseWrite()
	}
}

// exchange sends one request and reads the answer.
func (a *srvAddr) exchange(msg []byte) ([]byte, error) {
	conn, err := a.dial()
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	return talk(conn, msg)
}

func talk(conn net.Conn, msg []byte) ([]byte, error) {
	if _, err := conn.Write(msg); err != nil {
		return nil, err
	}
	closeWrite(conn)
	b, err := io.ReadAll(conn)
	if len(b) > 0 && err != nil {
		return nil, err
	}
	return b, err
}

// ---- a real key server ----

type srv struct {
	c              *Ctx
	dir, cfg       string
	addrs          []*srvAddr
	s              *server.ConiksServer
	conf           *server.Config
	signSK         sign.PrivateKey
	signPK         sign.PublicKey
	vrfSK          vrf.PrivateKey
	vrfPK          vrf.PublicKey
	hist, deadline uint64
	env            string
	timer          *time.Timer
	inMemory       bool
	idxMu          sync.Mutex
	idxs           map[string][]byte
	verified       map[string]bool
}

// findTimer returns the server's epoch timer, if it has one of the expected
// kind: with it epochs can be changed at any time.
func findTimer(v reflect.Value, depth int) *time.Timer {
	if depth > 6 {
		return nil
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		if v.Type() == reflect.TypeOf((*time.Timer)(nil)) {
			return (*time.Timer)(unsafe.Pointer(v.Pointer()))
		}
		if v.Elem().Kind() == reflect.Struct {
			return findTimer(v.Elem(), depth+1)
		}
	case reflect.Struct:
		if !strings.HasPrefix(v.Type().PkgPath(), modPath+"/application") {
			return nil
		}
		for i := 0; i < v.NumField(); i++ {
			if t := findTimer(v.Field(i), depth+1); t != nil {
				return t
			}
		}
	}
	return nil
}

// canForce tells whether epochs of a server can be changed at any time.
var force struct {
	sync.Once
	ok bool
}

func canForce(c *Ctx) bool {
	force.Do(func() {
		s := newSrv(c, rand.New(rand.NewSource(1)), []addrSpec{{false, true}}, 10, 3600)
		defer s.remove()
		s.start()
		defer s.s.Shutdown()
		if s.timer == nil {
			return
		}
		for i := 0; i < 4000 && !force.ok; i++ {
			if i%50 == 0 {
				s.nextEpoch()
			}
			e, ok := s.epoch(s.addrs[0])
			force.ok = ok && e > 0
			time.Sleep(5 * time.Millisecond)
		}
	})
	return force.ok
}

// longDeadline is an epoch deadline for servers whose epochs are changed by
// the harness, or one second where that isn't possible.
func longDeadline(c *Ctx, n uint64) uint64 {
	if canForce(c) {
		return 3600 + n
	}
	return 1
}

func newSrv(c *Ctx, r *rand.Rand, specs []addrSpec, hist, deadline uint64) *srv {
	dir, err := os.MkdirTemp(c.Dir, "s")
	c.Must(err)
	s := &srv{c: c, dir: dir, cfg: filepath.Join(dir, "config.toml"), hist: hist, deadline: deadline, env: "production",
		idxs: map[string][]byte{}, verified: map[string]bool{}}
	s.signSK, s.signPK, s.vrfSK, s.vrfPK = newKeys(r)
	c.Must(os.WriteFile(filepath.Join(dir, "sign.priv"), s.signSK, 0600))
	c.Must(os.WriteFile(filepath.Join(dir, "vrf.priv"), s.vrfSK, 0600))
	s.addrs = newAddrs(c, dir, specs)
	s.inMemory = len(specs) > 1 && s.signSK[0]%3 == 0
	s.writeConfig(deadline)
	return s
}

// writeConfig replaces the configuration file in one step.
func (s *srv) writeConfig(deadline uint64) {
	var b strings.Builder
	fmt.Fprintf(&b, "loaded_history_length = %d\ninit_str_path = \"init.str\"\n\n[policies]\nepoch_deadline = %d\nvrf_key_path = \"vrf.priv\"\nsign_key_path = \"sign.priv\"\n\n[logger]\nenv = %q\npath = \"server.log\"\n", s.hist, deadline, s.env)
	for _, a := range s.addrs {
		fmt.Fprintf(&b, "\n[[addresses]]\naddress = %q\n", a.url)
		if a.reg {
			fmt.Fprintf(&b, "allow_registration = true\n")
		}
		if a.tcp {
			fmt.Fprintf(&b, "cert = \"server.pem\"\nkey = \"server.key\"\n")
		}
	}
	tmp := s.cfg + ".new"
	s.c.Must(os.WriteFile(tmp, []byte(b.String()), 0600))
	s.c.Must(os.Rename(tmp, s.cfg))
}

func (s *srv) start() {
	s.conf = &server.Config{}
	if s.inMemory {
		// a program may also make its configuration itself
		var addrs []*server.Address
		for _, a := range s.addrs {
			sa := &application.ServerAddress{Address: a.url}
			if a.tcp {
				sa.TLSCertPath, sa.TLSKeyPath = filepath.Join(s.dir, "server.pem"), filepath.Join(s.dir, "server.key")
			}
			addrs = append(addrs, &server.Address{ServerAddress: sa, AllowRegistration: a.reg})
		}
		s.conf = server.NewConfig(s.cfg, "toml", addrs,
			&application.LoggerConfig{Environment: s.env, Path: filepath.Join(s.dir, "server.log")}, s.hist,
			server.NewPolicies(protocol.Timestamp(s.deadline), "vrf.priv", "sign.priv", s.vrfSK, s.signSK), "init.str")
	} else if err := s.conf.Load(s.cfg, "toml"); err != nil {
		s.c.Fail("a valid configuration isn't loaded", "%v", err)
	}
	s.s = server.NewConiksServer(s.conf)
	s.timer = findTimer(reflect.ValueOf(s.s), 0)
	for i, a := range s.conf.Addresses {
		s.addrs[i].sa = a.ServerAddress
	}
	s.s.Run(s.conf.Addresses)
	s.c.Tick()
}

// nextEpoch makes the epoch end soon.
func (s *srv) nextEpoch() {
	if s.timer != nil && (force.ok || s.deadline == 3600) {
		s.timer.Reset(0)
	}
}

// reload asks for a reload of the configuration.
func reload() { syscall.Kill(syscall.Getpid(), syscall.SIGUSR2) }

func (s *srv) log() string {
	b, _ := os.ReadFile(filepath.Join(s.dir, "server.log"))
	return string(b)
}

func (s *srv) remove() { os.RemoveAll(s.dir) }

func (s *srv) idx(name string) []byte {
	s.idxMu.Lock()
	defer s.idxMu.Unlock()
	if i, ok := s.idxs[name]; ok {
		return i
	}
	i := s.vrfSK.Compute([]byte(name))
	s.idxs[name] = i
	return i
}

func mustRequest(c *Ctx, t int, req interface{}) []byte {
	b, err := application.MarshalRequest(t, req)
	c.Must(err)
	return b
}

// ask sends a request and decodes the answer; nil if there was none.
func (s *srv) ask(a *srvAddr, t int, req interface{}) *protocol.Response {
	b, err := a.exchange(mustRequest(s.c, t, req))
	if err != nil || len(b) == 0 {
		return nil
	}
	return application.UnmarshalResponse(t, b)
}

// epoch asks for the current epoch.
func (s *srv) epoch(a *srvAddr) (uint64, bool) {
	res := s.ask(a, protocol.KeyLookupType, &protocol.KeyLookupRequest{Username: "nobody at all"})
	if p := proofOf(res); p != nil && len(p.STR) == 1 && whole(p.STR[0]) {
		return p.STR[0].Epoch, true
	}
	return 0, false
}

// waitEpoch waits until the epoch is at least e; the watchdog ends a run
// without any progress.
func (s *srv) waitEpoch(a *srvAddr, e uint64) uint64 {
	for {
		if now, ok := s.epoch(a); ok && now >= e {
			s.c.Tick()
			return now
		}
		s.nextEpoch()
		time.Sleep(5 * time.Millisecond)
	}
}

// verifySTR verifies a root under the server's key, once per root.
func (s *srv) verifySTR(str *protocol.DirSTR) bool {
	k := strString(str)
	if s.verified[k] {
		return true
	}
	if !refSTRWellFormed(str) || !refSTRSigned(str, s.signPK) || string(str.Policies.VrfPublicKey) != string(s.vrfPK) {
		return false
	}
	s.verified[k] = true
	return true
}

// chain asks for all roots up to the latest and checks that they are linked.
func (s *srv) chain(a *srvAddr) []*protocol.DirSTR {
	const what = "the roots of a server are not one chain"
	res := s.ask(a, protocol.KeyLookupInEpochType, &protocol.KeyLookupInEpochRequest{Username: "nobody at all", Epoch: 0})
	p := proofOf(res)
	if p == nil {
		s.c.Fail("a past lookup isn't answered", "%s", clip(jsonOf(res), 300))
	}
	for i, str := range p.STR {
		s.c.Check(whole(str) && str.Epoch == uint64(i) && s.verifySTR(str), what, "root %d: %s", i, strString(str))
		s.c.Check(i == 0 || refLinks(p.STR[i-1], str), what, "root %d: %s after %s", i, strString(str), strString(p.STR[(i+len(p.STR)-1)%len(p.STR)]))
	}
	return p.STR
}

// randSpecs makes 1..n addresses, at least one with registration.
func randSpecs(r *rand.Rand, n int, tcp bool) []addrSpec {
	out := make([]addrSpec, 1+r.Intn(n))
	for i := range out {
		out[i] = addrSpec{tcp && r.Intn(3) == 0, r.Intn(2) == 0}
	}
	out[r.Intn(len(out))].reg = true
	return out
}
