package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"math/rand"

	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
)

//go:embed deep_fixture.json
var deepJSON []byte

// fixture is a set of names whose private indices under a fixed key share
// prefixes of up to 41 bits (mined by tools/mine).
type fixture struct {
	seed  string
	names []string
}

func deepFixtures() []fixture {
	var f struct {
		Seed   string
		Groups [][]string
	}
	if err := json.Unmarshal(deepJSON, &f); err != nil {
		panic(err)
	}
	var out []fixture
	for _, g := range f.Groups {
		out = append(out, fixture{f.Seed, g})
	}
	return out
}

func (fx fixture) sim(c *Ctx, r *rand.Rand, wire bool) *sim {
	s := newSim(c, r, 1000, 1, wire)
	sk, err := vrf.GenerateKey(bytes.NewReader([]byte(fx.seed)))
	c.Must(err)
	s.vrfSK = sk
	s.vrfPK, _ = sk.Public()
	s.d = directory.New(1, sk, s.signSK, s.hist, true)
	s.strs = []*protocol.DirSTR{copySTR(s.d.LatestSTR())}
	return s
}
