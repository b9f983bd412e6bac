// mine searches for names whose private indices share long prefixes under a
// fixed VRF key, and writes them as JSON (the fixture of the deep-tree cases).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/bits"
	"os"
	"sort"
	"sync"

	"github.com/coniks-sys/coniks-go/crypto/vrf"
)

func lcp(a, b []byte) int {
	for i := range a {
		if a[i] != b[i] {
			return i*8 + bits.LeadingZeros8(a[i]^b[i])
		}
	}
	return 256
}

func main() {
	n := flag.Int("n", 1<<20, "")
	seed := flag.String("seed", "fixture key number one, 32 bytes!", "")
	flag.Parse()
	sk, err := vrf.GenerateKey(bytes.NewReader([]byte(*seed)))
	if err != nil {
		panic(err)
	}
	idx := make([][]byte, *n)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < *n; i += 8 {
				idx[i] = sk.Compute([]byte(fmt.Sprintf("m%d", i)))[:12]
			}
		}(w)
	}
	wg.Wait()
	ord := make([]int, *n)
	for i := range ord {
		ord[i] = i
	}
	sort.Slice(ord, func(a, b int) bool { return bytes.Compare(idx[ord[a]], idx[ord[b]]) < 0 })
	type pr struct{ pos, l int }
	var ps []pr
	for i := 0; i+1 < *n; i++ {
		ps = append(ps, pr{i, lcp(idx[ord[i]], idx[ord[i+1]])})
	}
	sort.Slice(ps, func(a, b int) bool { return ps[a].l > ps[b].l })
	out := struct {
		Seed   string
		Groups [][]string
		Depth  []int
	}{Seed: *seed}
	for _, p := range ps[:6] {
		var g []string
		for j := p.pos - 3; j <= p.pos+4; j++ {
			if j >= 0 && j < *n {
				g = append(g, fmt.Sprintf("m%d", ord[j]))
			}
		}
		out.Groups = append(out.Groups, g)
		out.Depth = append(out.Depth, p.l+1)
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.Stdout.Write(append(b, '\n'))
}
