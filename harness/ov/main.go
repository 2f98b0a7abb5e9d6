// Replays behaviours of Ov.tla on ov.OriginValidator.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sort"
	"sync"

	"github.com/cloudflare/cfrpki/ov"
)

type item struct {
	P []int
	M int
	A uint32
	F int
	S string
	C []int
}
type world struct {
	V []item
	R []item
}
type vrp struct {
	id  int
	asn uint32
	max int
	net *net.IPNet
}

func (v *vrp) GetASN() uint32        { return v.asn }
func (v *vrp) GetMaxLen() int        { return v.max }
func (v *vrp) GetPrefix() *net.IPNet { return v.net }

// An embedding puts the bits at an offset of an address, after fixed bits.
type emb struct {
	name  string
	bytes int
	off   int
	base  []byte
	ip16  bool
}

func (e emb) net(bits []int) *net.IPNet {
	ip := make(net.IP, e.bytes)
	n := e.off + len(bits)
	for i := 0; i < e.off; i++ {
		if e.base[i/8]&(0x80>>(i%8)) != 0 {
			ip[i/8] |= 0x80 >> (i % 8)
		}
	}
	for i, b := range bits {
		if b == 1 {
			ip[(e.off+i)/8] |= 0x80 >> ((e.off + i) % 8)
		}
	}
	if e.ip16 {
		return &net.IPNet{IP: ip.To16(), Mask: net.CIDRMask(n, 32)}
	}
	return &net.IPNet{IP: ip, Mask: net.CIDRMask(n, e.bytes*8)}
}

var asns = [][]uint32{{0, 1, 2}, {0, 65551, 4294967295}, {0, 256, 2147483648}}

func embeddings(w int) (out [][2]emb) {
	v4 := []byte{10, 77, 200, 129}
	v6 := []byte{0x20, 1, 0xd, 0xb8, 0xff, 0, 0x55, 0xaa, 1, 2, 3, 4, 5, 6, 7, 8}
	map6 := make([]byte, 16)
	map6[10], map6[11] = 0xff, 0xff
	var f4, f6 []emb
	for _, o := range []int{0, 5, 8, 15, 22, 24, 32 - w} {
		f4 = append(f4, emb{fmt.Sprintf("v4+%d", o), 4, o, v4, false})
	}
	f4 = append(f4, emb{"v4zero", 4, 12, make([]byte, 4), false})
	for _, o := range []int{0, 29, 32, 47, 62, 63, 64, 96, 126 - w, 128 - w} {
		f6 = append(f6, emb{fmt.Sprintf("v6+%d", o), 16, o, v6, false})
	}
	f6 = append(f6, emb{"v6zero", 16, 40, make([]byte, 16), false})
	for i := 0; i < len(f4) || i < len(f6); i++ {
		a, b := f4[i%len(f4)], f6[i%len(f6)]
		out = append(out, [2]emb{a, b}, [2]emb{b, a})
	}
	return
}

func main() {
	var worlds []string
	f, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<22), 1<<22)
	for sc.Scan() {
		worlds = append(worlds, sc.Text())
	}
	var mu sync.Mutex
	enc := json.NewEncoder(os.Stdout)
	count := 0
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			n := 0
			for i := range ch {
				var w world
				if err := json.Unmarshal([]byte(worlds[i]), &w); err != nil {
					panic(err)
				}
				n += replay(i, &w, func(what string, v interface{}) {
					mu.Lock()
					enc.Encode(map[string]interface{}{"world": i, "what": what, "case": v})
					mu.Unlock()
				})
			}
			mu.Lock()
			count += n
			mu.Unlock()
		}(k)
	}
	for i := range worlds {
		ch <- i
	}
	close(ch)
	wg.Wait()
	enc.Encode(map[string]interface{}{"replayed": count})
}

func replay(seed int, w *world, bad func(string, interface{})) int {
	rng := rand.New(rand.NewSource(int64(seed)))
	width := 0
	for _, r := range w.R {
		if len(r.P) > width {
			width = len(r.P)
		}
	}
	embs := embeddings(width)
	// three embeddings per world, all of them over the run
	n := 0
	for k := 0; k < 3; k++ {
		e := embs[(seed*3+k)%len(embs)]
		num := asns[rng.Intn(len(asns))]
		var vs []*vrp
		for i, v := range w.V {
			em := e[0]
			if v.F == 6 {
				em = e[1]
			}
			vs = append(vs, &vrp{i + 1, num[v.A], em.off + v.M, em.net(v.P)})
		}
		rng.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
		dup := k == 2
		abs := []ov.AbstractROA{}
		for _, v := range vs {
			abs = append(abs, v)
		}
		if dup {
			for _, v := range vs {
				abs = append(abs, v)
			}
		}
		o := ov.NewOV(abs)
		for _, r := range w.R {
			n++
			rt := &vrp{0, num[r.A], 0, e[0].net(r.P)}
			got, st, err := o.Validate(rt)
			desc := map[string]interface{}{"vrps": show(vs), "route": rt.net.String(), "asn": rt.asn, "want": r.S, "wantCover": r.C, "got": ov.StateToName[st], "dup": dup}
			if err != nil {
				desc["err"] = err.Error()
				bad("error", desc)
				continue
			}
			if ov.StateToName[st] != r.S {
				bad(fmt.Sprintf("%s instead of %s", ov.StateToName[st], r.S), desc)
				continue
			}
			var ids []int
			for _, g := range got {
				ids = append(ids, g.(*vrp).id)
			}
			sort.Ints(ids)
			var want []int
			for _, c := range r.C {
				want = append(want, c)
				if dup {
					want = append(want, c)
				}
			}
			if fmt.Sprint(ids) != fmt.Sprint(want) {
				desc["cover"] = ids
				bad("covering VRPs differ", desc)
			}
		}
	}
	return n
}

func show(vs []*vrp) (out []string) {
	for _, v := range vs {
		out = append(out, fmt.Sprintf("%d: %v-%d AS%d", v.id, v.net, v.max, v.asn))
	}
	return
}
