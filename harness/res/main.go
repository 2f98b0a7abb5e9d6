// Replays the chains of Resources.tla on the validator with real certificates.
// usage: vh_res chains.txt keys.pem seed n share(1 of how many chains of the v4/v6 replays)
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/vh/gen"
	"github.com/cloudflare/cfrpki/vh/rpki"
)

type chain struct {
	l       [4]string
	acc     string
	entries string
}

// line is an embedding of the points 0..n-1: point i is [b[i], b[i+1]-1]
type line struct {
	kind string
	b    []*big.Int
	bits int
}

func (l *line) ip(x *big.Int) net.IP {
	out := make([]byte, l.bits/8)
	x.FillBytes(out)
	return out
}

// around ::ffff:0:0/96, which net.IP takes for IPv4
func inMapped(x *big.Int) bool {
	h := new(big.Int).Rsh(x, 32)
	return x.BitLen() >= 48 && x.BitLen() <= 49 && h.BitLen() >= 16
}

func one() *big.Int { return big.NewInt(1) }

// canonical blocks of a claim, in RFC 3779 form
func (l *line) ips(s string) (out []rpki.IPRes) {
	for i := 0; i < len(s); i++ {
		if s[i] != '1' {
			continue
		}
		j := i
		for j+1 < len(s) && s[j+1] == '1' {
			j++
		}
		out = append(out, l.res(l.b[i], new(big.Int).Sub(l.b[j+1], one())))
		i = j
	}
	return
}

func (l *line) res(lo, hi *big.Int) rpki.IPRes {
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), one())
	k := size.BitLen() - 1
	if size.TrailingZeroBits() == uint(k) && new(big.Int).Mod(lo, size).Sign() == 0 {
		return rpki.IPRes{Min: l.ip(lo), Plen: l.bits - k}
	}
	return rpki.IPRes{Min: l.ip(lo), Max: l.ip(hi)}
}

func (l *line) as(s string) (out []rpki.ASRes) {
	for i := 0; i < len(s); i++ {
		if s[i] != '1' {
			continue
		}
		j := i
		for j+1 < len(s) && s[j+1] == '1' {
			j++
		}
		out = append(out, rpki.ASRes{Min: l.b[i].Int64(), Max: new(big.Int).Sub(l.b[j+1], one()).Int64()})
		i = j
	}
	return
}

func (l *line) apply(r *rpki.Resources, s string) {
	switch l.kind {
	case "v4":
		r.V4, r.V4Inherit = nil, s == "i"
		if s != "i" {
			r.V4 = l.ips(s)
		}
	case "v6":
		r.V6, r.V6Inherit = nil, s == "i"
		if s != "i" {
			r.V6 = l.ips(s)
		}
	default:
		r.AS, r.ASInherit = nil, s == "i"
		if s != "i" {
			r.AS = l.as(s)
		}
	}
}

func embed(kind string, n int, r *rand.Rand) *line {
	if len(kind) == 3 { // v4u, v6u: any boundaries
		l := &line{kind: kind[:2], bits: map[string]int{"v4u": 32, "v6u": 128}[kind]}
		top := new(big.Int).Lsh(one(), uint(l.bits))
		seen := map[string]bool{}
		for len(l.b) <= n {
			var x *big.Int
			switch r.Intn(4) {
			case 0: // near a power of two
				x = new(big.Int).Lsh(one(), uint(r.Intn(l.bits+1)))
				x.Add(x, big.NewInt(int64(r.Intn(5)-2)))
			case 1:
				x = new(big.Int).Rand(r, big.NewInt(300))
			case 2: // close to another one
				if len(l.b) == 0 {
					continue
				}
				x = new(big.Int).Add(l.b[r.Intn(len(l.b))], big.NewInt(int64(r.Intn(9)-4)))
			default:
				x = new(big.Int).Rand(r, top)
				x.Rsh(x, uint(r.Intn(l.bits)))
				x.Lsh(x, uint(r.Intn(l.bits)))
			}
			if x.Sign() < 0 || x.Cmp(top) > 0 || seen[x.String()] || inMapped(x) {
				continue
			}
			seen[x.String()] = true
			l.b = append(l.b, x)
		}
		sort.Slice(l.b, func(i, j int) bool { return l.b[i].Cmp(l.b[j]) < 0 })
		return l
	}
	l := &line{kind: kind, bits: map[string]int{"v4": 32, "v6": 128, "as": 32}[kind]}
	pow := func(k int) *big.Int { return new(big.Int).Lsh(one(), uint(k)) }
	if kind == "as" {
		choice := [][]int64{{0, 1, 2, 3, 4}, {0, 64496, 65536, 131072, 4294967296}, {4294967292, 4294967293, 4294967294, 4294967295, 4294967296},
			{64500, 64510, 64520, 64521, 70000}, {32767, 32768, 32769, 65535, 65537}, {2147483646, 2147483647, 2147483648, 2147483649, 2147483700}}
		for _, x := range choice[r.Intn(len(choice))][:n+1] {
			l.b = append(l.b, big.NewInt(x))
		}
		return l
	}
	// n points of 2^k addresses in an aligned region of 4*2^k
	k := 0
	switch r.Intn(5) {
	case 0:
		k = l.bits - 2 // the whole address space
	case 1:
		k = 0 // single addresses
	case 2:
		k = 8*(1+r.Intn(l.bits/8-1)) - 2 // ends at a byte boundary
	default:
		k = r.Intn(l.bits - 2)
	}
	region := new(big.Int).Rand(r, pow(l.bits-k-2))
	switch r.Intn(4) {
	case 0:
		region.SetInt64(0)
	case 1:
		region.Sub(pow(l.bits-k-2), one())
	}
	start := new(big.Int).Lsh(region, uint(k+2))
	for i := 0; i <= n; i++ {
		l.b = append(l.b, new(big.Int).Add(start, new(big.Int).Lsh(big.NewInt(int64(i)), uint(k))))
	}
	return l
}

type seek struct {
	m   map[string][]byte
	tal []byte
}

func (s *seek) GetFile(f *pki.PKIFile) (*pki.SeekFile, error) {
	if f.Type == pki.TYPE_TAL {
		return &pki.SeekFile{File: f.Path, Data: s.tal}, nil
	}
	d, ok := s.m[f.ComputePath()]
	if !ok {
		return nil, nil
	}
	h := sha256.Sum256(d)
	return &pki.SeekFile{File: f.Path, Data: d, Sha256: h[:]}, nil
}
func (s *seek) GetRepository(*pki.PKIFile, pki.CallbackExplore) error { return nil }

type nolog struct{}

func (nolog) Debugf(string, ...interface{}) {}
func (nolog) Printf(string, ...interface{}) {}
func (nolog) Errorf(string, ...interface{}) {}
func (nolog) Warnf(string, ...interface{})  {}

var (
	mu    sync.Mutex
	enc   = json.NewEncoder(os.Stdout)
	keys  []*rpki.Key
	certs int
)

func bad(what string, v interface{}) {
	mu.Lock()
	enc.Encode(map[string]interface{}{"what": what, "case": v})
	mu.Unlock()
}

// prefixes of points: <<first, last>> in the order Resources.tla lists them
func intervals(n int) (out [][2]int) {
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			w := j - i + 1
			if w&(w-1) == 0 && i%w == 0 {
				out = append(out, [2]int{i, j})
			}
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a][0]*100+out[a][1] < out[b][0]*100+out[b][1] })
	return
}

func replay(kind string, n int, cs []chain, seed int64) {
	h := fnv.New64a()
	fmt.Fprint(h, kind, cs[0].l[0], n, seed)
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	l := embed(kind, n, r)
	t0 := time.Date(2021, 5, 1, 0, 0, 0, 0, time.UTC)
	probe := "203.0.113.0/24" // resources outside the embedding, held by every CA
	fixed := rpki.Resources{V4: []rpki.IPRes{rpki.P(probe)}}
	if l.kind == "v4" {
		probe = "2001:db8:ffff::/48"
		fixed = rpki.Resources{V6: []rpki.IPRes{rpki.P(probe)}}
	}
	id := 0
	ca := func(parent *gen.CA, claim string) *gen.CA {
		id++
		res := fixed
		if r.Intn(2) == 0 {
			res.ReverseFam = true
		}
		l.apply(&res, claim)
		name := fmt.Sprintf("c%d", id)
		c := &gen.CA{Name: name, Parent: parent, Dir: "rsync://h/m/" + name + "/", Key: keys[id%6], SKI: rpki.Hash([]byte(name))[:20], EE: keys[7], Serial: int64(id),
			NB: t0.Add(-time.Hour), NA: t0.Add(time.Hour), Res: res}
		c.ROAs = append(c.ROAs, &gen.ROA{Name: "p.roa", ASN: int64(id), Serial: int64(500000 + id), Entries: []rpki.RoaEntry{{Prefix: probe, MaxLen: -1}}, Res: fixed})
		if parent == nil {
			c.CertURI = "rsync://h/m/ta.cer"
		} else {
			parent.Children = append(parent.Children, c)
		}
		return c
	}
	type expectation struct {
		cs    chain
		level int
	}
	expect := map[int64]expectation{}
	want := map[string]bool{} // "asn prefix"
	ta := ca(nil, cs[0].l[0])
	expect[int64(id)] = expectation{cs[0], 1}
	want[fmt.Sprintf("%d %s", id, probe)] = true
	lvl1, lvl2 := map[string]*gen.CA{}, map[string]*gen.CA{}
	ivs := intervals(n)
	for _, c := range cs {
		a, b := c.l[1], c.l[1]+" "+c.l[2]
		if lvl1[a] == nil {
			lvl1[a] = ca(ta, c.l[1])
			expect[int64(id)] = expectation{c, 2}
			want[fmt.Sprintf("%d %s", id, probe)] = c.acc[0] == '1'
		}
		if lvl2[b] == nil {
			lvl2[b] = ca(lvl1[a], c.l[2])
			expect[int64(id)] = expectation{c, 3}
			want[fmt.Sprintf("%d %s", id, probe)] = c.acc[1] == '1'
		}
		p := lvl2[b]
		if kind == "as" || len(kind) == 3 {
			ca(p, c.l[3])
			expect[int64(id)] = expectation{c, 4}
			want[fmt.Sprintf("%d %s", id, probe)] = c.acc[2] == '1'
			continue
		}
		id++
		var es []rpki.RoaEntry
		for k, iv := range ivs {
			x := l.res(l.b[iv[0]], new(big.Int).Sub(l.b[iv[1]+1], one()))
			pfx := (&net.IPNet{IP: x.Min, Mask: net.CIDRMask(x.Plen, l.bits)}).String()
			es = append(es, rpki.RoaEntry{Prefix: pfx, MaxLen: -1})
			want[fmt.Sprintf("%d %s", id, pfx)] = c.entries[k] == '1'
		}
		res := rpki.Resources{}
		l.apply(&res, c.l[3])
		if c.l[3] != "i" && len(res.V4)+len(res.V6) == 0 {
			res = fixed
		}
		expect[int64(id)] = expectation{c, 4}
		p.ROAs = append(p.ROAs, &gen.ROA{Name: fmt.Sprintf("%d.roa", id), ASN: int64(id), Serial: int64(id), Entries: es, Res: res})
	}
	m := map[string][]byte{}
	ta.Files(m)
	v := pki.NewValidator()
	v.Time = t0
	v.DecoderConfig = &librpki.DecoderConfig{}
	sm := pki.NewSimpleManager()
	sm.Validator, sm.FileSeeker, sm.ReportErrors, sm.Log = v, &seek{m, ta.TAL()}, false, nolog{}
	sm.AddInitial([]*pki.PKIFile{{Path: "t.tal", Type: pki.TYPE_TAL}})
	sm.Explore(false, false)
	got := map[string]bool{}
	for _, x := range v.ValidROA {
		roa := x.Resource.(*librpki.RPKIROA)
		for _, e := range roa.Valids {
			got[fmt.Sprintf("%d %v", roa.ASN, e.IPNet)] = true
		}
	}
	var bounds []string
	for _, x := range l.b {
		if kind == "as" || x.BitLen() > l.bits {
			bounds = append(bounds, x.String())
		} else {
			bounds = append(bounds, l.ip(x).String())
		}
	}
	report := func(k string, extra bool) {
		f := strings.Fields(k)
		asn, _ := strconv.ParseInt(f[0], 10, 64)
		e := expect[asn]
		what := "sound certificate or ROA entry not used"
		if extra {
			what = "resources beyond the issuer's accepted"
		}
		bad(what, map[string]interface{}{"kind": kind, "points": bounds, "chain": e.cs.l, "level": e.level, "vrp": k})
	}
	for k, w := range want {
		if w && !got[k] {
			report(k, false)
		}
		if !w && got[k] {
			report(k, true)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			bad("VRP of nobody", map[string]interface{}{"kind": kind, "vrp": k})
		}
	}
	mu.Lock()
	certs += id
	mu.Unlock()
}

func main() {
	var err error
	keys, err = rpki.LoadKeys(os.Args[2])
	if err != nil {
		panic(err)
	}
	seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
	n, _ := strconv.Atoi(os.Args[4])
	kinds := strings.Split(os.Args[5], ",")
	f, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	groups := map[string][]chain{}
	sc := bufio.NewScanner(f)
	total := 0
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		c := chain{acc: w[4], entries: w[5]}
		copy(c.l[:], w)
		// one tree per trust anchor and first CA
		groups[w[0]+" "+w[1]] = append(groups[w[0]+" "+w[1]], c)
		total++
	}
	var names []string
	for k := range groups {
		names = append(names, k)
	}
	sort.Strings(names)
	type job struct {
		kind string
		cs   []chain
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				func() {
					defer func() {
						if e := recover(); e != nil {
							bad("crash", fmt.Sprint(e))
						}
					}()
					replay(j.kind, n, j.cs, seed)
				}()
			}
		}()
	}
	count := 0
	for i, k := range names {
		for x, kind := range kinds {
			if len(kinds) == 1 || (i+x+int(seed))%len(kinds) == 0 || os.Getenv("VERIF_TIER") == "thorough" {
				sort.Slice(groups[k], func(a, b int) bool {
					return strings.Join(groups[k][a].l[:], " ") < strings.Join(groups[k][b].l[:], " ")
				})
				ch <- job{kind, groups[k]}
				count += len(groups[k])
			}
		}
	}
	close(ch)
	wg.Wait()
	enc.Encode(map[string]int{"replayed": count, "certs": certs})
}
