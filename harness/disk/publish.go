package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"net/netip"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/cloudflare/cfrpki/vh/gen"
	"github.com/cloudflare/cfrpki/vh/rpki"
)

type pEntry struct {
	F string
	N string
	L int
	M int
}
type pRoa struct {
	Ta  int
	Asn string
	Es  []pEntry
}
type pVrp struct {
	F, N string
	L, M int
	Asn  string
}
type pWorld struct {
	Roas   []pRoa
	Filter bool
	List   []struct {
		V   pVrp
		Tas []int
	}
	Local []struct {
		V   pVrp
		Roa int
	}
}

var asnOf = map[string]string{"zero": "0", "a": "64501", "b": "64502", "max": "4294967295", "over": "4294967296", "huge": "18446744073709616117", "neg": "-1"}

const batch = 12

// net gives the network of world b
func (e pVrp) prefix(b int) netip.Prefix {
	var a netip.Addr
	hi := byte(16 * b)
	k := map[string]byte{"in1": 1, "in2": 2, "out": 0, "wide": 0}[e.N]
	switch {
	case e.F == "4" && e.N == "out":
		a = netip.AddrFrom4([4]byte{11, byte(b), 0, 0})
	case e.F == "4" && e.N == "wide":
		a = netip.AddrFrom4([4]byte{10, 0, 0, 0})
	case e.F == "4":
		a = netip.AddrFrom4([4]byte{10, hi + k, 0, 0})
	case e.F == "m":
		a = netip.AddrFrom16([16]byte{10: 255, 11: 255, 12: 10, 13: hi + k})
	case e.N == "out":
		a = netip.AddrFrom16([16]byte{0x20, 1, 0x0d, 0xb9, hi})
	case e.N == "wide":
		a = netip.AddrFrom16([16]byte{0x20, 1, 0x0d, 0xb8})
	default:
		a = netip.AddrFrom16([16]byte{0x20, 1, 0x0d, 0xb8, hi + k})
	}
	return netip.PrefixFrom(a, e.L).Masked()
}

func (v pVrp) text(b int) string {
	return fmt.Sprintf("%v-%d AS%s", v.prefix(b), v.M, asnOf[v.Asn])
}

func publishRun(id int, ws []*pWorld, keys []*rpki.Key, r *rand.Rand, tool string, emit func(finding)) {
	base := filepath.Join(*dir, fmt.Sprint("p", id))
	defer os.RemoveAll(base)
	root := filepath.Join(base, "cache")
	os.MkdirAll(root, 0755)
	now := time.Now().UTC().Truncate(time.Second)
	nb, na := now.Add(-time.Hour), now.Add(24*time.Hour)
	var tals, names []string
	nta := 1
	for _, w := range ws {
		for _, x := range w.Roas {
			if x.Ta > nta {
				nta = x.Ta
			}
		}
	}
	paths := map[string]string{} // path -> world and ROA
	for t := 1; t <= nta; t++ {
		host := fmt.Sprintf("rsync://h%d.example/", t)
		ta := &gen.CA{Name: "ta", Dir: host + "m/", CertURI: host + "ta/ta.cer", Key: keys[t], EE: keys[0], Serial: 1, Big: r.Intn(3), NB: nb, NA: na,
			Res: rpki.Resources{V4: []rpki.IPRes{rpki.P("10.0.0.0/8")}, V6: []rpki.IPRes{rpki.P("::ffff:10.0.0.0/104"), rpki.P("2001:db8::/32")}, AS: []rpki.ASRes{{Min: 1, Max: 65000}}}}
		for b, w := range ws {
			ca := &gen.CA{Name: fmt.Sprintf("w%d", b), Dir: fmt.Sprintf("%sm/w%d/", host, b), Parent: ta, Key: keys[3+b+batch*(t-1)*r.Intn(2)], EE: keys[0], Serial: int64(2 + b), Big: r.Intn(3), NB: nb, NA: na,
				Res: rpki.Resources{V4: []rpki.IPRes{rpki.P(fmt.Sprintf("10.%d.0.0/12", 16*b))}, V6: []rpki.IPRes{rpki.P(fmt.Sprintf("::ffff:10.%d.0.0/108", 16*b)), rpki.P(fmt.Sprintf("2001:db8:%x00::/36", 16*b))}}}
			for k, x := range w.Roas {
				if x.Ta != t {
					continue
				}
				ro := &gen.ROA{Name: fmt.Sprintf("r%d.roa", k), Serial: int64(10 + k), BigASN: new(big.Int)}
				ro.BigASN.SetString(asnOf[x.Asn], 10)
				for _, e := range x.Es {
					p := pVrp{F: e.F, N: e.N, L: e.L}.prefix(b)
					ro.Entries = append(ro.Entries, rpki.RoaEntry{Prefix: p.String(), MaxLen: e.M})
				}
				ca.ROAs = append(ca.ROAs, ro)
				paths[ca.Dir+ro.Name] = fmt.Sprint(b, " ", k+1)
			}
			if len(ca.ROAs) > 0 || r.Intn(3) == 0 {
				ta.Children = append(ta.Children, ca)
			}
		}
		m := map[string][]byte{}
		ta.Files(m)
		for u, d := range m {
			f := filepath.Join(root, strings.TrimPrefix(u, "rsync://"))
			os.MkdirAll(filepath.Dir(f), 0755)
			if err := ioutil.WriteFile(f, d, 0644); err != nil {
				panic(err)
			}
		}
		f := filepath.Join(base, fmt.Sprintf("t%d.tal", t))
		ioutil.WriteFile(f, ta.TAL(), 0644)
		tals = append(tals, f)
		names = append(names, fmt.Sprint("TA ", t))
	}
	out := filepath.Join(base, "out.json")
	args := []string{"-tal.root", strings.Join(tals, ",")}
	bin := *local
	if tool == "octorpki" {
		bin = *octo
		args = append(args, "-allow.root", "-mode", "oneoff", "-rrdp=false", "-rsync.bin", "/bin/true", "-cache", root, "-tal.name", strings.Join(names, ","),
			"-output.roa", out, "-output.sign=false", fmt.Sprintf("-filter=%v", ws[0].Filter), "-rrdp.file", filepath.Join(base, "rrdp.json"), "-refresh", "1ms",
			"-http.addr", "127.0.0.1:0")
	} else {
		args = append(args, "-map.dir", "rsync://="+root, "-output", out)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = base
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var se bytes.Buffer
	cmd.Stderr = &se
	err := cmd.Run()
	bad := func(kind, what string, w *pWorld, props ...string) {
		var c interface{} = ws
		if w != nil {
			c = w
		}
		emit(finding{fmt.Sprintf("%s: %s", tool, what), props, kind, nil, map[string]interface{}{"args": args, "world": c, "id": id, "seed": *seed}})
	}
	if ctx.Err() != nil || err != nil {
		bad("died", fmt.Sprint(err, " ", lastLine(se.String())), nil, "V08", "O02")
		return
	}
	data, err := ioutil.ReadFile(out)
	if err != nil {
		bad("output", "no output: "+err.Error(), nil, "O02", "V06")
		return
	}
	var doc struct {
		Roas []map[string]interface{} `json:"roas"`
	}
	if err := json.Unmarshal(data, &doc); err != nil {
		bad("output", "output: "+err.Error(), nil, "V07", "O03")
		return
	}
	// what is expected, and where it may come from
	want := map[string]map[string]bool{}
	owner := map[string]*pWorld{}
	for b, w := range ws {
		add := func(v pVrp, from string) {
			k := v.text(b)
			if want[k] == nil {
				want[k] = map[string]bool{}
			}
			want[k][from] = true
			owner[k] = w
		}
		if tool == "octorpki" {
			for _, x := range w.List {
				for _, t := range x.Tas {
					add(x.V, names[t-1])
				}
			}
		} else {
			for _, x := range w.Local {
				add(x.V, fmt.Sprint(b, " ", x.Roa))
			}
		}
	}
	seen := map[string]bool{}
	for _, x := range doc.Roas {
		max, _ := x["maxLength"].(float64)
		pre, _ := x["prefix"].(string)
		p, err := netip.ParsePrefix(pre)
		if err != nil || p != p.Masked() {
			bad("form", fmt.Sprintf("prefix %q", pre), nil, "V07", "O03")
			continue
		}
		a := fmt.Sprint(x["asn"])
		if f, ok := x["asn"].(float64); ok {
			a = fmt.Sprintf("AS%d", int64(f))
		}
		k := fmt.Sprintf("%v-%d %s", p, int(max), a)
		from, _ := x["ta"].(string)
		if tool != "octorpki" {
			f, _ := x["path"].(string)
			from = paths[f]
		}
		if want[k] == nil {
			bad("extra", fmt.Sprintf("%s (of %s) is not to be there (filter %v)", k, from, ws[0].Filter), nil, "V07", "O03", "V04")
			continue
		}
		if !want[k][from] {
			bad("label", fmt.Sprintf("%s is labelled %q, not one of %v", k, from, want[k]), owner[k], "O03", "V07")
		}
		if tool == "octorpki" && seen[k] {
			bad("twice", k+" is there twice", owner[k], "O03")
		}
		seen[k] = true
		seen[k+" "+from] = true
	}
	for k, fs := range want {
		if !seen[k] {
			bad("missing", fmt.Sprintf("%s of %v is missing (filter %v)", k, fs, ws[0].Filter), owner[k], "O03", "V07", "V06")
		}
		for f := range fs {
			if tool != "octorpki" && !seen[k+" "+f] {
				bad("missing", fmt.Sprintf("%s of ROA %s is missing", k, f), owner[k], "V07", "V06")
			}
		}
	}
}

func lastLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "fatal") || strings.Contains(l, "level=fatal") {
			return l
		}
	}
	return ""
}

func publishMain(keys []*rpki.Key) {
	by := map[bool][]*pWorld{}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		w := &pWorld{}
		if err := json.Unmarshal(sc.Bytes(), w); err != nil {
			panic(err)
		}
		by[w.Filter] = append(by[w.Filter], w)
	}
	var jobs [][]*pWorld
	for i := 0; i < len(by[true])+len(by[false]); i += batch {
		for _, f := range []bool{true, false} {
			if l := by[f]; i < len(l) {
				e := i + batch
				if e > len(l) {
					e = len(l)
				}
				jobs = append(jobs, l[i:e])
			}
		}
	}
	var mu sync.Mutex
	enc := json.NewEncoder(os.Stdout)
	n := map[string]int{}
	found := 0
	end := time.Now().Add(*budget)
	ch := make(chan int)
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				r := rand.New(rand.NewSource(*seed*1000003 + int64(j)))
				tool := "octorpki"
				if j%4 == 3 {
					tool = "localrpki"
				}
				publishRun(j, jobs[j], keys, r, tool, func(f finding) {
					sort.Strings(f.Prop)
					mu.Lock()
					found++
					enc.Encode(f)
					mu.Unlock()
				})
				mu.Lock()
				n[tool]++
				n["worlds"] += len(jobs[j])
				mu.Unlock()
			}
		}()
	}
	for j := range jobs {
		mu.Lock()
		stop := found > 60
		mu.Unlock()
		if time.Now().After(end) || stop {
			break
		}
		ch <- j
	}
	close(ch)
	wg.Wait()
	enc.Encode(map[string]interface{}{"stats": n})
}
