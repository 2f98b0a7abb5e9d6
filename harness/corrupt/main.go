// vh_corrupt replays the behaviours of spec/Corrupt.tla.
//
//	vh_corrupt -keys keys.pem < behaviours                          on the validator
//	vh_corrupt -keys ... -localrpki BIN -octorpki BIN -dir D ...    on the programs
//
// Output: one JSON line per finding, and a summary.
package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/vh/gen"
	"github.com/cloudflare/cfrpki/vh/rpki"
)

type behaviour struct {
	Obj    string   `json:"obj"`
	Part   string   `json:"part"`
	Damage []spot   `json:"damage"`
	Must   []string `json:"must"`
	id     int
}

var (
	keyFile = flag.String("keys", "", "")
	seed    = flag.Int64("seed", 1, "")
	local   = flag.String("localrpki", "", "")
	octo    = flag.String("octorpki", "", "")
	dir     = flag.String("dir", "", "")
	budget  = flag.Duration("budget", 20*time.Second, "")
)

/*--------------------------------- world ----------------------------------*/

var roaIndex = map[string]int64{"rt": 1, "r": 2, "ra": 3, "rb": 4, "rc": 5, "ru": 6}

type vrp struct {
	asn    int64
	prefix string
	max    int
}

func (v vrp) String() string { return fmt.Sprintf("%s-%d AS%d", v.prefix, v.max, v.asn) }

type world struct {
	files map[string][]byte
	tals  [][]byte
	vrps  map[string][]vrp // by ROA
	bad   string
}

func resources() rpki.Resources {
	return rpki.Resources{V4: []rpki.IPRes{rpki.P("10.0.0.0/8"), rpki.R("11.0.0.0", "11.0.2.255")}, V6: []rpki.IPRes{rpki.P("2001:db8::/32")},
		AS: []rpki.ASRes{{Min: 64000, Max: 64000}, {Min: 64500, Max: 65000}}}
}

func newCA(name string, parent *gen.CA, dir string, key, ee *rpki.Key, serial int64, t0 time.Time) *gen.CA {
	c := &gen.CA{Name: name, Parent: parent, Dir: dir, Key: key, EE: ee, Serial: serial, Res: resources(), Revoked: []int64{900, 901},
		NB: t0.Add(-24 * time.Hour), NA: t0.Add(24 * time.Hour)}
	if parent != nil {
		parent.Children = append(parent.Children, c)
	} else {
		c.CertURI = strings.TrimSuffix(dir, "/") + ".cer"
	}
	return c
}

func (w *world) roa(c *gen.CA, name, id string, base int64) *gen.ROA {
	i := roaIndex[id]
	r := &gen.ROA{Name: name + ".roa", ASN: base + i, Serial: 500 + i, Entries: []rpki.RoaEntry{
		{Prefix: fmt.Sprintf("10.%d.0.0/16", i), MaxLen: 20}, {Prefix: fmt.Sprintf("10.%d.0.0/18", i), MaxLen: -1}, {Prefix: fmt.Sprintf("2001:db8:%d::/48", i), MaxLen: 50}}}
	w.vrps[id] = []vrp{{base + i, fmt.Sprintf("10.%d.0.0/16", i), 20}, {base + i, fmt.Sprintf("10.%d.0.0/18", i), 18}, {base + i, fmt.Sprintf("2001:db8:%x::/48", i), 50}}
	c.ROAs = append(c.ROAs, r)
	return r
}

func parseOne(b []byte) [][]byte {
	h, n, ok := tlv(b)
	if !ok {
		panic("object")
	}
	var kids [][]byte
	for rest := b[h:n]; len(rest) > 0; {
		_, n, ok := tlv(rest)
		if !ok {
			panic("object")
		}
		kids = append(kids, rest[:n])
		rest = rest[n:]
	}
	return kids
}

// hurt returns the damaging function for an object of b's kind.
func (w *world) hurt(b *behaviour, v *values, issuer, ee *rpki.Key) func([]byte) []byte {
	all := func(d []byte) []byte {
		for i, s := range b.Damage {
			out, ok := damage(d, s, v)
			if !ok {
				if i == 0 {
					w.bad = fmt.Sprintf("no node %v in %s/%s", s.Path, b.Obj, b.Part)
				}
				continue
			}
			d = out
		}
		return d
	}
	return func(d []byte) []byte {
		sign := func(k *rpki.Key, tbs []byte) []byte {
			return rpki.Seq(tbs, parseOne(d)[1], rpki.Bits(k.Sign(tbs)))
		}
		switch b.Part {
		case "whole":
			return all(d)
		case "tbs":
			return sign(issuer, all(parseOne(d)[0]))
		}
		sd := parseOne(parseOne(parseOne(d)[1])[0])
		encap := parseOne(sd[2])
		ctype, content, cert := encap[0], parseOne(parseOne(encap[1])[0])[0], parseOne(sd[3])[0]
		h, _, _ := tlv(parseOne(encap[1])[0])
		content = parseOne(encap[1])[0][h:]
		ski := parseOne(parseOne(sd[4])[0])[1]
		if b.Part == "content" {
			content = all(content)
		} else {
			tbs := all(parseOne(cert)[0])
			cert = rpki.Seq(tbs, parseOne(cert)[1], rpki.Bits(issuer.Sign(tbs)))
		}
		return rpki.CMS(ctype, content, cert, &rpki.Key{Priv: ee.Priv, SKI: ski[2:], SPKI: ee.SPKI}, time.Unix(1700000000, 0), rpki.CMSOpt{})
	}
}

func (w *world) apply(b *behaviour, t, a *gen.CA, r *gen.ROA) {
	switch b.Obj {
	case "ta", "tm", "tl":
		v := &values{"h1.example", t.Dir, t.URI(), t.Name + ".mft", b.id}
		f := w.hurt(b, v, t.Key, t.EE)
		switch b.Obj {
		case "ta":
			t.EditCert = f
		case "tm":
			t.EditMft = f
		case "tl":
			t.EditCRL = f
		}
	default:
		v := &values{"h1.example", a.Dir, a.URI(), a.Name + ".mft", b.id}
		switch b.Obj {
		case "a":
			a.EditCert = w.hurt(b, v, t.Key, t.EE)
		case "am":
			a.EditMft = w.hurt(b, v, a.Key, a.EE)
		case "al":
			a.EditCRL = w.hurt(b, v, a.Key, a.EE)
		case "r":
			r.Edit = w.hurt(b, v, a.Key, a.EE)
		}
	}
}

func build(b *behaviour, keys []*rpki.Key, t0 time.Time) *world {
	w := &world{files: map[string][]byte{}, vrps: map[string][]vrp{}}
	ee := keys[len(keys)-1]
	t := newCA("t", nil, "rsync://h1.example/repo/t/", keys[0], ee, 1, t0)
	a := newCA("a", t, "rsync://h1.example/repo/a/", keys[1], ee, 2, t0)
	bb := newCA("b", t, "rsync://h1.example/repo/b/", keys[2], ee, 3, t0)
	c := newCA("c", a, "rsync://h1.example/repo/c/", keys[3], ee, 4, t0)
	u := newCA("u", nil, "rsync://h2.example/repo/u/", keys[4], ee, 5, t0)
	w.roa(t, "rt", "rt", 64500)
	r := w.roa(a, "r", "r", 64500)
	w.roa(a, "ra", "ra", 64500)
	w.roa(bb, "rb", "rb", 64500)
	w.roa(c, "rc", "rc", 64500)
	w.roa(u, "ru", "ru", 64500)
	w.tals = [][]byte{t.TAL(), u.TAL()}
	w.apply(b, t, a, r)
	t.Files(w.files)
	u.Files(w.files)
	return w
}

/*-------------------------------- validator --------------------------------*/

type seeker struct{ w *world }

func (s *seeker) GetFile(f *pki.PKIFile) (*pki.SeekFile, error) {
	p := f.ComputePath()
	if f.Type == pki.TYPE_TAL {
		n, _ := strconv.Atoi(f.Path)
		return &pki.SeekFile{File: f.Path, Data: s.w.tals[n]}, nil
	}
	d, ok := s.w.files[p]
	if !ok {
		return nil, nil
	}
	h := sha256.Sum256(d)
	// as the file seeker of the programs does
	if x, err := librpki.BER2DER(d); err == nil {
		d = x
	}
	return &pki.SeekFile{File: f.Path, Data: d, Sha256: h[:]}, nil
}
func (s *seeker) GetRepository(*pki.PKIFile, pki.CallbackExplore) error { return nil }

type quiet struct{}

func (quiet) Debugf(string, ...interface{}) {}
func (quiet) Printf(string, ...interface{}) {}
func (quiet) Errorf(string, ...interface{}) {}
func (quiet) Warnf(string, ...interface{})  {}

type finding struct {
	What string
	Prop []string
	Case interface{}
}

func within(v vrp, max int64) bool {
	_, n, err := net.ParseCIDR(v.prefix)
	if err != nil {
		return false
	}
	l, bits := n.Mask.Size()
	in := func(s string) bool {
		_, p, _ := net.ParseCIDR(s)
		pl, pb := p.Mask.Size()
		return pb == bits && l >= pl && p.Contains(n.IP)
	}
	return v.max >= l && v.max <= bits && v.asn >= 0 && v.asn < 1<<32 && (in("10.0.0.0/8") || in("11.0.0.0/23") || in("11.0.2.0/24") || in("2001:db8::/32"))
}

func judge(w *world, b *behaviour, got map[vrp]int, bad func(string, ...string)) {
	must := map[vrp]bool{}
	known := map[vrp]bool{}
	for _, r := range b.Must {
		for _, v := range w.vrps[r] {
			must[v] = true
			if got[v] == 0 {
				bad(fmt.Sprintf("lost VRP %v of %s", v, r), "V08", "V06")
			}
		}
	}
	for _, l := range w.vrps {
		for _, v := range l {
			known[v] = true
		}
	}
	for v, n := range got {
		if b.Part == "whole" && !known[v] {
			// what nobody signed
			bad(fmt.Sprintf("VRP %v comes from an altered object", v), "V03")
		} else if b.Obj != "ta" && !within(v, 0) {
			bad(fmt.Sprintf("VRP %v is outside the resources of every CA", v), "V04", "V07")
		}
		_ = n
	}
}

func validate(b *behaviour, keys []*rpki.Key) (out []finding) {
	t0 := time.Now().UTC().Truncate(time.Second)
	k := int64(b.id) + *seed
	w := build(b, keys, t0)
	bad := func(what string, props ...string) { out = append(out, finding{what, props, b}) }
	if w.bad != "" {
		panic("specification and objects differ: " + w.bad)
	}
	done := make(chan string, 1)
	var vs []*pki.Validator
	vs = append(vs, pki.NewValidator(), pki.NewValidator())
	go func() {
		defer func() {
			if r := recover(); r != nil {
				loc := ""
				for _, l := range strings.Split(string(debug.Stack()), "\n") {
					if strings.Contains(l, "/validator/") {
						loc = strings.TrimSpace(l)
						break
					}
				}
				done <- fmt.Sprintf("panic: %v at %s", r, loc)
			}
		}()
		for i, v := range vs {
			v.Time = t0
			v.DecoderConfig = &librpki.DecoderConfig{ValidateStrict: k%2 == 0}
			sm := pki.NewSimpleManager()
			sm.Validator = v
			sm.FileSeeker = &seeker{w}
			sm.StrictHash, sm.StrictManifests = k/2%2 == 0, k/4%2 == 0
			sm.ReportErrors = true
			if k%7 != 0 {
				sm.Log = quiet{}
			}
			go func() {
				for range sm.Errors {
				}
			}()
			sm.AddInitial([]*pki.PKIFile{{Path: strconv.Itoa(i), Type: pki.TYPE_TAL}})
			sm.Explore(false, false)
			sm.Close()
		}
		done <- ""
	}()
	select {
	case m := <-done:
		if m != "" {
			bad(m, "V08")
			return
		}
	case <-time.After(20 * time.Second):
		bad("no end of the exploration after 20 s", "V08")
		return
	}
	got := map[vrp]int{}
	for _, v := range vs {
		for _, roa := range v.ValidROA {
			d := roa.Resource.(*librpki.RPKIROA)
			for _, e := range d.Valids {
				got[vrp{int64(d.ASN), e.IPNet.String(), e.MaxLength}]++
			}
		}
	}
	judge(w, b, got, bad)
	return
}

/*-------------------------------- programs ---------------------------------*/

type batch struct {
	id int
	bs []*behaviour
}

// a program sees many damaged CAs at once, each beside sound ones
func program(j *batch, keys []*rpki.Key, emit func(finding)) {
	base := filepath.Join(*dir, fmt.Sprint("j", j.id), "a", "b", "c", "d", "e")
	defer os.RemoveAll(filepath.Join(*dir, fmt.Sprint("j", j.id)))
	root := filepath.Join(base, "cache")
	os.MkdirAll(root, 0755)
	t0 := time.Now().UTC().Truncate(time.Second)
	w := &world{files: map[string][]byte{}, vrps: map[string][]vrp{}}
	ee := keys[len(keys)-1]
	t := newCA("t", nil, "rsync://h1.example/repo/t/", keys[0], ee, 1, t0)
	u := newCA("u", nil, "rsync://h2.example/repo/u/", keys[1], ee, 2, t0)
	all := []*world{}
	k := 2
	for i, b := range j.bs {
		base := int64(64500 + 10*i)
		x := &world{vrps: map[string][]vrp{}}
		a := newCA(fmt.Sprint("a", i), t, fmt.Sprintf("rsync://h1.example/repo/a%d/", i), keys[k], ee, int64(10+2*i), t0)
		c := newCA(fmt.Sprint("c", i), a, fmt.Sprintf("rsync://h1.example/repo/c%d/", i), keys[k+1], ee, int64(11+2*i), t0)
		k += 2
		r := x.roa(a, "r", "r", base)
		x.roa(a, "ra", "ra", base)
		x.roa(c, "rc", "rc", base)
		x.apply(b, t, a, r)
		all = append(all, x)
	}
	bb := newCA("b", t, "rsync://h1.example/repo/b/", keys[k], ee, 3, t0)
	w.roa(t, "rt", "rt", 64400+100)
	w.roa(bb, "rb", "rb", 64500)
	w.roa(u, "ru", "ru", 64500)
	t.Files(w.files)
	u.Files(w.files)
	for n, d := range w.files {
		f := filepath.Join(root, strings.TrimPrefix(n, "rsync://"))
		os.MkdirAll(filepath.Dir(f), 0755)
		if err := ioutil.WriteFile(f, d, 0644); err != nil {
			panic(err)
		}
	}
	t1, t2, out := filepath.Join(base, "1.tal"), filepath.Join(base, "2.tal"), filepath.Join(base, "out.json")
	ioutil.WriteFile(t1, t.TAL(), 0644)
	ioutil.WriteFile(t2, u.TAL(), 0644)
	cs := int64(j.id) + *seed
	args := []string{"-tal.root", t1 + "," + t2, fmt.Sprintf("-strict.manifests=%v", cs%2 == 0), fmt.Sprintf("-strict.hash=%v", cs/2%2 == 0), fmt.Sprintf("-strict.cms=%v", cs/4%2 == 0)}
	bin := *local
	if j.id%3 == 2 {
		bin = *octo
		args = append(args, "-allow.root", "-mode", "oneoff", "-rrdp=false", "-rsync.bin", "/bin/true", "-cache", root, "-tal.name", "t,u", "-output.roa", out,
			"-output.sign=false", "-filter=false", "-rrdp.file", filepath.Join(base, "rrdp.json"), "-refresh", "1ms", "-http.addr", "127.0.0.1:0")
	} else {
		args = append(args, "-map.dir", "rsync://="+root, "-output", out)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = base
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var se bytes.Buffer
	cmd.Stderr = &se
	err := cmd.Run()
	bad := func(b interface{}, what string, props ...string) {
		emit(finding{filepath.Base(bin) + ": " + what, props, b})
	}
	if ctx.Err() != nil {
		bad(j.bs, "no end after 60 s", "V08")
		return
	}
	if err != nil {
		l := ""
		for _, x := range strings.Split(se.String(), "\n") {
			if strings.HasPrefix(x, "panic") || strings.HasPrefix(x, "fatal") || strings.Contains(x, "level=fatal") {
				l = x
				break
			}
		}
		if strings.Contains(l, "address already in use") {
			return
		}
		bad(j.bs, fmt.Sprintf("%v %s", err, l), "V08")
		return
	}
	data, err := ioutil.ReadFile(out)
	if err != nil {
		bad(j.bs, "no output: "+err.Error(), "V08")
		return
	}
	var doc struct {
		Roas []map[string]interface{} `json:"roas"`
	}
	if err := json.Unmarshal(data, &doc); err != nil {
		bad(j.bs, "output: "+err.Error(), "V08")
		return
	}
	got := map[vrp]int{}
	for _, x := range doc.Roas {
		max, _ := x["maxLength"].(float64)
		p, _ := x["prefix"].(string)
		asn, err := strconv.ParseInt(strings.TrimPrefix(fmt.Sprint(x["asn"]), "AS"), 10, 64)
		if f, ok := x["asn"].(float64); ok {
			asn, err = int64(f), nil
		}
		if err != nil {
			asn = -1
		}
		got[vrp{asn, p, int(max)}]++
	}
	known := map[vrp]bool{}
	signed := false
	for i, x := range append([]*world{w}, all...) {
		for _, l := range x.vrps {
			for _, v := range l {
				known[v] = true
			}
		}
		b := &behaviour{Must: []string{"rt", "rb", "ru"}}
		if i > 0 {
			b = j.bs[i-1]
			signed = signed || b.Part != "whole"
		}
		for _, id := range b.Must {
			for _, v := range x.vrps[id] {
				if got[v] == 0 {
					bad(b, fmt.Sprintf("lost VRP %v of %s", v, id), "V08", "V06")
					if os.Getenv("VERIF_KEEP") != "" {
						fmt.Fprintln(os.Stderr, args, se.String())
					}
				}
			}
		}
	}
	for v := range got {
		if !signed && !known[v] {
			bad(j.bs, fmt.Sprintf("VRP %v comes from an altered object", v), "V03")
		} else if !within(v, 0) {
			bad(j.bs, fmt.Sprintf("VRP %v is outside the resources of every CA", v), "V04", "V07")
		}
	}
}

func main() {
	flag.Parse()
	keys, err := rpki.LoadKeys(*keyFile)
	if err != nil {
		panic(err)
	}
	var bs []*behaviour
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		b := &behaviour{id: len(bs)}
		if err := json.Unmarshal(sc.Bytes(), b); err != nil {
			panic(err)
		}
		bs = append(bs, b)
	}
	var mu sync.Mutex
	enc := json.NewEncoder(os.Stdout)
	found, done := 0, 0
	emit := func(f finding) {
		sort.Strings(f.Prop)
		mu.Lock()
		found++
		enc.Encode(f)
		mu.Unlock()
	}
	stop := func() bool {
		mu.Lock()
		defer mu.Unlock()
		return found > 60
	}
	var wg sync.WaitGroup
	if *dir == "" {
		ch := make(chan *behaviour)
		for i := 0; i < runtime.NumCPU(); i++ {
			prog, _ := os.Create(fmt.Sprintf("progress.%d", i))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for b := range ch {
					prog.WriteAt([]byte(fmt.Sprintf("%-10d", b.id)), 0)
					for _, f := range validate(b, keys) {
						emit(f)
					}
					mu.Lock()
					done++
					mu.Unlock()
				}
				prog.WriteAt([]byte(fmt.Sprintf("%-10d", -1)), 0)
			}()
		}
		for _, b := range bs {
			if stop() {
				break
			}
			ch <- b
		}
		close(ch)
		wg.Wait()
		enc.Encode(map[string]interface{}{"stats": map[string]int{"replayed": done}})
		return
	}
	// whole-CA damage only, a dozen to a run
	r := rand.New(rand.NewSource(*seed))
	r.Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
	var jobs []*batch
	var cur [2][]*behaviour
	for _, b := range bs {
		if b.Obj[0] == 't' {
			continue
		}
		k := 0
		if b.Part == "whole" {
			k = 1
		}
		cur[k] = append(cur[k], b)
		if len(cur[k]) == 12 {
			jobs = append(jobs, &batch{len(jobs), cur[k]})
			cur[k] = nil
		}
	}
	end := time.Now().Add(*budget)
	ch := make(chan *batch)
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				program(j, keys, emit)
				mu.Lock()
				done += len(j.bs)
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		if stop() || time.Now().After(end) {
			break
		}
		ch <- j
	}
	close(ch)
	wg.Wait()
	enc.Encode(map[string]interface{}{"stats": map[string]int{"programs": done}})
}
