// vh_disk replays worlds of spec/Pki.tla on the localrpki and octorpki programs: the objects are files
// in a scratch directory, the settings are flags, and the result is what the programs write.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/cloudflare/cfrpki/vh/rpki"
)

var (
	local   = flag.String("localrpki", "", "")
	octo    = flag.String("octorpki", "", "")
	dir     = flag.String("dir", "", "scratch directory")
	keyFile = flag.String("keys", "", "")
	seed    = flag.Int64("seed", 1, "")
	split   = flag.Bool("split", false, "publication points in directories of their own (localrpki)")
	publish = flag.Bool("publish", false, "worlds of Publish.tla")
	ctrpki  = flag.String("ctrpki", "", "")
	ctrace  = flag.String("ctrpkirace", "", "ctrpki built with the race detector, used every other time")
	ctTool  = flag.Bool("ct", false, "worlds and behaviours of Ct.tla")
	budget  = flag.Duration("budget", 10*time.Second, "")
)

type finding struct {
	What   string
	Prop   []string
	Kind   string
	Faults [][2]string
	Case   interface{}
}

// job: one run of a program over the worlds of up to two trust anchors
type job struct {
	id     int
	worlds []*rpki.World
	tool   string
}

func parseASN(x interface{}) int64 {
	switch v := x.(type) {
	case float64:
		return int64(v)
	case string:
		n, err := strconv.ParseInt(strings.TrimPrefix(v, "AS"), 10, 64)
		if err != nil {
			return -1
		}
		return n
	}
	return -1
}

func place(root string, b *rpki.Built) {
	for u, d := range b.Files {
		p := strings.TrimPrefix(u, "rsync://")
		if p == u || strings.Contains(p, "..") || filepath.IsAbs(p) {
			panic("bad name " + u)
		}
		f := filepath.Join(root, p)
		os.MkdirAll(filepath.Dir(f), 0755)
		if b.Unreadable[u] {
			os.MkdirAll(f, 0755)
			continue
		}
		if err := ioutil.WriteFile(f, d, 0644); err != nil {
			panic(err)
		}
	}
}

// splitMaps moves directories of publication points elsewhere, leaves other files in their places,
// and gives the mapping that leads to them.
func splitMaps(j *job, built []*rpki.Built, base, root string, r *rand.Rand) []string {
	var maps []string
	add := func(key, val string) {
		if r.Intn(2) == 0 {
			key = strings.TrimSuffix(key, "/")
		}
		if r.Intn(2) == 0 {
			val += "/"
		}
		maps = append(maps, key+"="+val)
	}
	for i, b := range built {
		host := fmt.Sprintf("h%d.example", i+1)
		dirs := map[string]bool{}
		for u := range b.Files {
			dirs[u[:strings.LastIndex(u, "/")+1]] = true
		}
		var l []string
		for d := range dirs {
			l = append(l, d)
		}
		sort.Strings(l)
		r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
		for n, d := range l {
			if n == 1+r.Intn(3) {
				break
			}
			from := filepath.Join(root, strings.TrimPrefix(d, "rsync://"))
			if strings.Count(d, "/") < 5 { // the module itself
				continue
			}
			to := filepath.Join(base, fmt.Sprintf("moved%d-%d", i, n), host)
			os.MkdirAll(filepath.Dir(to), 0755)
			if err := os.Rename(from, to); err != nil {
				panic(err)
			}
			es, _ := ioutil.ReadDir(to)
			os.MkdirAll(from, 0755)
			for _, e := range es { // what is not to be read
				ioutil.WriteFile(filepath.Join(from, e.Name()), []byte("not this one"), 0644)
			}
			add(d, to)
		}
		if r.Intn(2) == 0 { // for a path that only begins like another
			add("rsync://"+host+"/re/", filepath.Join(base, "none"))
			add("rsync://"+host+"/repo/d", filepath.Join(base, "none"))
			add("rsync://"+host[:2]+"/", filepath.Join(base, "none"))
		}
		if r.Intn(2) == 0 || i > 0 {
			add("rsync://"+host+"/repo/", filepath.Join(root, host, "repo"))
		} else {
			add("rsync://", root)
		}
	}
	r.Shuffle(len(maps), func(a, b int) { maps[a], maps[b] = maps[b], maps[a] })
	return maps
}

func run(j *job, keys []*rpki.Key, r *rand.Rand, emit func(finding)) {
	base := filepath.Join(*dir, fmt.Sprint("j", j.id))
	defer os.RemoveAll(base)
	root := filepath.Join(base, "cache")
	os.MkdirAll(root, 0755)
	w0 := j.worlds[0]
	now := j.tool == "octorpki" || r.Intn(4) == 0
	t0 := time.Now().UTC().Truncate(time.Second)
	if !now {
		t0 = t0.Add(time.Duration([]int{-3000, -400, -30, 30, 400, 3000}[r.Intn(6)])*24*time.Hour + time.Duration(r.Intn(86400))*time.Second)
	}
	var built []*rpki.Built
	var tals, names, maps []string
	for i, w := range j.worlds {
		opt := rpki.Options{T0: t0, Tight: !now, Host: fmt.Sprintf("h%d.example", i+1), ASN: int64(65000 + 10000*i), Salt: *seed + int64(j.id)}
		if br := r.Intn(3); br > 0 {
			k := r.Int63()
			opt.Ber = func(u string, d []byte) []byte {
				if br == 1 || (k+int64(len(u)+len(d)))%2 == 0 {
					return rpki.ToBER(d)
				}
				return d
			}
		}
		b := rpki.Build(w, keys, opt)
		built = append(built, b)
		place(root, b)
		t := filepath.Join(base, fmt.Sprintf("t%d.tal", i))
		ioutil.WriteFile(t, b.TAL, 0644)
		tals = append(tals, t)
		names = append(names, fmt.Sprint("TA", i+1))
		maps = append(maps, fmt.Sprintf("rsync://%s/repo/=%s/%s/repo/", opt.Host, root, opt.Host))
	}
	if *split {
		maps = splitMaps(j, built, base, root, r)
	} else if r.Intn(3) == 0 {
		maps = []string{"rsync://=" + root + []string{"", "/"}[r.Intn(2)]}
	}
	out := filepath.Join(base, "out.json")
	cms := r.Intn(2) == 0
	args := []string{"-tal.root", strings.Join(tals, ","), fmt.Sprintf("-strict.manifests=%v", w0.SM), fmt.Sprintf("-strict.hash=%v", w0.SH), fmt.Sprintf("-strict.cms=%v", cms)}
	if w0.Dir {
		args = append(args, "-manifest.use=false")
	}
	stdout := false
	bin := *local
	if j.tool == "localrpki" {
		args = append(args, "-map.dir", strings.Join(maps, ","))
		if now {
			if r.Intn(2) == 0 {
				args = append(args, "-valid.time", "now")
			}
		} else if r.Intn(2) == 0 {
			args = append(args, "-valid.time", fmt.Sprint(t0.Unix()))
		} else {
			z := time.FixedZone("", []int{0, 0, 3600 * 5, -3600*11 - 1800}[r.Intn(4)])
			args = append(args, "-valid.time", t0.In(z).Format(time.RFC3339))
		}
		if stdout = r.Intn(4) == 0; stdout {
			args = append(args, "-output", "")
		} else {
			args = append(args, "-output", out)
		}
		if r.Intn(3) == 0 {
			args = append(args, "-loglevel", []string{"debug", "error"}[r.Intn(2)])
		}
	} else {
		bin = *octo
		args = append(args, "-allow.root", "-mode", "oneoff", "-rrdp=false", "-rsync.bin", "/bin/true", "-cache", root, "-tal.name", strings.Join(names, ","),
			"-output.roa", out, "-output.sign=false", fmt.Sprintf("-filter=%v", r.Intn(2) == 0), "-rrdp.file", filepath.Join(base, "rrdp.json"), "-refresh", "1ms",
			"-http.addr", "127.0.0.1:0")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = base
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	var faults [][2]string
	for _, w := range j.worlds {
		for _, f := range w.Faults {
			faults = append(faults, [2]string{f[0], f[1]})
		}
	}
	bad := func(kind, what string, props ...string) {
		if w0.Dir {
			props = []string{"V09"}
		}
		if *split {
			props = []string{"L07"}
		}
		emit(finding{fmt.Sprintf("%s: %s", j.tool, what), props, kind, faults, map[string]interface{}{"tool": j.tool, "args": args, "worlds": j.worlds, "id": j.id, "seed": *seed}})
	}
	if ctx.Err() != nil {
		bad("hang", "no end after 60 s", "V08")
		return
	}
	if err != nil {
		l := ""
		for _, x := range strings.Split(se.String(), "\n") {
			if strings.HasPrefix(x, "panic") || strings.HasPrefix(x, "fatal") || strings.Contains(x, "level=fatal") {
				l = x
				break
			}
		}
		if strings.Contains(l, "address already in use") {
			return
		}
		bad("died", fmt.Sprintf("%v %s", err, l), "V08")
		return
	}
	data := so.Bytes()
	if !stdout {
		if data, err = ioutil.ReadFile(out); err != nil {
			bad("output", "no output: "+err.Error(), "O02", "V06")
			return
		}
	}
	var doc struct {
		Roas []map[string]interface{} `json:"roas"`
	}
	if err := json.Unmarshal(data, &doc); err != nil {
		bad("output", "output: "+err.Error(), "V07", "O03")
		return
	}
	got := make([]map[int64]map[rpki.VRP]int, len(j.worlds))
	from := map[int64]map[string]bool{}
	for i := range got {
		got[i] = map[int64]map[rpki.VRP]int{}
	}
	for _, x := range doc.Roas {
		max, _ := x["maxLength"].(float64)
		pre, _ := x["prefix"].(string)
		v := rpki.VRP{ASN: parseASN(x["asn"]), Prefix: pre, MaxLen: int(max)}
		i := 0
		if v.ASN >= 75000 && len(got) > 1 {
			i = 1
		}
		if got[i][v.ASN] == nil {
			got[i][v.ASN] = map[rpki.VRP]int{}
			from[v.ASN] = map[string]bool{}
		}
		got[i][v.ASN][v]++
		f, _ := x["path"].(string)
		if j.tool == "octorpki" {
			f, _ = x["ta"].(string)
			if f != names[i] {
				bad("label", fmt.Sprintf("VRP %v of %s is labelled %q", v, names[i], f), "O03")
			}
		}
		from[v.ASN][f] = true
	}
	for i, w := range j.worlds {
		rpki.JudgeVRPs(w, built[i], int64(65000+10000*i), got[i], func(what string, props ...string) {
			var fs [][2]string
			if w.Dir {
				props = []string{"V09"}
			}
			if *split {
				props = []string{"L07"}
			}
			for _, f := range w.Faults {
				fs = append(fs, [2]string{f[0], f[1]})
			}
			emit(finding{what, props, w.Topo, fs, map[string]interface{}{"tool": j.tool, "args": args, "worlds": j.worlds, "id": j.id, "seed": *seed}})
		})
		if j.tool == "localrpki" {
			for ro, why := range w.Roas {
				p := built[i].Path[ro]
				for f := range from[int64(65000+10000*i)+rpki.RoaIndex(ro)] {
					if len(why) == 0 && f != p {
						bad("path", fmt.Sprintf("path %q of ROA %s", f, p), "V07")
					}
				}
			}
		}
	}
}

func main() {
	flag.Parse()
	keys, err := rpki.LoadKeys(*keyFile)
	if err != nil {
		panic(err)
	}
	if *publish {
		publishMain(keys)
		return
	}
	if *ctTool {
		ctMain(keys)
		return
	}
	var worlds []*rpki.World
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		w := &rpki.World{}
		if err := json.Unmarshal(sc.Bytes(), w); err != nil {
			panic(err)
		}
		w.ID = len(worlds)
		worlds = append(worlds, w)
	}
	r := rand.New(rand.NewSource(*seed))
	// worlds of the same settings in pairs, in the order given
	var jobs []*job
	waiting := map[[2]bool]*rpki.World{}
	for _, w := range worlds {
		tool := "localrpki"
		if len(jobs)%3 == 2 && !*split {
			tool = "octorpki"
		}
		k := [2]bool{w.SM, w.SH}
		if o := waiting[k]; o != nil {
			waiting[k] = nil
			jobs = append(jobs, &job{id: len(jobs), worlds: []*rpki.World{o, w}, tool: tool})
		} else if r.Intn(3) == 0 {
			jobs = append(jobs, &job{id: len(jobs), worlds: []*rpki.World{w}, tool: tool})
		} else {
			waiting[k] = w
		}
	}
	var mu sync.Mutex
	enc := json.NewEncoder(os.Stdout)
	n := map[string]int{}
	found := 0
	end := time.Now().Add(*budget)
	ch := make(chan *job)
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				run(j, keys, rand.New(rand.NewSource(*seed*1000003+int64(j.id))), func(f finding) {
					sort.Strings(f.Prop)
					mu.Lock()
					found++
					enc.Encode(f)
					mu.Unlock()
				})
				mu.Lock()
				n[j.tool]++
				n["worlds"] += len(j.worlds)
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		mu.Lock()
		stop := found > 60
		mu.Unlock()
		if time.Now().After(end) || stop {
			break
		}
		ch <- j
	}
	close(ch)
	wg.Wait()
	enc.Encode(map[string]interface{}{"stats": n})
}
