package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/asn1"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/cloudflare/cfrpki/vh/rpki"
)

// behaviour of Ct.tla: the answers to the chains in the order of their arrival, and the requests for each
type ctBehaviour struct {
	T    int
	Ans  []string
	Reqs []int
}

// the certificate in a signed object
func eeOf(d []byte) []byte {
	var ci struct {
		OID     asn1.ObjectIdentifier
		Content asn1.RawValue // [0]
	}
	if _, err := asn1.Unmarshal(d, &ci); err != nil {
		return nil
	}
	var sd asn1.RawValue
	if _, err := asn1.Unmarshal(ci.Content.Bytes, &sd); err != nil {
		return nil
	}
	for rest := sd.Bytes; len(rest) > 0; {
		var x asn1.RawValue
		var err error
		if rest, err = asn1.Unmarshal(rest, &x); err != nil {
			return nil
		}
		if x.Class == asn1.ClassContextSpecific && x.Tag == 0 {
			return x.Bytes
		}
	}
	panic("no certificate")
}

// wanted chains of a world: chain -> "" (must be sent), "W" (may be) or why it must not be
func chainsOf(w *rpki.World, b *rpki.Built) (map[string]string, map[string]string) {
	want, name := map[string]string{}, map[string]string{}
	below := func(c string) (s string) {
		for ; c != ""; c = w.Cas[c].Parent {
			s += "\x00" + string(b.Files[b.Path[c]])
		}
		return
	}
	verdict := func(why []string, weak bool) string {
		if ps := rpki.NotW(why); len(ps) > 0 {
			return strings.Join(ps, ",")
		}
		if len(why) > 0 || weak {
			return "W"
		}
		return ""
	}
	for c, i := range w.Cas {
		k := string(b.Files[b.Path[c]])
		if i.Parent != "" {
			k += below(i.Parent)
		}
		want[k], name[k] = verdict(i.Why, i.Weak), c
		m := "m" + c
		k = string(eeOf(b.Files[b.Path[m]])) + below(c)
		want[k], name[k] = verdict(w.Mfts[m], false), m
		for _, r := range i.Roas {
			k = string(eeOf(b.Files[b.Path[r]])) + below(c)
			v := verdict(w.Roas[r], false)
			want[k], name[k] = v, r
		}
	}
	return want, name
}

type ctLog struct {
	mu     sync.Mutex
	beh    *ctBehaviour
	order  []string
	count  map[string]int
	hold   time.Duration
	opened chan bool
	r      *rand.Rand
	last   time.Time
}

func (l *ctLog) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	if req.URL.Path != "/log/ct/v1/add-chain" {
		w.WriteHeader(404)
		return
	}
	var q struct {
		Chain [][]byte `json:"chain"`
	}
	body, err := ioutil.ReadAll(req.Body)
	if err == nil {
		err = json.Unmarshal(body, &q)
	}
	if err != nil {
		w.WriteHeader(400)
		return
	}
	k := string(bytes.Join(q.Chain, []byte{0}))
	l.mu.Lock()
	l.count[k]++
	n := l.count[k]
	l.last = time.Now()
	if n == 1 {
		l.order = append(l.order, k)
	}
	i := 0
	for ; l.order[i] != k; i++ {
	}
	a := "ok"
	if len(l.beh.Ans) > 0 {
		a = l.beh.Ans[i%len(l.beh.Ans)]
	}
	x := l.r.Intn(12)
	l.mu.Unlock()
	if l.hold > 0 {
		<-l.opened
	}
	if n > 1 && (a == "busy" || a == "timeout") {
		a = "ok"
	}
	switch a {
	case "bad":
		w.WriteHeader([]int{400, 403, 404, 500, 502}[x%5])
		fmt.Fprint(w, "no")
	case "busy":
		w.Header().Set("Retry-After", "0")
		w.WriteHeader([]int{503, 429}[x%2])
	case "timeout":
		w.WriteHeader(408)
	default:
		switch x % 3 {
		case 0:
			fmt.Fprint(w, `{}`)
		default:
			fmt.Fprint(w, `{"sct_version":0,"id":"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=","timestamp":1234,"extensions":"","signature":"BAMABzAFAgECAgEB"}`)
		}
	}
}

func ctRun(j *job, beh *ctBehaviour, keys []*rpki.Key, r *rand.Rand, emit func(finding)) {
	base := filepath.Join(*dir, fmt.Sprint("c", j.id))
	defer os.RemoveAll(base)
	root := filepath.Join(base, "cache")
	os.MkdirAll(root, 0755)
	now := r.Intn(3) == 0
	t0 := time.Now().UTC().Truncate(time.Second)
	if !now {
		t0 = t0.Add(time.Duration([]int{-3000, -400, 400, 3000}[r.Intn(4)])*24*time.Hour + time.Duration(r.Intn(86400))*time.Second)
	}
	var tals, maps []string
	want, name := map[string]string{}, map[string]string{}
	extra := false
	for i, w := range j.worlds {
		opt := rpki.Options{T0: t0, Tight: !now, Host: fmt.Sprintf("h%d.example", i+1), ASN: int64(65000 + 10000*i), Salt: *seed + int64(j.id)}
		b := rpki.Build(w, keys, opt)
		ws, ns := chainsOf(w, b)
		for k, v := range ws {
			want[k], name[k] = v, fmt.Sprintf("%s of anchor %d", ns[k], i+1)
		}
		if r.Intn(3) == 0 {
			opt.Ber = func(u string, d []byte) []byte { return rpki.ToBER(d) }
			b = rpki.Build(w, keys, opt)
		}
		extra = extra || len(b.Extra) > 0
		place(root, b)
		t := filepath.Join(base, fmt.Sprintf("t%d.tal", i))
		ioutil.WriteFile(t, b.TAL, 0644)
		tals = append(tals, t)
		maps = append(maps, fmt.Sprintf("rsync://%s/repo/=%s/%s/repo/", opt.Host, root, opt.Host))
	}
	threads := beh.T
	if r.Intn(6) == 0 {
		threads = []int{5, 50}[r.Intn(2)]
	}
	l := &ctLog{beh: beh, count: map[string]int{}, opened: make(chan bool), r: rand.New(rand.NewSource(r.Int63())), last: time.Now()}
	if r.Intn(3) > 0 {
		l.hold = time.Duration(100+r.Intn(300)) * time.Millisecond
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	srv := &http.Server{Handler: l}
	go srv.Serve(ln)
	defer srv.Close()
	args := []string{"-tal.root", strings.Join(tals, ","), "-map.dir", strings.Join(maps, ","), "-ct", "http://" + ln.Addr().String() + "/log", "-ct.threads", fmt.Sprint(threads)}
	if !now {
		if r.Intn(2) == 0 {
			args = append(args, "-valid.time", fmt.Sprint(t0.Unix()))
		} else {
			args = append(args, "-valid.time", t0.Format(time.RFC3339))
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	program := *ctrpki
	if *ctrace != "" && j.id%2 == 1 {
		program = *ctrace
	}
	cmd := exec.CommandContext(ctx, program, args...)
	cmd.Dir = base
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=exitcode=0 atexit_sleep_ms=0")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &se, &se
	done := make(chan error, 1)
	go func() { done <- cmd.Run() }()
	if l.hold > 0 {
		// let the log answer once nothing new arrives for a while
		go func() {
			for {
				time.Sleep(20 * time.Millisecond)
				l.mu.Lock()
				quiet := time.Since(l.last) > l.hold && len(l.order) > 0
				l.mu.Unlock()
				if quiet {
					close(l.opened)
					return
				}
			}
		}()
	}
	err = <-done
	var faults [][2]string
	for _, w := range j.worlds {
		for _, f := range w.Faults {
			faults = append(faults, [2]string{f[0], f[1]})
		}
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	bad := func(kind, what string) {
		emit(finding{what, []string{"T02"}, kind, faults, map[string]interface{}{"tool": "ctrpki", "args": args, "worlds": j.worlds, "behaviour": beh, "threads": threads, "hold": l.hold.String(), "output": tailOf(se.String()), "id": j.id, "seed": *seed}})
	}
	if ctx.Err() != nil {
		bad("hang", "no end after 60 s")
		return
	}
	if _, race, found := strings.Cut(se.String(), "WARNING: DATA RACE"); found {
		var at []string
		for _, x := range strings.Split(strings.Split(race, "created at:")[0], "\n") {
			if strings.HasPrefix(x, "  main.") {
				at = append(at, strings.TrimSpace(x))
			}
		}
		bad("race", "unsynchronised accesses to the same data: "+strings.Join(at, " / "))
	}
	if err != nil {
		m := ""
		for _, x := range strings.Split(se.String(), "\n") {
			if strings.HasPrefix(x, "panic") || strings.HasPrefix(x, "fatal") || strings.Contains(x, "level=fatal") {
				m = x
				break
			}
		}
		bad("died", fmt.Sprintf("%v %s", err, m))
		return
	}
	for k, v := range want {
		switch {
		case v == "" && l.count[k] == 0:
			bad("missing", "the chain of "+name[k]+" was not submitted")
		case v != "" && v != "W" && l.count[k] > 0:
			bad("rejected", fmt.Sprintf("the chain of %s was submitted, which must not be accepted (%s)", name[k], v))
		}
	}
	for i, k := range l.order {
		if _, ok := want[k]; !ok && !extra {
			n := strings.Count(k, "\x00") + 1
			first := k
			if i := strings.Index(k, "\x00"); i >= 0 {
				first = k[:i]
			}
			of := "an unknown object"
			for o := range want {
				if strings.HasPrefix(o, first) {
					of = name[o]
				}
			}
			bad("chain", fmt.Sprintf("a chain of %d certificates was submitted for %s, which has no such chain", n, of))
		}
		wantN := 1
		if len(beh.Ans) > 0 {
			wantN = beh.Reqs[i%len(beh.Ans)]
		}
		if l.count[k] != wantN {
			bad("times", fmt.Sprintf("chain %d to arrive (%s) was submitted %d times, not %d", i+1, name[k], l.count[k], wantN))
		}
	}
}

func tailOf(s string) string {
	if len(s) > 3000 {
		s = s[:1000] + " ... " + s[len(s)-2000:]
	}
	return s
}

func ctMain(keys []*rpki.Key) {
	var worlds []*rpki.World
	var behs []*ctBehaviour
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		if bytes.Contains(sc.Bytes(), []byte(`"reqs":`)) {
			b := &ctBehaviour{}
			if err := json.Unmarshal(sc.Bytes(), b); err != nil {
				panic(err)
			}
			behs = append(behs, b)
			continue
		}
		w := &rpki.World{}
		if err := json.Unmarshal(sc.Bytes(), w); err != nil {
			panic(err)
		}
		if !w.SM || !w.SH {
			continue // the settings of the tool
		}
		w.ID = len(worlds)
		worlds = append(worlds, w)
	}
	r := rand.New(rand.NewSource(*seed))
	var mu sync.Mutex
	enc := json.NewEncoder(os.Stdout)
	n := map[string]int{}
	found := 0
	end := time.Now().Add(*budget)
	ch := make(chan *job)
	var wg sync.WaitGroup
	for i := 0; i < 2*runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				ctRun(j, behs[j.id%len(behs)], keys, rand.New(rand.NewSource(*seed*1000003+int64(j.id))), func(f finding) {
					sort.Strings(f.Prop)
					mu.Lock()
					found++
					enc.Encode(f)
					mu.Unlock()
				})
				mu.Lock()
				n["ctrpki"]++
				n["worlds"] += len(j.worlds)
				mu.Unlock()
			}
		}()
	}
	for i, id := 0, 0; i < len(worlds); id++ {
		mu.Lock()
		stop := found > 60
		mu.Unlock()
		if time.Now().After(end) || stop {
			break
		}
		k := 1 + r.Intn(2)
		if i+k > len(worlds) {
			k = len(worlds) - i
		}
		ch <- &job{id: id, worlds: worlds[i : i+k], tool: "ctrpki"}
		i += k
	}
	close(ch)
	wg.Wait()
	enc.Encode(map[string]interface{}{"stats": n})
}
