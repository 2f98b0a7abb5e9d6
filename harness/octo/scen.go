package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type worker struct {
	n      int
	base   string
	worlds map[string]*world
	mu     sync.Mutex
	cur    *scen
	hangs  int
	active int32 // connections
}

func newWorker(n int) *worker {
	w := &worker{n: n, worlds: map[string]*world{}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	w.base = "http://" + l.Addr().String()
	srv := &http.Server{Handler: w, ConnState: func(c net.Conn, st http.ConnState) {
		switch st {
		case http.StateNew:
			atomic.AddInt32(&w.active, 1)
		case http.StateClosed, http.StateHijacked:
			atomic.AddInt32(&w.active, -1)
		}
	}}
	srv.SetKeepAlivesEnabled(false) // a client retries when a kept connection is closed
	go srv.Serve(l)
	return w
}

var nextPort = int32(15000 + os.Getpid()%10000)

// a port outside the range of those chosen by the kernel
func freePort() int {
	for {
		p := int(atomic.AddInt32(&nextPort, 1))
		if p > 32000 {
			atomic.StoreInt32(&nextPort, 15000)
		}
		if l, err := net.Listen("tcp", fmt.Sprint("127.0.0.1:", p)); err == nil {
			l.Close()
			return p
		}
	}
}

// scen is one behaviour being replayed
type scen struct {
	*world
	told map[string]int // VRPs of each locator, from the information endpoint
	w    *worker
	b    *behaviour
	id   int
	rmu  sync.Mutex
	r    *rand.Rand
	dir  string
	run  int
	port int

	// options chosen by the harness
	filter, cacheHeader, ct, small bool
	validity                       time.Duration
	refresh                        time.Duration
	conc                           int

	mu        sync.Mutex
	queue     map[string][]logEntry
	killing   bool // the behaviour ends with a kill that did not happen yet
	recover   bool // every attempt succeeds
	pub       []pubState
	attempt   map[int]logEntry // the RRDP attempt going on at a module
	round     int              // of the last attempt seen
	arrivals  map[int]time.Time
	checked   map[int]bool
	stop      chan struct{} // closed when the process is to be ended
	stopped   bool
	final     bool
	findings  []finding
	chains    [][][]byte
	lateCT    map[string]bool
	chainSeen int
	checks    int
	stats     map[string]int
	cmd       *exec.Cmd
	stderr    *tail
	exited    chan struct{}
	exitErr   error
	trace     []string
	polls     []polled
	killed    bool
	checking  sync.WaitGroup
	idle      bool // ended at any point
	tagOf     map[string][32]byte
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 60000 {
		t.b = t.b[len(t.b)-30000:]
	}
	t.mu.Unlock()
	return len(p), nil
}
func (t *tail) last(n int) string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) > n {
		return string(t.b[len(t.b)-n:])
	}
	return string(t.b)
}

func (s *scen) intn(n int) int {
	s.rmu.Lock()
	defer s.rmu.Unlock()
	return s.r.Intn(n)
}

// fail records a violation. The process is ended.
func (s *scen) fail(what, kind string, props ...string) {
	s.mu.Lock()
	s.failLocked(what, kind, props...)
	s.mu.Unlock()
}
func (s *scen) failLocked(what, kind string, props ...string) {
	if len(s.findings) < 3 {
		log := ""
		if s.stderr != nil {
			log = s.stderr.last(2500)
		}
		s.findings = append(s.findings, finding{what, props, kind, map[string]interface{}{"scenario": s.id, "run": s.run, "round": s.round, "behaviour": s.b, "stderr": log, "trace": append([]string(nil), s.trace...)}})
	}
	s.endLocked()
}
func (s *scen) endLocked() {
	if !s.stopped {
		s.stopped = true
		close(s.stop)
	}
}
func (s *scen) end() { s.mu.Lock(); s.endLocked(); s.mu.Unlock() }

func key(kind string, m int) string {
	if kind == "http" {
		return fmt.Sprint("t", m)
	}
	if m > 100 {
		return fmt.Sprint("t", m-100)
	}
	return fmt.Sprint("m", m)
}

func (s *scen) left() int {
	n := 0
	for _, q := range s.queue {
		n += len(q)
	}
	return n
}

func propsOf(k string) []string {
	if k[0] == 't' {
		return []string{"S05", "O02"}
	}
	return []string{"S04", "O02"}
}

// arrive matches an attempt with the behaviour. ok is false when there is nothing
// to answer: the process is about to be ended.
func (s *scen) arrive(kind string, m, k int) (logEntry, bool) {
	s.mu.Lock()
	s.trace = append(s.trace, fmt.Sprintf("%s %d %d", kind, m, k))
	exited := s.exited
	if s.stopped {
		s.mu.Unlock()
		<-exited // an answer would only let it go on
		return logEntry{}, false
	}
	if s.recover {
		e := logEntry{Kind: kind, M: m, K: k, Out: "ok"}
		if kind == "rsync" && m <= 100 && s.b.Cfg.Rrdp && s.ann[m-1] {
			s.failLocked(fmt.Sprintf("rsync attempt at %s in a faultless run after a restart, although it announces RRDP", key(kind, m)), "recovery rsync", "S06", "S04")
		}
		s.mu.Unlock()
		return e, true
	}
	q := key(kind, m)
	if len(s.queue[q]) == 0 {
		if s.killing {
			s.mu.Unlock()
			select {
			case <-exited:
			case <-time.After(300 * time.Millisecond):
				s.end() // this attempt may keep the one of the kill from being started
				<-exited
			}
			return logEntry{}, false
		}
		if s.goesOn() && s.left() == 0 {
			// the round after the last of the behaviour
			first := !s.final
			s.final = true
			s.mu.Unlock()
			if first {
				s.newRound(s.lastRound() + 1)
				s.end()
			}
			<-exited
			return logEntry{}, false
		}
		s.failLocked(fmt.Sprintf("%s attempt at %s that nothing calls for", kind, q), "extra "+kind, propsOf(q)...)
		s.mu.Unlock()
		return logEntry{}, false
	}
	e := s.queue[q][0]
	if e.Kind != kind || e.Kind == "http" && e.Out != "kill" && e.K != k {
		s.failLocked(fmt.Sprintf("%s attempt (URI %d) at %s where the behaviour has %s (URI %d)", kind, k, q, e.Kind, e.K), "wrong "+kind, propsOf(q)...)
		s.mu.Unlock()
		return logEntry{}, false
	}
	s.queue[q] = s.queue[q][1:]
	if e.Out == "kill" {
		s.mu.Unlock()
		return s.kill(e), true
	}
	if m <= 100 && kind != "http" {
		s.pub[m] = pubState{e.Sess, e.Ver}
	}
	if kind == "rrdp" {
		s.attempt[m] = e
	}
	s.arrivals[e.Round] = time.Now()
	s.mu.Unlock()
	s.newRound(e.Round)
	return e, true
}

func (s *scen) lastRound() int {
	n := 0
	for _, r := range s.b.Results {
		if r.Run == s.run && r.Round > n {
			n = r.Round
		}
	}
	return n
}

// newRound is called with each attempt; on the first of a round it looks at what is published
func (s *scen) newRound(r int) {
	s.mu.Lock()
	if r > s.round {
		s.round = r
	}
	do := s.b.Cfg.Server && !s.checked[r] && !s.stopped
	s.checked[r] = true
	if do {
		s.checking.Add(1)
	}
	s.mu.Unlock()
	if do {
		s.checkGap(r)
		s.checkForced(r)
		s.checkServed(r)
		s.checking.Done()
	}
}

// checkGap: after a cycle, the next begins only after the refresh interval
func (s *scen) checkGap(r int) {
	for _, x := range s.b.Results {
		if x.Run == s.run && x.Round == r-1 && x.Cycleend {
			s.mu.Lock()
			last, ok := s.arrivals[r-1]
			now := time.Now()
			s.mu.Unlock()
			if !ok {
				return
			}
			s.stats["refresh gaps"]++
			if now.Sub(last) < s.refresh {
				s.fail(fmt.Sprintf("round %d begins %v after an attempt of the round before, which ended a cycle (refresh %v)", r, now.Sub(last), s.refresh), "refresh", "O02")
			}
		}
	}
}

// the kill of a behaviour: at once, or a little later
func (s *scen) kill(e logEntry) logEntry {
	later := s.intn(2) == 0
	if later {
		d := time.Duration(s.intn(8000)) * time.Microsecond
		if s.intn(4) == 0 {
			d *= 5
		}
		e.Out = "ok"
		s.mu.Lock()
		if e.M <= 100 && e.Kind != "http" {
			p := s.pub[e.M]
			if p.Ver < 3 {
				p.Ver++
			}
			s.pub[e.M] = p
			e.Sess, e.Ver = p.Sess, p.Ver
		}
		if e.Kind == "rrdp" {
			s.attempt[e.M] = e
		}
		stop := s.stop
		s.mu.Unlock()
		go func() {
			time.Sleep(d)
			s.mu.Lock()
			if s.stop == stop { // still the same process
				s.endLocked()
			}
			s.mu.Unlock()
		}()
		return e
	}
	for i := 0; i < 20; i++ {
		s.mu.Lock()
		n := s.left()
		s.mu.Unlock()
		if n == 0 {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	s.end()
	e.Out = "err"
	return e
}

// ---------------------------------------------------------------- HTTP side

func hijack(w http.ResponseWriter, raw string) {
	c, _, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	c.Write([]byte(raw))
	c.Close()
}

// an answer that is an error, although it contains what was asked for
func (s *scen) refuse(w http.ResponseWriter, data []byte) {
	switch s.intn(6) {
	case 0:
		w.WriteHeader([]int{404, 500, 503, 403, 410, 429}[s.intn(6)])
		w.Write(data)
	case 3: // neither an error nor the file
		code := []int{202, 204, 206, 304}[s.intn(4)]
		w.WriteHeader(code)
		if code == 202 || code == 206 {
			w.Write(data[:s.intn(len(data)+1)])
		}
	case 1:
		w.WriteHeader(404)
	case 2:
		hijack(w, "")
	default:
		n := 0
		if len(data) > 0 {
			n = s.intn(len(data))
		}
		hijack(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(data)+1, data[:n]))
	}
}

func (w *worker) ServeHTTP(rw http.ResponseWriter, q *http.Request) {
	w.mu.Lock()
	s := w.cur
	w.mu.Unlock()
	if s == nil {
		rw.WriteHeader(410)
		return
	}
	if q.URL.Path != "/rsync" && !strings.HasPrefix(q.URL.Path, fmt.Sprintf("/")) {
		rw.WriteHeader(404)
		return
	}
	s.serve(rw, q)
}

func (s *scen) serve(rw http.ResponseWriter, q *http.Request) {
	p := q.URL.Path
	switch {
	case p == "/rsync":
		s.serveRsync(rw, q)
	case strings.HasPrefix(p, "/ta"):
		f := strings.Split(strings.TrimPrefix(p, "/ta"), "/")
		t, _ := strconv.Atoi(f[0])
		k, _ := strconv.Atoi(strings.TrimSuffix(f[1], ".cer"))
		e, ok := s.arrive("http", t, k)
		if !ok {
			hijack(rw, "")
			return
		}
		switch e.Out {
		case "ok":
			rw.Write(s.taCert(t, "good"))
		case "bad":
			rw.Write(s.taCert(t, badTA[s.intn(len(badTA))]))
		default:
			s.refuse(rw, s.taCert(t, "good"))
		}
	case strings.HasSuffix(p, "/notification.xml"):
		m, _ := strconv.Atoi(strings.Split(strings.TrimPrefix(p, "/m"), "/")[0])
		e, ok := s.arrive("rrdp", m, 0)
		if !ok {
			hijack(rw, "")
			return
		}
		s.mu.Lock()
		st := s.pub[m]
		s.mu.Unlock()
		text := s.notification(nil, m, st)
		if e.Out == "notif" || e.Out == "err" {
			if s.intn(3) == 0 {
				rw.Write([]byte(text[:s.intn(len(text)-5)]))
				return
			}
			s.refuse(rw, []byte(text))
			return
		}
		rw.Write([]byte(text))
	case strings.HasPrefix(p, "/m"):
		f := strings.Split(strings.TrimPrefix(p, "/m"), "/")
		m, _ := strconv.Atoi(f[0])
		sess, _ := strconv.Atoi(f[1])
		ver, _ := strconv.Atoi(f[2])
		s.mu.Lock()
		e := s.attempt[m]
		s.trace = append(s.trace, p)
		st := s.pub[m]
		rec := s.recover
		s.mu.Unlock()
		if st.Sess != sess || st.Ver != ver {
			rw.WriteHeader(404)
			return
		}
		block := !rec && e.Out == "part"
		var text string
		if f[3] == "snapshot.xml" {
			text = s.snapshot(m, st, block)
		} else {
			v, _ := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(f[3], "delta-"), ".xml"))
			text = s.delta(m, sess, v, block)
		}
		if !rec && e.Out == "doc" {
			if s.intn(2) == 0 {
				rw.Write([]byte(text[:s.intn(len(text)-5)]))
				return
			}
			s.refuse(rw, []byte(text))
			return
		}
		rw.Write([]byte(text))
	case strings.HasPrefix(p, "/ct/"):
		var req struct{ Chain [][]byte }
		b, _ := ioutil.ReadAll(q.Body)
		err := json.Unmarshal(b, &req)
		s.mu.Lock()
		if err != nil || p != "/ct/v1/add-chain" || q.Method != "POST" {
			s.failLocked(fmt.Sprintf("bad CT submission %s %s: %v", q.Method, p, err), "ct form", "T01")
		}
		s.chains = append(s.chains, req.Chain)
		s.mu.Unlock()
		switch s.intn(20) {
		case 0, 1:
			rw.WriteHeader(500)
			return
		case 2: // transport errors
			hijack(rw, "")
			return
		case 3:
			hijack(rw, "HTTP/1.1 200 OK\r\nContent-Length: 50\r\n\r\n{\"sct")
			return
		}
		rw.Write([]byte(`{"sct_version":0}`))
	default:
		rw.WriteHeader(404)
	}
}

func (s *scen) serveRsync(rw http.ResponseWriter, q *http.Request) {
	uri, dir := q.URL.Query().Get("uri"), q.URL.Query().Get("dir")
	var rep rsyncReply
	abs, _ := filepath.Abs(filepath.Join(s.dir, dir))
	if filepath.IsAbs(dir) {
		abs = filepath.Clean(dir)
	}
	if !strings.HasPrefix(abs+"/", s.cacheDir()+"/") {
		s.fail("rsync outside the cache: "+dir, "rsync outside", "S03")
		hijack(rw, "")
		return
	}
	m := 0
	for t := range s.b.Uris {
		if uri == taRsync(t+1) {
			m = 101 + t
		}
	}
	for i := range s.parent {
		if strings.TrimSuffix(uri, "/") == moduleOf(i+1) {
			m = i + 1
		}
	}
	if m == 0 {
		s.fail("rsync of "+uri, "rsync uri", "S04")
		hijack(rw, "")
		return
	}
	e, ok := s.arrive("rsync", m, 0)
	if !ok {
		hijack(rw, "")
		return
	}
	rep.Files = map[string][]byte{}
	rep.Exit = 0
	if m > 100 {
		t := m - 100
		switch e.Out {
		case "ok":
			rep.Files[uri] = s.taCert(t, "good")
		case "bad":
			rep.Files[uri] = s.taCert(t, badTA[s.intn(len(badTA))])
		default:
			rep.Exit = 10
		}
	} else {
		s.mu.Lock()
		st := s.pub[m]
		s.mu.Unlock()
		c := s.at(m, st.Ver)
		switch e.Out {
		case "part":
			rep.Files[c.mft.uri] = c.mft.data
			rep.Exit = 23
		case "late":
			rep.Exit = []int{23, 24, 30}[s.intn(3)]
			fallthrough
		case "ok":
			for _, o := range c.files {
				rep.Files[o.uri] = o.data
			}
		default:
			rep.Exit = []int{1, 5, 10, 30, 35}[s.intn(5)]
			rep.Hang = s.small && s.intn(2) == 0
		}
	}
	json.NewEncoder(rw).Encode(rep)
}

// ---------------------------------------------------------------- processes

func (s *scen) cacheDir() string { return filepath.Join(s.dir, "cache") }

func (s *scen) start(server bool, maxit int) {
	c := s.b.Cfg
	var tals, names []string
	for t := range s.b.Uris {
		var uris []string
		for i, k := range s.b.Uris[t] {
			if k == "h" {
				uris = append(uris, fmt.Sprintf("%s/ta%d/%d.cer", s.base, t+1, i+1))
			} else {
				uris = append(uris, taRsync(t+1))
			}
		}
		p := filepath.Join(s.dir, fmt.Sprintf("t%d.tal", t+1))
		ioutil.WriteFile(p, s.cas[s.root(t+1)].TAL(uris...), 0644)
		tals = append(tals, p)
		names = append(names, talName(t+1))
	}
	if s.dup {
		tals, names = append(tals, tals[0]), append(names, dupName)
	}
	s.port = freePort()
	mode := "oneoff"
	if server {
		mode = "server"
	}
	args := []string{"-allow.root", "-mode", mode, "-tal.root", strings.Join(tals, ","), "-tal.name", strings.Join(names, ","),
		"-cache", s.cacheDir(), "-rrdp.file", s.stateFile(), "-output.roa", s.output(), "-http.addr", fmt.Sprintf("127.0.0.1:%d", s.port),
		"-refresh", s.refresh.String(), "-max.iterations", fmt.Sprint(maxit), "-rsync.bin", filepath.Join(*workDir, "rsync"),
		fmt.Sprintf("-rrdp=%v", c.Rrdp), fmt.Sprintf("-rrdp.failover=%v", c.Failover), fmt.Sprintf("-output.wait=%v", c.Wait),
		"-output.sign.key", filepath.Join(*workDir, "sign.pem"), "-output.sign.validity", s.validity.String(),
		fmt.Sprintf("-filter=%v", s.filter), fmt.Sprintf("-http.cache=%v", s.cacheHeader), "-max_concurrent_retrievals", fmt.Sprint(s.conc)}
	if s.small {
		args = append(args, "-rsync.timeout", "3s")
	}
	if s.ct {
		args = append(args, "-ct", "-ct.addr", s.base, "-ct.threads", fmt.Sprint(1+s.intn(4)))
	}
	if server {
		args[indexOf(args, "-output.roa")+1] = "output.json"
	}
	program := *octo
	if *octorace != "" && s.id%2 == 1 {
		program = *octorace
	}
	s.cmd = exec.Command(program, args...)
	s.cmd.Dir = s.dir
	s.cmd.Env = append(os.Environ(), "VERIF_OCTO="+s.base, "GOMAXPROCS=2", "GORACE=exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(s.dir, "race"))
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	s.stderr = &tail{}
	s.cmd.Stderr = s.stderr
	s.cmd.Stdout = s.stderr
	s.exited = make(chan struct{})
	s.stop = make(chan struct{})
	s.stopped, s.final = false, false
	s.round, s.checked, s.arrivals = 0, map[int]bool{}, map[int]time.Time{}
	s.attempt = map[int]logEntry{}
	s.chains, s.chainSeen, s.lateCT = nil, 0, nil
	s.polls = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	go func(c *exec.Cmd, ch chan struct{}) { s.exitErr = c.Wait(); close(ch) }(s.cmd, s.exited)
}

// Accesses of the program to its state that nothing orders: the steps of the specification are
// atomic, and what such a run does is undefined.
func (s *scen) races() {
	files, _ := filepath.Glob(filepath.Join(s.dir, "race.*"))
	for _, f := range files {
		b, _ := ioutil.ReadFile(f)
		os.Remove(f)
		for _, w := range strings.Split(string(b), "WARNING: DATA RACE")[1:] {
			// the stacks of the two accesses, up to where their goroutines were created
			w = strings.Split(w, "created at:")[0]
			var at []string
			serve, ct := false, false
			for _, l := range strings.Split(w, "\n") {
				if strings.HasPrefix(l, "  main.") {
					at = append(at, strings.TrimSpace(l))
					serve = serve || strings.Contains(l, ").Serve") || strings.Contains(l, "Serve.func")
					ct = ct || strings.Contains(l, "Transparency")
				}
			}
			if len(at) > 6 {
				at = at[:6]
			}
			props := []string{"S01", "S02", "S04", "S06"}
			if serve {
				props = []string{"O01", "O04", "O05", "O06"}
			} else if ct {
				props = []string{"T01"}
			}
			s.fail("unsynchronised accesses to the same data: "+strings.Join(at, " / "), "race", props...)
		}
	}
}

func indexOf(a []string, x string) int {
	for i := range a {
		if a[i] == x {
			return i
		}
	}
	return -1
}

func (s *scen) stateFile() string { return filepath.Join(s.dir, "rrdp.json") }
func (s *scen) output() string    { return filepath.Join(s.dir, "output.json") }

func (s *scen) slay() {
	syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
	<-s.exited
}

// waits for the process to end by itself or to be stopped; true: by itself
func (s *scen) wait(limit time.Duration) (self, intime bool) {
	intime = true
	select {
	case <-s.exited:
		self = true
	case <-s.stop:
		s.slay()
	case <-time.After(limit):
		intime = false
		s.end()
		s.slay()
	}
	// nothing of this process is left when the next one starts
	s.end()
	s.checking.Wait()
	s.races()
	for quiet := 0; quiet < 3; time.Sleep(2 * time.Millisecond) {
		quiet++
		if atomic.LoadInt32(&s.w.active) > 0 {
			quiet = 0
		}
	}
	return
}

// goesOn tells whether the process does not end by itself after the last round of the run
func (s *scen) goesOn() bool {
	for _, x := range s.b.Results {
		if x.Run == s.run && x.Round == s.lastRound() && x.Cycleend {
			return s.b.Cfg.Server
		}
	}
	return true
}

// nothingToDo tells whether a run attempts nothing at all
func (s *scen) nothingToDo() bool {
	for _, e := range s.b.Log {
		if e.Run == s.run {
			return false
		}
	}
	for _, x := range s.b.Results {
		if x.Run == s.run && len(x.Seen) > 0 {
			return false
		}
	}
	for _, us := range s.b.Uris {
		for _, u := range us {
			if u == "h" || s.b.Cfg.Failover {
				return false
			}
		}
	}
	return true
}

const deadline = 40 * time.Second

func (w *worker) run(b *behaviour, r *rand.Rand, id int) map[string]int {
	wk := fmt.Sprint(b.Topo)
	if w.worlds[wk] == nil {
		w.worlds[wk] = newWorld(w.base, b.Topo, b.Parent, b.Tal, b.Ann)
	}
	s := &scen{world: w.worlds[wk], w: w, b: b, r: r, id: id, stats: map[string]int{}}
	s.dir = filepath.Join(*workDir, fmt.Sprintf("s%d-%d", w.n, id))
	os.MkdirAll(s.dir, 0755)
	if !*keep {
		defer os.RemoveAll(s.dir)
	}
	s.pub = make([]pubState, len(b.Parent)+1)
	for i := range s.pub {
		s.pub[i] = pubState{1, 1}
	}
	// files in the way of what cannot be stored
	for m := range b.Parent {
		d := filepath.Join(s.cacheDir(), strings.TrimPrefix(moduleOf(m+1), "rsync://"))
		os.MkdirAll(d, 0755)
		ioutil.WriteFile(filepath.Join(d, "blk"), []byte("x"), 0644)
	}
	s.filter = r.Intn(3) > 0
	s.cacheHeader = r.Intn(3) > 0
	s.validity = []time.Duration{time.Hour, time.Minute, 2*time.Hour + 5*time.Second, time.Second}[r.Intn(4)]
	s.refresh = time.Duration(1+r.Intn(3)) * time.Millisecond
	if r.Intn(4) == 0 || has("slow") {
		s.refresh = 40 * time.Millisecond
	}
	s.conc = []int{100, 100, 2, 1}[r.Intn(4)]
	s.ct = b.Cfg.Server && has("ct")
	s.dup = !s.ct && r.Intn(3) == 0
	for _, us := range b.Uris { // over HTTP it would be fetched twice
		s.dup = s.dup && len(us) == 1 && us[0] == "r"
	}
	if s.dup {
		s.stats["configured twice"]++
	}
	with := map[[2]int]int{} // attempts of a round
	for _, e := range b.Log {
		if e.Kind == "rsync" {
			with[[2]int{e.Run, e.Round}]++
		}
	}
	for _, e := range b.Log {
		if e.Kind == "rsync" && e.Out == "fail" && e.M < 100 && w.hangs < 1 && (r.Intn(8) == 0 && with[[2]int{e.Run, e.Round}] > 2 || r.Intn(24) == 0) {
			s.small = true
		}
	}
	if s.small {
		if r.Intn(4) > 0 { // one after the other
			s.conc = 1
		}
		w.hangs++
		s.stats["rsync timeouts"]++
	}
	for _, x := range b.Results {
		if x.Forced && b.Cfg.Server && has("poll") {
			s.refresh = forcedWindow
		}
	}
	w.mu.Lock()
	w.cur = s
	w.mu.Unlock()
	defer func() {
		w.mu.Lock()
		w.cur = nil
		w.mu.Unlock()
		for _, f := range s.findings {
			atomic.AddInt32(&failed, 1)
			emit(f)
		}
	}()
	runs := 1
	for _, x := range b.Results {
		if x.Run > runs {
			runs = x.Run
		}
	}
	for _, e := range b.Log {
		if e.Run > runs {
			runs = e.Run
		}
	}
	for s.run = 1; s.run <= runs; s.run++ {
		s.queue = map[string][]logEntry{}
		s.killing = false
		for _, e := range b.Log {
			if e.Run == s.run {
				k := key(e.Kind, e.M)
				s.queue[k] = append(s.queue[k], e)
				if e.Out == "kill" {
					s.killing = true
				}
			}
		}
		os.Remove(s.output())
		s.start(b.Cfg.Server, b.Cfg.Maxit)
		var poll chan struct{}
		if b.Cfg.Server && has("poll") {
			poll = s.poll()
		}
		limit := deadline
		idle := s.goesOn() && s.nothingToDo()
		if idle {
			limit = time.Second
		}
		self, intime := s.wait(limit)
		if poll != nil {
			<-poll
		}
		if len(s.findings) > 0 {
			return s.stats
		}
		if !intime {
			if idle && !self {
				// no attempt ever shows that another round began
				s.stats["idle servers"]++
				s.idle = true
				continue
			}
			props := []string{"O02", "V08", "S04"}
			if s.ct {
				props = append(props, "T01")
			}
			s.fail("the process hangs", "hang", props...)
			return s.stats
		}
		if s.killing {
			s.stats["kills"]++
			s.killed = true
			if self {
				// it had ended before: fine if the kill came late
				if s.left() > 0 {
					s.fail(fmt.Sprint("the process ended: ", s.exitErr), "ended", "O02", "V08")
					return s.stats
				}
			}
			s.checkState(nil)
			if b.Topo != "thief" {
				s.recovery(false)
			}
			return s.stats
		}
		if s.goesOn() {
			if self {
				s.fail(fmt.Sprint("the process ended: ", s.exitErr), "ended early", "O02", "V08")
			}
		} else {
			s.checkOneoff()
		}
		if len(s.findings) > 0 {
			return s.stats
		}
	}
	s.run = runs
	if !s.idle {
		s.checkState(b.File)
	}
	s.stats["rounds"] += len(b.Results)
	s.stats["attempts"] += len(b.Log)
	s.stats["served checks"] += s.checks
	if len(s.findings) == 0 && r.Intn(3) == 0 && !s.small && b.Topo != "thief" {
		s.recovery(true)
	}
	return s.stats
}

// the recorded state: exactly want, if given, and never more than what is in the cache
func (s *scen) checkState(want []pubState) {
	if !s.b.Cfg.Rrdp {
		return
	}
	raw, err := ioutil.ReadFile(s.stateFile())
	var m map[string]struct {
		Rsync, Path, Sessionid string
		Serial                 int
	}
	if err == nil {
		err = json.Unmarshal(raw, &m)
	}
	if err != nil {
		if want != nil && len(s.b.Results) > 0 {
			s.fail(fmt.Sprint("state file: ", err, " ", string(raw)), "state file", "S01", "S06")
		}
		return
	}
	for i := range s.parent {
		n := i + 1
		got := m[moduleOf(n)]
		if want != nil {
			if want[i].Ver == 0 && got.Serial != 0 {
				s.fail(fmt.Sprintf("progress recorded for module %d without success: %v", n, got), "state extra", "S01", "S06")
			}
			if want[i].Ver != 0 && (got.Serial != want[i].Ver || got.Sessionid != sessionName(n, want[i].Sess)) {
				s.fail(fmt.Sprintf("recorded for module %d: %v, the last success was %v", n, got, want[i]), "state differs", "S01", "S06")
			}
		}
		if got.Serial == 0 {
			continue
		}
		// the content of that serial, or newer, is in the cache
		half := 0
		ok := false
		what := ""
		for v := got.Serial; v <= 3 && !ok; v++ {
			all := true
			for _, o := range s.at(n, got.Serial).files {
				d, _ := ioutil.ReadFile(filepath.Join(s.cacheDir(), strings.TrimPrefix(o.uri, "rsync://")))
				found := false
				for v2 := got.Serial; v2 <= 3; v2++ {
					for _, o2 := range s.at(n, v2).files {
						if o2.uri == o.uri && bytes.Equal(o2.data, d) {
							found = true
						}
					}
				}
				if !found && len(d) == 0 { // withdrawn, by a newer version
					gone := false
					for v2 := got.Serial + 1; v2 <= 3; v2++ {
						has := false
						for _, o2 := range s.at(n, v2).files {
							has = has || o2.uri == o.uri
						}
						gone = gone || !has
					}
					found = gone && s.pub[n].Ver > got.Serial
				}
				if !found && half < s.stats["kills"] { // the one that was being written
					for v2 := got.Serial; v2 <= 3; v2++ {
						for _, o2 := range s.at(n, v2).files {
							if o2.uri == o.uri && bytes.HasPrefix(o2.data, d) && (v2 > got.Serial || got.Sessionid != sessionName(n, s.pub[n].Sess)) {
								found = true
							}
						}
					}
					if found {
						half++
					}
				}
				if !found {
					what = fmt.Sprintf("%s: %d bytes %.16x, published %v, half %d", o.uri, len(d), sha256.Sum256(d), s.pub[n], half)
				}
				all = all && found
			}
			ok = all
		}
		if !ok {
			s.fail(fmt.Sprintf("the state file claims serial %d of module %d, whose content is not in the cache: %s", got.Serial, n, what), "state ahead", "S06", "S01")
		}
	}
}

// damages the state file as a crash could
func (s *scen) damage() string {
	raw, err := ioutil.ReadFile(s.stateFile())
	switch s.intn(8) {
	case 0:
		if err == nil && len(raw) > 0 {
			n := s.intn(len(raw))
			ioutil.WriteFile(s.stateFile(), raw[:n], 0600)
			return fmt.Sprintf("cut at %d", n)
		}
	case 1:
		os.Remove(s.stateFile())
		return "removed"
	case 2:
		x := []string{"null", "[]", "{}", "\x00\x00\x00\x00", "garbage", `{"` + moduleOf(1) + `": 5}`, `{"` + moduleOf(1) + `": {"serial": "x"}}`, "", `{"a":{"rsync":"a","path":"","sessionid":"","serial":-5}}`,
			`{"` + moduleOf(1) + `": {"serial": 99999999999999999999999}}`}[s.intn(10)]
		ioutil.WriteFile(s.stateFile(), []byte(x), 0600)
		return "replaced by " + x
	}
	return ""
}

// runs once more with publishers that do not fail, and compares with what a fresh run gives
func (s *scen) recovery(clean bool) {
	dam := ""
	if !clean || s.intn(2) == 0 {
		dam = s.damage()
	}
	// an object that was being written
	if !clean && s.b.Cfg.Rrdp && s.intn(3) == 0 {
		var m map[string]struct{ Serial int }
		raw, _ := ioutil.ReadFile(s.stateFile())
		json.Unmarshal(raw, &m)
		n := 1 + s.intn(len(s.parent))
		if m[moduleOf(n)].Serial < s.pub[n].Ver || s.b.Ann != nil && !s.ann[n-1] {
			fs := s.at(n, s.pub[n].Ver).files
			o := fs[s.intn(len(fs))]
			p := filepath.Join(s.cacheDir(), strings.TrimPrefix(o.uri, "rsync://"))
			if os.MkdirAll(filepath.Dir(p), 0755) == nil {
				ioutil.WriteFile(p, o.data[:s.intn(len(o.data))], 0600)
				dam += " half object"
			}
		}
	}
	s.run++
	s.recover = true
	s.queue = map[string][]logEntry{}
	s.killing = false
	s.small = false
	os.Remove(s.output())
	s.stats["recoveries"]++
	w := s.b.Cfg.Wait
	s.b.Cfg.Wait = true
	s.start(false, 32)
	s.b.Cfg.Wait = w
	self, intime := s.wait(deadline)
	if len(s.findings) > 0 {
		return
	}
	if !intime || !self || s.exitErr != nil {
		s.fail(fmt.Sprintf("after a restart (%s) the process does not finish: %v", dam, s.exitErr), "recovery ends", "S06", "O02", "V08")
		return
	}
	var list [][2]int
	for _, m := range s.b.Final {
		list = append(list, [2]int{m, s.pub[m].Ver})
	}
	raw, err := ioutil.ReadFile(s.output())
	if err != nil {
		s.fail("after a restart ("+dam+") there is no output", "recovery output", "S06", "O02")
		return
	}
	if msg := s.compareList(raw, list, nil, time.Time{}, time.Now()); msg != "" {
		s.fail("after a restart ("+dam+") the output differs from that of a fresh run: "+msg, "recovery list", "S06", "S02")
	}
	// everything was synchronised, over RRDP where that is announced, and is recorded
	if s.b.Cfg.Rrdp {
		var got map[string]struct {
			Sessionid string
			Serial    int
		}
		raw, _ := ioutil.ReadFile(s.stateFile())
		json.Unmarshal(raw, &got)
		for m := range s.parent {
			p := s.pub[m+1]
			if g := got[moduleOf(m+1)]; s.ann[m] && contains(s.b.Final, m+1) && (g.Serial != p.Ver || g.Sessionid != sessionName(m+1, p.Sess)) {
				s.fail(fmt.Sprintf("after a restart (%s) and a faultless run, (%q, %d) is recorded for repository %d, not (%q, %d)", dam, g.Sessionid, g.Serial, m+1, sessionName(m+1, p.Sess), p.Ver),
					"recovery state", "S06", "S01")
			}
		}
	}
	s.checkState(nil)
}

func contains(a []int, x int) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}

func (s *scen) checkOneoff() {
	if s.exitErr != nil {
		s.fail(fmt.Sprint("the one-off run fails: ", s.exitErr), "oneoff exit", "O02", "V08")
		return
	}
	s.mu.Lock()
	for k, q := range s.queue {
		if len(q) > 0 {
			s.failLocked(fmt.Sprintf("the run ended, but %s at %s was due in round %d", q[0].Kind, k, q[0].Round), "missing "+q[0].Kind, propsOf(k)...)
			break
		}
	}
	s.mu.Unlock()
	if len(s.findings) > 0 {
		return
	}
	var res *roundResult
	for i, x := range s.b.Results {
		if x.Run == s.run && (x.Health || !s.b.Cfg.Wait) {
			res = &s.b.Results[i]
		}
	}
	raw, err := ioutil.ReadFile(s.output())
	if res == nil {
		if err == nil {
			s.fail("output written although no stable state was reached", "output early", "O02", "O01")
		}
		return
	}
	if err != nil {
		s.fail("no output was written", "output missing", "O02", "O03")
		return
	}
	if msg := s.compareList(raw, res.List, res.Maybe, s.arrivals[res.Round], time.Now()); msg != "" {
		s.fail("output: "+msg, "output "+strings.Split(msg, ":")[0], propsOfList(msg)...)
	}
}
