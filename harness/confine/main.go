// Replays behaviours of spec/Confine.tla on the octorpki process: CAs whose
// repositories name files and directories they must not reach. The daemon
// runs as an unprivileged user on a cache deep inside a scratch directory;
// afterwards everything around and in the cache is compared with what the
// specification allows.
package main

import (
	"bufio"
	"bytes"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/cloudflare/cfrpki/vh/gen"
	"github.com/cloudflare/cfrpki/vh/rpki"
)

type uriT struct {
	Host string
	Path []string
	Last string
}

type link struct {
	At, To []string
	Abs    bool
}

type behaviour struct {
	Kind, Where, Op, Class, Offer string
	URI                           uriT `json:"uri"`
	Loc                           []string
	Links                         []link
}

// a behaviour of a run, with the names it got there
type item struct {
	b    behaviour
	i    int
	host string // the own host
	uri  string
	repo string
}

var (
	octo    = flag.String("octo", "", "")
	workDir = flag.String("dir", "", "")
	keyFile = flag.String("keys", "", "")
	seed    = flag.Int64("seed", 1, "")
	workers = flag.Int("workers", 8, "")
	per     = flag.Int("per", 60, "behaviours in a run")
	uid     = flag.Int("uid", 0, "user of the daemon")
	budget  = flag.Duration("budget", time.Hour, "")

	keys   []*rpki.Key
	ee     *rpki.Key
	failed int32
	outMu  sync.Mutex
)

func emit(v interface{}) {
	b, _ := json.Marshal(v)
	outMu.Lock()
	os.Stdout.Write(append(b, '\n'))
	outMu.Unlock()
}

type run struct {
	dir, tree, cache, src string
	n                     int
	items                 []*item
	byHost                map[string]*item
	base                  string
	served                map[string]string // of the publishers, now
	phase                 int
	mu                    sync.Mutex
	taData                []byte
	sentinels             map[string]string
}

func main() {
	if filepath.Base(os.Args[0]) == "rsync" {
		os.Exit(rsyncMain())
	}
	flag.Parse()
	var err error
	if keys, err = rpki.LoadKeys(*keyFile); err != nil {
		panic(err)
	}
	ee = keys[0]
	var kg sync.WaitGroup
	for len(keys) < 2**per+20 {
		keys = append(keys, nil)
	}
	for w := 0; w < 8; w++ {
		kg.Add(1)
		go func(w int) {
			defer kg.Done()
			for i := w; i < len(keys); i += 8 {
				if keys[i] == nil {
					p, err := rsa.GenerateKey(crand.Reader, 1024)
					if err != nil {
						panic(err)
					}
					keys[i] = rpki.NewKey(p)
				}
			}
		}(w)
	}
	kg.Wait()
	self, _ := os.Executable()
	os.Symlink(self, filepath.Join(*workDir, "rsync"))
	var all []behaviour
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		var b behaviour
		if err := json.Unmarshal(sc.Bytes(), &b); err != nil {
			panic(err)
		}
		all = append(all, b)
	}
	rand.New(rand.NewSource(*seed)).Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	start := time.Now()
	ch := make(chan int)
	var wg sync.WaitGroup
	var done, runs int32
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for n := range ch {
				end := (n + 1) * *per
				if end > len(all) {
					end = len(all)
				}
				bs := all[n**per : end]
				r := &run{n: n, dir: filepath.Join(*workDir, fmt.Sprintf("run%d", n))}
				r.play(bs)
				os.RemoveAll(r.dir)
				atomic.AddInt32(&done, int32(len(bs)))
				atomic.AddInt32(&runs, 1)
			}
		}(w)
	}
	for n := 0; n**per < len(all); n++ {
		if time.Since(start) > *budget || atomic.LoadInt32(&failed) > 10 {
			break
		}
		ch <- n
	}
	close(ch)
	wg.Wait()
	emit(map[string]interface{}{"replayed": done, "runs": runs, "of": len(all)})
}

func (r *run) bad(it *item, kind, what string) {
	atomic.AddInt32(&failed, 1)
	var c interface{} = fmt.Sprintf("run %d", r.n)
	if it != nil {
		c = map[string]interface{}{"behaviour": it.b, "uri": it.uri, "repository": it.repo, "host": it.host}
	}
	emit(map[string]interface{}{"what": what, "kind": kind, "case": c})
}

const cacheAt = "r1/r2/r3/r4/r5/r6/cache"
const good = "rsync://victim.example"

func (r *run) hostOf(it *item, h string) string {
	switch h {
	case "own":
		return it.host
	case "ownx": // may be the host of another CA
		return it.host + "1"
	case "own:80":
		return it.host + ":80"
	case "OWN":
		return strings.ToUpper(it.host)
	case "victim":
		return "victim.example"
	}
	return h
}

func tok(it *item) string { return fmt.Sprintf("tok-%d-\n", it.i) }

func (r *run) write(p, data string) {
	os.MkdirAll(filepath.Dir(p), 0755)
	if err := ioutil.WriteFile(p, []byte(data), 0644); err != nil {
		panic(err)
	}
}

func (r *run) play(bs []behaviour) {
	r.tree, r.src = filepath.Join(r.dir, "tree"), filepath.Join(r.dir, "src")
	r.cache = filepath.Join(r.tree, cacheAt)
	os.MkdirAll(r.cache, 0755)
	r.byHost, r.served, r.sentinels = map[string]*item{}, map[string]string{}, map[string]string{}
	// files nobody may touch, where climbing paths lead
	for _, d := range []string{"", "r1", "r1/r2", "r1/r2/r3", "r1/r2/r3/r4", "r1/r2/r3/r4/r5", "r1/r2/r3/r4/r5/r6", "r1/r2/out", cacheAt + "/victim.example", cacheAt + "/victim.example/m"} {
		for _, f := range []string{"f", "a/f", "a/a/f"} {
			p := filepath.Join(d, f)
			r.sentinels[p] = "sentinel " + p
			r.write(filepath.Join(r.tree, p), r.sentinels[p])
		}
	}

	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	r.base = "http://" + l.Addr().String()
	srv := &http.Server{Handler: http.HandlerFunc(r.serve)}
	srv.SetKeepAlivesEnabled(false)
	go srv.Serve(l)
	defer srv.Close()

	now := time.Now()
	mk := func(name, dir, rrdp string, serial int, parent *gen.CA) *gen.CA {
		c := &gen.CA{Name: name, Dir: dir, Rrdp: rrdp, Key: keys[serial], EE: ee, Serial: int64(serial), Shallow: true,
			NB: now.Add(-24 * time.Hour).Truncate(time.Second), NA: now.Add(24 * time.Hour).Truncate(time.Second), Parent: parent}
		c.Res = rpki.Resources{V4: []rpki.IPRes{rpki.P("10.0.0.0/8")}, AS: []rpki.ASRes{{Min: 64500, Max: 65000}}}
		if parent != nil {
			parent.Children = append(parent.Children, c)
		}
		return c
	}
	ta := mk("ta", "rsync://ta.example/repo/", r.base+"/ta/notification.xml", 1, nil)
	ta.CertURI = "rsync://ta.example/ta/root.cer"
	ta.Add("good.roa", 900, 64501, "10.1.0.0/16", 24)
	serial := 10
	child := func(dir, rrdp string) {
		serial++
		mk(fmt.Sprintf("c%d", serial), dir, rrdp, serial, ta)
	}
	for i, b := range bs {
		it := &item{b: b, i: i, host: fmt.Sprintf("h%d", i+1)}
		r.items = append(r.items, it)
		r.byHost[it.host] = it
		parts := append([]string{r.hostOf(it, b.URI.Host)}, b.URI.Path...)
		it.uri = "rsync://" + strings.Join(append(parts, b.URI.Last), "/")
		switch b.Kind {
		case "rrdp":
			it.repo = fmt.Sprintf("rsync://%s/m/", it.host)
			child(it.repo, fmt.Sprintf("%s/%d/notification.xml", r.base, i))
		case "sia":
			it.repo = it.uri
			child(it.repo, "")
		case "links":
			it.repo = fmt.Sprintf("rsync://%s/b/", it.host)
			child(fmt.Sprintf("rsync://%s/l/", it.host), "")
			child(it.repo, fmt.Sprintf("%s/%d/notification.xml", r.base, i))
			r.offer(it)
		}
	}
	files := map[string][]byte{}
	ta.Files(files)
	r.taData = files[ta.CertURI]
	r.rrdpDocs("ta", "00000000-af9e-4dca-bdda-719cce2c4e28", 1, func(b *bytes.Buffer) {
		for u, d := range files {
			if u != ta.CertURI {
				publish(b, u, d)
			}
		}
	}, nil)
	for _, it := range r.items {
		r.docs(it, 1)
	}
	r.write(filepath.Join(r.dir, "ta.tal"), string(ta.TAL(r.base+"/root.cer", ta.CertURI)))
	filepath.Walk(r.dir, func(p string, _ os.FileInfo, _ error) error { os.Lchown(p, *uid, *uid); return nil })

	for ph := 1; ph <= 2; ph++ {
		r.mu.Lock()
		r.phase = ph
		r.mu.Unlock()
		if ph == 2 {
			for _, it := range r.items {
				r.docs(it, 2)
			}
		}
		if !r.daemon(ph) {
			return
		}
		r.compare(ph)
		r.state(ph)
	}
}

// the tree rsync finds in module l
func (r *run) offer(it *item) {
	m := filepath.Join(r.src, it.host, "l")
	os.MkdirAll(filepath.Join(m, "a", "a"), 0755)
	r.write(filepath.Join(m, "x.cer"), tok(it))
	for _, l := range it.b.Links {
		to := filepath.Join(l.To...)
		if l.Abs {
			to = filepath.Join(append([]string{r.tree}, l.To...)...)
		} else {
			to = strings.Join(l.To, "/")
		}
		at := filepath.Join(append([]string{m}, l.At...)...)
		os.MkdirAll(filepath.Dir(at), 0755)
		if err := os.Symlink(to, at); err != nil {
			panic(err)
		}
	}
}

func publish(b *bytes.Buffer, uri string, data []byte) {
	fmt.Fprintf(b, "<publish uri=%q>%s</publish>\n", strings.Replace(uri, "\\", "&#92;", -1), base64.StdEncoding.EncodeToString(data))
}

const attrs = `xmlns="http://www.ripe.net/rpki/rrdp" version="1"`

func hexsum(s string) string { h := sha256.Sum256([]byte(s)); return hex.EncodeToString(h[:]) }

func (r *run) rrdpDocs(name, sess string, serial int, snap, delta func(*bytes.Buffer)) {
	var s, d, n bytes.Buffer
	fmt.Fprintf(&s, "<snapshot %s session_id=%q serial=\"%d\">\n", attrs, sess, serial)
	snap(&s)
	s.WriteString("</snapshot>")
	fmt.Fprintf(&n, "<notification %s session_id=%q serial=\"%d\">\n<snapshot uri=\"%s/%s/snapshot.xml\" hash=%q/>\n", attrs, sess, serial, r.base, name, hexsum(s.String()))
	r.mu.Lock()
	defer r.mu.Unlock()
	if delta != nil {
		fmt.Fprintf(&d, "<delta %s session_id=%q serial=\"%d\">\n", attrs, sess, serial)
		delta(&d)
		d.WriteString("</delta>")
		fmt.Fprintf(&n, "<delta serial=\"%d\" uri=\"%s/%s/delta.xml\" hash=%q/>\n", serial, r.base, name, hexsum(d.String()))
		fmt.Fprintf(&n, "<delta serial=\"%d\" uri=\"%s/%s/delta1.xml\" hash=%q/>\n", serial-1, r.base, name, hexsum("x"))
		r.served["/"+name+"/delta.xml"] = d.String()
	}
	n.WriteString("</notification>")
	r.served["/"+name+"/snapshot.xml"] = s.String()
	r.served["/"+name+"/notification.xml"] = n.String()
}

// the documents of a CA: good objects around the one of the behaviour
func (r *run) docs(it *item, ph int) {
	if it.b.Kind == "sia" {
		return
	}
	g := func(n int) string { return fmt.Sprintf("%sgood%d", it.repo, n) }
	mine := func(b *bytes.Buffer) {
		if it.b.Op == "withdraw" {
			fmt.Fprintf(b, "<withdraw uri=%q hash=%q/>\n", strings.Replace(it.uri, "\\", "&#92;", -1), hexsum("x"))
		} else {
			publish(b, it.uri, []byte(tok(it)))
		}
	}
	sess := fmt.Sprintf("%08x-af9e-4dca-bdda-719cce2c4e28", it.i+1)
	snap := func(b *bytes.Buffer) {
		publish(b, g(1), []byte(tok(it)))
		if it.b.Where == "snapshot" {
			mine(b)
		}
		publish(b, g(2), []byte(tok(it)))
	}
	if ph == 1 {
		r.rrdpDocs(fmt.Sprint(it.i), sess, 1, snap, nil)
		return
	}
	r.rrdpDocs(fmt.Sprint(it.i), sess, 2, snap, func(b *bytes.Buffer) {
		publish(b, g(3), []byte(tok(it)))
		if it.b.Where == "delta" {
			mine(b)
		}
		publish(b, g(4), []byte(tok(it)))
	})
}

func (r *run) serve(w http.ResponseWriter, q *http.Request) {
	r.mu.Lock()
	d, ok := r.served[q.URL.Path]
	r.mu.Unlock()
	switch {
	case q.URL.Path == "/root.cer":
		w.Write(r.taData)
	case ok:
		w.Write([]byte(d))
	default:
		w.WriteHeader(404)
	}
}

func (r *run) daemon(ph int) bool {
	out := filepath.Join(r.dir, fmt.Sprintf("out%d.json", ph))
	c := exec.Command(*octo, "-mode", "oneoff", "-tal.root", filepath.Join(r.dir, "ta.tal"), "-tal.name", "TA", "-cache", r.cache, "-rrdp.file", filepath.Join(r.dir, "rrdp.json"),
		"-output.roa", out, "-output.sign=false", "-rsync.bin", filepath.Join(*workDir, "rsync"))
	c.Dir = r.dir
	c.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + r.dir, "TMPDIR=" + r.dir, "VERIF_SRC=" + r.src, "VERIF_LOG=" + filepath.Join(r.dir, "rsync.log"), "GOMAXPROCS=2", "VERIF_TREE=" + r.tree}
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if *uid != 0 {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(*uid), Gid: uint32(*uid), NoSetGroups: os.Getuid() != 0}
	}
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	if err := c.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(90*time.Second, func() { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
	err := c.Wait()
	if os.Getenv("VDEBUG") != "" {
		os.Stderr.Write(buf.Bytes())
	}
	if !t.Stop() {
		r.bad(nil, "hang", "the daemon does not finish")
		return false
	}
	if err != nil {
		s := buf.String()
		if i := strings.Index(s, "panic"); i >= 0 {
			s = s[i:]
		}
		if len(s) > 600 {
			s = s[:600]
		}
		r.bad(nil, "crash", fmt.Sprintf("the daemon died: %v %s", err, s))
		return false
	}
	d, err := ioutil.ReadFile(out)
	if err != nil || !bytes.Contains(d, []byte("10.1.0.0/16")) {
		r.bad(nil, "output", fmt.Sprintf("the output lacks the VRP of the trust anchor: %v", err))
	}
	return true
}

// what the cache and its surroundings may contain
func (r *run) compare(ph int) {
	content := map[string]string{}
	filepath.Walk(r.tree, func(p string, st os.FileInfo, err error) error {
		if err != nil || p == r.tree {
			return nil
		}
		rel := strings.TrimPrefix(p, r.tree+"/")
		kind := "dir"
		if st.Mode()&os.ModeSymlink != 0 {
			kind = "link"
			to, _ := os.Readlink(p)
			content[rel] = "link " + to
		} else if !st.IsDir() {
			kind = "file"
			d, _ := ioutil.ReadFile(p)
			content[rel] = string(d)
		}
		if s, ok := r.sentinels[rel]; ok {
			if kind != "file" || content[rel] != s {
				r.bad(r.find(rel, content[rel]), "overwritten", fmt.Sprintf("%s, which belongs to nobody here, was changed to %.40q", rel, content[rel]))
			}
			return nil
		}
		for s := range r.sentinels {
			if kind == "dir" && strings.HasPrefix(s, rel+"/") {
				return nil
			}
		}
		if rel == cacheAt || strings.HasPrefix(cacheAt, rel+"/") {
			return nil
		}
		if !strings.HasPrefix(rel, cacheAt+"/") {
			r.bad(r.find(rel, content[rel]), "outside", fmt.Sprintf("%s %q was created outside the cache (%q)", kind, rel, cacheAt))
			return nil
		}
		in := strings.TrimPrefix(rel, cacheAt+"/")
		host := in
		if i := strings.Index(in, "/"); i >= 0 {
			host = in[:i]
		}
		if host == "ta.example" {
			return nil
		}
		it := r.byHost[strings.TrimSuffix(host, ":80")]
		if it == nil || host != it.host && it.b.Kind != "sia" {
			r.bad(r.find(rel, content[rel]), "foreign", fmt.Sprintf("%s %q was created below the cache, where no repository is", kind, in))
			return nil
		}
		if kind == "file" {
			if o := r.find(rel, content[rel]); o != nil && o != it {
				r.bad(o, "foreign", fmt.Sprintf("a file of the publisher at %s was stored at %q", o.host, in))
			} else if content[rel] == "" && !(it.b.Op == "withdraw" && (it.b.Class == "stored" || it.b.Class == "either")) {
				r.bad(it, "foreign", fmt.Sprintf("%q was truncated, which its publisher did not ask for", in))
			}
		}
		return nil
	})
	for s := range r.sentinels {
		if _, ok := content[s]; !ok {
			r.bad(nil, "removed", s+" is gone")
		}
	}
	// what has to be stored
	for _, it := range r.items {
		if it.b.Kind == "sia" {
			continue
		}
		want := func(p, data, what string) {
			got, ok := content[p]
			if !ok || strings.HasPrefix(data, "tok") && got != data || data == "" && got != "" {
				r.bad(it, "missing", fmt.Sprintf("%s is not stored at %q (%q)", what, p, got))
			}
		}
		repo := cacheAt + strings.TrimPrefix(it.repo, "rsync:/")
		applies := it.b.Where == "snapshot" || ph == 2
		if it.b.Class == "ignored" || it.b.Class == "stored" || !applies {
			for n := 1; n <= 2*ph; n++ {
				if it.b.Where == "snapshot" && n > 4 || it.b.Kind == "links" && it.b.Offer != "none" && it.b.Offer != "in" && n > 3 {
					continue
				}
				want(fmt.Sprintf("%sgood%d", repo, n), tok(it), "a good object next to "+it.uri)
			}
		}
		if it.b.Class == "stored" && applies && (it.b.Kind != "links" || it.b.Offer == "none") {
			loc := strings.Join(it.b.Loc, "/")
			loc = cacheAt + "/" + it.host + strings.TrimPrefix(loc, cacheAt+"/own")
			if it.b.Op == "withdraw" {
				if got := content[loc]; got != "" {
					r.bad(it, "kept", fmt.Sprintf("the withdrawn %q still has %.30q", loc, got))
				}
			} else {
				want(loc, tok(it), "the object at "+it.uri)
			}
		}
	}
}

// whose content is it?
func (r *run) find(p, data string) *item {
	for _, pre := range []string{"tok-", "got-"} {
		if i := strings.Index(data, pre); i >= 0 {
			f := strings.SplitN(data[i+4:], "-", 2)
			if n, err := strconv.Atoi(f[0]); err == nil && n < len(r.items) {
				return r.items[n]
			}
		}
	}
	return nil
}

// the recorded RRDP state: a foreign URI does not fail the synchronisation
func (r *run) state(ph int) {
	d, err := ioutil.ReadFile(filepath.Join(r.dir, "rrdp.json"))
	if err != nil {
		r.bad(nil, "state", fmt.Sprint(err))
		return
	}
	for _, it := range r.items {
		if it.b.Kind != "rrdp" || it.b.Class == "either" {
			continue
		}
		if !bytes.Contains(d, []byte(fmt.Sprintf("%08x-af9e-4dca-bdda-719cce2c4e28", it.i+1))) {
			r.bad(it, "failed", fmt.Sprintf("the synchronisation of %s failed for %s", it.repo, it.uri))
		}
	}
	// where rsync was sent to
	log, _ := ioutil.ReadFile(filepath.Join(r.dir, "rsync.log"))
	for _, l := range strings.Split(string(log), "\n") {
		f := strings.Split(l, "\t")
		if len(f) != 2 {
			continue
		}
		u := strings.TrimPrefix(f[0], "rsync://")
		host := strings.Split(u, "/")[0]
		if p := filepath.Clean(f[1]); !strings.HasPrefix(p, filepath.Join(r.cache, "x")[:len(r.cache)+1]+host+"/") {
			r.bad(r.byHost[strings.TrimSuffix(host, ":80")], "rsync", fmt.Sprintf("rsync was told to copy %s into %s", f[0], strings.TrimPrefix(p, r.tree+"/")))
		}
	}
}

// rsync [flags] URI DIR: the real one, on a local copy of what the publisher offers
func rsyncMain() int {
	a := os.Args[1:]
	if len(a) < 2 {
		return 1
	}
	uri, dir := a[len(a)-2], a[len(a)-1]
	f, err := os.OpenFile(os.Getenv("VERIF_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err == nil {
		fmt.Fprintf(f, "%s\t%s\n", uri, dir)
		f.Close()
	}
	src := filepath.Join(os.Getenv("VERIF_SRC"), strings.TrimPrefix(uri, "rsync://"))
	if st, err := os.Stat(src); err == nil && st.IsDir() && strings.HasPrefix(src, os.Getenv("VERIF_SRC")+"/") {
		argv := append([]string{"rsync"}, a[:len(a)-2]...)
		argv = append(argv, strings.TrimSuffix(src, "/")+"/", dir)
		syscall.Exec("/usr/bin/rsync", argv, os.Environ())
		return 1
	}
	host := strings.Split(strings.TrimPrefix(uri, "rsync://"), "/")[0]
	n, _ := strconv.Atoi(strings.TrimPrefix(strings.TrimSuffix(host, ":80"), "h"))
	if n > 0 && strings.HasPrefix(filepath.Clean(dir), os.Getenv("VERIF_TREE")+"/") {
		ioutil.WriteFile(filepath.Join(dir, "got"), []byte(fmt.Sprintf("got-%d-", n-1)), 0644)
	}
	return 0
}
