// Replays the synchronisation attempts of spec/Rrdp.tla on syncpki.RRDPSystem.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"
)

type attempt struct {
	Sess, Serial, Csess, Cserial int64
	Listed                       []int64
	Store, Snap, Final, Must     map[string]int
	Deltas                       json.RawMessage
	Fault                        []json.RawMessage
	Docs                         []int64
	Ok, Alt                      bool
	Gone                         []string
}

func content(u string, v int) []byte {
	switch v {
	case 0, -1:
		return nil
	}
	r := rand.New(rand.NewSource(int64(v)*1000 + int64(u[0])))
	n := []int{1, 2, 3, 57, 64, 1000, 5000}[r.Intn(7)]
	b := make([]byte, n)
	r.Read(b)
	return append([]byte(fmt.Sprintf("%s%d|", u, v)), b...)
}

func b64(r *rand.Rand, b []byte) string {
	s := base64.StdEncoding.EncodeToString(b)
	switch r.Intn(5) {
	case 0:
		return s
	case 1:
		return "\n" + s + "\n"
	}
	w := []int{1 + r.Intn(9), 64, 76}[r.Intn(3)]
	nl := []string{"\n", "\r\n", " ", "\n      "}[r.Intn(4)]
	var o strings.Builder
	o.WriteString(nl)
	for len(s) > w {
		o.WriteString(s[:w] + nl)
		s = s[w:]
	}
	o.WriteString(s + nl)
	return o.String()
}

const host = "rsync://repo.example.net/mod/"

type doc struct {
	kind string // notification, snapshot, delta
	text string
}

func attrs(sess string, serial int64) string {
	return fmt.Sprintf(`xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="%s" serial="%d"`, sess, serial)
}

func build(r *rand.Rand, kind, sess string, serial int64, m map[string]int, badURI string) string {
	var els []string
	for u, v := range m {
		uri := host + u + ".roa"
		switch {
		case v == -2, v == 0 && kind == "snapshot":
		case v == 0:
			hash := strings.Repeat("ab", 32)
			if r.Intn(2) == 0 {
				els = append(els, fmt.Sprintf(`<withdraw uri="%s" hash="%s"/>`, uri, hash))
			} else {
				els = append(els, fmt.Sprintf(`<withdraw hash="%s" uri="%s"></withdraw>`, hash, uri))
			}
		default:
			val := b64(r, content(u, v))
			if u == badURI {
				t := strings.TrimSpace(val)
				switch r.Intn(5) {
				case 0:
					val = t[:len(t)/2] + "*" + t[len(t)/2:]
				case 1:
					val = t + "===="
				case 2:
					val = "!" + t
				case 3:
					val = base64.StdEncoding.EncodeToString(content(u, v))
					val = strings.TrimRight(val, "=")
					val = val[:len(val)/4*4+1-4*b2i(len(val)%4 == 0)] // a single character in the last group
				default:
					val = t + "-_-_"
				}
			}
			h := ""
			if r.Intn(2) == 0 {
				h = ` hash="` + strings.Repeat("0f", 32) + `"`
			}
			els = append(els, fmt.Sprintf(`<publish uri="%s"%s>%s</publish>`, uri, h, val))
		}
	}
	sort.Strings(els)
	r.Shuffle(len(els), func(i, j int) { els[i], els[j] = els[j], els[i] })
	sep := []string{"", "\n", "\n  ", "<!-- c -->"}[r.Intn(4)]
	return prolog(r) + "<" + kind + " " + attrs(sess, serial) + ">" + sep + strings.Join(els, sep) + sep + "</" + kind + ">"
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func prolog(r *rand.Rand) string {
	return []string{"", `<?xml version="1.0" encoding="UTF-8"?>` + "\n", "<!-- comment -->", `<?xml version="1.0" encoding="us-ascii"?>` + "\n"}[r.Intn(3)]
}

// a document that is not a well-formed document of the kind
func malform(r *rand.Rand, kind, text string) (string, string) {
	other := map[string]string{"notification": "snapshot", "snapshot": "delta", "delta": "snapshot"}[kind]
	swap := func(o string) string {
		return strings.Replace(strings.Replace(text, "<"+kind+" ", "<"+o+" ", 1), "</"+kind+">", "</"+o+">", 1)
	}
	switch r.Intn(11) {
	case 0:
		return "", "empty"
	case 1:
		return "404 not found", "not XML"
	case 2:
		i := strings.Index(text, "<"+kind)
		return text[:i+1+r.Intn(len(text)-i-1)], "cut"
	case 3:
		return strings.TrimSuffix(text, "</"+kind+">"), "end tag missing"
	case 4:
		return swap(other), "kind " + other
	case 5:
		return swap("html"), "kind html"
	case 6:
		return text + text[strings.Index(text, "<"+kind):], "two roots"
	case 7:
		return strings.Replace(text, "</"+kind+">", "</oops></"+kind+">", 1), "end tag wrong"
	case 8:
		return text + "<", "garbage behind"
	case 9:
		return swap(map[string]string{"notification": "delta", "snapshot": "notification", "delta": "notification"}[kind]), "kind wrong"
	default:
		return "<html><body>" + text[strings.Index(text, "<"+kind):] + "</body></html>", "wrapped"
	}
}

type memFetcher struct {
	get func(url string) (string, error)
}

func (m *memFetcher) GetXML(u string) (string, error) { return m.get(u) }

type result struct {
	What string      `json:"what"`
	Prop []string    `json:"prop"`
	Kind string      `json:"kind"`
	Case interface{} `json:"case"`
}

var out = bufio.NewWriter(os.Stdout)

func emit(v interface{}) { b, _ := json.Marshal(v); out.Write(append(b, '\n')) }

// ---- loopback server: each attempt has its own path prefix
type server struct {
	mu    sync.Mutex
	docs  map[string]func(w http.ResponseWriter, r *http.Request)
	base  string
	empty string // nothing listens here
}

func newServer() *server {
	s := &server{docs: map[string]func(http.ResponseWriter, *http.Request){}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.base = "http://" + l.Addr().String()
	l2, _ := net.Listen("tcp", "127.0.0.1:0")
	s.empty = "http://" + l2.Addr().String()
	l2.Close()
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		f := s.docs[r.URL.Path]
		s.mu.Unlock()
		if f == nil {
			w.WriteHeader(404)
			return
		}
		f(w, r)
	}))
	return s
}

func hijack(w http.ResponseWriter, raw string) {
	c, _, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	c.Write([]byte(raw))
	c.Close()
}

// well-behaved answers in different forms
func good(r *rand.Rand, text string) (func(w http.ResponseWriter, q *http.Request), string) {
	switch r.Intn(4) {
	case 0:
		return func(w http.ResponseWriter, q *http.Request) { w.Write([]byte(text)) }, "plain"
	case 1:
		return func(w http.ResponseWriter, q *http.Request) {
			for i := 0; i < len(text); i += 200 {
				j := i + 200
				if j > len(text) {
					j = len(text)
				}
				w.Write([]byte(text[i:j]))
				w.(http.Flusher).Flush()
			}
		}, "chunked"
	case 2:
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		z.Write([]byte(text))
		z.Close()
		return func(w http.ResponseWriter, q *http.Request) {
			if !strings.Contains(q.Header.Get("Accept-Encoding"), "gzip") {
				w.Write([]byte(text))
				return
			}
			w.Header().Set("Content-Encoding", "gzip")
			w.Write(b.Bytes())
		}, "gzip"
	}
	return func(w http.ResponseWriter, q *http.Request) {
		if q.URL.RawQuery == "" {
			http.Redirect(w, q, q.URL.Path+"?x=1", 302)
			return
		}
		w.Write([]byte(text))
	}, "redirect"
}

func bad(r *rand.Rand, text string) (func(w http.ResponseWriter, q *http.Request), string) {
	status := []int{404, 500, 503, 403, 410, 204, 401, 429, 502}
	switch r.Intn(6) {
	case 0, 1:
		c := status[r.Intn(len(status))]
		return func(w http.ResponseWriter, q *http.Request) {
			w.WriteHeader(c)
			if c != 204 {
				w.Write([]byte(text)) // an error with a body that looks right
			}
		}, fmt.Sprint("status ", c)
	case 2:
		n := r.Intn(len(text))
		return func(w http.ResponseWriter, q *http.Request) {
			hijack(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(text), text[:n]))
		}, "short body"
	case 3:
		return func(w http.ResponseWriter, q *http.Request) {
			// the whole document, but the end of the answer is missing
			hijack(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", len(text), text))
		}, "unfinished chunks"
	case 4:
		return func(w http.ResponseWriter, q *http.Request) { hijack(w, "") }, "closed"
	}
	return func(w http.ResponseWriter, q *http.Request) {
		if q.URL.RawQuery == "" {
			http.Redirect(w, q, q.URL.Path+"?x=1", 302)
			return
		}
		w.WriteHeader(404)
	}, "redirect to 404"
}

func main() {
	f, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	every, _ := strconv.Atoi(os.Args[3]) // every n-th attempt also over HTTP
	srv := newServer()
	defer out.Flush()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	n, http_, faulted := 0, 0, 0
	kinds := map[string]int{}
	for sc.Scan() {
		var a attempt
		if err := json.Unmarshal(sc.Bytes(), &a); err != nil {
			panic(err)
		}
		r := rand.New(rand.NewSource(seed*1000003 + int64(n)))
		n++
		if run(&a, r, nil, n, kinds) {
			faulted++
		}
		if every > 0 && n%every == int(seed)%every {
			http_++
			run(&a, r, srv, n, kinds)
		}
	}
	emit(map[string]interface{}{"replayed": n + http_, "http": http_, "faulted": faulted, "kinds": kinds})
}

func run(a *attempt, r *rand.Rand, srv *server, n int, kinds map[string]int) bool {
	base := []int64{0, 0, 1, 7, 1000, 1<<31 - 2, 1 << 40}[r.Intn(7)]
	sname := func(i int64) string {
		if i == 0 {
			return ""
		}
		return []string{"9df4b597-af9e-4dca-bdda-719cce2c4e28", "9df4b597-af9e-4dca-bdda-719cce2c4e29", "8df4b597-af9e-4dca-bdda-719cce2c4e28"}[i-1]
	}
	cser := func(i int64) int64 {
		if i == 0 {
			return 0
		}
		return base + i
	}
	var ft, fu string
	var fk int
	json.Unmarshal(a.Fault[0], &ft)
	json.Unmarshal(a.Fault[1], &fk)
	json.Unmarshal(a.Fault[2], &fu)
	type delta struct {
		serial int64
		m      map[string]int
	}
	var deltas []delta
	addDelta := func(raw json.RawMessage) {
		var p []json.RawMessage
		if json.Unmarshal(raw, &p) != nil || len(p) != 2 {
			panic(string(raw))
		}
		d := delta{m: map[string]int{}}
		json.Unmarshal(p[0], &d.serial)
		if json.Unmarshal(p[1], &d.m) != nil {
			panic(string(raw))
		}
		deltas = append(deltas, d)
	}
	var asMap map[string]json.RawMessage
	var asList []json.RawMessage
	if json.Unmarshal(a.Deltas, &asMap) == nil {
		var ks []string
		for k := range asMap {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			addDelta(asMap[k])
		}
	} else if json.Unmarshal(a.Deltas, &asList) == nil {
		for _, x := range asList {
			addDelta(x)
		}
	}
	// a value fault needs a value
	if ft == "value" {
		m := a.Snap
		for _, d := range deltas {
			if a.Docs[fk-1] == d.serial {
				m = d.m
			}
		}
		if m[fu] <= 0 {
			return false
		}
	}
	fdoc := int64(-1)
	if fk > 0 {
		fdoc = a.Docs[fk-1]
	}
	root := "mem://x"
	if srv != nil {
		root = fmt.Sprintf("%s/%d", srv.base, n)
	}
	badOf := func(d int64) string {
		if ft == "value" && d == fdoc {
			return fu
		}
		return ""
	}
	texts := map[string]*doc{}
	texts[root+"/snapshot.xml"] = &doc{"snapshot", build(r, "snapshot", sname(a.Sess), base+a.Serial, a.Snap, badOf(0))}
	docURL := func(d int64) string {
		if d == 0 {
			return root + "/snapshot.xml"
		}
		return fmt.Sprintf("%s/delta-%d.xml", root, base+d)
	}
	isListed := map[int64]bool{}
	for _, s := range a.Listed {
		isListed[s] = true
	}
	var refs []string
	for _, d := range deltas {
		texts[docURL(d.serial)] = &doc{"delta", build(r, "delta", sname(a.Sess), base+d.serial, d.m, badOf(d.serial))}
		if isListed[d.serial] {
			refs = append(refs, fmt.Sprintf(`<delta serial="%d" uri="%s" hash="%s"/>`, base+d.serial, docURL(d.serial), strings.Repeat("cd", 32)))
		}
	}
	r.Shuffle(len(refs), func(i, j int) { refs[i], refs[j] = refs[j], refs[i] })
	refs = append([]string{fmt.Sprintf(`<snapshot uri="%s" hash="%s"/>`, docURL(0), strings.Repeat("ef", 32))}, refs...)
	if r.Intn(4) == 0 {
		refs = append(refs[1:], refs[0])
	}
	notif := root + "/notification.xml"
	texts[notif] = &doc{"notification", prolog(r) + "<notification " + attrs(sname(a.Sess), base+a.Serial) + ">\n" + strings.Join(refs, "\n") + "\n</notification>"}

	how := ""
	failing := map[string]bool{}
	switch ft {
	case "notif":
		if r.Intn(2) == 0 {
			failing[notif] = true
		} else if r.Intn(4) == 0 {
			texts[notif].text = strings.Replace(texts[notif].text, fmt.Sprintf(` serial="%d">`, base+a.Serial), ` serial="x">`, 1)
			how = "serial x"
		} else {
			texts[notif].text, how = malform(r, "notification", texts[notif].text)
		}
	case "fetch":
		failing[docURL(fdoc)] = true
	case "parse":
		d := texts[docURL(fdoc)]
		d.text, how = malform(r, d.kind, d.text)
	}

	var mu sync.Mutex
	var fetched []string
	see := func(u string) { mu.Lock(); fetched = append(fetched, u); mu.Unlock() }
	var fetcher syncpki.RRDPFetcher
	if srv == nil {
		fetcher = &memFetcher{func(u string) (string, error) {
			see(u)
			if failing[u] {
				how = "error"
				if d := texts[u]; r.Intn(2) == 0 {
					return d.text[:r.Intn(len(d.text)+1)], errors.New("injected")
				}
				return "", errors.New("injected")
			}
			d := texts[u]
			if d == nil {
				return "", errors.New("no such document")
			}
			return d.text, nil
		}}
	} else {
		h := syncpki.NewHTTPFetcher("verif")
		h.Client.Timeout = 20 * time.Second
		fetcher = h
		srv.mu.Lock()
		srv.docs = map[string]func(http.ResponseWriter, *http.Request){}
		for u, d := range texts {
			u := u
			f, _ := good(r, d.text)
			if failing[u] {
				f, how = bad(r, d.text)
			}
			srv.docs[strings.TrimPrefix(u, srv.base)] = func(w http.ResponseWriter, q *http.Request) {
				if q.URL.RawQuery == "" {
					see(u)
				}
				f(w, q)
			}
		}
		srv.mu.Unlock()
		if failing[docURL(0)] && r.Intn(6) == 0 { // refused
			texts[notif].text = strings.Replace(texts[notif].text, docURL(0), srv.empty+"/snapshot.xml", 1)
			t := texts[notif].text
			srv.mu.Lock()
			srv.docs[strings.TrimPrefix(notif, srv.base)] = func(w http.ResponseWriter, q *http.Request) { see(notif); w.Write([]byte(t)) }
			srv.mu.Unlock()
			how = "refused"
		}
	}
	if how != "" || ft != "none" {
		kinds[ft+" "+how]++
	}

	store := map[string][]byte{}
	empt := map[string]bool{}
	for u, v := range a.Store {
		if v > 0 {
			store[u] = content(u, v)
		} else if v == -1 {
			empt[u] = true
		}
	}
	injected := errors.New("cannot store")
	hitStore := false
	var strange string
	lastDelta := int64(-1 << 62)
	order := true
	cb := func(main, url, path string, data []byte, withdraw, snapshot bool, id int64, args ...interface{}) error {
		if main != notif || len(args) != 2 || args[0] != "A" || args[1] != 7 {
			strange = fmt.Sprint("callback ", main, args)
		}
		u := strings.TrimSuffix(strings.TrimPrefix(path, host), ".roa")
		if _, ok := a.Store[u]; !ok {
			strange = "path " + path
			return nil
		}
		if ft == "store" && u == fu && (fdoc == 0) == snapshot && (fdoc == 0 || id == base+fdoc) {
			hitStore = true
			return injected
		}
		if !snapshot {
			if id < lastDelta {
				order = false
			}
			lastDelta = id
		}
		if withdraw {
			delete(store, u)
			empt[u] = true
		} else {
			store[u] = append([]byte(nil), data...)
			delete(empt, u)
		}
		return nil
	}
	sys := &syncpki.RRDPSystem{Fetcher: fetcher, Callback: cb, Path: notif, SessionID: sname(a.Csess), Serial: cser(a.Cserial)}
	var ferr error
	crash := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				crash = fmt.Sprint(e)
			}
		}()
		ferr = sys.FetchRRDP("A", 7)
	}()
	how = ft + " " + how
	where := "memory"
	if srv != nil {
		where = "http"
	}
	say := func(what string, props ...string) {
		var m interface{}
		b, _ := json.Marshal(a)
		json.Unmarshal(b, &m)
		mu.Lock()
		ff := append([]string(nil), fetched...)
		mu.Unlock()
		emit(result{what, props, ft, map[string]interface{}{"how": how, "where": where, "attempt": m, "fetched": ff, "err": fmt.Sprint(ferr), "base": base, "session": sys.SessionID, "serial": sys.Serial}})
	}
	if crash != "" {
		say("crash: "+crash, "S01", "V08")
		return false
	}
	if strange != "" {
		say("unexpected callback: "+strange, "S02")
	}
	// which documents were asked for
	asked := map[string]bool{}
	mu.Lock()
	for _, u := range fetched {
		asked[u] = true
	}
	mu.Unlock()
	wantDocs := map[string]bool{notif: true}
	reached := len(a.Docs)
	if ft == "notif" {
		reached = 0
	}
	for i := 0; i < reached; i++ {
		wantDocs[docURL(a.Docs[i])] = true
	}
	within := true
	for u := range asked {
		if !wantDocs[u] {
			within = false
		}
	}
	if !within && a.Alt {
		// the client chose the snapshot (or the deltas), as it may; the behaviour with that choice is another one
		if ft == "none" {
			if ferr != nil {
				say("faultless attempt fails", "S01", "S02")
			}
			for u, v := range a.Must {
				if v > 0 && !bytes.Equal(store[u], content(u, v)) {
					say("published object not stored: "+u, "S02")
				}
			}
		}
		return false
	}
	if !within {
		say("documents fetched that the notification and the recorded state do not call for", "S02")
	}
	if ft == "none" {
		if ferr != nil {
			say("faultless attempt fails", "S01", "S02")
			return false
		}
		for u := range wantDocs {
			if !asked[u] {
				say("document not fetched: "+u, "S02")
			}
		}
		if sys.SessionID != sname(a.Sess) || sys.Serial != base+a.Serial {
			say("recorded session and serial are not those of the notification", "S01")
		}
		for u, v := range a.Final {
			if v > 0 && !bytes.Equal(store[u], content(u, v)) {
				say("stored content wrong: "+u, "S02")
			}
			if v == -1 && len(store[u]) != 0 {
				say("withdrawn object still stored: "+u, "S02")
			}
		}
		if !order {
			say("deltas applied out of order", "S02")
		}
		return true
	}
	// a fault: nothing may be recorded
	if ft == "store" && !hitStore {
		say("element never applied", "S01", "S02")
		return true
	}
	if ferr == nil {
		say("attempt succeeds despite "+how, "S01")
	}
	if sys.SessionID != sname(a.Csess) || sys.Serial != cser(a.Cserial) {
		say("progress recorded despite "+how, "S01")
	}
	for u, b := range store {
		ok := a.Store[u] > 0 && bytes.Equal(b, content(u, a.Store[u])) || bytes.Equal(b, content(u, a.Snap[u]))
		for _, d := range deltas {
			ok = ok || bytes.Equal(b, content(u, d.m[u]))
		}
		if !ok {
			say("something that never was published is stored: "+u, "S02")
		}
	}
	return true
}
