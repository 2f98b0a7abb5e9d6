package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/vh/rpki"
)

type roaJSON struct {
	Prefix    string
	MaxLength int
	Asn       string
	Ta        string
}
type listJSON struct {
	Metadata struct {
		Counts                   int
		Generated, Valid         int64
		Signature, SignatureDate string
	}
	Roas []roaJSON
}

func propsOfList(msg string) []string {
	switch strings.Split(msg, ":")[0] {
	case "signature", "time":
		return []string{"O04"}
	case "count":
		return []string{"O06"}
	case "form":
		return []string{"O03", "O04"}
	case "entry":
		return []string{"O03", "O01", "S02", "S04"}
	case "duplicate", "label":
		return []string{"O03"}
	}
	return []string{"O03"}
}

func verify(hexSig string, digest []byte) bool {
	b, err := hex.DecodeString(hexSig)
	if err != nil {
		return false
	}
	var sig struct{ R, S *big.Int }
	if _, err := asn1.Unmarshal(b, &sig); err != nil {
		return false
	}
	return ecdsa.Verify(&signKey.PublicKey, digest, sig.R, sig.S)
}

// compareList checks a published list: list has to be in it, maybe may
func (s *scen) compareList(raw []byte, list, maybe [][2]int, from, to time.Time) string {
	var l listJSON
	d := json.NewDecoder(bytes.NewReader(raw))
	if err := d.Decode(&l); err != nil {
		return "form: " + err.Error()
	}
	rest, _ := ioutil.ReadAll(d.Buffered())
	if len(bytes.TrimSpace(rest)) > 0 {
		return "form: garbage behind the list"
	}
	must := s.expand(list, s.filter)
	may := s.expand(append(append([][2]int{}, list...), maybe...), s.filter)
	seen := map[string]bool{}
	for _, r := range l.Roas {
		k := fmt.Sprintf("%s-%d %s", r.Prefix, r.MaxLength, r.Asn)
		if seen[k] {
			return "duplicate: " + k
		}
		seen[k] = true
		if may[k] == nil {
			return "entry: unexpected " + k
		}
		if !may[k][r.Ta] {
			return "label: " + k + " of " + r.Ta
		}
	}
	for k := range must {
		if !seen[k] {
			return "entry: missing " + k
		}
	}
	if len(maybe) == 0 {
		n := 0
		for t := range s.b.Uris {
			n += s.count(list, t+1)
			if s.dup && t == 0 {
				n += s.count(list, 1)
			}
		}
		if n != l.Metadata.Counts {
			return fmt.Sprintf("count: %d instead of %d", l.Metadata.Counts, n)
		}
	}
	// both signatures, over exactly this list
	var es []string
	for _, r := range l.Roas {
		es = append(es, fmt.Sprintf("%v,%v,%v,", r.Prefix, r.MaxLength, r.Asn))
	}
	sort.Strings(es)
	all := strings.Join(es, "")
	d1 := sha256.Sum256([]byte(all))
	d2 := sha256.Sum256([]byte(fmt.Sprintf("%v,%v%v", l.Metadata.Generated, all, l.Metadata.Valid)))
	if !verify(l.Metadata.SignatureDate, d1[:]) || !verify(l.Metadata.Signature, d2[:]) {
		return fmt.Sprintf("signature: not that of the list (%v %v)", verify(l.Metadata.SignatureDate, d1[:]), verify(l.Metadata.Signature, d2[:]))
	}
	if l.Metadata.Valid-l.Metadata.Generated != int64(s.validity/time.Second) {
		return fmt.Sprintf("time: valid for %d s", l.Metadata.Valid-l.Metadata.Generated)
	}
	if !from.IsZero() && l.Metadata.Generated < from.Unix() || l.Metadata.Generated > to.Unix() {
		return fmt.Sprintf("time: generated %d, between %d and %d", l.Metadata.Generated, from.Unix(), to.Unix())
	}
	return ""
}

type reply struct {
	code   int
	body   []byte
	header http.Header
	before time.Time
	after  time.Time
}

var client = &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}

func (s *scen) get(path string, header ...string) (*reply, error) {
	r := &reply{before: time.Now()}
	q, _ := http.NewRequest("GET", fmt.Sprintf("http://127.0.0.1:%d%s", s.port, path), nil)
	for i := 0; i+1 < len(header); i += 2 {
		q.Header.Set(header[i], header[i+1])
	}
	res, err := client.Do(q)
	if err != nil {
		return nil, err
	}
	defer res.Body.Close()
	r.code, r.header = res.StatusCode, res.Header
	r.body, err = ioutil.ReadAll(res.Body)
	r.after = time.Now()
	return r, err
}

func (s *scen) isStopped() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.stopped }

func (s *scen) result(round int) *roundResult {
	for i, x := range s.b.Results {
		if x.Run == s.run && x.Round == round {
			return &s.b.Results[i]
		}
	}
	return nil
}

// cacheRules checks the headers of an answer with a list
func (s *scen) cacheRules(r *reply) {
	var l listJSON
	json.Unmarshal(r.body, &l)
	age := -1
	for _, h := range r.header["Cache-Control"] {
		for _, d := range strings.Split(h, ",") {
			fmt.Sscanf(strings.TrimSpace(d), "max-age=%d", &age)
			fmt.Sscanf(strings.TrimSpace(d), "s-maxage=%d", &age)
		}
	}
	if age >= 0 && !s.cacheHeader {
		s.fail("cache lifetime announced although disabled", "cache disabled", "O05")
	}
	if age > 0 && r.before.Add(time.Duration(age)*time.Second).After(time.Unix(l.Metadata.Valid, 0)) {
		s.fail(fmt.Sprintf("cache lifetime of %d s ends after %d", age, l.Metadata.Valid), "cache lifetime", "O05")
	}
	if e := r.header.Get("Expires"); e != "" {
		if t, err := http.ParseTime(e); err == nil && t.Unix() > l.Metadata.Valid {
			s.fail("Expires after the validity end", "cache lifetime", "O05")
		}
	}
}

// checkServed looks at every endpoint while the first attempt of a round is held
func (s *scen) checkServed(round int) {
	s.checks++
	prev := s.result(round - 1)
	if round == 1 {
		prev = &roundResult{}
	}
	if prev == nil {
		return
	}
	s.mu.Lock()
	from := s.arrivals[round-1]
	s.mu.Unlock()
	var r *reply
	var err error
	for i := 0; i < 100; i++ { // the server may only just be starting
		r, err = s.get("/output.json")
		if err == nil || !strings.Contains(err.Error(), "refused") {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if s.isStopped() {
		return
	}
	if err != nil {
		s.fail("cannot get the list: "+err.Error(), "http", "O01")
		return
	}
	want := 503
	if prev.Ready {
		want = 200
	}
	if r.code != want && !(prev.Forced && r.code == 200) {
		s.fail(fmt.Sprintf("list: status %d instead of %d after round %d", r.code, want, round-1), "served", "O01")
		return
	}
	h, err := s.get("/health")
	if err != nil {
		return
	}
	if ok := prev.Health; (h.code == 200) != ok && !prev.Forced && (s.b.Cfg.Wait || h.code != 200) {
		s.fail(fmt.Sprintf("health: status %d after round %d", h.code, round-1), "health", "O01")
	}
	res, err := s.get("/resources.json")
	if err != nil {
		return
	}
	if res.code != r.code {
		s.fail(fmt.Sprintf("resources: status %d, list: %d", res.code, r.code), "served resources", "O01")
	}
	if r.code == 503 {
		for _, tag := range []string{"*", hexsum([]byte("x")), `"` + hexsum(r.body) + `"`, hexsum(r.body)} {
			if c, err := s.get("/output.json", "If-None-Match", tag); err == nil && c.code != 503 {
				s.fail(fmt.Sprintf("unavailable list answered with %d", c.code), "304 unavailable", "O05", "O01")
			}
		}
	}
	s.checkInfo(prev, round)
	if r.code != 200 {
		s.checkMetrics(round, nil)
		s.checkCT(prev)
		return
	}
	if msg := s.compareList(r.body, prev.List, prev.Maybe, from, r.after); msg != "" {
		s.fail(fmt.Sprintf("served after round %d: %s", round-1, msg), "served "+strings.Split(msg, ":")[0], propsOfList(msg)...)
		return
	}
	s.cacheRules(r)
	tag := r.header.Get("Etag")
	if tag != "" {
		c, err := s.get("/output.json", "If-None-Match", tag)
		if err == nil {
			if c.code != 200 && c.code != 304 || c.code == 200 && !bytes.Equal(c.body, r.body) {
				s.fail(fmt.Sprintf("conditional request: %d", c.code), "conditional", "O05")
			}
			if c.code == 304 && len(c.body) > 0 {
				s.fail("304 with a body", "conditional", "O05")
			}
		}
		if s.seenTag(tag, r.body) {
			s.fail("the tag "+tag+" was used for other content", "tag reused", "O05")
		}
		others := []string{tag[:len(tag)-1], tag + "0", strings.ToUpper(tag) + "x", hexsum([]byte("other")), `"` + hexsum([]byte("other")) + `"`, "0", `""`}
		for _, t := range s.tags() {
			if t != tag {
				others = append(others, t)
			}
		}
		for _, o := range others {
			if c, err := s.get("/output.json", "If-None-Match", o); err == nil && c.code != 200 {
				s.fail(fmt.Sprintf("request with the tag %s of other content: %d", o, c.code), "304 wrong", "O05")
			}
		}
	}
	s.checkMetrics(round, r.body)
	s.checkResources(res, prev)
	s.checkCT(prev)
}

// tags gives those seen so far
func (s *scen) tags() (out []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for t := range s.tagOf {
		out = append(out, t)
	}
	return out
}

// seenTag remembers which content a tag was for
func (s *scen) seenTag(tag string, body []byte) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.tagOf == nil {
		s.tagOf = map[string][32]byte{}
	}
	h := sha256.Sum256(body)
	old, ok := s.tagOf[tag]
	s.tagOf[tag] = h
	return ok && old != h
}

func (s *scen) valid(list [][2]int) map[int]int {
	m := map[int]int{}
	for _, x := range list {
		m[x[0]] = x[1]
	}
	return m
}

type resJSON struct {
	Type   string
	Ski    string `json:"subject-key-id"`
	Aki    string `json:"authority-key-id"`
	Path   string
	Hash   string
	Ta     string
	Serial string
	Asn    int64
	Sia    []string
	Roas   []struct {
		Prefix    string
		MaxLength int `json:"max-length"`
	}
	Files  []string `json:"mft-files"`
	Number string   `json:"mft-number"`
	From   int64    `json:"validfrom"`
	To     int64    `json:"validto"`
	Ips    []struct {
		Prefix string
	}
	Asns []struct {
		Range []int64 `json:"asn-range"`
	}
}

// checkResources compares the inventory with the objects accepted in a round
func (s *scen) checkResources(r *reply, res *roundResult) {
	var in struct{ Resources []resJSON }
	if err := json.Unmarshal(r.body, &in); err != nil {
		s.fail("resources: "+err.Error(), "resources form", "O06")
		return
	}
	got := map[string]resJSON{}
	again := map[string]string{} // under the second name
	for _, x := range in.Resources {
		if s.dup && x.Ta == dupName {
			x.Ta = talName(1)
			if again[x.Path] != "" {
				s.fail("resources: twice "+x.Path, "resources twice", "O06")
			}
			again[x.Path] = fmt.Sprint(x)
			continue
		}
		if _, ok := got[x.Path]; ok {
			s.fail("resources: twice "+x.Path, "resources twice", "O06")
		}
		got[x.Path] = x
	}
	for _, x := range got {
		if s.dup && x.Ta == talName(1) {
			if again[x.Path] != fmt.Sprint(x) {
				s.fail(fmt.Sprintf("resources: %s is %q under the second name of its trust anchor, not %q", x.Path, again[x.Path], x), "resources second name", "O06")
			}
			delete(again, x.Path)
		}
	}
	if len(again) > 0 {
		s.fail("resources: more under the second name of a trust anchor", "resources second name", "O06")
	}
	ok := s.valid(res.List)
	maybe := s.valid(res.Maybe)
	known := map[string]bool{}
	check := func(path, typ, ta string, data []byte) (resJSON, bool) {
		known[path] = true
		x, found := got[path]
		if !found {
			s.fail("resources: missing "+path, "resources missing", "O06")
			return x, false
		}
		if x.Type != typ || x.Ta != ta || x.Hash != hexsum(data) {
			s.fail(fmt.Sprintf("resources: %s is %v", path, x), "resources wrong", "O06")
			return x, false
		}
		return x, true
	}
	for m := 1; m <= len(s.parent); m++ {
		if !contains(res.Seen, m) {
			continue
		}
		ca := s.cas[m]
		ta := talName(s.tal[m-1])
		v, sound := ok[m]
		var cert []byte
		path := ca.URI()
		serial := rpki.SerialInt(ca.Big, int64(m)).String()
		if p := s.parent[m-1]; p > 0 {
			o := s.at(p, ok[p]).certs[m]
			cert, path = o.data, o.uri
			serial = rpki.SerialInt(ca.Parent.Big, int64(100*ok[p]+m)).String()
		} else {
			cert = s.taCert(s.tal[m-1], "good")
			if !contains2(s.b.Uris[s.tal[m-1]-1], "r") {
				for k := range got { // stored under a name made from the URI
					if strings.HasPrefix(k, "rsync://rfc8630/") && got[k].Hash == hexsum(cert) {
						path = k
					}
				}
			}
		}
		if !sound {
			known[path] = true
			if _, mb := maybe[m]; mb {
				for _, o := range s.at(m, maybe[m]).files {
					known[o.uri] = true
				}
			}
			continue
		}
		if x, ok := check(path, "certificate", ta, cert); ok {
			aki := ca.ID()
			if ca.Parent != nil {
				aki = ca.Parent.ID()
			}
			if x.Ski != hex.EncodeToString(ca.ID()) || x.Aki != hex.EncodeToString(aki) || x.Serial != serial || len(x.Ips) != 2 || x.Ips[0].Prefix != "10.0.0.0/8" || x.Ips[1].Prefix != "2001:db8::/32" ||
				len(x.Asns) != 1 || len(x.Asns[0].Range) != 2 || x.Asns[0].Range[0] != 64500 || x.Asns[0].Range[1] != 65000 || x.From != ca.NB.Unix() || x.To != ca.NA.Unix() || !contains2(x.Sia, ca.Dir) || !contains2(x.Sia, ca.Mft()) {
				s.fail(fmt.Sprintf("resources: certificate %v", x), "resources certificate", "O06")
			}
		}
		c := s.at(m, v)
		if x, ok := check(c.mft.uri, "manifest", ta, c.mft.data); ok {
			a, b := append([]string(nil), x.Files...), append([]string(nil), c.list...)
			sort.Strings(a)
			sort.Strings(b)
			if fmt.Sprint(a) != fmt.Sprint(b) || x.Number != fmt.Sprint(v+1) || x.Aki != hex.EncodeToString(ca.ID()) || x.Serial != rpki.SerialInt(ca.Big, int64(1000+v)).String() {
				s.fail(fmt.Sprintf("resources: manifest %v", x), "resources manifest", "O06")
			}
		}
		for _, r := range c.roas {
			if x, ok := check(r.o.uri, "roa", ta, r.o.data); ok {
				var a, b []string
				for _, e := range x.Roas {
					a = append(a, fmt.Sprint(e.Prefix, " ", e.MaxLength))
				}
				for _, e := range r.entries {
					ml := e.MaxLen
					if ml < 0 {
						ml = plen(e.Prefix)
					}
					b = append(b, fmt.Sprint(e.Prefix, " ", ml))
				}
				sort.Strings(a)
				sort.Strings(b)
				want := int64(5000 + v)
				if r.asn == 64999 {
					want += 1000
				}
				if x.Serial != rpki.SerialInt(ca.Big, want).String() || fmt.Sprint(a) != fmt.Sprint(b) || x.Asn != r.asn || x.Aki != hex.EncodeToString(ca.ID()) {
					s.fail(fmt.Sprintf("resources: ROA %v", x), "resources roa", "O06")
				}
			}
		}
	}
	for p := range got {
		if !known[p] {
			s.fail("resources: not accepted "+p, "resources extra", "O06")
		}
	}
}

func contains2(a []string, x string) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}

// checkInfo compares the information endpoint with a round
func (s *scen) checkInfo(res *roundResult, round int) {
	r, err := s.get("/infos")
	if s.isStopped() {
		return
	}
	if err != nil || r.code != 200 {
		s.fail("information endpoint", "infos", "O06")
		return
	}
	var in struct {
		Tas []struct {
			Name string
			Sia  []struct{ Rsync, Rrdp string }
		}
		Counts []struct {
			Ta    string
			Count int
		} `json:"roas-tal-count"`
		Count int `json:"roas-count"`
	}
	if err := json.Unmarshal(r.body, &in); err != nil {
		s.fail("infos: "+err.Error(), "infos form", "O06")
		return
	}
	s.told = map[string]int{}
	for _, c := range in.Counts {
		s.told[c.Ta] = c.Count
	}
	if round == 1 {
		return
	}
	if len(res.Maybe) > 0 {
		return
	}
	got := map[string]bool{}
	for _, t := range in.Tas {
		for _, x := range t.Sia {
			got[fmt.Sprint(t.Name, " ", x.Rsync, " ", x.Rrdp)] = true
		}
	}
	want := map[string]bool{}
	for _, m := range res.Seen {
		n := ""
		if s.ann[m-1] {
			n = s.notif(m)
		}
		want[fmt.Sprint(talName(s.tal[m-1]), " ", moduleOf(m), " ", n)] = true
		if s.dup && s.tal[m-1] == 1 {
			want[fmt.Sprint(dupName, " ", moduleOf(m), " ", n)] = true
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		s.fail(fmt.Sprintf("infos: publication points %v instead of %v", got, want), "infos sia", "O06")
	}
	for t := range s.b.Uris {
		n := 0
		found := false
		for _, c := range in.Counts {
			if c.Ta == talName(t+1) {
				n, found = c.Count, true
			}
			if s.dup && t == 0 && c.Ta == dupName && c.Count != s.count(res.List, 1) {
				s.fail(fmt.Sprintf("infos: %d VRPs of %s instead of %d", c.Count, c.Ta, s.count(res.List, 1)), "infos count", "O06")
			}
		}
		if n != s.count(res.List, t+1) || !found {
			s.fail(fmt.Sprintf("infos: %d VRPs of %s instead of %d", n, talName(t+1), s.count(res.List, t+1)), "infos count", "O06")
		}
	}
	if in.Count != len(s.expand(res.List, s.filter)) {
		s.fail(fmt.Sprintf("infos: %d entries instead of %d", in.Count, len(s.expand(res.List, s.filter))), "infos count", "O06")
	}
}

// checkCT compares the chains submitted after a round
func (s *scen) checkCT(res *roundResult) {
	if !s.ct {
		return
	}
	must := map[string]bool{}
	may := map[string]bool{}
	if res.Health || res.Forced || !s.b.Cfg.Wait {
		ok := s.valid(res.List)
		chain := func(m int) string {
			out := ""
			for m > 0 {
				p := s.parent[m-1]
				if p > 0 {
					out += hexsum(s.at(p, ok[p]).certs[m].data) + " "
				} else {
					out += hexsum(s.taCert(s.tal[m-1], "good")) + " "
				}
				m = p
			}
			return out
		}
		for _, m := range res.Seen {
			v, sound := ok[m]
			if !sound {
				may[chain(m)] = true
				continue
			}
			must[chain(m)] = true
			c := s.at(m, v)
			must[hexsum(eeOf(c.mft.der))+" "+chain(m)] = true
			for _, r := range c.roas {
				must[hexsum(eeOf(r.o.der))+" "+chain(m)] = true
			}
		}
	}
	var got map[string]int
	for i := 0; i < 200; i++ {
		got = map[string]int{}
		s.mu.Lock()
		for _, c := range s.chains[s.chainSeen:] {
			k := ""
			for _, x := range c {
				k += hexsum(x) + " "
			}
			got[k]++
		}
		s.mu.Unlock()
		all := len(res.Maybe) == 0 || i > 20
		for k := range must {
			all = all && (got[k] > 0 || len(res.Maybe) > 0)
		}
		if all {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	s.mu.Lock()
	s.chainSeen = len(s.chains)
	s.mu.Unlock()
	s.stats["ct chains"] += len(got)
	if len(res.Maybe) > 0 {
		return
	}
	for k, n := range got {
		if s.lateCT[k] && n > 0 { // of the round before: the last ones are still on their way when the next one begins
			n--
		}
		if n == 0 {
		} else if !must[k] && !may[k] {
			s.fail(fmt.Sprintf("CT: chain of %d certificates that is not that of an accepted certificate", strings.Count(k, " ")), "ct extra", "T01")
		} else if n > 1 {
			s.fail("CT: a chain is submitted twice", "ct twice", "T01")
		}
	}
	s.lateCT = map[string]bool{}
	for k := range may {
		s.lateCT[k] = got[k] == 0
	}
	for k := range must {
		if got[k] == 0 {
			s.fail(fmt.Sprintf("CT: a chain of %d certificates is not submitted", strings.Count(k, " ")), "ct missing", "T01")
		}
	}
}

type polled struct {
	at   time.Time
	code int
}

const forcedWindow = 150 * time.Millisecond

// checkForced: a cycle ended by the iteration limit serves its list until the next one begins
func (s *scen) checkForced(round int) {
	prev := s.result(round - 1)
	if prev == nil || !prev.Forced || !s.b.Cfg.Wait {
		return
	}
	s.mu.Lock()
	n, served := 0, false
	for _, p := range s.polls {
		if time.Since(p.at) < forcedWindow/2 {
			n++
			served = served || p.code != 503
		}
	}
	if n >= 10 {
		s.stats["forced windows"]++
	}
	s.mu.Unlock()
	if n >= 10 && !served {
		s.fail(fmt.Sprintf("list: not served after round %d, in which the iteration limit was reached", round-1), "forced not served", "O01", "O02")
	}
}

// poll asks for the list all the time: every answer is that of a round that may be the last one
func (s *scen) poll() chan struct{} {
	done := make(chan struct{})
	stop := s.stop
	go func() {
		defer close(done)
		low := 0
		tag := ""
		var tagBody []byte
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			case <-s.exited:
				return
			default:
			}
			s.mu.Lock()
			r0 := s.round
			s.mu.Unlock()
			if r0-1 > low {
				low = r0 - 1
			}
			var hd []string
			if i%3 == 2 && tag != "" {
				hd = []string{"If-None-Match", tag}
			}
			r, err := s.get("/output.json", hd...)
			if err != nil {
				time.Sleep(2 * time.Millisecond)
				continue
			}
			s.mu.Lock()
			r1 := s.round
			if r1 == 0 {
				r1 = 1
			}
			stopped := s.stopped
			s.polls = append(s.polls, polled{r.before, r.code})
			s.mu.Unlock()
			if stopped {
				return
			}
			if r.code == 304 {
				r.body = tagBody
			}
			if r.code != 503 && r.code != 200 && r.code != 304 {
				s.fail(fmt.Sprint("list: status ", r.code), "status", "O01")
				return
			}
			found := false
			why := ""
			// round 1 may have completed before any attempt is seen, and so may all rounds without attempts
			for j := low; j <= r1+1 && !found; j++ {
				res := s.result(j)
				if j == 0 {
					res = &roundResult{}
				}
				if res == nil {
					if j > s.lastRound() {
						break
					}
					continue
				}
				if r.code == 503 {
					if !res.Ready {
						found = true
					}
					continue
				}
				if !res.Ready && !res.Forced {
					continue
				}
				msg := s.compareList(r.body, res.List, res.Maybe, time.Time{}, r.after)
				if msg == "" {
					found = true
				} else {
					why += fmt.Sprintf("[round %d: %s]", j, msg)
				}
			}
			s.mu.Lock()
			s.checks++
			s.mu.Unlock()
			if !found && s.killing {
				return // the behaviour does not say what follows
			}
			if !found {
				s.fail(fmt.Sprintf("list: status %d while in round %d to %d, which fits no state from round %d on %s", r.code, r0, r1, low, why), "poll", append(pollProps(why), s.early(r, low, r1)...)...)
				return
			}
			if r.code == 200 {
				s.cacheRules(r)
				tag, tagBody = r.header.Get("Etag"), r.body
				if tag != "" && s.seenTag(tag, r.body) {
					s.fail("the tag "+tag+" was used for other content", "tag reused", "O05")
				}
			}
			time.Sleep(time.Duration(200+s.intn(2000)) * time.Microsecond)
		}
	}()
	return done
}

// early: a list is served as if the round that produced it, which is to be followed by another one, ended a cycle
func (s *scen) early(r *reply, low, high int) []string {
	for j := low; j <= high+1 && r.code == 200; j++ {
		if res := s.result(j); res != nil && !res.Ready && !res.Forced && s.compareList(r.body, res.List, res.Maybe, time.Time{}, r.after) == "" {
			return []string{"O02"}
		}
	}
	return nil
}

func pollProps(why string) []string {
	if strings.Contains(why, "signature") || strings.Contains(why, "time:") {
		return []string{"O04", "O01"}
	}
	return []string{"O01", "O03"}
}
