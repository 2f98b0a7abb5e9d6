package main

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cloudflare/cfrpki/vh/gen"
	"github.com/cloudflare/cfrpki/vh/rpki"
)

// world is the objects of one topology, built when needed
type world struct {
	mu      sync.Mutex
	base    string // of the HTTP server
	dup     bool   // the first trust anchor is configured under a second name too
	parent  []int
	tal     []int
	ann     []bool
	cas     []*gen.CA // index 0 unused
	version map[[2]int]*content
	ta      map[string][]byte
}

type obj struct {
	uri  string
	data []byte
	der  []byte // as the validator decodes it
}

// content of a publication point at a version
type content struct {
	files []obj
	roas  []roaObj
	mft   obj
	certs map[int]obj // CA certificates of the children
	list  []string    // on the manifest
}

type roaObj struct {
	o       obj
	asn     int64
	entries []rpki.RoaEntry
}

// Modules 3 to 5 are on the hosts of others
func dirOf(m int) string { return moduleOf(m) + "/" }

// names in both cases: paths tell them apart
func moduleOf(m int) string {
	return fmt.Sprintf("rsync://%s.example/%s%d", []string{"H2", "h1"}[m%2], []string{"m", "M-"}[m/2%2], m)
}
func taRsync(t int) string { return fmt.Sprintf("rsync://ta%d.example/ta/root%d.cer", t, t) }
func (w *world) notif(m int) string {
	return fmt.Sprintf("%s/m%d/notification.xml", w.base, m)
}

var epoch = time.Now().Truncate(time.Second)

func newWorld(base, topo string, parent, tal []int, ann []bool) *world {
	w := &world{base: base, parent: parent, tal: tal, ann: ann, version: map[[2]int]*content{}, ta: map[string][]byte{}}
	w.cas = make([]*gen.CA, len(parent)+1)
	for i := 1; i <= len(parent); i++ {
		c := &gen.CA{Name: fmt.Sprintf("ca%d", i), Dir: dirOf(i), Key: keys[i], EE: keys[30], Serial: int64(i), Big: i % 3, Shallow: true,
			NB: epoch.Add(-24 * time.Hour), NA: epoch.Add(48 * time.Hour)}
		if ann[i-1] {
			c.Rrdp = w.notif(i)
		}
		if topo == "thief" && i == 3 {
			c.Rrdp = w.notif(2)
		}
		c.Res = rpki.Resources{V4: []rpki.IPRes{rpki.P("10.0.0.0/8")}, V6: []rpki.IPRes{rpki.P("2001:db8::/32")}, AS: []rpki.ASRes{{Min: 64500, Max: 65000}}}
		if p := parent[i-1]; p > 0 {
			c.Parent = w.cas[p]
		} else {
			c.CertURI = taRsync(tal[i-1])
		}
		w.cas[i] = c
	}
	return w
}

func (w *world) root(t int) int {
	for i, p := range w.parent {
		if p == 0 && w.tal[i] == t {
			return i + 1
		}
	}
	panic("no root")
}

// at builds module m at version v
func (w *world) at(m, v int) *content {
	w.mu.Lock()
	defer w.mu.Unlock()
	if c := w.version[[2]int{m, v}]; c != nil {
		return c
	}
	src := w.cas[m]
	cc := *src
	ca := &cc
	ca.Number = int64(v)
	ca.ROAs, ca.Children = nil, nil
	for i, p := range w.parent {
		if p == m {
			ch := *w.cas[i+1]
			ch.Serial = int64(100*v + i + 1)
			ch.Parent = src
			ca.Children = append(ca.Children, &ch)
		}
	}
	r1 := &gen.ROA{Name: fmt.Sprintf("r%d.roa", v), ASN: int64(64500 + m), Serial: int64(5000 + v), Entries: []rpki.RoaEntry{
		{Prefix: fmt.Sprintf("10.%d.%d.0/24", m, v), MaxLen: -1},
		{Prefix: fmt.Sprintf("10.%d.%d.128/25", m, v), MaxLen: 26},
		{Prefix: fmt.Sprintf("10.%d.0.0/16", m), MaxLen: 20 + v},
		{Prefix: fmt.Sprintf("10.%d.128.0/20", m), MaxLen: 23 + v},
		{Prefix: fmt.Sprintf("2001:db8:%d::/48", m), MaxLen: 48 + v},
		{Prefix: fmt.Sprintf("2001:db8:%d:8000::/49", m), MaxLen: -1},
	}}
	r2 := &gen.ROA{Name: "shared.roa", ASN: 64999, Serial: int64(6000 + v), Entries: []rpki.RoaEntry{{Prefix: "10.200.0.0/16", MaxLen: 24}, {Prefix: "10.200.0.0/16", MaxLen: 24}, {Prefix: "2001:db8:ffff::/48", MaxLen: -1}}}
	ca.ROAs = []*gen.ROA{r1, r2}
	// some objects are published in BER
	ders := map[string][]byte{}
	ber := func(u string) func([]byte) []byte {
		return func(d []byte) []byte {
			ders[u] = d
			return rpki.ToBER(d)
		}
	}
	if (m+v)%2 == 0 {
		r2.Edit = ber(ca.Dir + r2.Name)
	}
	if (m+v)%3 == 0 {
		ca.EditMft = ber(ca.Mft())
	}
	if m == 2 {
		ca.EditCRL = ber(ca.CRL())
	}
	files := map[string][]byte{}
	ca.Files(files)
	c := &content{certs: map[int]obj{}}
	for u, d := range files {
		if !strings.HasPrefix(u, ca.Dir) {
			continue
		}
		o := obj{u, d, d}
		if x := ders[u]; x != nil {
			o.der = x
		}
		c.files = append(c.files, o)
		n := strings.TrimPrefix(u, ca.Dir)
		switch {
		case u == ca.Mft():
			c.mft = o
		case n == r1.Name:
			c.roas = append(c.roas, roaObj{o, r1.ASN, r1.Entries})
		case n == r2.Name:
			c.roas = append(c.roas, roaObj{o, r2.ASN, r2.Entries})
		}
		if u != ca.Mft() {
			c.list = append(c.list, n)
		}
		for _, ch := range ca.Children {
			if ch.URI() == u {
				for i := range w.parent {
					if w.cas[i+1].Name == ch.Name {
						c.certs[i+1] = o
					}
				}
			}
		}
	}
	sort.Slice(c.files, func(i, j int) bool { // the manifest first
		a, b := c.files[i], c.files[j]
		if (a.uri == c.mft.uri) != (b.uri == c.mft.uri) {
			return a.uri == c.mft.uri
		}
		return a.uri < b.uri
	})
	w.version[[2]int{m, v}] = c
	return c
}

// the trust anchor certificate, good or not
func (w *world) taCert(t int, kind string) []byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	k := fmt.Sprint(kind, t)
	if d := w.ta[k]; d != nil {
		return d
	}
	c := *w.cas[w.root(t)]
	switch kind {
	case "key":
		c.Key = keys[20]
	case "expired":
		c.NB, c.NA = epoch.Add(-48*time.Hour), epoch.Add(-10*time.Second)
	case "future":
		c.NB, c.NA = epoch.Add(2*time.Hour), epoch.Add(48*time.Hour)
	case "garbage":
		w.ta[k] = []byte("<html>not a certificate</html>")
		return w.ta[k]
	case "cut":
		d := c.Cert()
		w.ta[k] = d[:len(d)/2]
		return w.ta[k]
	case "unsigned":
		d := append([]byte(nil), c.Cert()...)
		d[len(d)-5] ^= 1
		w.ta[k] = d
		return w.ta[k]
	}
	w.ta[k] = append([]byte(nil), c.Cert()...)
	return w.ta[k]
}

var badTA = []string{"key", "expired", "future", "garbage", "cut", "unsigned"}

func hexsum(b []byte) string { h := sha256.Sum256(b); return hex.EncodeToString(h[:]) }

func sessionName(m, s int) string { return fmt.Sprintf("%08x-af9e-4dca-bdda-719cce2c4e2%d", m*7919, s) }

const rootAttrs = `xmlns="http://www.ripe.net/rpki/rrdp" version="1"`

func (w *world) snapshot(m int, p pubState, block bool) string {
	c := w.at(m, p.Ver)
	var b strings.Builder
	fmt.Fprintf(&b, "<snapshot %s session_id=%q serial=\"%d\">\n", rootAttrs, sessionName(m, p.Sess), p.Ver)
	for i, o := range c.files {
		if i == 1 && block {
			blocked(&b, m)
		}
		fmt.Fprintf(&b, "<publish uri=%q>%s</publish>\n", o.uri, base64.StdEncoding.EncodeToString(o.data))
	}
	b.WriteString("</snapshot>")
	return b.String()
}

// an element that cannot be stored, since blk is a file
func blocked(b *strings.Builder, m int) {
	fmt.Fprintf(b, "<publish uri=%q>AAAA</publish>\n", dirOf(m)+"blk/x.roa")
}

func (w *world) delta(m, sess, v int, block bool) string {
	c := w.at(m, v)
	var old *content
	if v > 1 {
		old = w.at(m, v-1)
	}
	oldOf := func(u string) []byte {
		if old != nil {
			for _, o := range old.files {
				if o.uri == u {
					return o.data
				}
			}
		}
		return nil
	}
	var b strings.Builder
	fmt.Fprintf(&b, "<delta %s session_id=%q serial=\"%d\">\n", rootAttrs, sessionName(m, sess), v)
	now := map[string]bool{}
	for i, o := range c.files {
		now[o.uri] = true
		if i == 1 && block {
			blocked(&b, m)
		}
		h := ""
		if d := oldOf(o.uri); d != nil {
			h = fmt.Sprintf(" hash=%q", hexsum(d))
		}
		fmt.Fprintf(&b, "<publish uri=%q%s>%s</publish>\n", o.uri, h, base64.StdEncoding.EncodeToString(o.data))
	}
	if old != nil {
		for _, o := range old.files {
			if !now[o.uri] {
				fmt.Fprintf(&b, "<withdraw uri=%q hash=%q/>\n", o.uri, hexsum(o.data))
			}
		}
	}
	b.WriteString("</delta>")
	return b.String()
}

func (w *world) docURL(m int, p pubState, d int) string {
	if d == 0 {
		return fmt.Sprintf("%s/m%d/%d/%d/snapshot.xml", w.base, m, p.Sess, p.Ver)
	}
	return fmt.Sprintf("%s/m%d/%d/%d/delta-%d.xml", w.base, m, p.Sess, p.Ver, d)
}

func (w *world) notification(r *rand.Rand, m int, p pubState) string {
	var b strings.Builder
	fmt.Fprintf(&b, "<notification %s session_id=%q serial=\"%d\">\n", rootAttrs, sessionName(m, p.Sess), p.Ver)
	fmt.Fprintf(&b, "<snapshot uri=%q hash=%q/>\n", w.docURL(m, p, 0), hexsum([]byte(w.snapshot(m, p, false))))
	for v := p.Ver; v >= 1; v-- {
		fmt.Fprintf(&b, "<delta serial=\"%d\" uri=%q hash=%q/>\n", v, w.docURL(m, p, v), hexsum([]byte(w.delta(m, p.Sess, v, false))))
	}
	b.WriteString("</notification>")
	return b.String()
}

// ---- what a list has to contain

type vrp struct {
	key string // prefix/maxlen/AS
	tas map[string]bool
}

const dupName = "TALx"

func talName(t int) string { return fmt.Sprintf("TAL%d", t) }

func plen(p string) int {
	n := 0
	fmt.Sscanf(p[strings.Index(p, "/")+1:], "%d", &n)
	return n
}

// expand gives the entries of the ROAs of the modules at the given versions
func (w *world) expand(list [][2]int, filter bool) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	for _, x := range list {
		for _, r := range w.at(x[0], x[1]).roas {
			for _, e := range r.entries {
				n := plen(e.Prefix)
				if filter && (strings.Contains(e.Prefix, ":") && n > 48 || !strings.Contains(e.Prefix, ":") && n > 24) {
					continue
				}
				ml := e.MaxLen
				if ml < 0 {
					ml = n
				}
				k := fmt.Sprintf("%s-%d AS%d", e.Prefix, ml, r.asn)
				if out[k] == nil {
					out[k] = map[string]bool{}
				}
				out[k][talName(w.tal[x[0]-1])] = true
				if w.dup && w.tal[x[0]-1] == 1 {
					out[k][dupName] = true
				}
			}
		}
	}
	return out
}

// entries of the ROAs of a locator, before filtering
func (w *world) count(list [][2]int, t int) int {
	n := 0
	for _, x := range list {
		if w.tal[x[0]-1] == t {
			for _, r := range w.at(x[0], x[1]).roas {
				n += len(r.entries)
			}
		}
	}
	return n
}
