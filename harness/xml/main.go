// Replays the synchronisation attempts of spec/Xml.tla, which find unusual
// and damaged documents, on syncpki.RRDPSystem.
package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"
)

type change struct {
	Doc, At, Op, M, Obj string
	El                  int
}

type record struct{ Sess, Serial string }

type outcome struct {
	Ok    bool
	Rec   record
	Store map[string]int
}

type behaviour struct {
	Client string
	Start  struct {
		Sess, Serial string
		Has          map[string]int
	}
	Change   []change
	Outcomes []outcome
}

type attr struct{ name, value, raw string }

type element struct {
	tag, open, close string // open and close override the tags
	attrs            []attr
	kids             []*element
	text             string
	isText           bool // a piece of text (or comment, ...), not an element
	self             bool
	before           string
	inside           string
	wrapOpen         string
	wrapClose        string
	ns               string
	tagspace         bool
	cut              string // unclosed, badclose, doubleclose, baretag
	twice            bool
}

func esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", `"`, "&quot;").Replace(s)
}

func (e *element) write(b *strings.Builder) {
	b.WriteString(e.before)
	if e.isText {
		b.WriteString(e.text)
		return
	}
	b.WriteString(e.wrapOpen)
	n := 1
	if e.twice {
		n = 2
	}
	tag := e.ns + e.tag
	for i := 0; i < n; i++ {
		if e.cut == "baretag" {
			b.WriteString("< " + tag)
		} else {
			b.WriteString("<" + tag)
		}
		if e.ns != "" {
			b.WriteString(` xmlns:r="http://www.ripe.net/rpki/rrdp"`)
		}
		for _, a := range e.attrs {
			if a.raw != "" {
				b.WriteString(" " + a.raw)
			} else {
				b.WriteString(" " + a.name + `="` + esc(a.value) + `"`)
			}
		}
		if e.tagspace {
			b.WriteString(" \n")
		}
		if e.self && len(e.kids) == 0 && e.text == "" && e.inside == "" && e.cut == "" {
			b.WriteString("/>")
			continue
		}
		b.WriteString(">" + e.inside + e.text)
		for _, k := range e.kids {
			k.write(b)
		}
		switch e.cut {
		case "unclosed":
			continue
		case "badclose":
			b.WriteString("</" + tag + "x>")
			continue
		case "doubleclose":
			b.WriteString("</" + tag + ">")
		}
		if e.tagspace {
			b.WriteString("</" + tag + "\n >")
		} else {
			b.WriteString("</" + tag + ">")
		}
	}
	b.WriteString(e.wrapClose)
}

const host = "rsync://repo.example.net/mod/"

func content(o string, v int) []byte {
	if v <= 0 {
		return nil
	}
	r := rand.New(rand.NewSource(int64(v)*1000 + int64(o[0])))
	b := make([]byte, []int{40, 61, 100, 1000}[r.Intn(4)])
	r.Read(b)
	b = append([]byte(fmt.Sprintf("%s%d|", o, v)), b...)
	for len(b)%3 != 1 { // padded in base64
		b = append(b, 7)
	}
	b[len(b)-1] = 0x55
	return b
}

func uri(o string) string { return host + o + ".roa" }

func lines(s, nl string, w int) string {
	var o strings.Builder
	o.WriteString(nl)
	for len(s) > w {
		o.WriteString(s[:w] + nl)
		s = s[w:]
	}
	return o.String() + s + nl
}

const (
	sess = "9df4b597-af9e-4dca-bdda-719cce2c4e28"
	base = "https://rrdp.example.net/"
)

func docs(r *rand.Rand) map[string]*element {
	root := func(tag string, serial int, kids ...*element) *element {
		at := []attr{{name: "xmlns", value: "http://www.ripe.net/rpki/rrdp"}, {name: "version", value: "1"},
			{name: "session_id", value: sess}, {name: "serial", value: strconv.Itoa(serial)}}
		return &element{tag: tag, attrs: at, kids: kids}
	}
	hash := func() attr {
		b := make([]byte, 32)
		r.Read(b)
		return attr{name: "hash", value: fmt.Sprintf("%x", b)}
	}
	el := func(tag string, text string, at ...attr) *element {
		return &element{tag: tag, attrs: at, text: text, self: text == "" && r.Intn(2) == 0}
	}
	delta := func(n int) *element {
		return el("delta", "", attr{name: "serial", value: strconv.Itoa(n)}, attr{name: "uri", value: fmt.Sprintf("%sd%d.xml", base, n)}, hash())
	}
	pub := func(o string, v int, rep bool) *element {
		at := []attr{{name: "uri", value: uri(o)}}
		if rep {
			at = append(at, hash())
		}
		return el("publish", base64.StdEncoding.EncodeToString(content(o, v)), at...)
	}
	del := func(o string) *element { return el("withdraw", "", attr{name: "uri", value: uri(o)}, hash()) }
	return map[string]*element{
		"n":  root("notification", 4, el("snapshot", "", attr{name: "uri", value: base + "s.xml"}, hash()), delta(2), delta(3), delta(4)),
		"s":  root("snapshot", 4, pub("x", 2, false), pub("y", 2, false), pub("z", 2, false)),
		"d3": root("delta", 3, pub("x", 2, true), pub("w", 1, false), del("y")),
		"d4": root("delta", 4, pub("z", 2, true), pub("y", 2, false), del("w")),
	}
}

func charref(r *rand.Rand, s string) string {
	var o strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case i == 0 || r.Intn(6) == 0:
			fmt.Fprintf(&o, []string{"&#x%x;", "&#x00%X;"}[r.Intn(2)], s[i])
		case r.Intn(6) == 0:
			fmt.Fprintf(&o, "&#%d;", s[i])
		default:
			o.WriteString(esc(s[i : i+1]))
		}
	}
	return o.String()
}

func editAttr(r *rand.Rand, e *element, name, op string) {
	k := -1
	for i := range e.attrs {
		if e.attrs[i].name == name {
			k = i
		}
	}
	a := &e.attrs[k]
	q := func(v string) string { return a.name + `="` + v + `"` }
	v := a.value
	switch op {
	case "quote":
		a.raw = a.name + "='" + v + "'"
	case "space":
		a.raw = " " + a.name + " =\t \"" + v + `"  `
	case "charref":
		a.raw = q(charref(r, v))
	case "newline":
		a.raw = "\r\n\t" + q(v)
	case "bare":
		a.raw = a.name + "=" + v
	case "novalue":
		a.raw = a.name
	case "less":
		a.raw = q(v + "<")
	case "unknownentity":
		a.raw = q(v + "&nope;")
	case "control":
		a.raw = q(v + "\x01")
	case "badutf8":
		a.raw = q(v + "\xff")
	case "delete":
		e.attrs = append(e.attrs[:k:k], e.attrs[k+1:]...)
	case "empty":
		a.value = ""
	case "twice":
		a.raw = q(esc(v)) + " " + q(esc(v))
	case "rename":
		a.name = strings.ToUpper(a.name)
	case "junk":
		a.value = []string{"x", "%zz", "not a value", "-", "\\..\\..", "http://[::1", "1x"}[r.Intn(7)]
	case "long":
		a.value = strings.Repeat("Ax/", 70000)
	case "nonascii":
		a.value = "\u00e9\u4e2d\U0001f600"
	case "over":
		a.value = []string{"9223372036854775808", "18446744073709551616", "-9223372036854775809", "1" + strings.Repeat("0", 400)}[r.Intn(4)]
	case "max":
		a.value = strconv.FormatInt(math.MaxInt64, 10)
	case "fraction":
		a.value = v + []string{".0", "e0", ".5"}[r.Intn(3)]
	case "under_":
		a.value = []string{"0x" + v, "0_" + v, "0b1"}[r.Intn(3)]
	case "plus":
		a.value = "+" + v
	case "lead0":
		a.value = "000" + v
	case "blank":
		a.raw = q("  " + v + "\n ")
	default:
		if !strings.HasPrefix(op, "num") {
			panic("specification and documents differ: attribute " + op)
		}
		a.value = op[3:]
	}
}

func editText(r *rand.Rand, e *element, op string) {
	t := e.text
	mid := 4 * (len(t) / 8)
	switch op {
	case "lines":
		e.text = lines(t, "\n", 1+r.Intn(76))
	case "crlf":
		e.text = lines(t, "\r\n", 64)
	case "tabs":
		e.text = lines(t, "\n\t\t", 64)
	case "blanks":
		e.text = lines(t, "   ", 1+r.Intn(20))
	case "oneline":
		e.text = "\n    " + t + "\n  "
	case "comment":
		e.text = t[:mid+1] + "<!-- QUJD -->" + t[mid+1:]
	case "pi":
		e.text = t[:mid+1] + "<?x QUJD?>" + t[mid+1:]
	case "cdata":
		e.text = "<![CDATA[" + t + "]]>"
	case "charrefs":
		e.text = charref(r, t)
	case "mixed":
		e.text = t[:mid+1] + "<![CDATA[" + t[mid+1:mid+9] + "]]>&#10;" + charref(r, t[mid+9:])
	case "star":
		e.text = t[:mid] + []string{"*", ".", "$", "="}[r.Intn(4)] + t[mid+1:]
	case "urlsafe":
		e.text = t[:mid] + []string{"-", "_"}[r.Intn(2)] + t[mid+1:]
	case "nopad":
		e.text = strings.TrimRight(t, "=")
	case "morepad":
		e.text = t + []string{"=", "==", "===="}[r.Intn(3)]
	case "midpad":
		e.text = t[:mid] + "AA==" + t[mid:]
	case "cutone":
		e.text = t[:mid] + t[mid+1:]
	case "nonascii":
		e.text = t[:mid] + "\u00e9" + t[mid:]
	case "child":
		e.text = t[:mid] + "<x>QUJD</x>" + t[mid:]
	case "cdataend":
		e.text = t[:mid] + "]]>" + t[mid:]
	case "nul":
		e.text = t[:mid] + "\x00" + t[mid:]
	case "ampersand":
		e.text = t[:mid] + "&" + t[mid:]
	case "empty":
		e.text = ""
	case "big":
		e.text = strings.Repeat("QUJD", 1<<18)
	case "bits":
		e.text = t[:len(t)-3] + "R=="
		if t[len(t)-3] == 'R' {
			e.text = t[:len(t)-3] + "S=="
		}
	default:
		panic("specification and documents differ: text " + op)
	}
}

func editElement(r *rand.Rand, root *element, i int, op string) {
	e := root
	if i > 0 {
		e = root.kids[i-1]
	}
	others := map[string][]string{"notification": {"snapshot", "delta"}, "snapshot": {"delta", "notification"}, "delta": {"snapshot", "notification"}}
	switch op {
	case "reverse":
		for a, b := 0, len(e.attrs)-1; a < b; a, b = a+1, b-1 {
			e.attrs[a], e.attrs[b] = e.attrs[b], e.attrs[a]
		}
	case "prefix":
		e.ns = "r:"
	case "commentbefore":
		e.before = "<!-- <publish uri='x'>QQ==</publish> -->"
	case "pibefore":
		e.before = "<?target data?>"
	case "spacebefore":
		e.before = " \n\t\r\n "
	case "commentinside":
		e.inside = "<!-- c -->"
	case "otherform":
		e.self = !e.self
	case "spacetag":
		e.tagspace = true
	case "unclosed", "badclose", "doubleclose", "baretag":
		e.cut = op
	case "unknownattr":
		e.attrs = append(e.attrs, attr{name: "other", value: "1"})
	case "unknownchild":
		e.kids = append(e.kids, &element{tag: "other", text: "", self: true, attrs: []attr{{name: "uri", value: "rsync://x/y/z"}}})
	case "textbefore":
		e.before = " text "
	case "cdatabefore":
		e.before = "<![CDATA[<publish/>]]>"
	case "delete":
		if i == 0 {
			*e = element{isText: true, text: "\n"}
		} else {
			root.kids = append(root.kids[:i-1:i-1], root.kids[i:]...)
		}
	case "rename":
		e.tag = "renamed"
	case "case":
		e.tag = strings.ToUpper(e.tag)
	case "swapname":
		o := others[e.tag]
		e.tag = o[r.Intn(len(o))]
	case "twice":
		e.twice = true
	case "wrap":
		e.wrapOpen, e.wrapClose = "<outer>", "</outer>"
	case "deep":
		n := []int{200, 3000, 12000}[r.Intn(3)]
		e.wrapOpen, e.wrapClose = strings.Repeat("<o>", n), strings.Repeat("</o>", n)
	default:
		panic("specification and documents differ: element " + op)
	}
}

func editDoc(r *rand.Rand, t, op string) string {
	first := strings.Index(t, ">") + 1
	switch op {
	case "utf8":
		return `<?xml version="1.0" encoding="utf-8"?>` + t
	case "UTF8":
		return `<?xml version="1.0" encoding="UTF-8"?>` + "\r\n" + t
	case "ascii":
		return `<?xml version="1.0" encoding="us-ascii"?>` + "\n" + t
	case "ASCII":
		return `<?xml version="1.0" encoding="US-ASCII"?>` + "\n" + t
	case "standalone":
		return `<?xml version="1.0" encoding="UTF-8" standalone="yes" ?>` + t
	case "prologquotes":
		return `<?xml version='1.0' encoding='UTF-8'?>` + t
	case "leadspace":
		return "\n\n  " + t
	case "trailspace":
		return t + "\n \t\r\n"
	case "leadcomment":
		return "<!-- <snapshot/> -->\n" + t
	case "trailcomment":
		return t + "<!-- end --><!-- -->\n"
	case "leadpi":
		return "<?stylesheet x?>" + t
	case "trailpi":
		return t + "<?x y?>"
	case "manycomments":
		return strings.Repeat("<!---->\n", 20000) + t
	case "bigcomment":
		return t[:first] + "<!--" + strings.Repeat(" <x ", 500000) + "-->" + t[first:]
	case "crlf":
		return strings.ReplaceAll(strings.ReplaceAll(t, "><", ">\n<"), "\n", "\r\n")
	case "none":
		return ""
	case "blank":
		return " \n"
	case "cut1":
		return t[:first/2]
	case "cut2":
		return t[:first]
	case "cut3":
		return t[:first+(len(t)-first)/3]
	case "cut4":
		return t[:first+(len(t)-first)*2/3]
	case "cut5":
		return t[:strings.LastIndex(t, "<")]
	case "cut6":
		return t[:strings.LastIndex(t, ">")]
	case "html":
		return "<!DOCTYPE html><html><body>" + t + "</body></html>"
	case "json":
		return `{"error": 404}`
	case "binary":
		b := make([]byte, 5000)
		r.Read(b)
		return string(b)
	case "second":
		return t + "\n" + t
	case "baddash":
		return t[:first] + "<!-- a -- b -->" + t[first:]
	case "badpi":
		return t + "<?"
	case "nulltail":
		return t + "\x00\x00"
	case "utf16":
		var b strings.Builder
		b.WriteString("\xfe\xff")
		for i := 0; i < len(t); i++ {
			b.WriteString("\x00" + t[i:i+1])
		}
		return b.String()
	case "bom":
		return "\xef\xbb\xbf" + t
	case "latin1":
		return `<?xml version="1.0" encoding="ISO-8859-1"?>` + t
	case "version11":
		return `<?xml version="1.1"?>` + t
	case "doctype":
		return `<!DOCTYPE rrdp SYSTEM "rrdp.dtd">` + t
	case "doctypeentity":
		return `<!DOCTYPE rrdp [<!ENTITY a "aaaaaaaaaa"><!ENTITY b "&a;&a;&a;&a;&a;&a;&a;&a;">]>` + t
	case "lateprolog":
		return "\n" + `<?xml version="1.0"?>` + t
	case "tailtext":
		return t + "trailing"
	case "badutf8comment":
		return t[:first] + "<!-- \xff\xfe -->" + t[first:]
	}
	panic("specification and documents differ: document " + op)
}

type fetcher map[string]string

func (f fetcher) GetXML(u string) (string, error) {
	if d, ok := f[u]; ok {
		return d, nil
	}
	return "", errors.New("404 " + u)
}

type finding struct {
	Prop []string
	What string
	Case *behaviour
}

func number(s string) int64 {
	if s == "max" {
		return math.MaxInt64
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

func replay(b *behaviour, seed int64) (found []finding) {
	key, _ := json.Marshal(b.Change)
	h := fnv.New64a()
	h.Write(key)
	h.Write([]byte(b.Client))
	r := rand.New(rand.NewSource(int64(h.Sum64()) + seed))
	say := func(p []string, format string, args ...interface{}) {
		found = append(found, finding{p, fmt.Sprintf(format, args...), b})
	}

	ds := docs(r)
	texts := fetcher{}
	lost := map[string]bool{}
	fatal := false
	for name, root := range ds {
		for _, c := range b.Change {
			if c.Doc != name || c.El < 0 {
				continue
			}
			if c.M == "lost" {
				lost[c.Obj] = true
			}
			e := root
			if c.El > 0 {
				e = root.kids[c.El-1]
			}
			switch c.At {
			case "":
				editElement(r, root, c.El, c.Op)
			case "text":
				editText(r, e, c.Op)
			default:
				editAttr(r, e, c.At, c.Op)
			}
		}
		var o strings.Builder
		root.write(&o)
		t := o.String()
		for _, c := range b.Change {
			if c.Doc == name && c.El < 0 {
				t = editDoc(r, t, c.Op)
			}
			fatal = fatal || c.M == "fatal"
		}
		texts[base+name+".xml"] = t
	}

	store := map[string][]byte{}
	for o, v := range b.Start.Has {
		store[uri(o)] = content(o, v)
	}
	start := map[string]string{"A": sess, "B": "0f0f0f0f-1111-2222-3333-444444444444", "": ""}[b.Start.Sess]
	s := &syncpki.RRDPSystem{Path: base + "n.xml", Fetcher: texts, SessionID: start, Serial: number(b.Start.Serial),
		Callback: func(main, url, path string, data []byte, withdraw, snapshot bool, cur int64, args ...interface{}) error {
			if withdraw {
				store[path] = nil
			} else {
				store[path] = append([]byte{}, data...)
			}
			return nil
		}}

	type end struct {
		err  error
		died interface{}
	}
	c := make(chan end, 1)
	go func() {
		var e end
		defer func() {
			e.died = recover()
			c <- e
		}()
		e.err = s.FetchRRDP()
	}()
	var e end
	select {
	case e = <-c:
	case <-time.After(60 * time.Second):
		say([]string{"V08"}, "the RRDP client hangs")
		return
	}
	if e.died != nil {
		say([]string{"V08"}, "the RRDP client panics: %v", e.died)
		return
	}

	// the stored bytes are bytes published under that name
	for o := range b.Start.Has {
		if lost[o] {
			continue
		}
		d := store[uri(o)]
		if len(d) > 0 && !bytes.Equal(d, content(o, 1)) && !bytes.Equal(d, content(o, 2)) {
			say([]string{"S02"}, "bytes are stored under %s that were never published there", o)
			return
		}
	}
	if e.err != nil && (s.SessionID != start || s.Serial != number(b.Start.Serial)) {
		say([]string{"S01"}, "a failed attempt is recorded (%v)", e.err)
		return
	}
	allowed := func(a outcome) bool {
		if a.Ok != (e.err == nil) {
			return false
		}
		if !a.Ok {
			return true
		}
		if s.Serial != number(a.Rec.Serial) || a.Rec.Sess == "A" && s.SessionID != sess || a.Rec.Sess == "?" && s.SessionID == sess {
			return false
		}
		for o, v := range a.Store {
			if v >= 0 && !bytes.Equal(store[uri(o)], content(o, v)) {
				return false
			}
		}
		return true
	}
	for _, a := range b.Outcomes {
		if allowed(a) {
			return
		}
	}
	switch {
	case e.err != nil:
		say([]string{"S01"}, "documents of RFC 8182 are refused: %v", e.err)
	case fatal:
		say([]string{"S01"}, "a document that is not a well-formed document of its kind is taken for one (serial %d recorded)", s.Serial)
	default:
		say([]string{"S02"}, "after a synchronisation without an error (serial %d) the stored objects are not those published", s.Serial)
	}
	return
}

func main() {
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	var bs []*behaviour
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<26)
	for in.Scan() {
		b := &behaviour{}
		if err := json.Unmarshal(in.Bytes(), b); err != nil {
			panic(err)
		}
		bs = append(bs, b)
	}
	var wg sync.WaitGroup
	work := make(chan *behaviour)
	var mu sync.Mutex
	var found []finding
	kinds := map[string]int{}
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for b := range work {
				f := replay(b, seed)
				mu.Lock()
				found = append(found, f...)
				for _, c := range b.Change {
					kinds[strings.Fields(c.M)[0]]++
				}
				mu.Unlock()
			}
		}()
	}
	for _, b := range bs {
		work <- b
	}
	close(work)
	wg.Wait()
	sort.Slice(found, func(i, j int) bool { return found[i].What < found[j].What })
	out := json.NewEncoder(os.Stdout)
	for _, f := range found {
		out.Encode(f)
	}
	out.Encode(map[string]interface{}{"replayed": len(bs), "kinds": kinds})
}
