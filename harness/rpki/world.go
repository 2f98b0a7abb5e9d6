package rpki

import (
	"bytes"
	"crypto/rsa"
	"crypto/sha256"
	"fmt"
	"hash/fnv"
	"math/big"
	"strings"
	"time"
)

// World is one behaviour of spec/Pki.tla as emitted by TLC.
type World struct {
	ID     int
	Topo   string
	Order  string
	SM, SH bool
	Dir    bool // of spec/Dir.tla: directories are read, not manifests
	Faults [][]string
	Fp     []string
	Cas    map[string]struct {
		Parent string
		Files  []string
		Roas   []string
		Why    []string
		Weak   bool
	}
	Roas map[string][]string
	Mfts map[string][]string
	Vroa []string
}

// VRP of the concrete world.
type VRP struct {
	ASN    int64
	Prefix string
	MaxLen int
}

// Built is the concrete content of a world.
type Built struct {
	Files      map[string][]byte // rsync URI -> content
	Unreadable map[string]bool
	TAL        []byte
	TALPath    string
	Keys       map[string]*Key   // object -> key of its certificate
	Path       map[string]string // object -> URI
	Vrps       map[string][]VRP  // ROA -> VRPs
	Extra      map[int64]string  // ASN -> property that forbids it
}

type Options struct {
	T0     time.Time
	Tight  bool // bounds one second away from T0 (in-process), else minutes (real clock)
	Host   string
	ASN    int64 // first origin AS
	Rrdp   string
	Salt   int64
	Ber    func(uri string, d []byte) []byte // the form in which an object is published
	TALURI []string                          // default: the rsync URI of the TA certificate
}

var keyIdx = map[string]int{}

func init() {
	i := 0
	for _, o := range []string{"c0", "c1", "c2", "c3", "c4", "mc0", "mc1", "mc2", "mc3", "mc4",
		"r0a", "r1a", "r1b", "r2a", "r2b", "r3a", "r4a", "x", "stranger", "x2", "x3"} {
		keyIdx[o] = i
		i++
	}
}

// KeyOf returns the key used for an object.
func KeyOf(keys []*Key, o string) *Key { return keys[keyIdx[o]] }

type box struct {
	v4, v6   IPRes
	as       ASRes
	v4s, v6s string
}

func mkbox(v4, v6 string, a, b int64) box {
	return box{P(v4), P(v6), ASRes{a, b}, v4, v6}
}

var boxes = map[string]map[string]box{
	"A": {
		"c0": mkbox("10.0.0.0/8", "2001:db8::/32", 64496, 70000),
		"c1": mkbox("10.1.0.0/16", "2001:db8:1000::/36", 65000, 65999),
		"c2": mkbox("10.2.0.0/16", "2001:db8:2000::/36", 66000, 66999),
		"c3": mkbox("10.1.64.0/18", "2001:db8:1400::/38", 65200, 65499),
		"c4": mkbox("10.1.80.0/20", "2001:db8:1500::/40", 65250, 65299),
	},
	"B": {
		"c0": mkbox("10.0.0.0/8", "2001:db8::/32", 64496, 70000),
		"c1": mkbox("10.1.0.0/16", "2001:db8:1000::/36", 65000, 65999),
		"c2": mkbox("10.1.64.0/18", "2001:db8:1400::/38", 65200, 65499),
	},
}

// third and fourth octets of the ROA prefixes, inside the box of the CA but not at its edges
var roaNet = map[string]map[string][2]string{
	"A": {
		"r1a": {"10.1.32.0", "2001:db8:1100"}, "r1b": {"10.1.40.0", "2001:db8:1200"},
		"r2a": {"10.2.32.0", "2001:db8:2100"}, "r3a": {"10.1.72.0", "2001:db8:1480"},
		"r4a": {"10.1.84.0", "2001:db8:1580"},
	},
	"B": {
		"r0a": {"10.9.32.0", "2001:db8:9100"}, "r1a": {"10.1.32.0", "2001:db8:1100"},
		"r2a": {"10.1.72.0", "2001:db8:1480"}, "r2b": {"10.1.84.0", "2001:db8:1500"},
	},
}

var roaOrder = []string{"r0a", "r1a", "r1b", "r2a", "r2b", "r3a", "r4a"}

// RoaIndex numbers the ROAs (their origin AS is Options.ASN + index).
func RoaIndex(r string) int64 {
	for i, x := range roaOrder {
		if x == r {
			return int64(i)
		}
	}
	panic(r)
}

func ipAdd(ip []byte, d int) []byte {
	n := new(big.Int).SetBytes(ip)
	n.Add(n, big.NewInt(int64(d)))
	b := make([]byte, len(ip))
	return n.FillBytes(b)
}
func lastOf(p IPRes) []byte {
	b := append([]byte{}, p.Min...)
	for i := p.Plen; i < len(b)*8; i++ {
		b[i/8] |= 1 << (7 - uint(i%8))
	}
	return b
}

// Build turns the abstract world into bytes.
func Build(w *World, keys []*Key, o Options) *Built {
	b := &Built{Files: map[string][]byte{}, Unreadable: map[string]bool{}, Keys: map[string]*Key{},
		Path: map[string]string{}, Vrps: map[string][]VRP{}, Extra: map[int64]string{}}
	hs := fnv.New64a()
	fmt.Fprint(hs, w.Topo, w.Order, w.SM, w.SH, w.Faults, o.Salt)
	h := hs.Sum64()
	vary := func(tag string, n int) int { // a reproducible choice among n variants
		f := fnv.New64a()
		fmt.Fprint(f, h, tag)
		return int(f.Sum64() >> 8 % uint64(n))
	}
	has := func(obj string, kinds ...string) bool {
		for _, f := range w.Faults {
			if f[0] == obj {
				for _, k := range kinds {
					if f[1] == k {
						return true
					}
				}
			}
		}
		return false
	}
	near, far := time.Hour, 24*time.Hour
	if o.Tight {
		near, far = time.Second, time.Hour
	}
	window := func(obj string, ee bool) (time.Time, time.Time) {
		nb, na := o.T0.Add(-far), o.T0.Add(far)
		switch vary("na"+obj, 6) {
		case 0:
			na = time.Date(2051, 3, 4, 5, 6, 7, 0, time.UTC)
		case 1:
			na = time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)
		}
		if vary("nb"+obj, 6) == 0 {
			nb = time.Date(1999, 12, 31, 23, 59, 59, 0, time.UTC)
		}
		p := ""
		if ee {
			p = "ee"
		}
		if o.Tight && has(obj, "edgenb") {
			nb = o.T0
		}
		if o.Tight && has(obj, "edgena") {
			na = o.T0
		}
		if has(obj, p+"exp") {
			na = o.T0.Add(-near)
		}
		if has(obj, p+"notyet") {
			nb = o.T0.Add(near)
		}
		return nb, na
	}
	sameName := vary("names", 4) == 0
	subj := func(c string) string {
		if sameName {
			return "CA"
		}
		return "CA-" + c
	}
	kof := func(obj string) *Key { return KeyOf(keys, obj) }
	bx := boxes[w.Topo]
	cas := []string{"c0", "c1", "c2", "c3", "c4"}
	if w.Topo == "B" {
		cas = cas[:3]
	}
	par := map[string]string{}
	for c, v := range w.Cas {
		par[c] = v.Parent
	}
	// effective holdings, for choosing what lies just outside
	partial := func(c string) bool { return vary("inh"+c, 3) == 0 } // only IPv4 is inherited
	var eff func(c string) box
	eff = func(c string) box {
		if !has(c, "inherit") {
			return bx[c]
		}
		e := eff(par[c])
		if partial(c) {
			e = box{v4: e.v4, v4s: e.v4s, v6: bx[c].v6, v6s: bx[c].v6s, as: bx[c].as}
		}
		return e
	}
	slash := "/"
	if vary("slash", 4) == 0 {
		slash = ""
	}
	base := "rsync://" + o.Host + "/repo/"
	// CAs may share the directory of their parent
	shared := func(c string) bool {
		for _, f := range w.Faults {
			if f[1] == "squat" {
				return false
			}
		}
		return has(c, "shared")
	}
	dir := func(c string) string {
		for shared(c) {
			c = par[c]
		}
		return base + "d" + c[1:] + "/"
	}
	name := func(c, name string) string {
		if shared(c) {
			name = c + "-" + name
		}
		return name
	}
	kids := map[string][]string{}
	for _, c := range cas {
		if c != "c0" {
			kids[par[c]] = append(kids[par[c]], c)
		}
	}
	b.Path["c0"] = base + "ta.cer"
	form := vary("serial", 3)
	serial := map[string]int64{}
	// In a world of Dir.tla the names are in the order of the files
	place := func(c, obj, n string) {
		n = name(c, n)
		if w.Dir {
			n = fmt.Sprintf("%02d%s%s", 10+indexOf(w.Cas[c].Files, obj), []string{"", "", ".", ".cer."}[vary("dots"+obj, 4)], n)
		}
		b.Path[obj] = dir(c) + n
	}
	for _, c := range cas {
		place(c, "m"+c, "ca.mft")
		place(c, "l"+c, "ca.crl")
		serial["m"+c] = 1
		n := int64(2)
		for i, r := range w.Cas[c].Roas {
			place(c, r, string(rune('a'+i))+".roa")
			serial[r] = n
			n++
		}
		for i, k := range kids[c] {
			place(c, k, string(rune('w'+i+vary("rot"+c, 3)))+".cer")
			serial[k] = n
			n++
		}
	}
	serial["c0"] = 1
	issuerKey := func(obj, issuer string, ee bool) *Key {
		if has(obj, "wrongkey") && !ee || has(obj, "eewrongkey") && ee {
			switch vary("wk"+obj, 3) {
			case 0:
				return kof("stranger")
			case 1: // some other CA of the same tree
				for _, c := range cas {
					if c != issuer {
						return kof(c)
					}
				}
			}
			return kof(obj) // self-signed
		}
		return kof(issuer)
	}
	other := func(c string) string { // another CA that is not above c
		var l []string
		for _, x := range cas {
			above := false
			for y := c; y != ""; y = par[y] {
				above = above || y == x
			}
			if !above {
				l = append(l, x)
			}
		}
		if len(l) == 0 {
			return par[c]
		}
		return l[vary("other"+c, len(l))]
	}
	// resources with an excess beyond what issuer effectively holds
	excess := func(res *Resources, obj, issuer string, four, six, as bool) {
		e := eff(issuer)
		v := vary("over"+obj, 4)
		if four {
			res.V4Inherit = false
			switch v {
			case 0:
				res.V4 = append(res.V4, P("192.0.2.0/24"))
			case 1:
				res.V4 = append(res.V4, IPRes{Min: e.v4.Min, Max: ipAdd(lastOf(e.v4), 1)})
			case 2:
				res.V4 = append([]IPRes{{Min: ipAdd(e.v4.Min, -1), Max: lastOf(e.v4)}}, res.V4...)
			case 3:
				res.V4 = append(res.V4, P("0.0.0.0/0"))
			}
		}
		if six {
			res.V6Inherit = false
			switch v {
			case 0:
				res.V6 = append(res.V6, P("2001:db9::/48"))
			case 1:
				res.V6 = append(res.V6, IPRes{Min: e.v6.Min, Max: ipAdd(lastOf(e.v6), 1)})
			case 2:
				res.V6 = append([]IPRes{{Min: ipAdd(e.v6.Min, -1), Max: lastOf(e.v6)}}, res.V6...)
			case 3:
				res.V6 = append(res.V6, P("::/0"))
			}
		}
		if as {
			res.ASInherit = false
			switch v {
			case 0:
				res.AS = append(res.AS, ASRes{e.as.Max + 1, e.as.Max + 1})
			case 1:
				res.AS = append(res.AS, ASRes{e.as.Min, e.as.Max + 1})
			case 2:
				res.AS = append([]ASRes{{e.as.Min - 1, e.as.Max}}, res.AS...)
			case 3:
				res.AS = append(res.AS, ASRes{0, 4294967295})
			}
		}
	}
	put := func(obj string, data []byte) { // stores a file subject to file faults
		p := b.Path[obj]
		switch {
		case has(obj, "missing"):
		case has(obj, "unreadable"):
			b.Unreadable[p] = true
			b.Files[p] = []byte{0x30, 0x82, 0x03} // truncated header
		case has(obj, "garbage"):
			b.Files[p] = Seq(I64(int64(h>>1)), Octet([]byte("garbage")))
		default:
			if o.Ber != nil {
				data = o.Ber(p, data)
			}
			b.Files[p] = data
		}
	}
	// CA certificates
	for _, c := range cas {
		bb := bx[c]
		res := Resources{V4: []IPRes{bb.v4}, V6: []IPRes{bb.v6}, AS: []ASRes{bb.as}, ReverseFam: vary("rev"+c, 2) == 0}
		if vary("rdi"+c, 4) == 0 {
			res.RDI = []ASRes{bb.as}
		}
		if has(c, "inherit") {
			res = Resources{V4Inherit: true, V6Inherit: true, ASInherit: true}
			if partial(c) {
				res = Resources{V4Inherit: true, V6: []IPRes{bb.v6}, AS: []ASRes{bb.as}}
			}
		}
		if has(c, "range") {
			res = Resources{
				V4: []IPRes{{Min: bb.v4.Min, Max: ipAdd(bb.v4.Min, 1)}, {Min: ipAdd(bb.v4.Min, 3), Max: lastOf(bb.v4)}},
				V6: []IPRes{{Min: ipAdd(bb.v6.Min, 1), Max: ipAdd(lastOf(bb.v6), 0)}},
				AS: []ASRes{{bb.as.Min, bb.as.Min}, {bb.as.Min + 1, bb.as.Max}}}
		}
		issuer := par[c]
		if issuer != "" {
			excess(&res, c, issuer, has(c, "over4"), has(c, "over6"), has(c, "overas"))
		}
		nb, na := window(c, false)
		cert := &Cert{Subject: subj(c), Serial: serial[c], Big: form, NB: nb, NA: na, Key: kof(c), CA: true, Res: res,
			Repo: strings.TrimSuffix(dir(c), "/") + slash, Mft: b.Path["m"+c], Rrdp: o.Rrdp}
		if has(c, "crossmft") { // leads to the manifest of another CA
			cert.Mft = b.Path["m"+other(c)]
		}
		if has(c, "squat") { // publishes in the directory of another CA
			cert.Repo = dir(other(c))
		}
		cert.SIAForm = vary("sia"+c, 3)
		if has(c, "noca") {
			cert.CA, cert.SelfNoCA = false, true
		}
		if issuer == "" {
			cert.Issuer = cert.Subject
			if vary("taaki", 2) == 0 {
				cert.AKI = kof(c).SKI
			}
			k := kof(c)
			if has(c, "selfsig") && vary("selfsig", 2) == 0 {
				k = kof("stranger")
			}
			b.Keys[c] = kof(c)
			put(c, cert.Sign(k, has(c, "selfsig") && k == kof(c)))
			continue
		}
		cert.Issuer = subj(issuer)
		cert.AKI = kof(issuer).SKI
		if has(c, "akiwrong") {
			cert.AKI = kof("stranger").SKI
			if issuer != "c0" && vary("aki"+c, 2) == 0 {
				cert.AKI = kof("c0").SKI
			}
		}
		cert.CRL = b.Path["l"+issuer]
		cert.AIA = b.Path[issuer]
		b.Keys[c] = kof(c)
		put(c, cert.Sign(issuerKey(c, issuer, false), has(c, "sig")))
	}
	ee := func(obj, issuer string, key *Key, res Resources, ser int64, ctype, content []byte, o2 CMSOpt) []byte {
		nb, na := window(obj, true)
		cert := &Cert{Subject: "EE-" + obj, Issuer: subj(issuer), Serial: ser, Big: form, NB: nb, NA: na, Key: key,
			AKI: kof(issuer).SKI, CRL: b.Path["l"+issuer], AIA: b.Path[issuer], SignedObject: b.Path[obj], Res: res}
		der := cert.Sign(issuerKey(obj, issuer, true), has(obj, "eesig"))
		return CMS(ctype, content, der, key, o.T0.Add(-time.Minute), o2)
	}
	opt := func(obj string) CMSOpt {
		v := vary("cms"+obj, 7)
		form := 0
		if has(obj, "digest") && v > 2 {
			form = v - 2
		}
		return CMSOpt{FlipSig: has(obj, "cmssig"), NoSigner: has(obj, "nosigner"), OldSig: has(obj, "cmsold"),
			Forge3: has(obj, "cmsforge"),
			Digest: has(obj, "digest") && v == 0, NoDigest: has(obj, "digest") && v == 1, NoAttrs: has(obj, "digest") && v == 2, DigestForm: form,
			BinTime: vary("bintime"+obj, 4) == 0}
	}
	ekey := func(obj string) *Key {
		k := kof(obj)
		if has(obj, "cmsforge") {
			k = NewKey(&rsa.PrivateKey{PublicKey: rsa.PublicKey{N: new(big.Int).Mul(k.Priv.N, kof("stranger").Priv.N), E: 3}})
		}
		return k
	}
	xasn := o.ASN + 10
	extraFor := func(prop string) int64 {
		b.Extra[xasn] = prop
		xasn++
		return xasn - 1
	}
	// a valid ROA published under CA c, for an extra object
	extraRoa := func(uri, c string, key *Key, ser, asn int64, prefix string) []byte {
		cert := &Cert{Subject: "EE-extra", Issuer: subj(c), Serial: ser, Big: form, NB: o.T0.Add(-far), NA: o.T0.Add(far), Key: key,
			AKI: kof(c).SKI, CRL: b.Path["l"+c], AIA: b.Path[c], SignedObject: uri, Res: Resources{V4: []IPRes{P(prefix)}}}
		der := cert.Sign(kof(c), false)
		return CMS(OIDRoa, RoaContent(big.NewInt(asn), []RoaEntry{{prefix, -1, 0}}), der, key, o.T0, CMSOpt{})
	}
	dup := map[string][]FileHash{} // CA -> extra entries: "first:" or "last:" name
	dupFirst := map[string]bool{}
	// ROAs
	for _, c := range cas {
		for _, r := range w.Cas[c].Roas {
			nt := roaNet[w.Topo][r]
			asn := o.ASN + RoaIndex(r)
			var es []RoaEntry
			v4 := nt[0] + "/24"
			p3 := strings.Split(nt[0], ".")
			v4b := fmt.Sprintf("%s.%s.%s.0/22", p3[0], p3[1], p3[2])
			v6 := nt[1] + "::/48"
			switch vary("roa"+r, 3) {
			case 0:
				es = []RoaEntry{{v4, -1, 0}, {v6, 64, 0}}
			case 1:
				es = []RoaEntry{{v4b, 24, 0}, {v4, 32, 0}, {v6, -1, 0}, {v6, 128, 0}}
			case 2:
				es = []RoaEntry{{v4b, 22, 0}}
			}
			for _, e := range es {
				var l int
				fmt.Sscanf(e.Prefix[strings.Index(e.Prefix, "/")+1:], "%d", &l)
				m := e.MaxLen
				if m < 0 {
					m = l
				}
				b.Vrps[r] = append(b.Vrps[r], VRP{asn, strings.Replace(e.Prefix, "00::/48", "00::/48", 1), m})
			}
			res := Resources{V4: []IPRes{P(v4b)}, V6: []IPRes{P(v6)}}
			if vary("roa"+r, 3) == 2 {
				res.V6 = nil
			}
			bigasn := big.NewInt(asn)
			bad := func(e RoaEntry) { // an offending entry, before or after the good ones
				if vary("bad"+r, 2) == 0 {
					es = append([]RoaEntry{e}, es...)
				} else {
					es = append(es, e)
				}
			}
			if has(r, "entryout") {
				// not covered by the end-entity certificate, though by the CA
				bad(RoaEntry{bx[c].v4s, -1, 0})
			}
			if has(r, "badmaxlen") {
				if vary("bm"+r, 2) == 0 {
					bad(RoaEntry{v4, 33, 0})
				} else {
					res.V6 = []IPRes{P(v6)}
					bad(RoaEntry{v6, 129, 0})
				}
			}
			if has(r, "shortmaxlen") {
				bad(RoaEntry{v4, []int{23, 0, 21}[vary("sm"+r, 3)], 0})
			}
			if has(r, "badplen") {
				bad(RoaEntry{v4, -1, 33 + vary("bp"+r, 8)})
			}
			if has(r, "badasn") {
				bigasn = []*big.Int{big.NewInt(4294967296), big.NewInt(4294967296 + asn), new(big.Int).Lsh(big.NewInt(1), 62)}[vary("ba"+r, 3)]
				b.Extra[bigasn.Int64()] = "V07"
			}
			if has(r, "negasn") {
				bigasn = big.NewInt(-asn)
				b.Extra[-asn] = "V07"
			}
			excess(&res, r, c, has(r, "eeover4"), has(r, "eeover6"), false)
			data := ee(r, c, ekey(r), res, serial[r], OIDRoa, RoaContent(bigasn, es), opt(r))
			b.Keys[r] = ekey(r)
			put(r, data)
			if has(r, "republish", "skidup") {
				o2 := other(c) // listed by another CA, too
				u := dir(o2) + "copy-" + r + ".roa"
				d := data
				if has(r, "skidup") { // not a copy: an object of its own, with the same key identifier
					o2 = "c1"
					u = dir(o2) + "copy-" + r + ".roa"
					k := *kof("x3")
					k.SKI = kof(r).SKI
					d = extraRoa(u, o2, &k, 27, extraFor("ok"), bx[o2].v4s)
				}
				if b.Files[b.Path[r]] != nil || has(r, "missing") {
					b.Files[u] = d
					dup[o2] = append(dup[o2], FileHash{u[len(dir(o2)):], Hash(d)})
					dupFirst[o2] = vary("dup"+r, 2) == 0
				}
			}
			if has(r, "duprev") {
				// another object with the same serial number
				u := dir(c) + "dup" + r + ".roa"
				d := extraRoa(u, c, kof("x"), serial[r], extraFor(map[bool]string{true: "V03", false: "ok"}[contains(w.Roas[r], "V03")]), v4)
				b.Files[u] = d
				dup[c] = append(dup[c], FileHash{u[len(dir(c)):], Hash(d)})
				dupFirst[c] = vary("dup"+r, 2) == 0
			}
		}
	}
	// CRLs
	for _, c := range cas {
		l := "l" + c
		crl := &CRL{Issuer: subj(c), This: o.T0.Add(-far), Next: o.T0.Add(far), AKI: kof(c).SKI, Number: 5, Serials: []int64{99}, Big: form}
		if vary("crlempty"+c, 3) == 0 {
			crl.Serials = nil
		}
		for x, s := range serial {
			if x == "c0" {
				continue
			}
			if has(x, "rev", "eerev", "duprev") && (x[0] == 'c' && par[x] == c || x == "m"+c || x[0] == 'r' && contains(w.Cas[c].Roas, x)) {
				crl.Serials = append(crl.Serials, s)
			}
		}
		for n := []int{0, 0, 40, 400}[vary("crlmore"+c, 4)]; n > 0; n-- {
			crl.Serials = append(crl.Serials, int64(1000+n))
		}
		if vary("crlorder"+c, 3) > 0 {
			sortInt64(crl.Serials)
		}
		k := kof(c)
		flip := false
		all := func() {
			crl.Serials = nil
			for i := int64(1); i <= 30; i++ {
				crl.Serials = append(crl.Serials, i)
			}
		}
		if has(l, "badsig") {
			all()
			flip = true
		}
		if has(l, "wrongkey") {
			all()
			k = kof("stranger")
		}
		if has(l, "crossaki") { // claims to be the CRL of another CA
			all()
			other := cas[(indexOf(cas, c)+1+vary("ca"+c, len(cas)-1))%len(cas)]
			crl.AKI = kof(other).SKI
			crl.Issuer = subj(other)
		}
		if has(l, "noaki") {
			all()
			switch vary("na"+c, 4) {
			case 0:
				crl.AKI = kof("stranger").SKI
			case 1:
				crl.NoAKIExt = true
			case 2:
				crl.RawAKI = []byte{0x30, 0}
			case 3:
				crl.AKI = nil
			}
		}
		put(l, crl.Sign(k, flip))
	}
	// CRLs of other CAs on the manifest of a CA
	for _, c := range cas {
		for i, x := range []string{"c1", "mc1"} {
			l := fmt.Sprint("lc", i)
			if !has(l, "late"+c) {
				continue
			}
			f := []string{"y", "z"}[i] + c
			place(c, f, fmt.Sprintf("%d.crl", i))
			crl := &CRL{Issuer: subj(l[1:]), This: o.T0.Add(-far), Next: o.T0.Add(far), AKI: kof(l[1:]).SKI, Number: 6, Serials: []int64{serial[x], 99}, Big: form}
			sortInt64(crl.Serials)
			put(f, crl.Sign(kof(l[1:]), false))
		}
	}
	// manifests
	for _, c := range cas {
		m := "m" + c
		var fl []FileHash
		for _, f := range w.Cas[c].Files {
			if w.Dir && (f[0] == 'm' || has(f, "unlisted")) {
				continue
			}
			if f[0] == 'g' {
				x := []byte("a file of another type")
				if !has(m, "gbrmissing") {
					b.Files[dir(c)+name(c, "other")+[]string{".gbr", ".asa", ".txt", ""}[vary("gbr"+c, 4)]] = Octet(x)
				}
				d := Octet(x)
				if has(m, "gbrhash") {
					d = append(d, 0)
				}
				fl = append(fl, FileHash{name(c, "other") + []string{".gbr", ".asa", ".txt", ""}[vary("gbr"+c, 4)], Hash(d)})
				continue
			}
			d := b.Files[b.Path[f]]
			if d == nil {
				d = []byte("absent " + f)
			}
			hh := sha256.Sum256(d)
			if has(c, "squat") { // the file of the other CA at that place
				if x := b.Files[dir(other(c))+b.Path[f][len(dir(c)):]]; x != nil {
					hh = sha256.Sum256(x)
					if vary("squat"+f, 2) == 0 {
						hh[0] ^= 1
					}
				}
			}
			if has(f, "hash") {
				if vary("hash"+f, 2) == 0 {
					hh[31] ^= 1
				} else {
					hh = sha256.Sum256(append(append([]byte{}, d...), 0))
				}
			}
			hb := hh[:]
			if has(f, "hashempty") {
				hb = [][]byte{{}, hh[:16], append(append([]byte{}, hh[:]...), 0)}[vary("he"+f, 3)]
			}
			fl = append(fl, FileHash{b.Path[f][len(dir(c)):], hb})
			if !has(c, "squat") && vary("twice"+f, 12) == 0 {
				fl = append(fl, fl[len(fl)-1])
			}
		}
		if x := dup[c]; x != nil {
			if dupFirst[c] {
				fl = append(append([]FileHash{}, x...), fl...)
			} else {
				fl = append(fl, x...)
			}
		}
		if has(m, "dotdot") {
			u := base + "out" + c[1:] + "/evil.roa"
			d := extraRoa(u, c, kof("x"), 25, extraFor("V05"), bx[c].v4s)
			b.Files[u] = d
			up := []string{"../out", "sub/../../out", "./../out", "sub/../../d" + c[1:] + "/../out"}[vary("up"+c, 4)]
			fl = append(fl, FileHash{up + c[1:] + "/evil.roa", Hash(d)})
		}
		if vary("unk"+c, 3) == 0 { // a file of another type
			u := dir(c) + "info.gbr"
			b.Files[u] = Octet([]byte("ghostbusters"))
			fl = append(fl, FileHash{"info.gbr", Hash(b.Files[u])})
		}
		if vary("hid"+c, 3) == 0 && !w.Dir { // a valid ROA that is not on the manifest
			u := dir(c) + name(c, "hidden.roa")
			d := extraRoa(u, c, kof("x2"), 26, extraFor("V05"), bx[c].v4s)
			b.Files[u] = d
		}
		this, next := o.T0.Add(-far), o.T0.Add(far)
		if o.Tight && has(m, "edgenb") {
			this = o.T0
		}
		if o.Tight && has(m, "edgena") {
			next = o.T0
		}
		if has(m, "stale") {
			next = o.T0.Add(-near)
		}
		if has(m, "future") {
			this = o.T0.Add(near)
		}
		res := Resources{V4Inherit: true, V6Inherit: true, ASInherit: true}
		if has(m, "inherit") != (c == "c2" || c == "c3") {
			e := eff(c)
			res = Resources{V4: []IPRes{e.v4}, V6: []IPRes{e.v6}, AS: []ASRes{e.as}}
			rng := has(c, "range")
			for x := c; has(x, "inherit"); x = par[x] {
				rng = rng || has(par[x], "range")
			}
			if rng {
				res = Resources{V4Inherit: true, V6Inherit: true, ASInherit: true}
			}
		}
		number := big.NewInt(7)
		switch vary("mnum"+c, 4) {
		case 0:
			number.Lsh(number, 63)
		case 1:
			number.Lsh(number, 150)
		}
		excess(&res, m, c, has(m, "eeover4"), has(m, "eeover6"), false)
		put(m, ee(m, c, ekey(m), res, serial[m], OIDManifest, ManifestContentN(number, this, next, fl), opt(m)))
		b.Keys[m] = ekey(m)
	}
	uris := o.TALURI
	if uris == nil {
		uris = []string{b.Path["c0"]}
	}
	tk := kof("c0")
	if has("c0", "talkey") {
		switch vary("talkey", 3) {
		case 0:
			tk = kof("stranger")
		case 1: // same modulus, other exponent
			tk = NewKey(&rsa.PrivateKey{PublicKey: rsa.PublicKey{N: tk.Priv.N, E: 3}})
		case 2: // modulus differs in the last bit only
			tk = NewKey(&rsa.PrivateKey{PublicKey: rsa.PublicKey{N: new(big.Int).Xor(tk.Priv.N, big.NewInt(2)), E: tk.Priv.E}})
		}
	}
	b.TAL = TAL(uris, tk)
	b.TALPath = "tals/" + o.Host + ".tal"
	return b
}

func contains(l []string, s string) bool { return indexOf(l, s) >= 0 }
func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}
func sortInt64(s []int64) {
	for i := range s {
		for j := i; j > 0 && s[j-1] > s[j]; j-- {
			s[j-1], s[j] = s[j], s[j-1]
		}
	}
}

var _ = bytes.Equal
