// Replays behaviours of Sign.tla and Msg.tla on validator/lib and ca.
package main

import (
	"bufio"
	"bytes"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/big"
	mrand "math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cloudflare/cfrpki/ca"
	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/vh/rpki"
)

type msg struct {
	Content, Time, Key, Cert int
	Form                     string
}
type behaviour struct {
	Kind    string
	M       []msg
	Pick    map[string]int
	Crl     bool
	Valid   bool
	Content int
	Time    int
	// Msg.tla
	Type, Spelling, Damage string
	Pdus, Meaning          []struct {
		P string
		N int
	}
}

var (
	files  int64
	keys   []*rsa.PrivateKey
	certs  [][]byte
	crls   []byte
	seed   int64
	outMu  sync.Mutex
	enc    = json.NewEncoder(os.Stdout)
	lax    = &librpki.DecoderConfig{ValidateStrict: false}
	layout = "20060102150405Z"
)

func bad(prop, what string, c interface{}) {
	outMu.Lock()
	enc.Encode(map[string]interface{}{"prop": prop, "what": what, "case": c})
	outMu.Unlock()
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---- the contents

func ipnet(s string) *net.IPNet {
	_, n, err := net.ParseCIDR(s)
	must(err)
	return n
}

func roa(c int) (int, []*librpki.ROAEntry) {
	r := mrand.New(mrand.NewSource(seed*100 + int64(c)))
	var es []*librpki.ROAEntry
	for i := 0; i < []int{1, 2, 7, 300, 1, 3, 40}[(c+int(seed))%7]; i++ {
		l := 8 + r.Intn(17)
		ip := net.IPv4(byte(1+r.Intn(200)), byte(r.Intn(256)), byte(r.Intn(256)), 0).Mask(net.CIDRMask(l, 32))
		es = append(es, &librpki.ROAEntry{IPNet: &net.IPNet{IP: ip, Mask: net.CIDRMask(l, 32)}, MaxLength: l + r.Intn(33-l)})
	}
	if r.Intn(2) == 0 {
		es = append(es, &librpki.ROAEntry{IPNet: ipnet("2001:db8::/32"), MaxLength: 48})
	}
	return []int{0, 1, 64512, 1 << 31, 1<<32 - 1}[(c+int(seed)/7)%5], es
}

func showRoa(asn int, es []*librpki.ROAEntry) string {
	s := fmt.Sprintf("AS%d", asn)
	for _, e := range es {
		s += fmt.Sprintf(" %v-%d", e.IPNet, e.MaxLength)
	}
	return s
}

func mft(c int) librpki.ManifestContent {
	r := mrand.New(mrand.NewSource(seed*100 + int64(c)))
	n := big.NewInt(int64(c))
	if r.Intn(2) == 0 {
		n.Lsh(n, 140)
	}
	m := librpki.ManifestContent{ManifestNumber: n, ThisUpdate: time.Date(2020+c, 2, 3, 4, 5, 6, 0, time.UTC),
		NextUpdate: time.Date(2049+r.Intn(3), 12, 31, 23, 59, 59, 0, time.UTC), FileHashAlg: librpki.SHA256OID}
	for i := 0; i < []int{0, 1, 3, 500, 1, 2, 600}[(c+int(seed))%7]; i++ {
		h := make([]byte, 32)
		r.Read(h)
		m.FileList = append(m.FileList, librpki.File{Name: fmt.Sprintf("file-%d_%d.roa", c, i), Hash: asn1.BitString{Bytes: h, BitLength: 256}})
	}
	return m
}

func showMft(m librpki.ManifestContent) string {
	s := fmt.Sprintf("%v %s %s %v", m.ManifestNumber, m.ThisUpdate.UTC().Format(layout), m.NextUpdate.UTC().Format(layout), m.FileHashAlg)
	for _, f := range m.FileList {
		s += fmt.Sprintf(" %s:%x", f.Name, f.GetHash())
	}
	return s
}

func xmlContent(c int) []byte {
	r := mrand.New(mrand.NewSource(seed*100 + int64(c)))
	return []byte(fmt.Sprintf(`%s<msg n="%d">%s</msg>%s`, []string{"", " ", "\r\n"}[r.Intn(3)], c, strings.Repeat("x", []int{0, 1, 100, 107, 235, 65536, 200000}[(c+int(seed))%7]+r.Intn(2)), []string{"", " ", "\n"}[r.Intn(3)]))
}

func signTime(t int) time.Time {
	if t == 0 {
		return time.Time{}
	}
	all := []time.Time{time.Date(2024, 2, 29, 23, 59, 59, 0, time.UTC), time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC),
		time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1999, 12, 31, 0, 0, 0, 0, time.UTC), time.Date(1950, 1, 1, 0, 0, 1, 0, time.UTC)}
	at := all[(int(seed)+3*t)%len(all)]
	if (int(seed)+t)%2 == 0 { // the same moment, elsewhere
		return at.In(time.FixedZone("elsewhere", -3*3600))
	}
	return at
}

func content(kind string, c int) (value interface{}, encap []byte) {
	switch kind {
	case "roa":
		asn, es := roa(c)
		v, err := librpki.EncodeROAEntries(asn, es)
		must(err)
		encap, err = librpki.ROAToEncap(v)
		must(err)
		return v, encap
	case "mft":
		v, err := librpki.EncodeManifestContent(mft(c))
		must(err)
		encap, err = librpki.ManifestToEncap(v)
		must(err)
		return v, encap
	}
	v, err := librpki.EncodeXMLData(xmlContent(c))
	must(err)
	encap, err = librpki.EContentToEncapBF(v.EContent.FullBytes, true)
	must(err)
	return v, encap
}

type object struct {
	once sync.Once
	data []byte
}

var (
	madeMu sync.Mutex
	made   = map[string]*object{}
)

func sign(kind string, m msg, crl bool) []byte {
	madeMu.Lock()
	k := fmt.Sprint(kind, m, crl)
	e := made[k]
	if e == nil {
		e = &object{}
		made[k] = e
	}
	madeMu.Unlock()
	e.once.Do(func() { e.data = makeObject(kind, m, crl) })
	return e.data
}

func makeObject(kind string, m msg, crl bool) []byte {
	v, encap := content(kind, m.Content)
	cms, err := librpki.EncodeCMS(nil, v, signTime(m.Time))
	must(err)
	if crl {
		must(cms.AddCRLs(crls))
	}
	ski, err := librpki.HashRSAPublicKey(keys[m.Cert].PublicKey)
	must(err)
	must(cms.Sign(rand.Reader, ski, encap, keys[m.Key], certs[m.Cert]))
	reform(cms, m)
	d, err := asn1.Marshal(*cms)
	must(err)
	return d
}

// other forms of the signed attributes, properly signed
func reform(cms *librpki.CMS, m msg) {
	si := &cms.SignedData.SignerInfos[0]
	digest, other := librpki.MessageDigest, asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 9999}
	octets := func(b []byte) asn1.RawValue {
		d, err := asn1.Marshal(b)
		must(err)
		return asn1.RawValue{FullBytes: d}
	}
	var as []librpki.Attribute
	for _, a := range si.SignedAttrs {
		if m.Form == "notime" && a.AttrType.Equal(librpki.SigningTime) {
			continue
		}
		if a.AttrType.Equal(digest) {
			v := a.AttrValue[0].Bytes
			if v == nil {
				v = a.AttrValue[0].FullBytes[2:]
			}
			switch m.Form {
			case "nodigest":
				continue
			case "short":
				a.AttrValue = []asn1.RawValue{octets(v[:[]int{1, 16, 20, 31}[m.Content%4]])}
			case "nothing":
				a.AttrValue = []asn1.RawValue{octets(nil)}
			case "two":
				a.AttrValue = []asn1.RawValue{octets(make([]byte, 32)), octets(v)}
			case "renamed":
				a.AttrType = other
			}
		}
		as = append(as, a)
	}
	switch m.Form {
	case "good":
		return
	case "more":
		as = append(as, librpki.Attribute{AttrType: other, AttrValue: []asn1.RawValue{octets([]byte("x"))}})
	}
	si.SignedAttrs = as
	var set [][]byte
	for _, a := range as {
		d, err := asn1.Marshal(a)
		must(err)
		set = append(set, d)
	}
	sort.Slice(set, func(i, j int) bool { return bytes.Compare(set[i], set[j]) < 0 })
	h := sha256.Sum256(rpki.Set(set...))
	var err error
	si.Signature, err = rsa.SignPKCS1v15(rand.Reader, keys[m.Key], crypto.SHA256, h[:])
	must(err)
}

// what the library reads
func read(kind string, d []byte) (valid bool, says string, at time.Time, err error) {
	switch kind {
	case "roa":
		r, err := lax.DecodeROA(d)
		if err != nil {
			return false, "", at, err
		}
		return r.InnerValid && r.InnerValidityError == nil, showRoa(r.ASN, r.Entries), r.SigningTime, nil
	case "mft":
		r, err := lax.DecodeManifest(d)
		if err != nil {
			return false, "", at, err
		}
		c, err := librpki.DecodeCMS(d)
		must(err)
		at, _ = c.GetSigningTime()
		return r.InnerValid && r.InnerValidityError == nil, showMft(r.Content), at, nil
	}
	r, err := librpki.DecodeXML(d)
	if err != nil {
		return false, "", at, err
	}
	c, err := librpki.DecodeCMS(d)
	must(err)
	at, _ = c.GetSigningTime()
	return r.InnerValid && r.InnerValidityError == nil, string(r.Content), at, nil
}

func says(kind string, c int) string {
	switch kind {
	case "roa":
		return showRoa(roa(c))
	case "mft":
		return showMft(mft(c))
	}
	return string(xmlContent(c))
}

func assemble(b *behaviour) []byte {
	parts := make([]*librpki.CMS, 3)
	for i, m := range b.M {
		c, err := librpki.DecodeCMS(sign(b.Kind, m, b.Crl))
		must(err)
		parts[i+1] = c
	}
	out := parts[b.Pick["content"]]
	si := out.SignedData.SignerInfos[0]
	a := parts[b.Pick["attrs"]].SignedData.SignerInfos[0].SignedAttrs
	s := parts[b.Pick["sig"]].SignedData.SignerInfos[0].Signature
	sid := parts[b.Pick["cert"]].SignedData.SignerInfos[0].Sid
	certs := parts[b.Pick["cert"]].SignedData.Certificates
	si.SignedAttrs, si.Signature, si.Sid = a, s, sid
	out.SignedData.SignerInfos = []librpki.SignerInfo{si}
	out.SignedData.Certificates = certs
	d, err := asn1.Marshal(*out)
	must(err)
	return d
}

func replaySign(b *behaviour, judge bool, dir string) {
	whole := true
	for _, i := range b.Pick {
		whole = whole && i == 1
	}
	whole = whole && b.M[0].Form == "good"
	d := assemble(b)
	if whole && !bytes.Equal(d, sign(b.Kind, b.M[0], b.Crl)) {
		bad("L05", "an object changes when it is decoded and encoded", b)
	}
	valid, said, at, err := read(b.Kind, d)
	switch {
	case err != nil:
		bad("L05", "the object is not decoded: "+err.Error(), b)
	case valid != b.Valid:
		bad("L05", fmt.Sprintf("the object is reported valid: %v, it is: %v", valid, b.Valid), b)
	case said != says(b.Kind, b.Content):
		bad("L05", "the object does not say what it was made from", b)
	case !times(d):
		bad("L05", "a time of the object is not in UTC (RFC 5652)", b)
	case !at.Equal(signTime(b.Time)):
		bad("L05", fmt.Sprintf("the signing time is read as %v, it is %v", at, signTime(b.Time)), b)
	}
	if judge {
		f := filepath.Join(dir, fmt.Sprintf("%d.der", atomic.AddInt64(&files, 1)))
		must(os.WriteFile(f, d, 0600))
		defer os.Remove(f)
		out, err := exec.Command("openssl", "cms", "-verify", "-noverify", "-binary", "-inform", "DER", "-in", f, "-out", f+".out").CombinedOutput()
		got, _ := os.ReadFile(f + ".out")
		os.Remove(f + ".out")
		_, encap := content(b.Kind, b.Content)
		switch {
		case (err == nil) != b.Valid:
			bad("L05", fmt.Sprintf("OpenSSL finds the object valid: %v, it is: %v", err == nil, b.Valid), map[string]interface{}{"b": b, "openssl": strings.ReplaceAll(string(out), f, "")})
		case err == nil && !bytes.Equal(got, encap):
			bad("L05", "OpenSSL reads another content", b)
		}
	}
}

// ---- objects that were never signed, and CRLs

func unsigned() {
	for _, kind := range []string{"roa", "mft", "xml"} {
		v, _ := content(kind, 1)
		for _, cert := range [][]byte{nil, certs[1]} {
			cms, err := librpki.EncodeCMS(cert, v, signTime(1))
			must(err)
			d, err := asn1.Marshal(*cms)
			must(err)
			if valid, _, _, err := read(kind, d); err == nil && valid {
				bad("L05", "an object that was never signed is valid", kind)
			}
		}
	}
	if _, err := librpki.EncodeCMS(nil, 1, signTime(1)); err == nil {
		bad("L05", "content of an unknown type is encoded", nil)
	}
}

func lists(n int) {
	r := mrand.New(mrand.NewSource(seed))
	parent := issuer()
	for i := 0; i < n; i++ {
		var rev []pkix.RevokedCertificate
		zone := time.FixedZone("x", 3600*(r.Intn(25)-12))
		for j := 0; j < []int{0, 1, 2, 400}[i%4]; j++ {
			s := big.NewInt(int64(j + 1))
			if j%3 == 0 {
				s.Lsh(s, uint(r.Intn(150)))
			}
			rev = append(rev, pkix.RevokedCertificate{SerialNumber: s, RevocationTime: time.Date(2000+r.Intn(60), 1, 1+r.Intn(28), r.Intn(24), 0, 1, 0, zone)})
		}
		num := new(big.Int).Lsh(big.NewInt(int64(i+1)), uint(r.Intn(150)))
		this := time.Date(2000+r.Intn(60), 1, 1, 0, 0, 0, 0, zone)
		next := this.Add(time.Duration(1+r.Intn(10000)) * time.Hour)
		signer := keys[r.Intn(2)]
		d, err := librpki.CreateCRL(parent, rand.Reader, signer, rev, this, next, num)
		if err != nil {
			bad("L05", "a CRL is not made: "+err.Error(), i)
			continue
		}
		c, err := x509.ParseRevocationList(d)
		if err != nil {
			bad("L05", "a CRL made by the library is not read: "+err.Error(), i)
			continue
		}
		ok := c.CheckSignatureFrom(parent) == nil
		if ok != (signer == keys[0]) {
			bad("L05", fmt.Sprintf("the signature of a CRL is good: %v", ok), i)
		}
		same := c.Number != nil && c.Number.Cmp(num) == 0 && c.ThisUpdate.Equal(this) && c.NextUpdate.Equal(next) && bytes.Equal(c.AuthorityKeyId, parent.SubjectKeyId) &&
			len(c.RevokedCertificates) == len(rev) && bytes.Equal(c.RawIssuer, parent.RawSubject)
		for j := range rev {
			same = same && c.RevokedCertificates[j].SerialNumber.Cmp(rev[j].SerialNumber) == 0 && c.RevokedCertificates[j].RevocationTime.Equal(rev[j].RevocationTime)
		}
		if !same {
			bad("L05", "a CRL does not say what it was made from", i)
		}
		if !times(d) {
			bad("L05", "a time of a CRL is not in UTC (RFC 5280)", i)
		}
		for j := range rev {
			if rev[j].RevocationTime.Location() != zone {
				bad("L05", "making a CRL changes the list it is given", i)
				break
			}
		}
	}
}

// every time in the encoding ends in Z
func times(d []byte) bool {
	for len(d) > 0 {
		var v asn1.RawValue
		rest, err := asn1.Unmarshal(d, &v)
		if err != nil {
			return false
		}
		if v.IsCompound && !times(v.Bytes) {
			return false
		}
		if !v.IsCompound && v.Class == 0 && (v.Tag == asn1.TagUTCTime || v.Tag == asn1.TagGeneralizedTime) && !bytes.HasSuffix(v.Bytes, []byte("Z")) {
			return false
		}
		d = rest
	}
	return true
}

func issuer() *x509.Certificate {
	ski, err := librpki.HashRSAPublicKey(keys[0].PublicKey)
	must(err)
	c := &x509.Certificate{Version: 1, SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: fmt.Sprintf("%X", ski)}, SubjectKeyId: ski,
		NotBefore: time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign}
	d, err := x509.CreateCertificate(rand.Reader, c, c, keys[0].Public(), keys[0])
	must(err)
	c, err = x509.ParseCertificate(d)
	must(err)
	return c
}

func issue(p *x509.Certificate, k *rsa.PrivateKey, serial int64) []byte {
	ski, err := librpki.HashRSAPublicKey(k.PublicKey)
	must(err)
	ips, err := librpki.EncodeIPAddressBlock([]librpki.IPCertificateInformation{&librpki.IPAddressNull{Family: 1}, &librpki.IPAddressNull{Family: 2}})
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: fmt.Sprintf("%X", ski)}, SubjectKeyId: ski,
		NotBefore: time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC),
		ExtraExtensions: []pkix.Extension{*ips}}
	d, err := x509.CreateCertificate(rand.Reader, t, p, k.Public(), keys[0])
	must(err)
	c, err := librpki.DecodeCertificate(d)
	if err != nil {
		bad("L05", "a certificate with extensions of the library is not read: "+err.Error(), nil)
	} else if !bytes.Equal(c.Certificate.SubjectKeyId, ski) || !bytes.Equal(c.Certificate.AuthorityKeyId, p.SubjectKeyId) || len(c.IPAddresses) != 2 {
		bad("L05", "a certificate does not say what it was made from", nil)
	}
	return d
}

// ---- messages

type pdu struct {
	tag   string
	attrs [][2]string
	body  string
}

func mkpdu(p string, n int) pdu {
	uri := fmt.Sprintf("rsync://repo.example.net/mod/a&b/%d.roa", n)
	hash := fmt.Sprintf("%064x", n)
	tag := fmt.Sprintf("tag<%d>", n)
	body := strings.Repeat("QUJD", 10*n*n*n)
	switch p {
	case "publish":
		return pdu{"publish", [][2]string{{"tag", tag}, {"uri", uri}}, body}
	case "republish":
		return pdu{"publish", [][2]string{{"tag", tag}, {"uri", uri}, {"hash", hash}}, body}
	case "withdraw":
		return pdu{"withdraw", [][2]string{{"tag", tag}, {"uri", uri}, {"hash", hash}}, ""}
	case "list":
		return pdu{"list", nil, ""}
	case "list_item":
		return pdu{"list", [][2]string{{"uri", uri}, {"hash", hash}}, ""}
	case "success":
		return pdu{"success", nil, ""}
	case "report_error":
		return pdu{"report_error", [][2]string{{"error_code", "xml_error"}, {"tag", tag}}, "<error_text>Cannot do " + strconv.Itoa(n) + "</error_text>"}
	case "offer":
		return pdu{"offer", nil, ""}
	case "referral":
		return pdu{"referral", [][2]string{{"referrer", "me"}}, body}
	}
	return pdu{p, nil, body}
}

func esc(s string, q byte) string {
	s = strings.NewReplacer("&", "&amp;", "<", "&lt;", string(q), "&#x22;").Replace(s)
	return s
}

var roots = map[string]struct {
	tag, ns string
	attrs   [][2]string
}{
	"query":           {"msg", "http://www.hactrn.net/uris/rpki/publication-spec/", [][2]string{{"version", "4"}, {"type", "query"}}},
	"reply":           {"msg", "http://www.hactrn.net/uris/rpki/publication-spec/", [][2]string{{"version", "4"}, {"type", "reply"}}},
	"child_request":   {"child_request", "http://www.hactrn.net/uris/rpki/rpki-setup/", [][2]string{{"version", "1"}, {"child_handle", "Bob & co"}, {"tag", "t<1>"}}},
	"parent_response": {"parent_response", "http://www.hactrn.net/uris/rpki/rpki-setup/", [][2]string{{"version", "1"}, {"service_uri", "http://a.example/up-down/A?x=1&y=2"}, {"child_handle", "Bob"}, {"parent_handle", "Alice"}, {"tag", ""}}},
}

func document(b *behaviour) string {
	r := mrand.New(mrand.NewSource(seed*7919 + int64(len(b.Pdus))))
	root := roots[b.Type]
	sp := b.Spelling
	q := byte('"')
	if sp == "quote" {
		q = '\''
	}
	attrs := func(as [][2]string) string {
		var o []string
		for _, a := range as {
			v := esc(a[1], q)
			if sp == "charref" && v == a[1] {
				v = ""
				for i := 0; i < len(a[1]); i++ {
					v += fmt.Sprintf("&#x%x;", a[1][i])
				}
			}
			eq := "="
			if sp == "space" {
				eq = " = "
			}
			o = append(o, a[0]+eq+string(q)+v+string(q))
		}
		if sp == "reverse" {
			for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
				o[i], o[j] = o[j], o[i]
			}
		}
		if len(o) == 0 {
			return ""
		}
		return " " + strings.Join(o, map[bool]string{true: "\n\t", false: " "}[sp == "space"])
	}
	pre := ""
	if sp == "prefix" {
		pre = "p:"
	}
	ns := root.ns
	tag, close := root.tag, root.tag
	as := append([][2]string{}, root.attrs...)
	switch b.Damage {
	case "otherroot":
		tag, close = "other", "other"
	case "othernamespace":
		ns += "x"
	case "badversion":
		as[0][1] = "four"
		as = append([][2]string{{"version", "four"}}, root.attrs[1:]...)
	case "badclose":
		close += "x"
	}
	decl := map[bool]string{true: "xmlns:p", false: "xmlns"}[sp == "prefix"]
	all := append([][2]string{{decl, ns}}, as...)
	if b.Damage == "badversion" {
		root.attrs[0][1] = map[bool]string{true: "4", false: "1"}[root.tag == "msg"]
	}
	at := attrs(all)
	switch b.Damage {
	case "bareattr":
		at += " version2=4"
	case "control":
		at += " x=\"\x02\""
	}
	var o strings.Builder
	if sp == "prolog" {
		o.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	if sp == "comment" {
		o.WriteString("<!-- <msg/> -->")
	}
	o.WriteString("<" + pre + tag + at + ">")
	for i, p := range b.Pdus {
		e := mkpdu(p.P, p.N)
		switch sp {
		case "comment":
			o.WriteString("<!-- <withdraw uri='x'/> -->")
		case "indent":
			o.WriteString("\n    ")
		case "crlf":
			o.WriteString("\r\n")
		}
		o.WriteString("<" + pre + e.tag + attrs(e.attrs))
		if e.body == "" && (sp == "selfclose" || i%2 == 0) {
			o.WriteString("/>")
			continue
		}
		o.WriteString(">" + strings.ReplaceAll(e.body, "error_text", pre+"error_text") + "</" + pre + e.tag + ">")
	}
	if b.Damage == "cutinner" {
		o.WriteString("<" + pre + "publish uri=\"rsync://x/y\">QU")
	}
	if sp == "indent" {
		o.WriteString("\n")
	}
	if b.Damage != "unclosed" {
		o.WriteString("</" + pre + close + ">")
	}
	t := o.String()
	switch b.Damage {
	case "cut":
		t = t[:1+r.Intn(len(t)-1)]
		if strings.HasSuffix(t, ">") && strings.Contains(t, "</"+pre+close) {
			t = t[:len(t)-1]
		}
	case "empty":
		t = ""
	}
	return t
}

func normal(cs []ca.Content) []string {
	var out []string
	for _, c := range cs {
		out = append(out, fmt.Sprintf("%s|%s|%s|%s|%s|%s", c.XMLName.Local, c.Tag, c.URI, c.Hash, c.ErrorCode, strings.ReplaceAll(c.Inner, "p:", "")))
	}
	return out
}

func replayMsg(b *behaviour) {
	t := document(b)
	say := func(what string) { bad("L06", what, map[string]interface{}{"b": b, "text": t[:min(len(t), 600)]}) }
	// carried as a signed object
	var carried []byte
	if len(t) < 3000 {
		v, err := librpki.EncodeXMLData([]byte(t))
		must(err)
		encap, err := librpki.EContentToEncapBF(v.EContent.FullBytes, true)
		must(err)
		cms, err := librpki.EncodeCMS(nil, v, signTime(1))
		must(err)
		ski, _ := librpki.HashRSAPublicKey(keys[1].PublicKey)
		must(cms.Sign(rand.Reader, ski, encap, keys[1], certs[1]))
		d, err := asn1.Marshal(*cms)
		must(err)
		x, err := librpki.DecodeXML(d)
		if err != nil || !x.InnerValid || string(x.Content) != t {
			bad("L05", "a signed message does not come out as it went in", b)
			return
		}
		carried = x.Content
	} else {
		carried = []byte(t)
	}
	var want []string
	for _, p := range b.Meaning {
		e := mkpdu(p.P, p.N)
		m := map[string]string{}
		for _, a := range e.attrs {
			m[a[0]] = a[1]
		}
		want = append(want, fmt.Sprintf("%s|%s|%s|%s|%s|%s", e.tag, m["tag"], m["uri"], m["hash"], m["error_code"], e.body))
	}
	var got []string
	var head string
	var err error
	switch b.Type {
	case "query", "reply":
		var m *ca.XMLMessage
		var cs []ca.Content
		m, cs, err = ca.DecodeXMLFull(carried)
		if err == nil {
			head, got = fmt.Sprint(m.Version, " ", m.Type), normal(cs)
		}
		if m2, err2 := ca.DecodeXML(carried); (err2 == nil) != (err == nil) || err == nil && (m2.Type != m.Type || m2.Version != m.Version || m2.Inner != m.Inner) {
			say("the two readers of messages disagree")
		}
	case "child_request":
		var m *ca.XMLMessageChildRequest
		var cs []ca.Content
		m, cs, err = ca.DecodeXMLCRFull(carried)
		if err == nil {
			head, got = fmt.Sprint(m.Version, " ", m.ChildHandle, " ", m.Tag), normal(cs)
		}
	case "parent_response":
		var m *ca.XMLMessageParentResponse
		var cs []ca.Content
		m, cs, err = ca.DecodeXMLPRFull(carried)
		if err == nil {
			head, got = fmt.Sprint(m.Version, " ", m.ServiceURI, " ", m.ChildHandle, " ", m.ParentHandle, " ", m.Tag), normal(cs)
		}
	}
	wantHead := map[string]string{"query": "4 query", "reply": "4 reply", "child_request": "1 Bob & co t<1>",
		"parent_response": "1 http://a.example/up-down/A?x=1&y=2 Bob Alice "}[b.Type]
	switch {
	case b.Damage != "" && err == nil:
		say("a damaged message is taken for a good one")
	case b.Damage == "" && err != nil:
		say("a message is refused: " + err.Error())
	case b.Damage == "" && head != wantHead:
		say("the head of the message is read as " + head)
	case b.Damage == "" && strings.Join(got, "\n") != strings.Join(want, "\n"):
		say(fmt.Sprintf("the message is read as %.300q", got))
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// messages of the library itself
func own() {
	for n := 0; n < 4; n++ {
		m := ca.NewXMLList()
		want := 1
		if n > 0 {
			m.Inner = strings.Repeat(`<publish uri="rsync://a/b/c" tag="1">QUJD</publish>`, n)
			want = n
		}
		d, err := xml.Marshal(m)
		must(err)
		got, cs, err := ca.DecodeXMLFull(d)
		if err != nil || got.Version != 4 || got.Type != "query" || len(cs) != want || n == 0 && cs[0].XMLName.Local != "list" {
			bad("L06", "a message made by the library is not read", string(d))
		}
	}
}

func main() {
	ks, err := rpki.LoadKeys(os.Args[2])
	must(err)
	seed, _ = strconv.ParseInt(os.Args[3], 10, 64)
	every, _ := strconv.Atoi(os.Args[4])
	dir := os.Args[5]
	for i := 0; i < 3; i++ {
		keys = append(keys, ks[i].Priv)
	}
	parent := issuer()
	certs = [][]byte{nil, issue(parent, keys[1], 11), issue(parent, keys[2], 12)}
	crls, err = librpki.CreateCRL(parent, rand.Reader, keys[0], nil, time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC), big.NewInt(1))
	must(err)
	if every > 0 {
		unsigned()
		lists(40)
	} else {
		own()
	}

	f, err := os.Open(os.Args[1])
	must(err)
	in := bufio.NewScanner(f)
	in.Buffer(nil, 1<<24)
	work := make(chan *behaviour)
	judge := make(chan bool)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for b := range work {
				j := <-judge
				func() {
					defer func() {
						if e := recover(); e != nil {
							bad("crash", fmt.Sprintf("panic: %v", e), b)
						}
					}()
					if b.Kind != "" {
						replaySign(b, j, dir)
					} else {
						replayMsg(b)
					}
				}()
			}
		}()
	}
	n := 0
	for in.Scan() {
		b := &behaviour{}
		must(json.Unmarshal(in.Bytes(), b))
		work <- b
		judge <- every > 0 && (n%every == 0 || len(b.M) == 1 && b.M[0].Form == "more" && n%4 == 0)
		n++
	}
	close(work)
	wg.Wait()
	enc.Encode(map[string]interface{}{"replayed": n})
}
