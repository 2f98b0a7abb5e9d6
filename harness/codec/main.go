// Replays behaviours of Codec.tla on librpki's encoders and decoders.
package main

import (
	"bufio"
	"bytes"
	"crypto/rand"
	"encoding/asn1"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/vh/rpki"
)

type item struct {
	T      string
	F      int
	B      []int
	W      [][]int
	Span   [][]int
	Lo, Hi int
	M      int
}
type rec struct {
	K string
	L []item
}

var (
	mu  sync.Mutex
	enc = json.NewEncoder(os.Stdout)
	key *rpki.Key
	ee  []byte
	// as the daemons configure it by default (-strict.cms=false)
	lax = &librpki.DecoderConfig{ValidateStrict: false}
)

func bad(what string, v interface{}) {
	mu.Lock()
	enc.Encode(map[string]interface{}{"what": what, "case": v})
	mu.Unlock()
}

func pack(bits []int, n int) []byte {
	b := make([]byte, n)
	for i, x := range bits {
		if x == 1 {
			b[i/8] |= 0x80 >> (i % 8)
		}
	}
	return b
}

func size(f int) int {
	if f == 4 {
		return 4
	}
	return 16
}

// wide: IPv4 in its 16-byte form
func value(v item, wide bool) librpki.IPCertificateInformation {
	n := size(v.F)
	form := func(b []byte) net.IP {
		if wide && n == 4 {
			return net.IP(b).To16()
		}
		return net.IP(b)
	}
	switch v.T {
	case "p":
		return &librpki.IPNet{IPNet: &net.IPNet{IP: form(pack(v.W[0], n)), Mask: net.CIDRMask(len(v.W[0]), n*8)}}
	case "r":
		return &librpki.IPAddressRange{Min: form(pack(v.Span[0], n)), Max: form(pack(v.Span[1], n))}
	}
	return &librpki.IPAddressNull{Family: map[int]uint8{4: 1, 6: 2}[v.F]}
}

func describe(v item) string {
	n := size(v.F)
	switch v.T {
	case "p":
		return fmt.Sprintf("%d p %v/%d", v.F, net.IP(pack(v.W[0], n)), len(v.W[0]))
	case "r":
		return fmt.Sprintf("%d r %v %v", v.F, net.IP(pack(v.Span[0], n)), net.IP(pack(v.Span[1], n)))
	}
	return fmt.Sprintf("%d n", v.F)
}

func show(v librpki.IPCertificateInformation) string {
	f := func(ip net.IP) int {
		switch len(ip) {
		case 4:
			return 4
		case 16:
			return 6
		}
		return 0
	}
	switch x := v.(type) {
	case *librpki.IPNet:
		ones, total := x.IPNet.Mask.Size()
		if total != len(x.IPNet.IP)*8 {
			return fmt.Sprintf("mask of %d bits for an address of %d bytes", total, len(x.IPNet.IP))
		}
		return fmt.Sprintf("%d p %v/%d", f(x.IPNet.IP), x.IPNet.IP, ones)
	case *librpki.IPAddressRange:
		return fmt.Sprintf("%d r %v %v", f(x.Min), x.Min, x.Max)
	case *librpki.IPAddressNull:
		return fmt.Sprintf("%d n", map[uint8]int{1: 4, 2: 6}[x.Family])
	}
	return fmt.Sprintf("%T", v)
}

func families(l []string) string { // order within a family counts
	var a, b []string
	for _, s := range l {
		if strings.HasPrefix(s, "4") {
			a = append(a, s)
		} else {
			b = append(b, s)
		}
	}
	return strings.Join(append(a, b...), "; ")
}

func ip(r *rec) {
	var want []string
	for _, v := range r.L {
		want = append(want, describe(v))
	}
	w := families(want)
	compare := func(how string, der []byte) {
		got, err := librpki.DecodeIPAddressBlock(der)
		if err != nil {
			bad("IP blocks "+how+" cannot be decoded", map[string]string{"want": w, "err": err.Error()})
			return
		}
		var l []string
		for _, g := range got {
			l = append(l, show(g))
		}
		if g := families(l); g != w {
			bad("IP blocks "+how+" decode differently", map[string]string{"want": w, "got": g})
		}
		// the same through a whole certificate
		c := &rpki.Cert{Subject: "a", Issuer: "b", Serial: 5, NB: time.Unix(1e9, 0), NA: time.Unix(2e9, 0), Key: key, AKI: key.SKI, CA: true, RawIP: der, Res: rpki.Resources{V4Inherit: true}}
		cert, err := librpki.DecodeCertificate(c.Sign(key, false))
		if err != nil {
			bad("certificate with IP blocks "+how+" cannot be decoded", map[string]string{"want": w, "err": err.Error()})
			return
		}
		l = nil
		for _, g := range cert.IPAddresses {
			l = append(l, show(g))
		}
		if g := families(l); g != w {
			bad("IP blocks "+how+" in a certificate decode differently", map[string]string{"want": w, "got": g})
		}
	}
	for _, wide := range []bool{false, true} {
		var vals []librpki.IPCertificateInformation
		for _, v := range r.L {
			vals = append(vals, value(v, wide))
		}
		ext, err := librpki.EncodeIPAddressBlock(vals)
		if err != nil {
			bad("IP blocks cannot be encoded", map[string]string{"want": w, "err": err.Error()})
			return
		}
		compare("from the encoder", ext.Value)
	}
	var fams []byte
	for _, f := range []int{4, 6} {
		var c []byte
		null, some := false, false
		for _, v := range r.L {
			if v.F != f {
				continue
			}
			some = true
			bs := func(bits []int) []byte { return rpki.BitString(pack(bits, (len(bits)+7)/8), len(bits)) }
			switch v.T {
			case "p":
				c = append(c, bs(v.W[0])...)
			case "r":
				c = append(c, rpki.Seq(bs(v.W[0]), bs(v.W[1]))...)
			default:
				null = true
			}
		}
		if null {
			fams = append(fams, rpki.Seq(rpki.Octet([]byte{0, byte(f/2 - 1)}), rpki.Null())...)
		} else if some {
			fams = append(fams, rpki.Seq(rpki.Octet([]byte{0, byte(f/2 - 1)}), rpki.Seq(c))...)
		}
	}
	compare("in canonical form", rpki.Seq(fams))
}

var asTable = []int{0, 1, 127, 128, 255, 256, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295}

func showAS(l []librpki.ASNCertificateInformation) string {
	var s []string
	for _, v := range l {
		switch x := v.(type) {
		case *librpki.ASN:
			s = append(s, fmt.Sprint(x.ASN))
		case *librpki.ASNRange:
			s = append(s, fmt.Sprintf("%d-%d", x.Min, x.Max))
		case *librpki.ASNull:
			s = append(s, "inherit")
		default:
			s = append(s, fmt.Sprintf("%T", v))
		}
	}
	return strings.Join(s, "; ")
}

func as(r *rec) {
	var vals []librpki.ASNCertificateInformation
	var c []byte
	null := false
	for _, v := range r.L {
		switch v.T {
		case "a":
			vals = append(vals, &librpki.ASN{ASN: asTable[v.Lo-1]})
			c = append(c, rpki.I64(int64(asTable[v.Lo-1]))...)
		case "ar":
			vals = append(vals, &librpki.ASNRange{Min: asTable[v.Lo-1], Max: asTable[v.Hi-1]})
			c = append(c, rpki.Seq(rpki.I64(int64(asTable[v.Lo-1])), rpki.I64(int64(asTable[v.Hi-1])))...)
		default:
			vals = append(vals, &librpki.ASNull{})
			null = true
		}
	}
	other := []librpki.ASNCertificateInformation{&librpki.ASN{ASN: 7}, &librpki.ASNRange{Min: 9, Max: 11}}
	want := showAS(vals)
	compare := func(how string, der []byte, num, rdi string) {
		a, b, err := librpki.DecodeASN(der)
		if err != nil {
			bad("AS blocks "+how+" cannot be decoded", map[string]string{"num": num, "rdi": rdi, "err": err.Error()})
		} else if showAS(a) != num || showAS(b) != rdi {
			bad("AS blocks "+how+" decode differently", map[string]string{"num": num, "rdi": rdi, "gotnum": showAS(a), "gotrdi": showAS(b)})
		}
	}
	for _, t := range []struct {
		a, b []librpki.ASNCertificateInformation
	}{{vals, nil}, {nil, vals}, {vals, other}, {other, vals}, {vals, vals}} {
		ext, err := librpki.EncodeASN(t.a, t.b)
		if err != nil {
			bad("AS blocks cannot be encoded", want)
			return
		}
		compare("from the encoder", ext.Value, showAS(t.a), showAS(t.b))
	}
	choice := rpki.Seq(c)
	if null {
		choice = rpki.Null()
	}
	compare("in canonical form", rpki.Seq(rpki.TLV(0xa0, choice)), want, "")
	compare("in canonical form", rpki.Seq(rpki.TLV(0xa1, choice)), "", want)
	compare("in canonical form", rpki.Seq(rpki.TLV(0xa0, choice), rpki.TLV(0xa1, rpki.Seq(rpki.I64(7)))), want, "7")
}

var ctROA = rpki.OID(1, 2, 840, 113549, 1, 9, 16, 1, 24)
var ctMft = rpki.OID(1, 2, 840, 113549, 1, 9, 16, 1, 26)

// The object around content, by the harness and by librpki's own encoder
func wrap(ct, full []byte, v interface{}, encap func() ([]byte, error)) (out [][]byte, err error) {
	var explicit asn1.RawValue
	if _, err = asn1.Unmarshal(full, &explicit); err != nil {
		return
	}
	var octets []byte
	if _, err = asn1.Unmarshal(explicit.Bytes, &octets); err != nil {
		return
	}
	out = append(out, rpki.CMS(ct, octets, ee, key, time.Unix(1500000000, 0), rpki.CMSOpt{}))
	e, err := encap()
	if err != nil {
		return
	}
	cms, err := librpki.EncodeCMS(nil, v, time.Unix(1500000000, 0).UTC())
	if err != nil {
		return
	}
	if err = cms.Sign(rand.Reader, key.SKI, e, key.Priv, ee); err != nil {
		return
	}
	b, err := asn1.Marshal(*cms)
	if err != nil {
		return
	}
	return append(out, b), nil
}

func roa(r *rec, n int) {
	asn := asTable[n%len(asTable)]
	var es []*librpki.ROAEntry
	var want []string
	for _, v := range r.L {
		k := size(v.F)
		e := &librpki.ROAEntry{IPNet: &net.IPNet{IP: pack(v.B, k), Mask: net.CIDRMask(len(v.B), k*8)}, MaxLength: v.M}
		if n%2 == 1 && k == 4 {
			e.IPNet.IP = e.IPNet.IP.To16()
		}
		es = append(es, e)
		m := v.M
		if m < 0 {
			m = len(v.B)
		}
		want = append(want, fmt.Sprintf("%d %v/%d-%d", v.F, net.IP(pack(v.B, k)), len(v.B), m))
	}
	w := families(want)
	c := map[string]interface{}{"asn": asn, "want": w}
	o, err := librpki.EncodeROAEntries(asn, es)
	if err != nil {
		bad("ROA cannot be encoded: "+err.Error(), c)
		return
	}
	objs, err := wrap(ctROA, o.EContent.FullBytes, o, func() ([]byte, error) { return librpki.ROAToEncap(o) })
	if err != nil {
		bad("ROA cannot be encoded: "+err.Error(), c)
		return
	}
	for _, b := range objs {
		got, err := lax.DecodeROA(b)
		if err != nil {
			bad("encoded ROA cannot be decoded: "+err.Error(), c)
			return
		}
		var l []string
		for _, e := range got.Entries {
			ones, _ := e.IPNet.Mask.Size()
			f := 4
			if len(e.IPNet.IP) == 16 {
				f = 6
			}
			l = append(l, fmt.Sprintf("%d %v/%d-%d", f, e.IPNet.IP, ones, e.MaxLength))
		}
		if g := families(l); g != w || got.ASN != asn || !got.InnerValid {
			c["got"], c["gotasn"], c["signed"] = g, got.ASN, fmt.Sprint(got.InnerValidityError)
			bad("encoded ROA decodes differently", c)
			return
		}
	}
}

var names = []string{"a.cer", "x-1.roa", "ca.crl", "A_b.mft", "0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz.roa", ".", "a b", "q.gbr", "-"}

func mft(r *rec, n int) {
	num := new(big.Int)
	num.SetString([]string{"0", "1", "127", "128", "65536", "18446744073709551616", "1461501637330902918203684832716283019655932542975"}[n%7], 10)
	base := time.Date(2020, 1, 31, 23, 59, 59, 0, time.UTC).Add(time.Duration(n*3607) * time.Second)
	mc := librpki.ManifestContent{ManifestNumber: num, ThisUpdate: base, NextUpdate: base.Add(time.Duration(n%5) * 24 * time.Hour),
		FileHashAlg: asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 1}}
	for _, v := range r.L {
		h := bytes.Repeat([]byte{byte(v.Hi * 61), 0, byte(v.Lo)}, 11)[:32]
		mc.FileList = append(mc.FileList, librpki.File{Name: names[v.Lo-1], Hash: asn1.BitString{Bytes: h, BitLength: 256}})
	}
	text := func(m librpki.ManifestContent) string {
		s := fmt.Sprintf("%v %v %v %v", m.ManifestNumber, m.ThisUpdate.Unix(), m.NextUpdate.Unix(), m.FileHashAlg)
		for _, f := range m.FileList {
			s += fmt.Sprintf("; %s %x", f.Name, f.GetHash())
		}
		return s
	}
	c := map[string]interface{}{"want": text(mc)}
	o, err := librpki.EncodeManifestContent(mc)
	if err != nil {
		bad("manifest cannot be encoded: "+err.Error(), c)
		return
	}
	objs, err := wrap(ctMft, o.EContent.FullBytes, o, func() ([]byte, error) { return librpki.ManifestToEncap(o) })
	if err != nil {
		bad("manifest cannot be encoded: "+err.Error(), c)
		return
	}
	for _, b := range objs {
		got, err := lax.DecodeManifest(b)
		if err != nil {
			bad("encoded manifest cannot be decoded: "+err.Error(), c)
			return
		}
		if text(got.Content) != text(mc) || !got.InnerValid {
			c["got"], c["signed"] = text(got.Content), fmt.Sprint(got.InnerValidityError)
			bad("encoded manifest decodes differently", c)
			return
		}
	}
}

func sia(r *rec) {
	oids := []asn1.ObjectIdentifier{librpki.CertRepository, librpki.CertRRDP, librpki.SIAManifest, {1, 3, 6, 1, 5, 5, 7, 48, 11}}
	uris := []string{"rsync://host.example/module/dir/", "https://rrdp.example.net/notification.xml", "", "rsync://h/m/" + strings.Repeat("x/", 200) + "a.mft", "https://h/?a=b&c=%20", "x"}
	var l []*librpki.SIA
	var want []string
	for _, v := range r.L {
		l = append(l, &librpki.SIA{AccessMethod: oids[v.Lo-1], GeneralName: []byte(uris[v.Hi-1])})
		want = append(want, oids[v.Lo-1].String()+" "+uris[v.Hi-1])
	}
	ext, err := librpki.EncodeSIA(l)
	if err != nil {
		bad("SIA cannot be encoded: "+err.Error(), want)
		return
	}
	got, err := librpki.DecodeSubjectInformationAccess(ext.Value)
	if err != nil {
		bad("encoded SIA cannot be decoded: "+err.Error(), want)
		return
	}
	var g []string
	for _, s := range got {
		g = append(g, s.AccessMethod.String()+" "+string(s.GeneralName))
	}
	if fmt.Sprint(g) != fmt.Sprint(want) {
		bad("encoded SIA decodes differently", map[string]interface{}{"want": want, "got": g})
	}
	// the publication point of a certificate carrying it
	cert, err := librpki.DecodeCertificate((&rpki.Cert{Subject: "a", Issuer: "b", Serial: 5, NB: time.Unix(1e9, 0), NA: time.Unix(2e9, 0), Key: key, AKI: key.SKI, CA: true, RawSIA: ext.Value, Res: rpki.Resources{V4Inherit: true}}).Sign(key, false))
	if err != nil {
		bad("certificate with an encoded SIA cannot be decoded: "+err.Error(), want)
		return
	}
	first := func(o int) (string, bool) {
		for _, v := range r.L {
			if v.Lo == o {
				return uris[v.Hi-1], true
			}
		}
		return "", false
	}
	repo, _ := first(1)
	rrdp, has := first(2)
	if cert.GetRsyncGeneralName() != repo || cert.GetRRDPGeneralName() != rrdp || cert.HasRRDP() != has {
		bad("publication points misread", map[string]interface{}{"sia": want, "rsync": cert.GetRsyncGeneralName(), "rrdp": cert.GetRRDPGeneralName()})
	}
	for _, u := range uris {
		if u == "" {
			continue
		}
		e, err := librpki.EncodeInfoAccess(false, u)
		if err != nil {
			bad("SIA cannot be encoded: "+err.Error(), u)
			continue
		}
		d, err := librpki.DecodeSubjectInformationAccess(e.Value)
		if err != nil || len(d) != 1 || string(d[0].GeneralName) != u || !d[0].AccessMethod.Equal(librpki.SignedObject) {
			bad("encoded SIA decodes differently", u)
		}
	}
}

func main() {
	keys, err := rpki.LoadKeys(os.Args[2])
	if err != nil {
		panic(err)
	}
	key = keys[0]
	ee = (&rpki.Cert{Subject: "ee", Issuer: "ca", Serial: 3, NB: time.Unix(1e9, 0), NA: time.Unix(2e9, 0), Key: key, AKI: keys[1].SKI,
		Res: rpki.Resources{V4: []rpki.IPRes{rpki.P("0.0.0.0/0")}, V6: []rpki.IPRes{rpki.P("::/0")}}}).Sign(keys[1], false)
	f, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<24), 1<<24)
	type job struct {
		n int
		b []byte
	}
	ch := make(chan job, 100)
	var wg sync.WaitGroup
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				var r rec
				if err := json.Unmarshal(j.b, &r); err != nil {
					panic(err)
				}
				func() {
					defer func() {
						if e := recover(); e != nil {
							bad("crash", fmt.Sprintf("%v on %s", e, j.b))
						}
					}()
					switch r.K {
					case "ip":
						ip(&r)
					case "as":
						as(&r)
					case "roa":
						roa(&r, j.n)
					case "mft":
						mft(&r, j.n)
					default:
						sia(&r)
					}
				}()
			}
		}()
	}
	var lines []string
	for sc.Scan() {
		lines = append(lines, sc.Text())
	}
	sort.Strings(lines)
	for i, l := range lines {
		ch <- job{i, []byte(l)}
	}
	close(ch)
	wg.Wait()
	enc.Encode(map[string]int{"replayed": len(lines)})
}
