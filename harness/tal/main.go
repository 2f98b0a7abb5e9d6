// Replays behaviours of Tal.tla on librpki's trust anchor locators.
package main

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/asn1"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"strings"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
)

type rec struct {
	Lines []struct {
		K string
		X int
	}
	Uri            []string
	Body, Dmg, Eol string
	Nl, Ok, Lax    bool
}

var enc = json.NewEncoder(os.Stdout)

func bad(props, what string, v interface{}) {
	enc.Encode(map[string]interface{}{"props": props, "what": what, "case": v})
}

type spki struct {
	Type struct {
		OID  asn1.ObjectIdentifier
		Null asn1.RawValue
	}
	BS asn1.BitString
}

// Keys whose encodings have every length modulo three
func keys() (out []*rsa.PublicKey) {
	n := new(big.Int).Lsh(big.NewInt(1), 2047)
	n.Add(n, big.NewInt(12345677))
	m := new(big.Int).Add(n, big.NewInt(2))
	small := new(big.Int).Lsh(big.NewInt(1), 1023)
	small.Add(small, big.NewInt(9))
	for _, k := range []struct {
		n *big.Int
		e int
	}{{n, 65537}, {m, 65537}, {n, 3}, {n, 65539}, {small, 257}, {small, 3}, {new(big.Int).Rsh(n, 3), 65537}, {new(big.Int).Rsh(n, 9), 65537}} {
		out = append(out, &rsa.PublicKey{N: k.n, E: k.e})
	}
	return
}

func der(k *rsa.PublicKey) []byte {
	d, err := x509.MarshalPKIXPublicKey(k)
	if err != nil {
		panic(err)
	}
	return d
}

func cut(s string, body string) []string {
	n := len(s)
	at := func(ps ...int) (out []string) {
		p := 0
		for _, q := range append(ps, n) {
			out = append(out, s[p:q])
			p = q
		}
		return
	}
	switch body {
	case "one":
		return []string{s}
	case "split":
		return at(64, 128)
	case "uneven":
		return at(1, 63, 130)
	}
	return at(1, 2, 3, 5, n-1)
}

func text(r *rec, uris []string, k *rsa.PublicKey) string {
	d := der(k)
	switch r.Dmg {
	case "data":
		d = append(d, 5, 0)
	case "short":
		d = d[:len(d)-3]
	case "nospki":
		d, _ = asn1.Marshal(*k)
	}
	parts := cut(base64.StdEncoding.EncodeToString(d), r.Body)
	var b strings.Builder
	for i, l := range r.Lines {
		switch l.K {
		case "c":
			b.WriteString([]string{"# a comment", "#", "#rsync://other.example/ta.cer"}[i%3])
		case "u":
			b.WriteString(uris[l.X-1])
		case "d":
			if l.X == 0 {
				b.WriteString("!not*base64!")
			} else {
				b.WriteString(parts[l.X-1])
			}
		}
		if i < len(r.Lines)-1 || r.Nl {
			if r.Eol == "crlf" || r.Eol == "mixed" && i%2 == 0 {
				b.WriteString("\r\n")
			} else {
				b.WriteString("\n")
			}
		}
	}
	return b.String()
}

func main() {
	f, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	ks := keys()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	n := 0
	for sc.Scan() {
		var r rec
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			panic(err)
		}
		uris := []string{}
		for i, k := range r.Uri {
			scheme := map[string]string{"r": "rsync", "h": "http", "s": "https"}[k]
			uris = append(uris, fmt.Sprintf("%s://ta%d.example.net/repo/root-%d.cer", scheme, i, n%7))
		}
		k := ks[n%len(ks)]
		one(&r, uris, k, text(&r, uris, k))
		n++
	}
	n += matching(ks)
	n += roundtrip(ks)
	enc.Encode(map[string]int{"replayed": n})
}

func decode(s string) (tal *librpki.RPKITAL, err error) {
	defer func() {
		if r := recover(); r != nil {
			bad("L03 V08", "crash", fmt.Sprintf("%q: %v", s, r))
			err = fmt.Errorf("crash")
		}
	}()
	return librpki.DecodeTAL([]byte(s))
}

func same(tal *librpki.RPKITAL, uris []string, k *rsa.PublicKey) string {
	if !reflect.DeepEqual(tal.URI, uris) {
		return fmt.Sprintf("URIs %q instead of %q", tal.URI, uris)
	}
	switch key := tal.PublicKey.(type) {
	case *rsa.PublicKey:
		if key.N.Cmp(k.N) != 0 || key.E != k.E {
			return "another key"
		}
	case rsa.PublicKey:
		if key.N.Cmp(k.N) != 0 || key.E != k.E {
			return "another key"
		}
	default:
		return fmt.Sprintf("a key of type %T", key)
	}
	if !tal.CheckCertificate(cert(k)) {
		return "its own certificate does not match"
	}
	rsync := ""
	for _, u := range uris {
		if rsync == "" && strings.HasPrefix(u, "rsync://") {
			rsync = u
		}
	}
	if tal.HasRsync() != (rsync != "") || rsync != "" && tal.GetRsyncURI() != rsync {
		return "rsync URI " + tal.GetRsyncURI()
	}
	return ""
}

func one(r *rec, uris []string, k *rsa.PublicKey, s string) {
	tal, err := decode(s)
	c := map[string]interface{}{"text": s, "dmg": r.Dmg}
	if err != nil {
		if r.Ok && !r.Lax {
			bad("L03", "well-formed locator rejected: "+err.Error(), c)
		}
		return
	}
	if !r.Ok {
		what := "malformed locator accepted (" + r.Dmg + ")"
		if r.Dmg == "none" {
			what = "malformed locator accepted (structure)"
		}
		bad("L03", what, c)
		return
	}
	if d := same(tal, uris, k); d != "" {
		bad("L03", "locator misread", map[string]interface{}{"text": s, "diff": d})
		return
	}
	// and back
	for _, split := range []int{0, 1, 64, 65, 1000} {
		b, err := librpki.EncodeTALSize(tal, split)
		if err != nil {
			bad("L04 L03", "cannot encode a decoded locator", err.Error())
			return
		}
		t2, err := decode(string(b))
		if err != nil {
			bad("L04 L03", "encoded locator cannot be decoded: "+err.Error(), map[string]interface{}{"text": string(b), "split": split})
			return
		}
		if d := same(t2, uris, k); d != "" {
			bad("L04 L03", "encoded locator decodes differently", map[string]interface{}{"text": string(b), "diff": d})
			return
		}
	}
}

func cert(k *rsa.PublicKey) *x509.Certificate {
	return &x509.Certificate{PublicKeyAlgorithm: x509.RSA, PublicKey: k}
}

func matching(ks []*rsa.PublicKey) int {
	ec, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	n := 0
	for i, a := range ks {
		tal, err := decode("rsync://h/m/t.cer\n\n" + base64.StdEncoding.EncodeToString(der(a)))
		if err != nil {
			bad("L03", "well-formed locator rejected: "+err.Error(), i)
			continue
		}
		made, err := librpki.CreateTAL([]string{"rsync://h/m/t.cer"}, a)
		if err != nil {
			bad("L03", "cannot create a locator", err.Error())
			continue
		}
		made2, _ := librpki.CreateTAL([]string{"rsync://h/m/t.cer"}, *a)
		for j, b := range ks {
			n++
			for _, t := range []*librpki.RPKITAL{tal, made, made2} {
				if t.CheckCertificate(cert(b)) != (i == j) {
					bad("L03", "match of locator and certificate is wrong", map[string]interface{}{"N": [2]string{a.N.Text(16), b.N.Text(16)}, "E": [2]int{a.E, b.E}})
				}
			}
		}
		if tal.CheckCertificate(&x509.Certificate{PublicKeyAlgorithm: x509.ECDSA, PublicKey: &ec.PublicKey}) {
			bad("L03", "match of locator and certificate is wrong", "EC key")
		}
	}
	// a locator for a key of another algorithm matches no RSA certificate
	d, _ := x509.MarshalPKIXPublicKey(&ec.PublicKey)
	if tal, err := decode("rsync://h/m/t.cer\n\n" + base64.StdEncoding.EncodeToString(d)); err == nil {
		for _, b := range ks {
			if tal.CheckCertificate(cert(b)) {
				bad("L03", "match of locator and certificate is wrong", "EC locator")
			}
		}
	}
	return n
}

func roundtrip(ks []*rsa.PublicKey) int {
	n := 0
	for _, k := range ks {
		for _, uris := range [][]string{{"rsync://h/m/t.cer"}, {"https://h/t.cer", "rsync://h/m/t.cer"}, {"https://h/t.cer"}} {
			for i := 0; i < 2; i++ {
				var pk interface{} = k
				if i == 1 {
					pk = *k
				}
				tal, err := librpki.CreateTAL(uris, pk)
				if err != nil {
					bad("L04", "cannot create a locator", err.Error())
					continue
				}
				for split := 0; split < 500; split += 1 + split/7 {
					n++
					b, err := librpki.EncodeTALSize(tal, split)
					if err != nil {
						bad("L04", "cannot encode a locator", err.Error())
						break
					}
					t2, err := decode(string(b))
					if err != nil {
						bad("L04", "encoded locator cannot be decoded: "+err.Error(), split)
						break
					}
					if d := same(t2, uris, k); d != "" {
						bad("L04", "encoded locator decodes differently", d)
						break
					}
				}
				if b, err := librpki.EncodeTAL(tal); err != nil {
					bad("L04", "cannot encode a locator", err.Error())
				} else if t2, err := decode(string(b)); err != nil || same(t2, uris, k) != "" {
					bad("L04", "encoded locator decodes differently", string(b))
				}
			}
		}
	}
	return n
}
