// Package rpki builds RPKI objects (certificates, CRLs, manifests, ROAs, TALs)
// byte by byte, without using any encoder of the code under test.
package rpki

import (
	"bytes"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"sort"
	"sync"
	"time"
)

func cat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

// TLV encodes one definite-length DER element.
func TLV(tag byte, parts ...[]byte) []byte {
	c := cat(parts...)
	n := len(c)
	var h []byte
	switch {
	case n < 0x80:
		h = []byte{tag, byte(n)}
	case n < 0x100:
		h = []byte{tag, 0x81, byte(n)}
	case n < 0x10000:
		h = []byte{tag, 0x82, byte(n >> 8), byte(n)}
	default:
		h = []byte{tag, 0x83, byte(n >> 16), byte(n >> 8), byte(n)}
	}
	return append(h, c...)
}
func Seq(p ...[]byte) []byte { return TLV(0x30, p...) }
func Set(p ...[]byte) []byte { return TLV(0x31, p...) }
func Octet(b []byte) []byte  { return TLV(0x04, b) }
func Null() []byte           { return []byte{5, 0} }
func Bool(b bool) []byte {
	if b {
		return []byte{1, 1, 0xff}
	}
	return []byte{1, 1, 0}
}
func Int(i *big.Int) []byte {
	if i.Sign() == 0 {
		return []byte{2, 1, 0}
	}
	if i.Sign() > 0 {
		b := i.Bytes()
		if b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return TLV(2, b)
	}
	n := len(i.Bytes())
	for k := n; k <= n+1; k++ {
		m := new(big.Int).Lsh(big.NewInt(1), uint(8*k))
		m.Add(m, i)
		b := m.Bytes()
		if len(b) == k && b[0]&0x80 != 0 {
			return TLV(2, b)
		}
	}
	panic("int")
}
func I64(i int64) []byte { return Int(big.NewInt(i)) }
func BitString(b []byte, bits int) []byte {
	n := (bits + 7) / 8
	c := make([]byte, n)
	copy(c, b)
	if bits%8 != 0 {
		c[n-1] &= 0xff << uint(8-bits%8)
	}
	return TLV(3, []byte{byte(n*8 - bits)}, c)
}
func Bits(b []byte) []byte { return BitString(b, len(b)*8) }
func OID(arcs ...int) []byte {
	c := []byte{byte(arcs[0]*40 + arcs[1])}
	for _, a := range arcs[2:] {
		var t []byte
		t = append(t, byte(a&0x7f))
		for a >>= 7; a > 0; a >>= 7 {
			t = append([]byte{byte(a&0x7f | 0x80)}, t...)
		}
		c = append(c, t...)
	}
	return TLV(6, c)
}
func Time(t time.Time) []byte {
	t = t.UTC()
	if t.Year() < 2050 && t.Year() >= 1950 {
		return TLV(0x17, []byte(t.Format("060102150405Z")))
	}
	return TLV(0x18, []byte(t.Format("20060102150405Z")))
}
func GenTime(t time.Time) []byte { return TLV(0x18, []byte(t.UTC().Format("20060102150405Z"))) }

var (
	oidSHA256RSA = OID(1, 2, 840, 113549, 1, 1, 11)
	oidRSA       = OID(1, 2, 840, 113549, 1, 1, 1)
	oidSHA256    = OID(2, 16, 840, 1, 101, 3, 4, 2, 1)
	OIDManifest  = OID(1, 2, 840, 113549, 1, 9, 16, 1, 26)
	OIDRoa       = OID(1, 2, 840, 113549, 1, 9, 16, 1, 24)
)

// Key is a private key with its identifier.
type Key struct {
	Priv *rsa.PrivateKey
	SKI  []byte
	SPKI []byte
}

func NewKey(p *rsa.PrivateKey) *Key {
	pub := Seq(Int(p.N), I64(int64(p.E)))
	h := sha1.Sum(pub)
	return &Key{Priv: p, SKI: h[:], SPKI: Seq(Seq(oidRSA, Null()), Bits(pub))}
}

// LoadKeys reads a PEM file of RSA keys.
func LoadKeys(path string) ([]*Key, error) {
	d, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var out []*Key
	for {
		var b *pem.Block
		b, d = pem.Decode(d)
		if b == nil {
			return out, nil
		}
		k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
		if err != nil {
			return nil, err
		}
		out = append(out, NewKey(k))
	}
}

var sigCache sync.Map

func (k *Key) Sign(tbs []byte) []byte {
	h := sha256.Sum256(tbs)
	ck := string(k.SKI) + string(h[:])
	if v, ok := sigCache.Load(ck); ok {
		return append([]byte{}, v.([]byte)...)
	}
	s, err := rsa.SignPKCS1v15(rand.Reader, k.Priv, crypto.SHA256, h[:])
	if err != nil {
		panic(err)
	}
	sigCache.Store(ck, s)
	return append([]byte{}, s...)
}

// Forge3 makes a "signature" under a public exponent 3 without the private
// key: its cube starts with a padding-like prefix and the wanted digest and
// goes on with garbage, which a verifier that does not check the whole
// encoded message accepts.
func Forge3(n *big.Int, digest []byte) []byte {
	di := Seq(Seq(oidSHA256, Null()), Octet(digest))
	size := (n.BitLen() + 7) / 8
	pre := cat([]byte{0, 1, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0}, di)
	em := make([]byte, size)
	copy(em, pre)
	lo := new(big.Int).SetBytes(em)
	for i := len(pre); i < size; i++ {
		em[i] = 0xff
	}
	hi := new(big.Int).SetBytes(em)
	// largest x with x^3 <= hi
	a, b := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), uint(n.BitLen()/3+2))
	for new(big.Int).Sub(b, a).Cmp(big.NewInt(1)) > 0 {
		m := new(big.Int).Rsh(new(big.Int).Add(a, b), 1)
		if new(big.Int).Exp(m, big.NewInt(3), nil).Cmp(hi) <= 0 {
			a = m
		} else {
			b = m
		}
	}
	if new(big.Int).Exp(a, big.NewInt(3), nil).Cmp(lo) < 0 {
		panic("forge: no cube in range")
	}
	s := make([]byte, size)
	a.FillBytes(s)
	return s
}

/*------------------------------- resources --------------------------------*/

// IPRes is a prefix (Max nil), an explicit range, or inherit (Min nil).
type IPRes struct {
	Min, Max net.IP
	Plen     int // prefix when Max == nil
}

func P(cidr string) IPRes {
	ip, n, err := net.ParseCIDR(cidr)
	if err != nil {
		panic(err)
	}
	_ = ip
	l, _ := n.Mask.Size()
	return IPRes{Min: n.IP, Plen: l}
}
func R(a, b string) IPRes {
	x, y := net.ParseIP(a), net.ParseIP(b)
	if x.To4() != nil {
		x, y = x.To4(), y.To4()
	}
	return IPRes{Min: x, Max: y}
}

type ASRes struct{ Min, Max int64 }

type Resources struct {
	V4, V6               []IPRes
	V4Inherit, V6Inherit bool
	AS                   []ASRes
	ASInherit            bool
	ReverseFam           bool // list the IPv6 family first
	RDI                  []ASRes
}

func trailing(ip net.IP, bit byte) int { // number of trailing bits equal to bit
	n := 0
	for i := len(ip)*8 - 1; i >= 0; i-- {
		if ip[i/8]>>(7-uint(i%8))&1 != bit {
			break
		}
		n++
	}
	return n
}
func (r IPRes) der() []byte {
	if r.Max == nil {
		return BitString(r.Min, r.Plen)
	}
	n := len(r.Min) * 8
	return Seq(BitString(r.Min, n-trailing(r.Min, 0)), BitString(r.Max, n-trailing(r.Max, 1)))
}
func fam(afi byte, rs []IPRes, inherit bool) []byte {
	if inherit {
		return Seq(Octet([]byte{0, afi}), Null())
	}
	if len(rs) == 0 {
		return nil
	}
	var c []byte
	for _, r := range rs {
		c = append(c, r.der()...)
	}
	return Seq(Octet([]byte{0, afi}), Seq(c))
}
func asids(rs []ASRes, inherit bool) []byte {
	if inherit {
		return Null()
	}
	var c []byte
	for _, a := range rs {
		if a.Min == a.Max {
			c = append(c, I64(a.Min)...)
		} else {
			c = append(c, Seq(I64(a.Min), I64(a.Max))...)
		}
	}
	return Seq(c)
}

/*------------------------------ certificates ------------------------------*/

type Cert struct {
	Subject, Issuer string
	Serial          int64
	Big             int // form of the serial number, see SerialInt
	NB, NA          time.Time
	Key             *Key   // subject key
	SKI             []byte // default: Key.SKI
	AKI             []byte // nil: no extension
	CA              bool
	SelfNoCA        bool // CA-like certificate without the CA bit
	Res             Resources
	RawIP, RawAS    []byte // override of the extension values
	RawSIA          []byte
	Repo, Mft, Rrdp string // SIA of a CA
	SignedObject    string // SIA of an EE
	CRL             string // distribution point
	AIA             string
	SIAForm         int
}

func name(cn string) []byte {
	return Seq(Set(Seq(OID(2, 5, 4, 3), TLV(0x13, []byte(cn)))))
}
func ext(id []byte, crit bool, val []byte) []byte {
	if crit {
		return Seq(id, Bool(true), Octet(val))
	}
	return Seq(id, Octet(val))
}
func uri(s string) []byte { return TLV(0x86, []byte(s)) }

func (c *Cert) TBS() []byte {
	ski := c.SKI
	if ski == nil {
		ski = c.Key.SKI
	}
	var e [][]byte
	e = append(e, ext(OID(2, 5, 29, 14), false, Octet(ski)))
	if c.AKI != nil {
		e = append(e, ext(OID(2, 5, 29, 35), false, Seq(TLV(0x80, c.AKI))))
	}
	if c.CA {
		e = append(e, ext(OID(2, 5, 29, 19), true, Seq(Bool(true))))
	}
	if c.CA || c.SelfNoCA {
		e = append(e, ext(OID(2, 5, 29, 15), true, BitString([]byte{0x06}, 7)))
	} else {
		e = append(e, ext(OID(2, 5, 29, 15), true, BitString([]byte{0x80}, 1)))
	}
	if c.CRL != "" {
		e = append(e, ext(OID(2, 5, 29, 31), false, Seq(Seq(TLV(0xa0, TLV(0xa0, uri(c.CRL)))))))
	}
	if c.AIA != "" {
		e = append(e, ext(OID(1, 3, 6, 1, 5, 5, 7, 1, 1), false, Seq(Seq(OID(1, 3, 6, 1, 5, 5, 7, 48, 2), uri(c.AIA)))))
	}
	var sia []byte
	if c.Repo != "" {
		sia = append(sia, Seq(OID(1, 3, 6, 1, 5, 5, 7, 48, 5), uri(c.Repo))...)
	}
	if c.Mft != "" {
		sia = append(sia, Seq(OID(1, 3, 6, 1, 5, 5, 7, 48, 10), uri(c.Mft))...)
	}
	if c.Rrdp != "" {
		sia = append(sia, Seq(OID(1, 3, 6, 1, 5, 5, 7, 48, 13), uri(c.Rrdp))...)
	}
	if c.SignedObject != "" {
		sia = append(sia, Seq(OID(1, 3, 6, 1, 5, 5, 7, 48, 11), uri(c.SignedObject))...)
	}
	switch c.SIAForm {
	case 1: // an access method nobody knows, and a repository reached in another way
		sia = cat(Seq(OID(1, 3, 6, 1, 5, 5, 7, 48, 99), uri("rsync://unknown.example/x/")), sia)
	case 2: // in another order
		sia = nil
		if c.Rrdp != "" {
			sia = append(sia, Seq(OID(1, 3, 6, 1, 5, 5, 7, 48, 13), uri(c.Rrdp))...)
		}
		if c.Mft != "" {
			sia = append(sia, Seq(OID(1, 3, 6, 1, 5, 5, 7, 48, 10), uri(c.Mft))...)
		}
		if c.Repo != "" {
			sia = append(sia, Seq(OID(1, 3, 6, 1, 5, 5, 7, 48, 5), uri(c.Repo))...)
		}
	}
	siaVal := Seq(sia)
	if c.RawSIA != nil {
		siaVal, sia = c.RawSIA, c.RawSIA
	}
	if len(sia) > 0 {
		e = append(e, ext(OID(1, 3, 6, 1, 5, 5, 7, 1, 11), false, siaVal))
	}
	e = append(e, ext(OID(2, 5, 29, 32), true, Seq(Seq(OID(1, 3, 6, 1, 5, 5, 7, 14, 2)))))
	f4, f6 := fam(1, c.Res.V4, c.Res.V4Inherit), fam(2, c.Res.V6, c.Res.V6Inherit)
	ipv := Seq(f4, f6)
	if c.Res.ReverseFam {
		ipv = Seq(f6, f4)
	}
	if c.RawIP != nil {
		ipv = c.RawIP
	}
	if c.RawIP != nil || len(f4)+len(f6) > 0 {
		e = append(e, ext(OID(1, 3, 6, 1, 5, 5, 7, 1, 7), true, ipv))
	}
	if c.RawAS != nil {
		e = append(e, ext(OID(1, 3, 6, 1, 5, 5, 7, 1, 8), true, c.RawAS))
	} else if len(c.Res.AS) > 0 || c.Res.ASInherit {
		v := TLV(0xa0, asids(c.Res.AS, c.Res.ASInherit))
		if len(c.Res.RDI) > 0 {
			v = append(v, TLV(0xa1, asids(c.Res.RDI, false))...)
		}
		e = append(e, ext(OID(1, 3, 6, 1, 5, 5, 7, 1, 8), true, Seq(v)))
	}
	return Seq(TLV(0xa0, I64(2)), Int(SerialInt(c.Big, c.Serial)), Seq(oidSHA256RSA, Null()), name(c.Issuer),
		Seq(Time(c.NB), Time(c.NA)), name(c.Subject), c.Key.SPKI, TLV(0xa3, Seq(e...)))
}

// Sign returns the certificate signed by k; flip corrupts the signature.
func (c *Cert) Sign(k *Key, flip bool) []byte {
	t := c.TBS()
	s := k.Sign(t)
	if flip {
		s[len(s)/2] ^= 0x10
	}
	return Seq(t, Seq(oidSHA256RSA, Null()), Bits(s))
}

// SerialInt gives serial number i as it is (0), as numbers whose low 64 bits
// are all the same (1), or as numbers that differ in the low bits alone (2).
func SerialInt(form int, i int64) *big.Int {
	x := big.NewInt(i)
	switch form {
	case 1:
		return x.Add(x.Lsh(x, 64), big.NewInt(7))
	case 2:
		return x.Add(x, new(big.Int).Lsh(big.NewInt(1), 150))
	}
	return x
}

/*----------------------------------- CRL -----------------------------------*/

type CRL struct {
	Issuer   string
	This     time.Time
	Next     time.Time
	Serials  []int64
	Big      int
	AKI      []byte
	Number   int64
	RawAKI   []byte
	NoAKIExt bool
}

func (c *CRL) Sign(k *Key, flip bool) []byte {
	var rv []byte
	for _, s := range c.Serials {
		rv = append(rv, Seq(Int(SerialInt(c.Big, s)), Time(c.This))...)
	}
	var list []byte
	if len(rv) > 0 {
		list = Seq(rv)
	}
	var e []byte
	if c.RawAKI != nil {
		e = ext(OID(2, 5, 29, 35), false, c.RawAKI)
	} else if !c.NoAKIExt {
		e = ext(OID(2, 5, 29, 35), false, Seq(TLV(0x80, c.AKI)))
	}
	t := Seq(I64(1), Seq(oidSHA256RSA, Null()), name(c.Issuer), Time(c.This), Time(c.Next), list,
		TLV(0xa0, Seq(e, ext(OID(2, 5, 29, 20), false, I64(c.Number)))))
	s := k.Sign(t)
	if flip {
		s[len(s)/2] ^= 0x10
	}
	return Seq(t, Seq(oidSHA256RSA, Null()), Bits(s))
}

/*----------------------------------- CMS -----------------------------------*/

type CMSOpt struct {
	OldSig     bool // signature over other attributes
	FlipSig    bool
	Digest     bool // message digest of other content
	NoSigner   bool
	Forge3     bool // forged signature under exponent 3
	NoDigest   bool // no message-digest attribute
	NoAttrs    bool // no signed attributes at all
	BinTime    bool // binary signing time as well (RFC 6019)
	DigestForm int  // 1: cut short, 2: empty, 3: a second value, 4: as the content type
	Chunks     bool // constructed (BER) octet string
}

// CMS wraps content, signed by key, with the given end-entity certificate.
func CMS(ctype, content, ee []byte, k *Key, st time.Time, o CMSOpt) []byte {
	d := sha256.Sum256(content)
	if o.Digest {
		d = sha256.Sum256(append([]byte("x"), content...))
	}
	mk := func(dg []byte) []byte {
		digest := OID(1, 2, 840, 113549, 1, 9, 4)
		as := [][]byte{Seq(OID(1, 2, 840, 113549, 1, 9, 3), Set(ctype)), Seq(OID(1, 2, 840, 113549, 1, 9, 5), Set(Time(st)))}
		switch {
		case o.NoDigest:
		case o.DigestForm == 1:
			as = append(as, Seq(digest, Set(Octet(dg[:20]))))
		case o.DigestForm == 2:
			as = append(as, Seq(digest, Set(Octet(nil))))
		case o.DigestForm == 3:
			other := sha256.Sum256(append([]byte("y"), content...))
			as = append(as, Seq(digest, Set(Octet(other[:]), Octet(dg))))
		case o.DigestForm == 4:
			as = append(as, Seq(OID(1, 2, 840, 113549, 1, 9, 3), Set(Octet(dg))))
		default:
			as = append(as, Seq(digest, Set(Octet(dg))))
		}
		if o.BinTime {
			as = append(as, Seq(OID(1, 2, 840, 113549, 1, 9, 16, 2, 46), Set(I64(st.Unix()))))
		}
		sort.Slice(as, func(i, j int) bool { return bytes.Compare(as[i], as[j]) < 0 })
		return cat(as...)
	}
	attrs := mk(d[:])
	signed := attrs
	if o.OldSig {
		od := sha256.Sum256([]byte("previous content"))
		signed = mk(od[:])
	}
	var sig []byte
	if o.Forge3 {
		h := sha256.Sum256(Set(signed))
		sig = Forge3(k.Priv.N, h[:])
	} else {
		sig = k.Sign(Set(signed))
	}
	if o.FlipSig {
		sig[len(sig)/2] ^= 0x10
	}
	ab := TLV(0xa0, attrs)
	if o.NoAttrs {
		ab = nil
	}
	si := Seq(I64(3), TLV(0x80, k.SKI), Seq(oidSHA256, Null()), ab, Seq(oidSHA256RSA, Null()), Octet(sig))
	if o.NoSigner {
		si = nil
	}
	inner := Octet(content)
	return Seq(OID(1, 2, 840, 113549, 1, 7, 2), TLV(0xa0,
		Seq(I64(3), Set(Seq(oidSHA256, Null())), Seq(ctype, TLV(0xa0, inner)), TLV(0xa0, ee), Set(si))))
}

/*-------------------------------- contents ---------------------------------*/

type FileHash struct {
	Name string
	Hash []byte
}

func Hash(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

func ManifestContent(num int64, this, next time.Time, files []FileHash) []byte {
	return ManifestContentN(big.NewInt(num), this, next, files)
}
func ManifestContentN(num *big.Int, this, next time.Time, files []FileHash) []byte {
	var l []byte
	for _, f := range files {
		l = append(l, Seq(TLV(0x16, []byte(f.Name)), Bits(f.Hash))...)
	}
	return Seq(Int(num), GenTime(this), GenTime(next), oidSHA256, Seq(l))
}

type RoaEntry struct {
	Prefix  string
	MaxLen  int // -1: absent
	RawBits int // > 0: overrides the bit length of the address
}

func RoaContent(asn *big.Int, es []RoaEntry) []byte {
	var f4, f6 []byte
	for _, e := range es {
		_, n, err := net.ParseCIDR(e.Prefix)
		if err != nil {
			panic(err)
		}
		l, b := n.Mask.Size()
		if e.RawBits > 0 {
			l = e.RawBits
		}
		it := BitString(n.IP, l)
		if e.MaxLen >= 0 {
			it = Seq(it, I64(int64(e.MaxLen)))
		} else {
			it = Seq(it)
		}
		if b == 32 {
			f4 = append(f4, it...)
		} else {
			f6 = append(f6, it...)
		}
	}
	var fams []byte
	if f4 != nil {
		fams = append(fams, Seq(Octet([]byte{0, 1}), Seq(f4))...)
	}
	if f6 != nil {
		fams = append(fams, Seq(Octet([]byte{0, 2}), Seq(f6))...)
	}
	return Seq(Int(asn), Seq(fams))
}

func TAL(uris []string, k *Key) []byte {
	s := ""
	for _, u := range uris {
		s += u + "\n"
	}
	b := base64.StdEncoding.EncodeToString(k.SPKI)
	s += "\n"
	for len(b) > 64 {
		s += b[:64] + "\n"
		b = b[64:]
	}
	return []byte(s + b + "\n")
}

func GenKeys(path string, n int) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	for i := 0; i < n; i++ {
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		if err != nil {
			return err
		}
		pem.Encode(f, &pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)})
	}
	fmt.Fprintln(os.Stderr, "generated", n, "keys")
	return nil
}

// ToBER gives another encoding of the same: indefinite lengths and, for long
// octet strings at the innermost level, segments
func ToBER(der []byte) []byte {
	var out []byte
	for len(der) > 0 {
		h, n := 2, int(der[1])
		if der[1] >= 0x80 {
			n = 0
			for _, b := range der[2 : 2+der[1]&0x7f] {
				n = n<<8 | int(b)
				h++
			}
		}
		body := der[h : h+n]
		switch {
		case der[0]&0x20 != 0:
			out = append(out, der[0], 0x80)
			out = append(out, ToBER(body)...)
			out = append(out, 0, 0)
		default:
			out = append(out, der[:h+n]...)
		}
		der = der[h+n:]
	}
	return out
}
