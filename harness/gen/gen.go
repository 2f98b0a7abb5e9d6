// Package gen builds small RPKI repositories.
package gen

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/vh/rpki"
)

// ROA of a CA.
type ROA struct {
	Name    string
	ASN     int64
	BigASN  *big.Int // instead of ASN
	Entries []rpki.RoaEntry
	Res     rpki.Resources // of the end-entity certificate; default: those of the CA
	Serial  int64
	NB, NA  time.Time // default: those of the CA
	Edit    func(der []byte) []byte
	Hidden  bool // not on the manifest
}

// CA is a certification authority and its publication point.
type CA struct {
	Name     string
	Parent   *CA
	Dir      string // rsync URI, ending in /
	Rrdp     string
	Key      *rpki.Key
	SKI      []byte    // default: that of the key
	EE       *rpki.Key // key of every end-entity certificate (identifiers are made distinct)
	Res      rpki.Resources
	Serial   int64
	Big      int // form of the serial numbers of the certificates it issues
	NB, NA   time.Time
	ROAs     []*ROA
	Children []*CA
	Revoked  []int64
	Order    []string // file names first on the manifest
	Number   int64
	This     time.Time
	Next     time.Time
	CertURI  string // default: <parent dir><name>.cer; of a TA: needed
	NoCRLDP  bool
	Shallow  bool                // Files leaves out what is below
	EditMft  func([]byte) []byte // of the finished object
	EditCRL  func([]byte) []byte
	EditCert func([]byte) []byte
	cert     []byte
}

func (c *CA) ID() []byte {
	if c.SKI != nil {
		return c.SKI
	}
	return c.Key.SKI
}
func (c *CA) uri(n string) string { return c.Dir + n }
func (c *CA) CRL() string         { return c.uri(c.Name + ".crl") }
func (c *CA) Mft() string         { return c.uri(c.Name + ".mft") }
func (c *CA) URI() string {
	if c.CertURI != "" {
		return c.CertURI
	}
	return c.Parent.Dir + c.Name + ".cer"
}

func EESKI(c *CA, n string) []byte { return rpki.Hash([]byte(c.Name + "/" + n))[:20] }

// Cert returns the CA's certificate.
func (c *CA) Cert() []byte {
	if c.cert != nil {
		return c.cert
	}
	x := &rpki.Cert{Subject: c.Name, Issuer: c.Name, Serial: c.Serial, Big: c.Big, NB: c.NB, NA: c.NA, Key: c.Key, SKI: c.ID(), CA: true, Res: c.Res,
		Repo: c.Dir, Mft: c.Mft(), Rrdp: c.Rrdp}
	k := c.Key
	if c.Parent != nil {
		x.Issuer, x.AKI, k, x.Big = c.Parent.Name, c.Parent.ID(), c.Parent.Key, c.Parent.Big
		if !c.Parent.NoCRLDP {
			x.CRL = c.Parent.CRL()
		}
		x.AIA = c.Parent.URI()
	} else {
		x.AKI = c.ID()
	}
	c.cert = x.Sign(k, false)
	if c.EditCert != nil {
		c.cert = c.EditCert(c.cert)
	}
	return c.cert
}

func (c *CA) ee(n string, serial int64, res rpki.Resources, nb, na time.Time) []byte {
	x := &rpki.Cert{Subject: c.Name + n, Issuer: c.Name, Serial: serial, Big: c.Big, NB: nb, NA: na, Key: c.EE, SKI: EESKI(c, n),
		AKI: c.ID(), Res: res, SignedObject: c.uri(n), AIA: c.URI()}
	if !c.NoCRLDP {
		x.CRL = c.CRL()
	}
	return x.Sign(c.Key, false)
}

func (r *ROA) Build(c *CA) []byte {
	res := r.Res
	if res.V4 == nil && res.V6 == nil && !res.V4Inherit && !res.V6Inherit {
		res = rpki.Resources{V4: c.Res.V4, V6: c.Res.V6, V4Inherit: c.Res.V4Inherit, V6Inherit: c.Res.V6Inherit}
	}
	nb, na := r.NB, r.NA
	if nb.IsZero() {
		nb, na = c.NB, c.NA
	}
	asn := big.NewInt(r.ASN)
	if r.BigASN != nil {
		asn = r.BigASN
	}
	d := rpki.CMS(rpki.OIDRoa, rpki.RoaContent(asn, r.Entries), c.ee(r.Name, r.Serial, res, nb, na), &rpki.Key{Priv: c.EE.Priv, SKI: EESKI(c, r.Name), SPKI: c.EE.SPKI}, nb.Add(time.Second), rpki.CMSOpt{})
	if r.Edit != nil {
		d = r.Edit(d)
	}
	return d
}

// Files adds the publication point, and those of the CAs below, to m.
func (c *CA) Files(m map[string][]byte) {
	own := map[string][]byte{}
	crl := &rpki.CRL{Issuer: c.Name, This: c.NB, Next: c.NA, Serials: c.Revoked, Big: c.Big, AKI: c.ID(), Number: c.Number + 1}
	own[c.Name+".crl"] = crl.Sign(c.Key, false)
	if c.EditCRL != nil {
		own[c.Name+".crl"] = c.EditCRL(own[c.Name+".crl"])
	}
	names := []string{c.Name + ".crl"}
	for _, ch := range c.Children {
		d := ch.Cert()
		if strings.HasPrefix(ch.URI(), c.Dir) {
			n := strings.TrimPrefix(ch.URI(), c.Dir)
			own[n] = d
			names = append(names, n)
		}
		if !c.Shallow {
			ch.Files(m)
		}
	}
	for _, r := range c.ROAs {
		own[r.Name] = r.Build(c)
		if !r.Hidden {
			names = append(names, r.Name)
		}
	}
	var l []rpki.FileHash
	seen := map[string]bool{}
	for _, n := range append(append([]string{}, c.Order...), names...) {
		if !seen[n] {
			seen[n] = true
			l = append(l, rpki.FileHash{Name: n, Hash: rpki.Hash(own[n])})
		}
	}
	this, next := c.This, c.Next
	if this.IsZero() {
		this, next = c.NB, c.NA
	}
	n := c.Name + ".mft"
	res := rpki.Resources{V4Inherit: true, V6Inherit: true, ASInherit: true}
	own[n] = rpki.CMS(rpki.OIDManifest, rpki.ManifestContent(c.Number+1, this, next, l), c.ee(n, 1000+c.Number, res, c.NB, c.NA), &rpki.Key{Priv: c.EE.Priv, SKI: EESKI(c, n), SPKI: c.EE.SPKI}, c.NB.Add(time.Second), rpki.CMSOpt{})
	if c.EditMft != nil {
		own[n] = c.EditMft(own[n])
	}
	for k, v := range own {
		m[c.uri(k)] = v
	}
	if c.Parent == nil {
		m[c.URI()] = c.Cert()
	}
}

// Tree builds a chain or tree: names maps CA to its parent ("" for the anchor), in order.
type Spec struct{ Name, Parent, Dir, Rrdp string }

func Tree(keys []*rpki.Key, now time.Time, specs ...Spec) map[string]*CA {
	out := map[string]*CA{}
	for i, s := range specs {
		c := &CA{Name: s.Name, Dir: s.Dir, Rrdp: s.Rrdp, Key: keys[i%(len(keys)-1)], EE: keys[len(keys)-1], Serial: int64(i + 1),
			NB: now.Add(-24 * time.Hour).Truncate(time.Second), NA: now.Add(24 * time.Hour).Truncate(time.Second)}
		c.Res = rpki.Resources{V4: []rpki.IPRes{rpki.P("10.0.0.0/8")}, V6: []rpki.IPRes{rpki.P("2001:db8::/32")}, AS: []rpki.ASRes{{Min: 64500, Max: 65000}}}
		if s.Parent != "" {
			p := out[s.Parent]
			c.Parent = p
			p.Children = append(p.Children, c)
		} else {
			c.CertURI = s.Dir[:len(s.Dir)-1] + ".cer"
		}
		out[s.Name] = c
	}
	return out
}

// Add appends a ROA with one entry.
func (c *CA) Add(name string, serial, asn int64, prefix string, max int) *ROA {
	r := &ROA{Name: name, ASN: asn, Serial: serial, Entries: []rpki.RoaEntry{{Prefix: prefix, MaxLen: max}}}
	c.ROAs = append(c.ROAs, r)
	return r
}

func (c *CA) TAL(uris ...string) []byte {
	if len(uris) == 0 {
		uris = []string{c.URI()}
	}
	return rpki.TAL(uris, c.Key)
}

func (c *CA) String() string { return fmt.Sprintf("CA %s at %s", c.Name, c.Dir) }
