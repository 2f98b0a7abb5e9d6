package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/cloudflare/cfrpki/vh/rpki"
)

// one TLV at the start of b: header length and total length
func tlv(b []byte) (hdr, total int, ok bool) {
	if len(b) < 2 || b[0]&0x1f == 0x1f {
		return
	}
	l, n := int(b[1]), 2
	if b[1]&0x80 != 0 {
		k := int(b[1] & 0x7f)
		if k == 0 || k > 3 || len(b) < 2+k {
			return
		}
		l = 0
		for _, x := range b[2 : 2+k] {
			l = l<<8 | int(x)
		}
		n += k
	}
	if n+l > len(b) {
		return
	}
	return n, n + l, true
}

type spot struct {
	Path []int  `json:"path"`
	Op   string `json:"op"`
	T    string `json:"t"`
}

type cut struct{ at int } // the whole object ends here

// damage applies s to the object b; ok: the node exists.
func damage(b []byte, s spot, v *values) (out []byte, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			c, is := r.(cut)
			if !is {
				panic(r)
			}
			out, ok = append([]byte{}, b[:c.at]...), true
		}
	}()
	_, n, fine := tlv(b)
	if !fine {
		return b, false
	}
	out, ok = edit([][]byte{b[:n]}, 0, 0, s.Path, s, v)
	return append(out, b[n:]...), ok
}

// edit applies s to what is at path below node i of the nodes in list.
func edit(list [][]byte, i, off int, path []int, s spot, v *values) ([]byte, bool) {
	for _, x := range list[:i] {
		off += len(x)
	}
	me := list[i]
	hdr, _, fine := tlv(me)
	if !fine {
		return nil, false
	}
	var parts [][]byte
	if len(path) == 0 {
		parts = op(list, i, off, hdr, s, v)
	} else {
		skip := 0
		if me[0] == 3 {
			skip = 1
		}
		if len(me) < hdr+skip {
			return nil, false
		}
		var kids [][]byte
		for rest := me[hdr+skip:]; len(rest) > 0; {
			_, n, fine := tlv(rest)
			if !fine {
				return nil, false
			}
			kids = append(kids, rest[:n])
			rest = rest[n:]
		}
		k := path[0] - 1
		if k >= len(kids) {
			return nil, false
		}
		in, ok := edit(kids, k, off+hdr+skip, path[1:], s, v)
		if !ok {
			return nil, false
		}
		parts = append(append(append([][]byte{}, list[:i]...), rpki.TLV(me[0], me[hdr:hdr+skip], in)), list[i+1:]...)
	}
	return bytes.Join(parts, nil), true
}

func op(list [][]byte, i, off, hdr int, s spot, v *values) [][]byte {
	me := list[i]
	tag, body := me[0], me[hdr:]
	before, after := list[:i], list[i+1:]
	put := func(x ...[]byte) [][]byte {
		return append(append(append([][]byte{}, before...), x...), after...)
	}
	with := func(c []byte) [][]byte { return put(rpki.TLV(tag, c)) }
	same := func(b byte) []byte { return bytes.Repeat([]byte{b}, len(body)) }
	size := func(l ...byte) [][]byte { return put(append(append([]byte{tag}, l...), body...)) }
	switch s.Op {
	case "delete":
		return put()
	case "empty":
		return with(nil)
	case "twice":
		return put(me, me)
	case "swap":
		if len(after) > 0 {
			return append(append(append([][]byte{}, before...), after[0], me), after[1:]...)
		}
		return append([][]byte{me}, before...)
	case "astag02", "astag30", "astag80", "astag04":
		t, _ := strconv.ParseUint(s.Op[5:], 16, 8)
		return put(rpki.TLV(byte(t), body))
	case "high":
		return put(append([]byte{tag | 0x1f, 0x81}, me[1:]...))
	case "construct":
		return put(append([]byte{tag ^ 0x20}, me[1:]...))
	case "longer", "shorter":
		n := len(body) + 1
		if s.Op == "shorter" {
			n -= 2
		}
		if n < 0 {
			n = 0
		}
		h := rpki.TLV(tag, make([]byte, n))
		return put(append(append([]byte{}, h[:len(h)-n]...), body...))
	case "huge":
		return size(v.pick([]byte{0x84, 0x7f, 0xff, 0xff, 0xff}, []byte{0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
			[]byte{0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, []byte{0x84, 0xff, 0xff, 0xff, 0xff}, append([]byte{0xfe}, bytes.Repeat([]byte{0xff}, 126)...))...)
	case "open":
		return put(append([]byte{tag | 0x20, 0x80}, body...))
	case "nonminimal":
		return size(0x83, byte(len(body)>>16), byte(len(body)>>8), byte(len(body)))
	case "cuttail":
		if len(body) == 0 {
			return with(nil)
		}
		return with(body[:len(body)-1])
	case "cuthalf":
		return with(body[:len(body)/2])
	case "append":
		return with(append(append([]byte{}, body...), 0))
	case "ones":
		return with(same(0xff))
	case "zeros":
		return with(same(0))
	case "one":
		return with(v.pick([]byte{0}, []byte{0xff}, []byte{0x30}, []byte{1}))
	case "big":
		return with(bytes.Repeat(append(append([]byte{}, body...), 0x55), 70000/(len(body)+1)+1))
	case "wrap":
		return put(rpki.TLV(tag|0x20, me))
	case "deep":
		d := []byte{}
		for j := 0; j < 3000; j++ {
			d = rpki.TLV(tag|0x20, d)
		}
		return put(d)
	case "cutafter":
		panic(cut{off + len(me)})
	case "cutinside":
		panic(cut{off + hdr + len(body)/2})
	case "cutlength":
		panic(cut{off + 1})
	case "eoc":
		return put([]byte{0, 0}, me)
	}
	n, err := strconv.Atoi(strings.TrimPrefix(s.Op, "value"))
	if err != nil {
		panic("op " + s.Op)
	}
	x := v.of(s.T, n)
	return put(append(append([]byte{}, x.head(tag)...), x.rest...))
}

type value struct {
	tag  int // -1: that of the node
	rest []byte
}

func (x value) head(t byte) []byte {
	if x.tag >= 0 {
		t = byte(x.tag)
	}
	h := rpki.TLV(t, x.rest)
	return h[:len(h)-len(x.rest)]
}

// values holds the names the odd values are built from.
type values struct {
	host, dir, self, mft string // of the CA
	n                    int
}

func (v *values) pick(l ...[]byte) []byte { return l[v.n%len(l)] }

func (v *values) of(t string, n int) value {
	b := func(x ...byte) value { return value{-1, x} }
	s := func(x string) value { return value{-1, []byte(x)} }
	rep := func(c byte, n int) []byte { return bytes.Repeat([]byte{c}, n) }
	var l []value
	switch t {
	case "oid":
		l = []value{b(0x2b, 0x0e, 3, 2, 0x1a), b(0x80, 1), b(0x2a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f), b(0x2a, 0x86), value{-1, rep(0x81, 500)}}
	case "int":
		l = []value{b(0xff), b(0), b(0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff), b(0, 0x80, 0, 0, 0, 0, 0, 0, 0), b(0, 0xff, 0xff, 0xff, 0xff), b(1, 0, 0, 0, 0),
			b(0x80, 0, 0, 0, 0, 0, 0, 0), value{-1, rep(0x7f, 1000)}}
	case "str":
		l = []value{s("*"), value{12, []byte("\xff\xfe")}, value{30, []byte("x")}, {-1, rep('x', 70000)}}
	case "uri":
		l = []value{s(""), s("rsync://"), s("rsync:"), s("rsync:///"), s("://"), s("rsync://" + v.host), s("rsync://" + v.host + "/"), s("rsync://" + v.host + "/../../x/"),
			s("%zz"), s("rsync://[::1"), s("https://" + v.host + "/x"), s("rsync://" + v.host + "/repo/\x00\n"), s("\xff\xfe"), value{-1, append([]byte("rsync://"+v.host+"/repo/"), rep('a', 70000)...)},
			s(v.dir), s(v.self)}
	case "file":
		l = []value{s(""), s("."), s(".."), s("../.."), s("/"), s("a/b/c.roa"), s("x\x00.roa"), {-1, append(rep('a', 70000), ".roa"...)}, s("noextension"), s(".cer"), s(".roa"), s(".mft"),
			s(v.mft), s("../" + v.self[strings.LastIndex(v.self, "/")+1:]), s("\xff\xfe.cer"), s("x.roa\n")}
	case "time":
		l = []value{s("000000000000Z"), s("991332256199Z"), s("2601010000"), s("260101000000+0100"), value{24, []byte("99991231235959Z")}, value{24, []byte("00000101000000Z")}, value{24, []byte("20260101000000.5Z")},
			s("Z"), value{23, []byte("500101000000Z")}, value{-1, rep('9', 5000)}}
	case "bits":
		l = []value{b(), b(8), b(255, 0), b(7), b(1, 1), value{-1, rep(0, 100)}, b(0, 10, 1, 2, 3, 4), b(7, 10, 1, 2, 3, 0x80), value{-1, append([]byte{0}, rep(0x20, 17)...)}, b(0, 10, 0, 0, 0, 0, 0, 0, 0)}
	case "octets":
		l = []value{b(0, 3), b(0, 0), b(0, 1, 128), b(0xff, 0xff), b(0), value{-1, rep(1, 32)}}
	case "bool":
		l = []value{b(0), b(1)}
	case "null":
		l = []value{b(0)}
	}
	if n < 1 || n > len(l) {
		panic(fmt.Sprintf("value %d of %s", n, t))
	}
	return l[n-1]
}
