package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"strings"
	"sync"

	"github.com/bwesterb/go-xmssmt"
	"xverif/memctr"
	"xverif/mon"
	"xverif/ref"
)

func init() {
	checks["C10"] = check{run: runC10,
		rule: "The whole grid of representable parameter sets is encoded, named, decoded and looked up (all are run, not sampled); every four-byte encoding with the right magic is decoded; unrepresentable sets must be refused; names and OIDs are compared with a table written from RFC 8391 and SP 800-208; advertised sizes are compared with the lengths of what keys of every family and many shapes produce. Non-trivial: distinct parameter sets that went through encoding, name and context."}
}

// The standards' registries, written down from RFC 8391 (tables 4 and 5 in
// section 8) and SP 800-208 (section 5).
type stdEntry struct {
	mt   bool
	oid  uint32
	name string
	p    ref.P
}

func standards() (out []stdEntry) {
	add := func(mt bool, oid uint32, fn string, n, h, d int) {
		p := ref.P{N: n, H: h, D: d, W: 16}
		switch fn {
		case "SHAKE":
			p.Func = ref.SHAKE
		case "SHAKE256":
			p.Func = ref.SHAKE256
		}
		if n == 24 {
			p.Prf = ref.NIST
		}
		name := fmt.Sprintf("XMSS-%s_%d_%d", fn, h, 8*n)
		if mt {
			name = fmt.Sprintf("XMSSMT-%s_%d/%d_%d", fn, h, d, 8*n)
		}
		out = append(out, stdEntry{mt, oid, name, p})
	}
	hs := []int{10, 16, 20}
	hds := [][2]int{{20, 2}, {20, 4}, {40, 2}, {40, 4}, {40, 8}, {60, 3}, {60, 6}, {60, 12}}
	xmss := []struct {
		first uint32
		fn    string
		n     int
	}{{1, "SHA2", 32}, {4, "SHA2", 64}, {7, "SHAKE", 32}, {0xa, "SHAKE", 64}, {0xd, "SHA2", 24}, {0x10, "SHAKE256", 32}, {0x13, "SHAKE256", 24}}
	for _, x := range xmss {
		for i, h := range hs {
			add(false, x.first+uint32(i), x.fn, x.n, h, 1)
		}
	}
	mts := []struct {
		first uint32
		fn    string
		n     int
	}{{1, "SHA2", 32}, {9, "SHA2", 64}, {0x11, "SHAKE", 32}, {0x19, "SHAKE", 64}, {0x21, "SHA2", 24}, {0x29, "SHAKE256", 32}, {0x31, "SHAKE256", 24}}
	for _, x := range mts {
		for i, hd := range hds {
			add(true, x.first+uint32(i), x.fn, x.n, hd[0], hd[1])
		}
	}
	return
}

func runC10(t *mon.T) {
	std := standards()
	stdBy := map[xmssmt.Params]stdEntry{}
	for _, e := range std {
		stdBy[fromRef(e.p)] = e
	}

	cs(t, "registry", func() {
		names := xmssmt.ListNames()
		want := map[string]bool{}
		for _, e := range std {
			want[e.name] = true
		}
		seen := map[string]bool{}
		for _, n := range names {
			if seen[n] {
				t.Violate("duplicate:"+n, "registry", nil, "ListNames lists %s twice", n)
			}
			seen[n] = true
			if !want[n] {
				t.Violate("unlisted:"+n, "registry", nil, "ListNames lists %s, which no standard assigns", n)
			}
		}
		for n := range want {
			if !seen[n] {
				t.Violate("missing:"+n, "registry", nil, "ListNames lacks %s", n)
			}
		}
		for _, e := range std {
			c10Entry(t, e)
		}
		// OIDs that are not assigned
		oids := map[bool]map[uint32]bool{true: {}, false: {}}
		for _, e := range std {
			oids[e.mt][e.oid] = true
		}
		for _, mt := range []bool{true, false} {
			for o := uint32(0); o < 1<<16; o++ {
				if ctx := xmssmt.NewContextFromOid(mt, o); (ctx != nil) != oids[mt][o] {
					t.Violate("oid", "registry", nil, "NewContextFromOid(%v, %#x) gives %v", mt, o, ctx != nil)
					break
				}
			}
			for s := uint(16); s < 32; s++ {
				for o := uint32(0); o < 64; o++ {
					if xmssmt.NewContextFromOid(mt, 1<<s|o) != nil {
						t.Violate("oid", "registry", nil, "NewContextFromOid(%v, %#x) gives a context", mt, 1<<s|o)
					}
				}
			}
		}
		for _, n := range []string{"", "XMSS", "XMSS-SHA2_10_256 ", "xmss-sha2_10_256", "XMSSMT-SHA2_20/2_256\x00", "XMSS-SHA2_12_256", "XMSSMT-SHA2_10/1_256", "XMSS-SHA2_10_256_w16"} {
			if xmssmt.NewContextFromName(n) != nil || xmssmt.ParamsFromName(n) != nil {
				t.Violate("name", "registry", nil, "NewContextFromName or ParamsFromName accepts %q", n)
			}
		}
	})

	// the useful, unlisted names
	cs(t, "names2", func() {
		seen := map[string]bool{}
		for _, n := range xmssmt.ListNames2() {
			if seen[n] {
				t.Violate("duplicate2:"+n, "names2", nil, "ListNames2 lists %s twice", n)
			}
			seen[n] = true
			p, err := xmssmt.ParamsFromName2(n)
			if err != nil {
				t.Violate("names2", "names2", nil, "ParamsFromName2(%s), which is listed: %v", n, err)
				continue
			}
			if p.String() != n {
				t.Violate("names2", "names2", nil, "%s denotes parameters named %s", n, p.String())
			}
			ctx, err := xmssmt.NewContextFromName2(n)
			if err != nil || ctx.Params() != *p {
				t.Violate("names2", "names2", nil, "NewContextFromName2(%s): %v", n, err)
			}
		}
		if len(seen) < len(std) {
			t.Violate("names2", "names2", nil, "ListNames2 lists only %d names", len(seen))
		}
		// Everything in the standards is among the useful ones, and so is each
		// of the shapes they use with the other values of N and W.
		for _, e := range std {
			t.Count("names looked for in ListNames2", 1)
			if !seen[e.name] {
				t.Violate("unlisted2:"+e.name, "names2", nil, "ListNames2 does not list %s, which is in the standards", e.name)
			}
		}
		for f := 0; f < 3; f++ {
			for _, w := range []int{4, 16, 256} {
				for _, n := range []int{16, 24, 32, 64} {
					if f == ref.SHAKE256 && (n == 16 || n == 64) {
						continue
					}
					for _, hd := range [][2]int{{20, 2}, {20, 4}, {40, 2}, {40, 4}, {40, 8}, {60, 3}, {60, 6}, {60, 12}, {10, 1}, {16, 1}, {20, 1}} {
						p := ref.P{Func: f, N: n, H: hd[0], D: hd[1], W: w}
						if n == 24 {
							p.Prf = 1
						}
						t.Count("names looked for in ListNames2", 1)
						if name := fromRef(p).String(); !seen[name] {
							t.Violate("unlisted2:"+name, "names2", nil, "ListNames2 does not list %s", name)
						}
					}
				}
			}
		}
	})

	// the whole grid of representable sets
	var mu sync.Mutex
	byName := map[string]xmssmt.Params{}
	byEnc := map[[4]byte]xmssmt.Params{}
	var grid []xmssmt.Params
	for f := 0; f < 3; f++ {
		for n := 8; n <= 128; n += 8 {
			for _, w := range []int{4, 16, 256} {
				for prf := 0; prf < 2; prf++ {
					for h := 0; h < 64; h++ {
						for d := 1; d < 64; d++ {
							grid = append(grid, fromRef(ref.P{Func: f, N: n, H: h, D: d, W: w, Prf: prf}))
						}
					}
				}
			}
		}
	}
	const chunk = 4096
	mon.Par((len(grid)+chunk-1)/chunk, func(c int) {
		label := fmt.Sprintf("grid/%d", c)
		cs(t, label, func() {
			lo, hi := c*chunk, min((c+1)*chunk, len(grid))
			type ent struct {
				name string
				enc  [4]byte
			}
			es := make([]ent, hi-lo)
			for i, p := range grid[lo:hi] {
				if t.Stop() {
					return
				}
				es[i].name, es[i].enc = c10Set(t, label, p, stdBy)
			}
			mu.Lock()
			defer mu.Unlock()
			for i, p := range grid[lo:hi] {
				if q, dup := byName[es[i].name]; dup {
					t.Violate("name-shared", label, nil, "%#v and %#v share the name %s", p, q, es[i].name)
				}
				if q, dup := byEnc[es[i].enc]; dup {
					t.Violate("encoding-shared", label, nil, "%#v and %#v share the encoding %x", p, q, es[i].enc)
				}
				byName[es[i].name] = p
				byEnc[es[i].enc] = p
			}
		})
	})
	t.Count("parameter sets encoded, named and decoded", len(byEnc))

	// every four-byte string with the magic, and samples of others
	mon.Par(256, func(b1 int) {
		label := fmt.Sprintf("decode/%02x", b1)
		cs(t, label, func() {
			n, acc := 0, 0
			for x := 0; x < 1<<16; x++ {
				b := [4]byte{0xea, byte(b1), byte(x >> 8), byte(x)}
				mu.Lock()
				want, ok := byEnc[b]
				mu.Unlock()
				var p xmssmt.Params
				err := p.UnmarshalBinary(b[:])
				n++
				if err == nil {
					acc++
				}
				if ok && (err != nil || p != want) || !ok && err == nil {
					t.Violate("decode", label, map[string]any{"bytes": fmt.Sprintf("%x", b)}, "decoding %x gives %#v, %v; it encodes %#v (%v)", b, p, err, want, ok)
					return
				}
			}
			t.Count("encodings decoded", n)
			t.Count("encodings accepted", acc)
		})
	})
	cs(t, "decode/magic", func() {
		for m := 0; m < 256; m++ {
			if m == 0xea {
				continue
			}
			for enc := range byEnc {
				b := enc
				b[0] = byte(m)
				var p xmssmt.Params
				if p.UnmarshalBinary(b[:]) == nil {
					t.Violate("magic", "decode/magic", nil, "decoding %x, which has another magic, succeeds", b)
					return
				}
				if m > 0 && b[3]%7 != 0 {
					break // a few of each
				}
			}
		}
		for _, e := range std {
			h := e.p.Header()
			for n := 0; n < 8; n++ {
				if n == 4 {
					continue
				}
				var p xmssmt.Params
				if p.UnmarshalBinary(append(clone(h), 0, 0, 0, 0)[:n]) == nil {
					t.Violate("length", "decode/magic", nil, "decoding %d bytes of parameters succeeds", n)
				}
			}
		}
	})

	c10Spoken(t)
	cs(t, "refused", func() { c10Refused(t, "refused") })

	// sizes
	var sz []ref.P
	for _, f := range families() {
		sz = append(sz, shape(f, 3, 1), shape(f, 4, 2), shape(f, 12, 4), shape(f, 9, 9))
		if t.Thorough() || f.W == 16 {
			sz = append(sz, shape(f, 60, 30), shape(f, 63, 63), shape(f, 1, 1), shape(f, 40, 20))
		}
	}
	mon.Par(len(sz), func(i int) {
		label := fmt.Sprintf("size/%v", sz[i])
		if sz[i].W == 256 && sz[i].D > 4 && !t.Thorough() {
			return
		}
		cs(t, label, func() { c10Size(t, label, sz[i]) })
	})
	t.Require("parameter sets encoded, named and decoded", 100000)
	t.Require("names looked for in ListNames2", 400)
	t.Require("sizes compared", 500)
	t.Require("unusual names accepted", 100)
	t.Require("unusual names refused", 5000)
	t.Note("exhausted", "the grid of representable sets and all 2^24 encodings with the magic")
}

func c10Entry(t *mon.T, e stdEntry) {
	p := fromRef(e.p)
	bad := func(what string, a ...any) {
		t.Violate("standard:"+e.name, "registry", nil, "%s (OID %#x): "+what, append([]any{e.name, e.oid}, a...)...)
	}
	chk := func(how string, ctx *xmssmt.Context) {
		if ctx == nil {
			bad("%s gives nothing", how)
			return
		}
		t.Count("standard instances looked up", 1)
		if ctx.Params() != p {
			bad("%s gives parameters %#v", how, ctx.Params())
		}
		if ctx.Name() != e.name {
			bad("%s gives the name %q", how, ctx.Name())
		}
		if ctx.Oid() != e.oid {
			bad("%s gives the OID %#x", how, ctx.Oid())
		}
		if ctx.MT() != e.mt {
			bad("%s: MT is %v", how, ctx.MT())
		}
		rfc := e.oid <= 0xc && !e.mt || e.oid <= 0x20 && e.mt
		if ctx.FromRFC() != rfc {
			bad("%s: FromRFC is %v", how, ctx.FromRFC())
		}
		if ctx.FromNIST() != !rfc {
			bad("%s: FromNIST is %v", how, ctx.FromNIST())
		}
		if int(ctx.SignatureSize()) != e.p.SigBytes() {
			bad("%s: SignatureSize is %d instead of %d", how, ctx.SignatureSize(), e.p.SigBytes())
		}
	}
	chk("NewContextFromName", xmssmt.NewContextFromName(e.name))
	chk("NewContextFromOid", xmssmt.NewContextFromOid(e.mt, e.oid))
	c2, err := xmssmt.NewContextFromName2(e.name)
	if err != nil {
		bad("NewContextFromName2: %v", err)
	} else {
		chk("NewContextFromName2", c2)
	}
	c3, err := xmssmt.NewContext(p)
	if err != nil {
		bad("NewContext: %v", err)
	} else {
		chk("NewContext", c3)
	}
	if q := xmssmt.ParamsFromName(e.name); q == nil || *q != p {
		bad("ParamsFromName gives %#v", q)
	} else {
		// the caller may change what it got
		q.N, q.D, q.FullHeight = 16, 7, 7
		chk("NewContextFromName after changing the result of ParamsFromName", xmssmt.NewContextFromName(e.name))
	}
	if q, err := xmssmt.ParamsFromName2(e.name); err != nil || *q != p {
		bad("ParamsFromName2 gives %#v, %v", q, err)
	} else {
		q.N, q.D, q.FullHeight = 16, 7, 7
		chk("NewContextFromName after changing the result of ParamsFromName2", xmssmt.NewContextFromName(e.name))
	}
	if n, o := p.LookupNameAndOid(); n != e.name || o != e.oid {
		bad("LookupNameAndOid gives %q, %#x", n, o)
	}
	if p.String() != e.name {
		bad("String gives %q", p.String())
	}
}

// c10Set checks one representable set and gives its name and encoding.
func c10Set(t *mon.T, label string, p xmssmt.Params, stdBy map[xmssmt.Params]stdEntry) (name string, enc [4]byte) {
	rp := toRef(p)
	bad := func(what string, a ...any) {
		t.Violate("set:"+strings.SplitN(what, " ", 2)[0], label, map[string]any{"params": fmt.Sprintf("%#v", p)}, "%#v: "+what, append([]any{p}, a...)...)
	}
	b, err := p.MarshalBinary()
	if err != nil || len(b) != 4 {
		bad("MarshalBinary gives %x, %v", b, err)
		return
	}
	copy(enc[:], b)
	if !bytes.Equal(b, rp.Header()) {
		bad("MarshalBinary gives %x instead of the documented %x", b, rp.Header())
	}
	w := []byte{1, 2, 3, 4}
	if err := p.WriteInto(w); err != nil || !bytes.Equal(w, b) {
		bad("WriteInto gives %x, %v instead of %x", w, err, b)
	}
	q := xmssmt.Params{Func: 2, N: 128, FullHeight: 63, D: 63, WotsW: 4, Prf: 1}
	if err := q.UnmarshalBinary(b); err != nil || q != p {
		bad("UnmarshalBinary of %x gives %#v, %v", b, q, err)
	}
	name = p.String()
	q2, err2 := xmssmt.ParamsFromName2(name)
	// The name of an unsupported set may be refused.
	if err2 != nil && rp.Supported() || err2 == nil && *q2 != p {
		bad("ParamsFromName2 of %s gives %#v, %v", name, q2, err2)
	}
	e, isStd := stdBy[p]
	n, o := p.LookupNameAndOid()
	if isStd && (n != e.name || o != e.oid) || !isStd && (n != "" || o != 0) {
		bad("LookupNameAndOid gives %q, %#x", n, o)
	}
	if !isStd && xmssmt.ParamsFromName(name) != nil {
		bad("ParamsFromName lists %s", name)
	}
	ctx, err3 := xmssmt.NewContext(p)
	if rp.Supported() != (err3 == nil) {
		bad("NewContext gives error %v", err3)
	}
	ctx2, err4 := xmssmt.NewContextFromName2(name)
	if rp.Supported() != (err4 == nil) {
		bad("NewContextFromName2 gives error %v", err4)
	}
	if !rp.Supported() {
		return
	}
	t.Nontrivial(name)
	for _, c := range []*xmssmt.Context{ctx, ctx2} {
		if c == nil {
			continue
		}
		if c.Params() != p {
			bad("Context has parameters %#v", c.Params())
		}
		if c.MT() != (p.D > 1) {
			bad("MT is %v", c.MT())
		}
		if c.Name() != n || c.Oid() != o {
			bad("Context has name %q and OID %#x", c.Name(), c.Oid())
		}
		if !isStd && (c.FromRFC() || c.FromNIST()) {
			bad("FromRFC is %v, FromNIST is %v", c.FromRFC(), c.FromNIST())
		}
		if int(c.SignatureSize()) != rp.SigBytes() {
			bad("SignatureSize is %d instead of %d", c.SignatureSize(), rp.SigBytes())
		}
	}
	if p.MaxSignatureSeqNo() != rp.Max() {
		bad("MaxSignatureSeqNo is %d instead of %d", p.MaxSignatureSeqNo(), rp.Max())
	}
	if int(p.WotsLogW()) != rp.LogW() || int(p.WotsLen1()) != rp.Len1() || int(p.WotsLen2()) != rp.Len2() || int(p.WotsLen()) != rp.Len() ||
		int(p.WotsSignatureSize()) != rp.Len()*rp.N {
		bad("WOTS+ sizes are logw %d, len1 %d, len2 %d, len %d, size %d", p.WotsLogW(), p.WotsLen1(), p.WotsLen2(), p.WotsLen(), p.WotsSignatureSize())
	}
	if p.PrivateKeySize() != 3*rp.N {
		bad("PrivateKeySize is %d", p.PrivateKeySize())
	}
	if th := rp.TreeHeight(); th < 20 {
		if want := (1<<(th+1) - 1) * rp.N; p.BareSubTreeSize() != want || p.CachedSubTreeSize() != want+rp.Len()*rp.N+8 {
			bad("BareSubTreeSize and CachedSubTreeSize are %d and %d", p.BareSubTreeSize(), p.CachedSubTreeSize())
		}
	}
	return
}

// says reads what a name states; ok is false when it states nothing, too much
// or numbers that are no whole numbers.
func says(name string) (p ref.P, ok bool) {
	m := sayRe.FindStringSubmatch(name)
	if m == nil {
		return
	}
	num := func(s string) int {
		n, good := new(big.Int).SetString(s, 10)
		if !good || !n.IsInt64() || n.Int64() > 1<<40 || n.Int64() < 0 {
			ok = false
			return -1
		}
		return int(n.Int64())
	}
	ok = true
	p.Func = map[string]int{"SHA2": ref.SHA2, "SHAKE": ref.SHAKE, "SHAKE256": ref.SHAKE256}[m[2]]
	p.H, p.D, p.W = num(m[3]), 1, 16
	if m[1] == "MT" {
		if m[4] == "" {
			ok = false
			return
		}
		p.D = num(m[4][1:])
	} else if m[4] != "" {
		ok = false
	}
	n := num(m[5])
	p.N = n / 8
	ok = ok && n%8 == 0
	if n == 192 {
		p.Prf = ref.NIST
	}
	sw, sp := false, false
	for _, x := range strings.Split(m[6], "_")[1:] {
		switch {
		case x == "RFC" && !sp:
			p.Prf, sp = ref.RFC, true
		case x == "NIST" && !sp:
			p.Prf, sp = ref.NIST, true
		case strings.HasPrefix(x, "w") && !sw:
			p.W, sw = num(x[1:]), true
		default:
			ok = false
		}
	}
	return
}

var sayRe = regexp.MustCompile(`^XMSS(MT)?-(SHA2|SHAKE|SHAKE256)_([^_/]*)(/[^_]*)?_([^_]*)((?:_[^_]*)*)$`)

// c10Spoken: a name that is accepted states exactly the numbers of the
// parameters it is taken for.
func c10Spoken(t *mon.T) {
	wrap := func(x uint64) []string {
		var out []string
		for _, s := range []uint{8, 16, 32} {
			out = append(out, fmt.Sprint(x+1<<s), fmt.Sprint(x+3<<s), fmt.Sprint(int64(x)-1<<s))
		}
		return append(out, "18446744073709551616", fmt.Sprintf("-%d", x), fmt.Sprintf("+%d", x), fmt.Sprintf("0%d", x), fmt.Sprintf("0x%x", x), fmt.Sprintf("%d.0", x), fmt.Sprintf(" %d", x), fmt.Sprintf("%d ", x), fmt.Sprintf("%de0", x), "", fmt.Sprintf("1_%d", x))
	}
	upto := func(n int, more ...string) (out []string) {
		for i := 0; i <= n; i++ {
			out = append(out, fmt.Sprint(i))
		}
		return append(out, more...)
	}
	ns := append(upto(600), append(append(wrap(256), wrap(128)...), "768", "1024", "2048", "32", "64")...)
	ws := append(upto(300), append(append(append(wrap(16), wrap(4)...), wrap(256)...), "512", "1024", "65536", "65552", "65540", "65792")...)
	hs := append(upto(80), append(append(wrap(10), wrap(20)...), wrap(4)...)...)
	ds := append(upto(80), append(append(wrap(1), wrap(2)...), wrap(4)...)...)
	prfs := []string{"", "_RFC", "_NIST", "_rfc", "_nist", "_RFC_NIST", "_NIST_RFC", "_RFC_RFC", "_NIST_NIST", "_", "_SP800-208"}
	fns := []string{"SHA2", "SHAKE", "SHAKE256", "SHA256", "SHAKE128", "SHA512", "sha2", "", "SHA3"}
	algs := []string{"XMSS", "XMSSMT", "XMSS^MT", "xmss", "XMSS-MT", "", "LMS", "XMSSMT "}
	var names []string
	for _, fn := range fns[:3] {
		for _, alg := range algs[:2] {
			dd := []string{""}
			if alg == "XMSSMT" {
				dd = []string{"/2", "/5"}
			}
			for _, d := range dd {
				for _, prf := range prfs[:3] {
					for _, n := range ns {
						names = append(names, fmt.Sprintf("%s-%s_10%s_%s%s", alg, fn, d, n, prf))
					}
					for _, w := range ws {
						names = append(names, fmt.Sprintf("%s-%s_10%s_256_w%s%s", alg, fn, d, w, prf),
							fmt.Sprintf("%s-%s_10%s_128%s_w%s", alg, fn, d, prf, w),
							fmt.Sprintf("%s-%s_10%s_192%s_W%s", alg, fn, d, prf, w),
							fmt.Sprintf("%s-%s_10%s_192_w%s_w16%s", alg, fn, d, w, prf),
							fmt.Sprintf("%s-%s_10%s_192%s_w4_w%s", alg, fn, d, prf, w))
					}
					for _, h := range hs {
						names = append(names, fmt.Sprintf("%s-%s_%s%s_256%s", alg, fn, h, d, prf))
					}
				}
			}
			for _, d := range ds {
				for _, h := range []int{0, 1, 4, 20, 60, 63} {
					names = append(names, fmt.Sprintf("%s-%s_%d/%s_256", alg, fn, h, d), fmt.Sprintf("%s-%s_%d/%s_192_w4", alg, fn, h, d))
				}
			}
		}
	}
	for _, alg := range algs {
		for _, fn := range fns {
			for _, prf := range prfs {
				for _, mid := range []string{"10", "20/2", "20/1", "/2", "20/", "20//2", "20/2/2", "2", ""} {
					names = append(names, fmt.Sprintf("%s-%s_%s_256%s", alg, fn, mid, prf), fmt.Sprintf("%s-%s_%s_256%s_w16", alg, fn, mid, prf),
						fmt.Sprintf("%s-%s_%s_192_w16%s", alg, fn, mid, prf), fmt.Sprintf("%s-%s_%s%s", alg, fn, mid, prf), fmt.Sprintf("%s_%s-%s_512%s", alg, fn, mid, prf))
				}
			}
		}
	}
	// and valid names with one character changed, dropped or added
	r := t.Rng("spoken")
	all := append(xmssmt.ListNames2(), "XMSS-SHAKE_10_128_w256_NIST", "XMSSMT-SHA2_60/12_512_w4_RFC", "XMSS-SHAKE256_5_192_w4_RFC")
	const chars = "XMSTHAKE-_/0123456789wRFCNI +.\x00"
	for i := t.Pick(60000, 2000000); i > 0; i-- {
		b := []byte(all[r.Intn(len(all))])
		for k := 1 + r.Intn(2); k > 0; k-- {
			at := r.Intn(len(b))
			c := chars[r.Intn(len(chars))]
			switch r.Intn(4) {
			case 0, 1:
				b[at] = c
			case 2:
				b = append(b[:at], b[at+1:]...)
			case 3:
				b = append(b[:at], append([]byte{c}, b[at:]...)...)
			}
		}
		names = append(names, string(b))
	}
	const chunk = 4096
	mon.Par((len(names)+chunk-1)/chunk, func(c int) {
		label := fmt.Sprintf("spoken/%d", c)
		cs(t, label, func() {
			acc, ref2 := 0, 0
			for _, n := range names[c*chunk : min((c+1)*chunk, len(names))] {
				p, ok := says(n)
				q, err := xmssmt.ParamsFromName2(n)
				ctx, err2 := xmssmt.NewContextFromName2(n)
				if (err == nil) != (err2 == nil) {
					t.Violate("spoken", label, nil, "ParamsFromName2(%q) gives %v, NewContextFromName2 %v", n, err, err2)
				}
				if err == nil && (!ok || *q != fromRef(p)) {
					t.Violate("spoken", label, nil, "%q is accepted, and taken for %#v", n, *q)
				}
				if err2 == nil && (!ok || ctx.Params() != fromRef(p)) {
					t.Violate("spoken", label, nil, "%q is accepted, and gives a context with parameters %#v", n, ctx.Params())
				}
				if ctx1 := xmssmt.NewContextFromName(n); ctx1 != nil && (!ok || ctx1.Params() != fromRef(p)) {
					t.Violate("spoken", label, nil, "NewContextFromName(%q) gives parameters %#v", n, ctx1.Params())
				}
				if err == nil {
					acc++
					t.Nontrivial("spoken " + n)
				} else {
					ref2++
				}
			}
			t.Count("unusual names accepted", acc)
			t.Count("unusual names refused", ref2)
		})
	})
}

// c10Refused: sets that cannot be represented.
func c10Refused(t *mon.T, label string) {
	r := t.Rng(label)
	base := []ref.P{cheap(4, 2), {Func: 0, N: 32, H: 10, D: 1, W: 16}, {Func: 2, N: 24, H: 60, D: 12, W: 256, Prf: 1}}
	try := func(p xmssmt.Params, what string) {
		t.Count("unrepresentable sets tried", 1)
		if b, err := p.MarshalBinary(); err == nil {
			var q xmssmt.Params
			q.UnmarshalBinary(b)
			t.Violate("represented:"+what, label, nil, "%#v cannot be represented but is encoded as %x (which denotes %#v)", p, b, q)
		}
		w := make([]byte, 4)
		if err := p.WriteInto(w); err == nil {
			t.Violate("represented:"+what, label, nil, "%#v cannot be represented but WriteInto writes %x", p, w)
		}
		if ctx, err := xmssmt.NewContext(p); err == nil {
			t.Violate("context:"+what, label, nil, "%#v cannot be represented but NewContext accepts it (signature size %d)", p, ctx.SignatureSize())
		}
		t.Nontrivial(fmt.Sprintf("refused %#v", p))
	}
	big := func(lo uint32) []uint32 {
		out := []uint32{lo, lo + 1, 2 * lo, 128, 255, 256, 257, 1 << 16, 1<<16 + 1, 1 << 31, 1<<32 - 1}
		for i := 0; i < 30; i++ {
			out = append(out, lo+uint32(r.Int63()>>uint(31+r.Intn(31))))
		}
		return out
	}
	for _, b := range base {
		for _, h := range big(64) {
			if h < 64 {
				continue
			}
			p := fromRef(b)
			p.FullHeight = h
			try(p, "height")
			p.D = 1
			try(p, "height")
		}
		for _, d := range big(64) {
			if d < 64 {
				continue
			}
			p := fromRef(b)
			p.D = d
			try(p, "d")
			p.FullHeight = d
			try(p, "d")
			p.FullHeight = 0
			try(p, "d")
		}
		p := fromRef(b)
		p.D = 0
		try(p, "d")
		for n := uint32(0); n < 600; n++ {
			if n%8 != 0 || n == 0 || n > 128 {
				p := fromRef(b)
				p.N = n
				try(p, "n")
			}
		}
		for _, n := range big(136) {
			if n <= 128 {
				continue
			}
			p := fromRef(b)
			p.N = n
			try(p, "n")
		}
		for w := 0; w < 1<<16; w++ {
			if w == 4 || w == 16 || w == 256 {
				continue
			}
			p := fromRef(b)
			p.WotsW = uint16(w)
			try(p, "w")
		}
		for f := 3; f < 256; f++ {
			p := fromRef(b)
			p.Func = xmssmt.HashFunc(f)
			try(p, "func")
		}
		for f := 2; f < 256; f++ {
			p := fromRef(b)
			p.Prf = xmssmt.PrfConstruction(f)
			try(p, "prf")
		}
	}
	// names of sets that cannot be represented
	for _, n := range []string{"XMSS-SHA2_64_256", "XMSSMT-SHA2_64/32_128", "XMSSMT-SHA2_128/64_256", "XMSSMT-SHA2_4294967294/4294967294_256", "XMSSMT-SHA2_20/0_256",
		"XMSS-SHA2_10_2048", "XMSS-SHA2_10_256_w8", "XMSS-SHA2_10_256_w0", "XMSS-SHA2_10_0", "XMSS-SHA2_4294967295_256", "XMSSMT-SHA2_4294967295/1_256", "XMSSMT-SHA2_21/2_256"} {
		if ctx, err := xmssmt.NewContextFromName2(n); err == nil {
			t.Violate("context:name", label, nil, "NewContextFromName2(%s) accepts an unsupported set (signature size %d)", n, ctx.SignatureSize())
		}
	}
}

// c10Size compares advertised sizes with real ones.
func c10Size(t *mon.T, label string, p ref.P) {
	r := t.Rng(label)
	s := mkSeeds(r, p.N)
	lp := fromRef(p)
	c, sk, pk, _, err := loadKey(storedKey(p, s, uint64(r.Int63())%p.Max()))
	if err != nil {
		panic(libErr{"load: " + err.Error()})
	}
	defer sk.Close()
	sig, err := sk.Sign(randBytes(rand.New(rand.NewSource(1)), 10))
	if err != nil {
		panic(libErr{"Sign: " + err.Error()})
	}
	b := sigBytes(sig)
	if len(b) != 4+int(sk.Context().SignatureSize()) || len(b) != 4+p.SigBytes() {
		t.Violate("size:signature", label, nil, "%v: a signature takes %d bytes (advertised %d + 4, specified %d + 4)", p, len(b), sk.Context().SignatureSize(), p.SigBytes())
	}
	if sig.Context().SignatureSize() != sk.Context().SignatureSize() || pk.Context().SignatureSize() != sk.Context().SignatureSize() {
		t.Violate("size:signature", label, nil, "%v: contexts of key and signature advertise different sizes", p)
	}
	if n := len(pkBytes(pk)); n != 4+2*p.N {
		t.Violate("size:pk", label, nil, "%v: a public key takes %d bytes", p, n)
	}
	for _, tr := range c.S.Trees {
		if len(tr) != lp.CachedSubTreeSize() {
			t.Violate("size:tree", label, nil, "%v: cached subtree of %d bytes", p, len(tr))
		}
	}
	// the context of decoded objects agrees
	var sig2 xmssmt.Signature
	var pk2 xmssmt.PublicKey
	if e := sig2.UnmarshalBinary(b); e != nil || sig2.Context().Params() != lp || sig2.Context().Name() != sk.Context().Name() || sig2.Context().Oid() != sk.Context().Oid() {
		t.Violate("size:decoded", label, nil, "%v: decoded signature: %v", p, e)
	}
	if e := pk2.UnmarshalBinary(pkBytes(pk)); e != nil || pk2.Context().Params() != lp || pk2.Context().MT() != (p.D > 1) {
		t.Violate("size:decoded", label, nil, "%v: decoded public key: %v", p, e)
	}
	k := newKey(shape(p, p.D, p.D), s, memctr.New(), 1)
	if len(k.ctr.S.SK) != lp.PrivateKeySize() {
		t.Violate("size:sk", label, nil, "%v: stored private key of %d bytes", p, len(k.ctr.S.SK))
	}
	k.sk.Close()
	if want := fmt.Sprintf("%s seqno=%d/%d", lp.String(), sig.SeqNo(), p.Max()); sig.String() != want {
		t.Violate("size:string", label, nil, "Signature.String is %q instead of %q", sig.String(), want)
	}
	t.Count("sizes compared", 4)
	t.Nontrivial("size" + p.String())
}
