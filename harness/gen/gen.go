// Package gen generates fonts and arguments with rapid.
package gen

import (
	"encoding/binary"
	"sort"
	"unicode/utf16"

	"github.com/unidoc/unitype/verifharness/sfnt"
	"pgregory.net/rapid"
)

var be = binary.BigEndian

// ---- drawing helpers ------------------------------------------------------------------------------------------

// Pick draws a nearly uniform number in [0,n), shrinking to 0.
func Pick(t *rapid.T, n int, label string) int {
	if n <= 1 {
		return 0
	}
	bits := 2
	for 1<<bits < n {
		bits++
	}
	bits += 2
	return uniform.Draw(t, label) % n
}

var uniform = rapid.Custom(func(t *rapid.T) int {
	v := 0
	for i := 0; i < 20; i++ {
		v <<= 1
		if boolGen.Draw(t, "") {
			v |= 1
		}
	}
	return v
})
var boolGen = rapid.Bool()

// Pct is true in about p percent of draws, shrinking to false.
func Pct(t *rapid.T, p int, label string) bool {
	return Pick(t, 100, label) >= 100-p
}

// Int draws in [lo,hi] with rapid's bias to small and extreme values.
func Int(t *rapid.T, lo, hi int, label string) int {
	if hi <= lo {
		return lo
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// PRNG expands a drawn seed into filler.
type PRNG uint64

// Next is splitmix64.
func (p *PRNG) Next() uint64 {
	*p += 0x9E3779B97F4A7C15
	z := uint64(*p)
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N is a number in [0,n).
func (p *PRNG) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(p.Next() % uint64(n))
}

// Bytes fills n bytes.
func (p *PRNG) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(p.Next())
	}
	return b
}

func seed(t *rapid.T, label string) *PRNG {
	s := PRNG(rapid.Uint32().Draw(t, label))
	return &s
}

// Seed draws the seed of a PRNG.
func Seed(t *rapid.T, label string) *PRNG { return seed(t, label) }

// filler draws n bytes; a zero seed gives zero bytes, so shrinking simplifies.
func filler(t *rapid.T, n int, label string) []byte {
	s := rapid.Uint32().Draw(t, label)
	if s == 0 {
		return make([]byte, n)
	}
	p := PRNG(s)
	return p.Bytes(n)
}

// fields draws n bytes of header fields, now and then with extreme values among them.
func fields(t *rapid.T, n int, label string) []byte {
	b := filler(t, n, label)
	if !Pct(t, 15, label+"Edges") {
		return b
	}
	for k := 1 + Pick(t, 4, label+"EdgeN"); k > 0; k-- {
		at := 2 * Pick(t, n/2, label+"EdgeAt")
		v := []uint32{0, 0x80000000, 0x7FFFFFFF, 0xFFFFFFFF, 1, 0x80000001, 0xFFFF0000, 0x0000FFFF}[Pick(t, 8, label+"Edge")]
		if at+4 <= n && Pct(t, 50, label+"EdgeWide") {
			be.PutUint32(b[at:], v)
		} else {
			be.PutUint16(b[at:], uint16(v>>16|v&1))
		}
	}
	return b
}

func w16(b []byte, v ...int) []byte {
	for _, x := range v {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}

func w32(b []byte, v ...uint32) []byte {
	for _, x := range v {
		b = append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return b
}

// ---- options --------------------------------------------------------------------------------------------------

// Opts steers font generation. The zero value is the general well-formed font.
type Opts struct {
	MinGlyphs, MaxGlyphs int  // 0: default distribution
	NoDupCmap            bool // at most one subtable per (platform, encoding)
	NoUnsupported        bool // no unsupported cmap formats
	NeedCmap             bool
	NeedName             bool
	NeedPost             bool
	Small                bool // keep the whole file small (about 1 to 3 kB)
	NoCrossShare         bool // no format 4 glyph array sharing between segments with different deltas
	CmapOverlap          bool // bias character maps to the same characters
	Composite            int  // percentage of composite glyphs (0: default)
	NoReal               bool
	Tiny                 bool // glyphs with fewer than 10 bytes, which no subsetting by closure can read
	Bad                  bool // composite glyphs that end early
	HugeExtra            bool // one table above 1 MB that the library does not know
	SharedArrays         bool // format 4 maps whose segments share so much glyph data that they do not fit without sharing
	Mega                 bool // programs above 1 MiB
	Giga                 bool // now and then one table above 16 MiB
	NoHuge               bool // no glyphs above 64 KiB, no fonts above 300 glyphs
	Big                  bool // with a glyph or a program above 64 KiB, whatever the rest says
}

// FontInfo is a generated font with what the generator knows about it.
type FontInfo struct {
	Data   []byte
	Tables []sfnt.TableData
	Layout sfnt.Layout
	Ver    uint32
	Note   string
}

// ---- outlines -------------------------------------------------------------------------------------------------

func simpleGlyph(t *rapid.T, big bool) []byte {
	contours := Int(t, 0, 3, "contours")
	return simpleFrom(contours, func(n int) int { return Pick(t, n, "g") }, func(n int) []byte { return filler(t, n, "gf") }, big)
}

// simpleFrom builds a valid simple glyph description.
func simpleFrom(contours int, pick func(int) int, fill func(int) []byte, big bool) []byte {
	b := w16(nil, contours)
	b = append(b, fill(8)...)
	if contours == 0 {
		if pick(2) == 1 {
			b = w16(b, 0)
		}
		return b
	}
	pts := 0
	for i := 0; i < contours; i++ {
		pts += 1 + pick(5)
		b = w16(b, pts-1)
	}
	ni := pick(6)
	if big {
		ni = 65000 + pick(535)
	}
	b = w16(b, ni)
	b = append(b, fill(ni)...)
	var xs, ys []byte
	for i := 0; i < pts; {
		run := 1
		kind := pick(3)
		var fl byte
		xn, yn := 2, 2
		switch kind {
		case 0:
			fl = 0x01
		case 1:
			fl, xn, yn = 0x37, 1, 1
		case 2:
			fl, xn, yn = 0x31, 0, 0
		}
		if i+2 < pts && pick(3) == 2 {
			run = 2 + pick(pts-i-1)
			b = append(b, fl|8, byte(run-1))
		} else {
			b = append(b, fl)
		}
		for k := 0; k < run; k++ {
			xs = append(xs, fill(xn)...)
			ys = append(ys, fill(yn)...)
		}
		i += run
	}
	b = append(b, xs...)
	return append(b, ys...)
}

func compositeBig(n int, pick func(int) int, fill func(int) []byte, gid func() int) []byte {
	b := append(w16(nil, 0xFFFF), fill(8)...)
	for i, k := 0, 1+pick(60); i < k; i++ {
		fl := 0x0021
		if i == k-1 {
			fl = 0x0101
		}
		b = append(w16(b, fl, gid()), fill(4)...)
	}
	ni := []int{65535, 65534, 65000, 32768, 32767}[pick(5)] - pick(40)
	return append(w16(b, ni), fill(ni)...)
}

func compositeFrom(n int, pick func(int) int, fill func(int) []byte, gid func() int, many bool) []byte {
	nc := 0xFFFF
	if pick(10) == 9 {
		nc = 0xFFFE - pick(100)
	}
	b := w16(nil, nc)
	b = append(b, fill(8)...)
	k := 1 + pick(3)
	if many && pick(40) == 39 {
		k += 20 + pick(120)
	}
	instr := pick(4) == 3
	for i := 0; i < k; i++ {
		fl := pick(2) * 1 // words
		fl |= pick(2) * 2
		fl |= pick(2) * 4
		switch pick(5) {
		case 1:
			fl |= 0x8
		case 2:
			fl |= 0x40
		case 3:
			fl |= 0x80
		}
		fl |= pick(2) * 0x200
		fl |= pick(2) * 0x400
		switch pick(4) {
		case 1:
			fl |= 0x800
		case 2:
			fl |= 0x1000
		}
		if i < k-1 {
			fl |= 0x20
		}
		if instr && (i == k-1 || pick(2) == 1) {
			fl |= 0x100
		}
		b = w16(b, fl, gid())
		sz := 2
		if fl&1 != 0 {
			sz = 4
		}
		switch {
		case fl&0x8 != 0:
			sz += 2
		case fl&0x40 != 0:
			sz += 4
		case fl&0x80 != 0:
			sz += 8
		}
		b = append(b, fill(sz)...)
	}
	if instr {
		ni := pick(9)
		b = w16(b, ni)
		b = append(b, fill(ni)...)
	}
	return b
}

// ---- the font -------------------------------------------------------------------------------------------------

type fontGen struct {
	t    *rapid.T
	o    Opts
	n    int
	note []string

	sharedLen int // of the arrays that the segments of the format 4 map share
}

func (g *fontGen) glyphCount() int {
	t := g.t
	if g.o.MaxGlyphs > 0 {
		return Int(t, g.o.MinGlyphs, g.o.MaxGlyphs, "numGlyphs")
	}
	c := Pick(t, 100, "sizeClass")
	if g.o.Small && c >= 60 {
		c -= 60
	}
	lo := g.o.MinGlyphs
	if lo < 1 {
		lo = 1
	}
	pick := func(a, b int) int {
		if a < lo {
			a = lo
		}
		if b < a {
			b = a
		}
		return a + Pick(t, b-a+1, "n")
	}
	switch {
	case c < 60:
		return pick(2, 12)
	case c < 65:
		return pick(1, 3)
	case c < 85:
		return pick(10, 40)
	case c < 93:
		return pick(40, 120)
	case c < 95:
		return pick(258, 258)
	case c < 98:
		return pick(255, 300)
	case c < 99 || g.o.NoHuge:
		return pick(300, 900)
	default:
		if Pct(t, 8, "veryMany") {
			if Pct(t, 50, "edgeCount") {
				return []int{65535, 65535, 65534, 32767, 32768, 32769, 4096}[Pick(t, 7, "edge")]
			}
			return pick(2500, 65535)
		}
		return pick(300, 2500)
	}
}

func (g *fontGen) outlines(locaFormat int) (glyphs [][]byte, comps bool) {
	t, n := g.t, g.n
	cp := g.o.Composite
	if cp == 0 {
		cp = 25
	}
	cyc := Pct(t, 30, "cycles")
	// Glyphs made of their neighbours, and these of theirs: as many levels as there are glyphs.
	chain, solid := 0, false
	if n > 3 && Pct(t, 5, "chain") {
		chain = 1 - 2*Pick(t, 2, "chainDown")
		solid = Pct(t, 70, "chainSolid")
	}
	bigAt := -1
	if g.o.Big && Pct(t, 60, "bigGlyph") || !g.o.Small && !g.o.NoHuge && Pct(t, 3, "bigGlyph") {
		bigAt = Pick(t, n, "bigAt")
	}
	var pr *PRNG
	if n > 60 {
		pr = seed(t, "glyphSeed")
	}
	used := 0
	for i := 0; i < n; i++ {
		var b []byte
		pick := func(k int) int {
			if pr != nil {
				return pr.N(k)
			}
			return Pick(t, k, "g")
		}
		fill := func(k int) []byte {
			if pr != nil {
				return pr.Bytes(k)
			}
			if k == 0 {
				return nil
			}
			return filler(t, k, "gf")
		}
		kind := 99 - pick(100)
		switch {
		case i == bigAt:
			if pick(3) == 2 {
				// A composite glyph with as many instructions as there can be.
				b = compositeBig(n, pick, fill, func() int { return pick(n) })
				comps = true
				break
			}
			b = simpleFrom(1+pick(3), pick, fill, true)
			if pick(2) == 1 {
				b = append(b, make([]byte, pick(1500))...)
			} else if pick(3) == 2 {
				b = append(b, make([]byte, 60000+pick(250000))...)
			}
		case chain != 0 && (solid || kind < 95) && i-chain >= 0 && i-chain < n:
			k := pick(3)
			b = compositeFrom(n, pick, fill, func() int {
				if k--; k >= 0 {
					return i - chain
				}
				return min(i, i-chain)
			}, false)
			comps = true
		case kind < cp && n > 1:
			gid := func() int {
				if cyc || i == 0 {
					return pick(n)
				}
				return pick(i)
			}
			b = compositeFrom(n, pick, fill, gid, !g.o.Small)
			comps = true
		case kind < 75:
			b = simpleFrom(pick(4), pick, fill, false)
		case kind < 78 && g.o.Tiny:
			// Too short for a description: nothing is drawn, but the data is there.
			b = fill(1 + pick(9))
			b[0] &= 0x7F
		case g.o.Bad:
			// A composite glyph that ends early.
			b = append([]byte{0xFF, 0xFF}, fill(pick(16))...)
		}
		if len(b) > 0 {
			if pick(5) == 4 {
				b = append(b, make([]byte, pick(6))...)
			}
		}
		if locaFormat == 0 && len(b)%2 != 0 {
			b = append(b, 0)
		}
		if len(b) > 0 && locaFormat == 1 && pick(4) != 3 {
			for len(b)%4 != 0 {
				b = append(b, 0)
			}
		}
		if locaFormat == 0 && used+len(b) > 131000 {
			b = nil
		}
		used += len(b)
		glyphs = append(glyphs, b)
	}
	return glyphs, comps
}

// Font draws a well-formed font.
func Font(t *rapid.T, o Opts) *FontInfo {
	if !o.Small && !o.NoHuge && !o.Mega {
		o.Mega = Pick(t, 400, "mega") == 399
	}
	giga := o.Mega && o.Giga && Pct(t, 8, "giga")
	mega := func(label string) int { // a size around 1 MiB to 2 MiB, or once around 16 MiB
		if giga {
			giga = false
			return 1<<24 - 2000 + Pick(t, 1<<14, label)
		}
		return 1<<20 - 2000 + Pick(t, 1<<20, label)
	}
	g := &fontGen{t: t, o: o}
	var tables []sfnt.TableData
	add := func(tag string, b []byte) { tables = append(tables, sfnt.TableData{Tag: tag, Data: b}) }

	g.n = g.glyphCount()
	n := g.n
	locaFormat := Pick(t, 2, "locaFormat")

	head := fields(t, 54, "head")
	be.PutUint32(head[12:], 0x5F0F3CF5)
	if !Pct(t, 10, "headVer") {
		be.PutUint32(head, 0x00010000)
	}
	be.PutUint16(head[18:], uint16(16+int(be.Uint16(head[18:]))%16369))
	be.PutUint16(head[50:], uint16(locaFormat))
	if !Pct(t, 10, "glyphDataFormat") {
		be.PutUint16(head[52:], 0)
	}
	add("head", head)

	maxp := fields(t, 32, "maxp")
	be.PutUint32(maxp, 0x00010000)
	be.PutUint16(maxp[4:], uint16(n))
	add("maxp", maxp)

	nhm := n
	switch Pick(t, 4, "hmClass") {
	case 1:
		nhm = 1 + Pick(t, n, "nhm")
	case 2:
		nhm = 1
	case 3:
		if n > 1 {
			nhm = n - Pick(t, min(n, 3), "nhm")
		}
	}
	hhea := fields(t, 36, "hhea")
	if !Pct(t, 10, "hheaVer") {
		be.PutUint32(hhea, 0x00010000)
	}
	for i := 24; i < 32; i++ {
		hhea[i] = 0
	}
	if !Pct(t, 10, "metricDataFormat") {
		be.PutUint16(hhea[32:], 0)
	}
	be.PutUint16(hhea[34:], uint16(nhm))
	add("hhea", hhea)
	add("hmtx", g.hmtx(nhm))

	glyphs, _ := g.outlines(locaFormat)
	if k := 0; o.Mega && locaFormat == 1 && Pct(t, 30, "glyphMega") {
		if k = Pick(t, n, "glyphMega"); len(glyphs[k]) > 0 { // with padding behind the outline
			glyphs[k] = append(append([]byte(nil), glyphs[k]...), filler(t, mega("glyphPad")&^3, "glyphPad")...)
		}
	}
	if locaFormat == 1 && n > 2 && !o.Small && !o.NoHuge && Pct(t, map[bool]int{false: 1, true: 30}[o.Mega], "apart") {
		// Two glyphs of the same size whose places differ in one high bit only.
		k, bit := 1+Pick(t, n-2, "apartAt"), 16
		if o.Mega {
			bit = 20
		}
		a, b := glyphs[k-1], glyphs[k]
		if gap := 1<<uint(bit) - len(a) - len(b); len(a) >= 12 && a[0] < 0x80 && len(b) > 0 && gap > 0 {
			glyphs[k] = append(append([]byte(nil), b...), filler(t, gap, "apartPad")...)
			c := append([]byte(nil), a...)
			copy(c[2:10], filler(t, 8, "apartBox"))
			glyphs[k+1] = c
		}
	}
	first := 0
	if Pct(t, 25, "locaPad") {
		first = 4 * (1 + Pick(t, 4, "locaPad"))
		if Pct(t, 20, "locaPad2") {
			first -= 2
		}
	}
	if o.Mega && locaFormat == 1 && Pct(t, map[bool]int{false: 40, true: 80}[giga], "locaPadMega") {
		first = mega("locaPad") &^ 3
	}
	glyf := filler(t, first, "locaPad")
	var loca []byte
	off := first
	for i := 0; i <= n; i++ {
		if locaFormat == 0 {
			loca = w16(loca, off/2)
		} else {
			loca = w32(loca, uint32(off))
		}
		if i < n {
			glyf = append(glyf, glyphs[i]...)
			off += len(glyphs[i])
		}
	}
	if Pct(t, 20, "glyfTail") {
		glyf = append(glyf, filler(t, 1+Pick(t, 12, "glyfTail"), "glyfTail")...)
	}
	if o.Mega && Pct(t, 20, "glyfTailMega") {
		glyf = append(glyf, filler(t, mega("glyfTail"), "glyfTail")...)
	}
	if Pct(t, 10, "locaTail") {
		loca = append(loca, make([]byte, 2*Pick(t, 3, "locaTail"))...)
	}
	add("loca", loca)
	add("glyf", glyf)

	progLen := func(label string) int {
		if o.Mega && Pct(t, 70, label+"Mega") {
			return mega(label)
		}
		if o.Big && Pct(t, 50, label+"Big") {
			return 65534 + Pick(t, 6000, label)
		}
		if !o.Small && !o.NoHuge && Pct(t, 2, label+"Big") {
			switch Pick(t, 4, label+"BigClass") {
			case 0:
				return 200 + Pick(t, 200, label)
			case 1:
				return 4000 + Pick(t, 200, label)
			case 2:
				return 65530 + Pick(t, 12, label)
			default:
				return 65536 + Pick(t, 70000, label)
			}
		}
		return Pick(t, 40, label)
	}
	if Pct(t, 60, "cvt") {
		add("cvt ", filler(t, progLen("cvtLen")&^1, "cvt"))
	}
	if Pct(t, 60, "fpgm") {
		add("fpgm", filler(t, progLen("fpgmLen"), "fpgm"))
	}
	if Pct(t, 60, "prep") {
		add("prep", filler(t, progLen("prepLen"), "prep"))
	}
	if Pct(t, 70, "os2") {
		v := Pick(t, 6, "os2ver")
		b := fields(t, []int{78, 86, 96, 96, 96, 100}[v], "os2")
		be.PutUint16(b, uint16(v))
		add("OS/2", b)
	}
	if o.NeedPost || Pct(t, 75, "post") {
		add("post", g.post())
	}
	if o.NeedName || Pct(t, 70, "name") {
		add("name", g.name())
	}
	if o.NeedCmap || Pct(t, 85, "cmap") {
		add("cmap", g.cmap())
	}
	if Pct(t, 40, "extra") {
		pool := []string{"GDEF", "GPOS", "GSUB", "kern", "gasp", "DSIG", "hdmx", "VDMX", "LTSH", "FFTM", "vhea", "vmtx", "PCLT", "meta", "zzzz", "AAAA"}
		k := 1 + Pick(t, 4, "extraN")
		at := Pick(t, len(pool), "extraAt")
		for i := 0; i < k; i++ {
			add(pool[(at+i*5)%len(pool)], filler(t, Pick(t, 30, "extraLen"), "extra"))
		}
		if Pct(t, 6, "manyExtra") {
			k := 1 + Pick(t, 60, "manyExtraN")
			if Pct(t, 10, "veryManyExtra") {
				k += 200
				if !o.Small && !o.NoHuge && Pct(t, 30, "mostExtra") {
					k = 4070 - Pick(t, 3000, "mostExtraN")
				}
			}
			pr := seed(t, "manyExtraSeed")
			for ; k > 0; k-- {
				// (unknown to the library)
				add("x"+string([]byte{byte('A' + k/676), byte('a' + k/26%26), byte('a' + k%26)}), pr.Bytes(pr.N(9)))
			}
		}
	}

	if o.HugeExtra {
		add("Huge", make([]byte, 1<<20+Pick(t, 3, "hugeLen")*100000))
	}

	ver := uint32(0x00010000)
	if Pct(t, 15, "trueVersion") {
		ver = 0x74727565
	}
	l := g.layout(len(tables))
	return &FontInfo{Data: sfnt.Assemble(ver, tables, l), Tables: tables, Layout: l, Ver: ver}
}

func (g *fontGen) layout(n int) (l sfnt.Layout) {
	t := g.t
	if Pct(t, 60, "dataOrder") {
		l.DataOrder = perm(t, n)
	}
	if Pct(t, 20, "dirOrder") {
		l.DirOrder = perm(t, n)
	}
	if Pct(t, 25, "gaps") {
		for i := 0; i < n; i++ {
			k := 0
			if Pct(t, 30, "gap") {
				k = 4 * (1 + Pick(t, 3, "gapLen"))
			}
			l.Gaps = append(l.Gaps, filler(t, k, "gapData"))
		}
	}
	if Pct(t, 15, "tail") {
		l.Tail = filler(t, 1+Pick(t, 9, "tailLen"), "tailData")
	}
	return l
}

func perm(t *rapid.T, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	pr := seed(t, "perm")
	if *pr == 0 {
		return p
	}
	for i := n - 1; i > 0; i-- {
		j := pr.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (g *fontGen) hmtx(nhm int) []byte {
	t, n := g.t, g.n
	var b []byte
	var pr *PRNG
	if n > 60 {
		pr = seed(t, "hmtxSeed")
	}
	// The last widths are often equal.
	run := 0
	switch Pick(t, 3, "widthRun") {
	case 1:
		run = nhm
	case 2:
		run = Pick(t, nhm+1, "widthRunLen")
	}
	few := Pct(t, 40, "fewWidths")
	w := 0
	for i := 0; i < nhm; i++ {
		if i == 0 || i <= nhm-run {
			switch {
			case pr != nil && few:
				w = 500 + pr.N(3)
			case pr != nil:
				w = pr.N(65536)
			case few:
				w = 500 + Pick(t, 3, "w")
			default:
				w = Int(t, 0, 65535, "w")
			}
		}
		l := 0
		if pr != nil {
			l = pr.N(65536)
		} else {
			l = Int(t, 0, 65535, "lsb")
		}
		b = w16(b, w, l)
	}
	rest := n - nhm
	b = append(b, filler(t, 2*rest, "lsbs")...)
	if Pct(t, 8, "hmtxTail") {
		b = append(b, filler(t, 2*(1+Pick(t, 3, "hmtxTail")), "hmtxTail")...)
	}
	return b
}

func (g *fontGen) post() []byte {
	t, n := g.t, g.n
	b := fields(t, 32, "post")
	kinds := []uint32{0x00030000, 0x00020000, 0x00020000, 0x00025000, 0x00040000}
	v := kinds[Pick(t, len(kinds), "postVer")]
	if n == 258 && Pct(t, 60, "post1") {
		v = 0x00010000
	}
	be.PutUint32(b, v)
	switch v {
	case 0x00020000:
		b = w16(b, n)
		var pr *PRNG
		if n > 60 {
			pr = seed(t, "postSeed")
		}
		pick := func(k int) int {
			if pr != nil {
				return pr.N(k)
			}
			return Pick(t, k, "p")
		}
		next := 0
		var idx []int
		for i := 0; i < n; i++ {
			switch {
			case pick(2) == 0:
				idx = append(idx, pick(258))
			case next > 0 && pick(5) == 4: // shared name
				idx = append(idx, 258+pick(next))
			default:
				idx = append(idx, 258+next)
				next++
			}
		}
		if next > 1 && Pct(t, 20, "postPerm") {
			// names stored in another order
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				idx[i], idx[j] = idx[j], idx[i]
			}
		}
		b = w16(b, idx...)
		long := Pct(t, 10, "longNames")
		if Pct(t, 10, "postSpare") {
			next++ // a name no glyph uses
		}
		if !g.o.Small && !g.o.NoHuge && Pct(t, 2, "postLast") && Pct(t, 20, "postLast2") {
			// As many names as there can be, the last of them used.
			next = 32768 - 258
			k := Pick(t, n, "postLastAt")
			be.PutUint16(b[34+2*k:], 32767)
			pr = seed(t, "postLastSeed")
		}
		for i := 0; i < next; i++ {
			l := 1 + pick(8)
			if long && pick(3) == 2 {
				l = 30 + pick(34)
				if pick(4) == 3 {
					l = 100 + pick(156)
				}
			}
			b = append(b, byte(l))
			for k := 0; k < l; k++ {
				b = append(b, "abcdefghijklmnopqrstuvwxyz.0123456789ABC"[pick(40)])
			}
		}
	case 0x00025000:
		b = w16(b, n)
		var pr25 *PRNG
		for i := 0; i < n; i++ {
			lo, hi := -128, 127
			if -i > lo {
				lo = -i
			}
			if 257-i < hi {
				hi = 257 - i
			}
			if hi < lo { // glyph too far from the standard names: cannot be expressed
				be.PutUint32(b, 0x00030000)
				return b[:32]
			}
			v := 0
			if n <= 60 {
				v = lo + Pick(t, hi-lo+1, "off25")
				if Pct(t, 50, "off25zero") && lo <= 0 && hi >= 0 {
					v = 0
				}
			} else {
				if pr25 == nil {
					pr25 = seed(t, "off25seed")
				}
				switch pr25.N(5) {
				case 0:
					v = hi
				case 1:
					v = lo
				case 2:
					v = lo + pr25.N(hi-lo+1)
				default:
					v = max(min(0, hi), lo)
				}
			}
			b = append(b, byte(int8(v)))
		}
	}
	return b
}

// ---- names ----------------------------------------------------------------------------------------------------

var nameTexts = []string{"", "A", "Regular", "Font Name", "Ünïcödé", "日本語", "a\nb", "tab\there", "\u00ad\u200b", "𝄞 clef 😀", "\u0000\u0001", "x\u2028y", "Ω≈ç√∫", "'quoted' \"text\"", "\U0001F600\U0010FFFF", "ﬁ\uF8FF"}

func utf16be(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = w16(b, int(u))
	}
	return b
}

// UTF16BE encodes text as the name table stores it.
func UTF16BE(s string) []byte { return utf16be(s) }

func (g *fontGen) name() []byte {
	t := g.t
	type rec struct {
		p, e, l, id int
		data        []byte
	}
	n := Pick(t, 9, "names")
	if Pct(t, 10, "manyNames") {
		n += Pick(t, 30, "manyNamesN")
		if !g.o.Small && Pct(t, 5, "veryManyNames") {
			n += 250 + Pick(t, 200, "veryManyNamesN")
		}
	}
	// As many records as fit before their text, most of them with the text of others.
	most, lastPlace := 0, false
	if n > 0 && !g.o.Small && !g.o.NoHuge && Pct(t, 1, "mostNames") {
		most = 700 + Pick(t, 4660, "mostNamesN")
		if lastPlace = Pct(t, 20, "lastPlace"); lastPlace {
			most = 5450 + Pick(t, 11, "lastPlaceN")
		}
	}
	var recs []rec
	// A small pool of languages and ids so that queries collide.
	for i := 0; i < n; i++ {
		var r rec
		switch Pick(t, 8, "namePlat") {
		case 0, 1, 2:
			r.p, r.e, r.l = 3, 1, []int{0x409, 0x407, 0x411, 0, 1}[Pick(t, 5, "lang")]
		case 3:
			r.p, r.e, r.l = 3, []int{0, 10}[Pick(t, 2, "enc")], []int{0x409, 0, 0x40C}[Pick(t, 3, "lang")]
		case 4, 5:
			r.p, r.e, r.l = 1, 0, []int{0, 1, 11, 0x409, 150, 0xFFFF}[Pick(t, 6, "lang")]
		case 6:
			r.p, r.e, r.l = 0, Pick(t, 7, "enc"), []int{0, 0x8000, 0xFFFF}[Pick(t, 3, "lang")]
		case 7:
			r.p, r.e, r.l = []int{3, 1, 2, 4}[Pick(t, 4, "plat")], 1+Pick(t, 6, "enc"), Int(t, 0, 65535, "lang")
			if r.p == 1 && Pct(t, 50, "macScript") {
				r.e = []int{7, 25, 31, 32, 33, 255, 256, 65535}[Pick(t, 8, "macEnc")]
			}
		}
		r.id = []int{1, 2, 4, 6, 0, 3, 5, 16, 255, 256, 32767, 65535}[Pick(t, 12, "nameID")]
		if Pct(t, 50, "commonID") {
			r.id = 1 + Pick(t, 4, "cid")
		}
		ascii16 := r.p == 0 || r.p == 3
		var text string
		switch Pick(t, 4, "textKind") {
		case 0, 1:
			text = nameTexts[Pick(t, len(nameTexts), "text")]
		case 2:
			var rs []rune
			for k := Pick(t, 12, "textLen"); k > 0; k-- {
				rs = append(rs, Rune(t))
			}
			text = string(rs)
		case 3:
			k := Pick(t, 300, "longText")
			p := seed(t, "longTextSeed")
			for ; k > 0; k-- {
				text += string(rune(32 + p.N(900)))
			}
		}
		if ascii16 {
			r.data = utf16be(text)
		} else if Pct(t, 50, "macBytes") {
			r.data = filler(t, Pick(t, 40, "macLen"), "mac")
		} else {
			for _, c := range text {
				if c < 128 {
					r.data = append(r.data, byte(c))
				}
			}
		}
		recs = append(recs, r)
	}
	if most > 0 {
		pr := seed(t, "mostSeed")
		for k := len(recs); len(recs) < most; {
			r := recs[pr.N(k)]
			r.id = pr.N(65536)
			if pr.N(2) == 1 {
				r.l = pr.N(65536)
			}
			recs = append(recs, r)
		}
	}
	if Pct(t, 60, "sortNames") {
		sort.SliceStable(recs, func(i, j int) bool {
			a, b := recs[i], recs[j]
			for _, d := range []int{a.p - b.p, a.e - b.e, a.l - b.l, a.id - b.id} {
				if d != 0 {
					return d < 0
				}
			}
			return false
		})
	}
	huge := most == 0 && !g.o.Small && !g.o.NoHuge && len(recs) > 2 && Pct(t, 1, "hugeNames")
	if huge { // long strings shared by several records: more than 64 KiB when not shared
		d := filler(t, 2*(12000+Pick(t, 10000, "hugeLen")), "hugeText")
		for i := range recs {
			if recs[i].p == 3 || recs[i].p == 0 {
				for k := 0; k+1 < len(d); k += 2 {
					d[k] &= 0x3F
				}
				recs[i].data = d
			}
		}
	}
	format := 0
	var tags [][]byte
	if Pct(t, 30, "nameFormat1") {
		format = 1
		k := Pick(t, 4, "langTags")
		if !g.o.Small && Pct(t, 5, "manyLangTags") {
			k = 250 + Pick(t, 30, "manyLangTagsN")
		}
		for ; k > 0; k-- {
			tag := []string{"en", "de-CH", "zh-Hant-TW", "x", ""}[Pick(t, 5, "tag")]
			if Pct(t, 10, "longTag") {
				for n := 100 + Pick(t, 80, "longTagLen"); n > 0; n-- {
					tag += string(rune('a' + n%26))
				}
			}
			tags = append(tags, utf16be(tag))
		}
	}
	if lastPlace { // the text begins at 65532
		format, tags = 1, nil
		for k := 16381 - 3*len(recs); k > 0; k-- {
			tags = append(tags, utf16be([]string{"en", "de-CH", "x"}[k%3]))
		}
	}
	if k := (65535 - 8 - 12*len(recs)) / 4; len(tags) > k {
		tags = tags[:k]
	}
	// Just as much text as 16-bit offsets can reach.
	full := !huge && most == 0 && !lastPlace && len(recs) > 0 && !g.o.Small && !g.o.NoHuge && Pct(t, 2, "fullNames")
	over := false
	if full {
		total := 0
		seen := map[string]bool{}
		for _, r := range recs {
			if !seen[string(r.data)] {
				seen[string(r.data)] = true
				total += len(r.data)
			}
		}
		for _, d := range tags {
			if !seen[string(d)] {
				seen[string(d)] = true
				total += len(d)
			}
		}
		if k := 65535 - Pick(t, 4, "fullText") - total; k > 2000 {
			at := Pick(t, len(recs), "fullAt")
			recs = append(recs[:at], append([]rec{{1, 0, 0, 1 + Pick(t, 6, "fullID"), filler(t, k, "fullData")}}, recs[at:]...)...)
			switch Pick(t, 4, "fullLast") {
			case 0, 1:
				recs = append(recs, rec{3, 1, 0x409, 5, nil})
			case 2: // begins where an offset still reaches, ends behind
				if len(tags) == 0 {
					recs = append(recs, rec{3, 1, 0x409, 5, filler(t, 2*(1+Pick(t, 2000, "fullOverLen")), "fullOver")})
					over = true
				}
			}
		}
	}
	// String storage.
	share := huge || full || most > 0 || Pct(t, 50, "shareStrings")
	sub := !full && most == 0 && Pct(t, 20, "subStrings")
	reverse := !over && Pct(t, 20, "reverseStrings")
	gaps := !full && most == 0 && Pct(t, 20, "stringGaps")
	all := make([][]byte, 0, len(recs)+len(tags))
	for _, r := range recs {
		all = append(all, r.data)
	}
	all = append(all, tags...)
	offs := make([]int, len(all))
	var store []byte
	put := func(i int) {
		d := all[i]
		if share {
			for j := range all {
				if j != i && offs[j] >= 0 && string(all[j]) == string(d) && offs[j]+len(d) <= len(store) && string(store[offs[j]:offs[j]+len(d)]) == string(d) {
					offs[i] = offs[j]
					return
				}
			}
		}
		if sub && len(d) > 0 && len(store) < 4000 {
			if k := indexOf(store, d); k >= 0 {
				offs[i] = k
				return
			}
		}
		if gaps && Pct(t, 40, "stringGap") {
			store = append(store, filler(t, 1+Pick(t, 3, "sg"), "sgd")...)
		}
		offs[i] = len(store)
		store = append(store, d...)
	}
	for i := range offs {
		offs[i] = -1
	}
	for k := range all {
		i := k
		if reverse {
			i = len(all) - 1 - k
		}
		put(i)
	}
	hdr := 6 + 12*len(recs)
	if format == 1 {
		hdr += 2 + 4*len(tags)
	}
	if Pct(t, 15, "storageGap") && hdr < 65530 {
		hdr += 1 + Pick(t, 5, "storageGapLen")
	}
	b := w16(nil, format, len(recs), hdr)
	for i, r := range recs {
		b = w16(b, r.p, r.e, r.l, r.id, len(r.data), offs[i])
	}
	if format == 1 {
		b = w16(b, len(tags))
		for i, d := range tags {
			b = w16(b, len(d), offs[len(recs)+i])
		}
	}
	for len(b) < hdr {
		b = append(b, 0)
	}
	b = append(b, store...)
	if Pct(t, 10, "nameTail") {
		b = append(b, 1, 2, 3)
	}
	return b
}

func indexOf(s, d []byte) int {
	for i := 0; i+len(d) <= len(s); i++ {
		if string(s[i:i+len(d)]) == string(d) {
			return i
		}
	}
	return -1
}

// Rune draws a character (no surrogates), from everywhere in Unicode.
func Rune(t *rapid.T) rune {
	switch Pick(t, 8, "runeClass") {
	case 0, 1:
		return rune(0x20 + Pick(t, 0x5F, "r"))
	case 2:
		return rune(Pick(t, 0x20, "r"))
	case 3:
		return rune(0x7F + Pick(t, 0x500, "r"))
	case 4:
		r := rune(Pick(t, 0x10000, "r"))
		if r >= 0xD800 && r < 0xE000 {
			r -= 0x800
		}
		return r
	case 5:
		return rune(0x10000 + Pick(t, 0x100000, "r"))
	case 6:
		return []rune{0xFFFF, 0xFFFE, 0xFFFD, 0xE000, 0xD7FF, 0x10000, 0x10FFFF, 0, 0xF020, 0xF0FF}[Pick(t, 10, "r")]
	default:
		return sfnt.MacRoman[128+Pick(t, 128, "r")]
	}
}
