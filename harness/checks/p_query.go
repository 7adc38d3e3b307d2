package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/internal/strutils"
	"github.com/unidoc/unitype/verifharness/gen"
	"github.com/unidoc/unitype/verifharness/sfnt"
	"pgregory.net/rapid"
)

var be = binary.BigEndian

// realFonts are cases with the repository's own fonts that the strict decoder understands.
func realFonts() []*Case {
	var out []*Case
	for _, pat := range []string{"/repo/testdata/*.ttf", "/repo/testdata/*/*.ttf"} {
		fs, _ := filepath.Glob(pat)
		sort.Strings(fs)
		for _, p := range fs {
			b, err := os.ReadFile(p)
			if err != nil {
				continue
			}
			if _, err := sfnt.Decode(b); err == nil {
				out = append(out, &Case{Font: b})
			}
		}
	}
	return out
}

// fontWith assembles the font with one table replaced (nil: removed) or added.
func fontWith(fi *gen.FontInfo, change map[string][]byte) []byte {
	var ts []sfnt.TableData
	done := map[string]bool{}
	for _, td := range fi.Tables {
		if d, ok := change[td.Tag]; ok {
			done[td.Tag] = true
			if d == nil {
				continue
			}
			td.Data = d
		}
		ts = append(ts, td)
	}
	var more []string
	for tag, d := range change {
		if !done[tag] && d != nil {
			more = append(more, tag)
		}
	}
	sort.Strings(more)
	for _, tag := range more {
		ts = append(ts, sfnt.TableData{Tag: tag, Data: change[tag]})
	}
	l := fi.Layout
	return sfnt.Assemble(fi.Ver, ts, l)
}

func tableOf(fi *gen.FontInfo, tag string) []byte {
	for _, td := range fi.Tables {
		if td.Tag == tag {
			return append([]byte(nil), td.Data...)
		}
	}
	return nil
}

// documented tells whether the library documents how codes of the encoding become characters.
func documented(plat, enc int) bool {
	return plat == 0 || plat == 3 && (enc == 0 || enc == 1 || enc == 10) || plat == 1 && enc == 0
}

func nonzero(m map[rune]gid) map[rune]uint16 {
	out := map[rune]uint16{}
	for r, g := range m {
		if g != 0 {
			out[r] = uint16(g)
		}
	}
	return out
}

func runeMapString(m map[rune]uint16) string {
	mm := map[uint32]uint16{}
	for r, g := range m {
		mm[uint32(r)] = g
	}
	return sfnt.MapString(mm)
}

// damageCmaps makes character maps refer to glyphs the font does not have.
func damageCmaps(t *rapid.T, fi *gen.FontInfo) []byte {
	m := model(fi.Data)
	ch := map[string][]byte{"post": nil}
	if gen.Pct(t, 70, "fewer") && m.NumGlyphs > 1 {
		n := 1 + gen.Pick(t, m.NumGlyphs-1, "left")
		maxp := tableOf(fi, "maxp")
		be.PutUint16(maxp[4:], uint16(n))
		ch["maxp"] = maxp
		hhea := tableOf(fi, "hhea")
		if m.NumHM > n {
			be.PutUint16(hhea[34:], uint16(n))
		}
		ch["hhea"] = hhea
	}
	if gen.Pct(t, 50, "high") {
		cm := tableOf(fi, "cmap")
		for i := 0; cm != nil && i < int(be.Uint16(cm[2:])); i++ {
			o := int(be.Uint32(cm[4+8*i+4:]))
			if be.Uint16(cm[o:]) != 12 {
				continue
			}
			for k := 0; k < int(be.Uint32(cm[o+12:])); k++ {
				if gen.Pct(t, 50, "raise") {
					p := cm[o+16+12*k+8:]
					be.PutUint32(p, be.Uint32(p)&0xFFFF+uint32(1+gen.Pick(t, 3, "by"))<<16)
				}
			}
		}
		ch["cmap"] = cm
	}
	return fontWith(fi, ch)
}

// rawCmaps decodes the character maps of a font whose maps may refer to glyphs it does not have.
func rawCmaps(c *Case) []sfnt.Cmap {
	return model(c.More[0]).Cmaps
}

func init() {
	register(&Prop{
		ID:   "C05",
		Rule: "generated character maps (formats 0, 4, 6, 12 and unsupported ones, shared, reordered) are decoded by an independent decoder and compared, character by character, with GetCmap for every platform and encoding; damaged variants refer to missing glyphs; non-trivial: at least one supported map with two or more mappings",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{NoDupCmap: true, NeedCmap: true, NoUnsupported: gen.Pct(t, 30, "sup"), MinGlyphs: 2, NoHuge: gen.Pct(t, 80, "noHuge")})
			c := &Case{Font: fi.Data}
			if gen.Pct(t, 25, "damage") {
				c.More = [][]byte{fi.Data}
				c.Font = damageCmaps(t, fi)
			}
			return c
		},
		Run: runC05, Quick: 6000, Deep: 150000, Fixed: realFonts,
	})

	register(&Prop{
		ID:   "C06",
		Rule: "generated character map tables (any mixture, order, sharing, languages, unsupported formats) are written and decoded again by an independent decoder, and compared code by code; non-trivial: at least one supported map with a mapping",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{NeedCmap: true, MinGlyphs: 2, NoHuge: gen.Pct(t, 80, "noHuge")})
			return &Case{Font: fi.Data}
		},
		Run: func(c *Case, r *Rec) error {
			m := model(c.Font)
			labelFont(r, m)
			for _, cm := range m.Cmaps {
				if cm.Supported() && len(cm.Map) > 0 {
					r.Nontrivial()
				}
				if cm.Supported() && cm.Lang != 0 {
					r.Label("language not 0")
				}
			}
			f, err := mustParse(c.Font)
			if err != nil {
				return err
			}
			got, b, err := writeAndDecode(f)
			if err != nil {
				return err
			}
			if err := m.Written().Diff(got, sfnt.Cmaps); err != nil {
				return err
			}
			for i := range got.Cmaps {
				if !got.Cmaps[i].Supported() {
					return fmt.Errorf("the written font has a character map of format %d", got.Cmaps[i].Format)
				}
			}
			// The library reads its own maps as it read the source's.
			f2, err := parse(b)
			if err != nil {
				return fmt.Errorf("written file does not parse again: %v", err)
			}
			for _, k := range cmapKeys(m) {
				if a, b := mapString(f.GetCmap(k[0], k[1])), mapString(f2.GetCmap(k[0], k[1])); a != b {
					return fmt.Errorf("GetCmap(%d,%d): source %s written %s", k[0], k[1], clip(a), clip(b))
				}
			}
			return nil
		},
		Quick: 6000, Deep: 150000, Fixed: realFonts,
	})

	register(&Prop{
		ID:   "C07",
		Rule: "fonts with any subset of the four searched maps, overlapping and disagreeing, are asked for random rune lists; the reference looks up the independently decoded maps in the documented order; non-trivial: at least two of the four maps present and a rune on which the first two differ or only a later one answers",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{NoDupCmap: true, NeedCmap: gen.Pct(t, 92, "cmap"), CmapOverlap: gen.Pct(t, 80, "overlap"),
				NoUnsupported: gen.Pct(t, 70, "sup"), MinGlyphs: 2, NoHuge: true})
			return &Case{Font: fi.Data, Runes: drawRunes(t, model(fi.Data), 25, "rune")}
		},
		Run: runC07, Quick: 6000, Deep: 150000,
	})

	register(&Prop{
		ID:   "C08",
		Rule: "generated naming tables are queried by id and listed; the reference decodes each record independently; non-trivial: at least two records with text the reference can decode",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{NeedName: gen.Pct(t, 93, "name"), MinGlyphs: 1, MaxGlyphs: 4})
			c := &Case{Font: fi.Data}
			if gen.Pct(t, 8, "prune") {
				c.Ints = []int{1}
			}
			return c
		},
		Run: runC08, Quick: 6000, Deep: 150000, Fixed: realFonts,
	})

	register(&Prop{
		ID:    "C22",
		Rule:  "random strings, byte slices (with spare capacity) and code units go through the codecs and are compared with the PDF and UTF-16 definitions, written down independently; the 256 byte values are enumerated; non-trivial: input of two or more characters with one outside ASCII",
		Gen:   genC22,
		Run:   runC22,
		Fixed: func() []*Case { return []*Case{{Strs: []string{"all bytes"}}} },
		Quick: 20000, Deep: 1000000,
	})

	register(&Prop{
		ID:   "C24",
		Rule: "the descriptions of a generated font (all table names, absent and unknown ones) are compared with the independently decoded counts and sizes; non-trivial: at least 8 tables",
		Gen: func(t *rapid.T) *Case {
			tiny := gen.Pct(t, 40, "tiny")
			fi := gen.Font(t, gen.Opts{Tiny: tiny, HugeExtra: gen.Pct(t, 1, "hugeExtra")})
			c := &Case{Font: fi.Data, Strs: []string{rapid.SampledFrom([]string{"nosuch", "", "OS/2", "HEAD", "glyf ", "kern", "cvt", "fpgm", "prep"}).Draw(t, "unknown")}}
			switch k := gen.Pick(t, 100, "ops"); {
			case k >= 85:
				c.Ops = []Op{{Kind: "prune", Strs: drawPrune(t)}}
			case k >= 50 && !tiny: // no closure is taken of glyphs too short for a description
				c.Ops = drawOps(t, model(fi.Data), 3)
			}
			return c
		},
		Run: runC24, Quick: 6000, Deep: 150000, Fixed: realFonts,
	})

	register(&Prop{
		ID:    "C25",
		Rule:  "generated well-formed fonts (every optional table present or absent, any directory order, gaps, unknown tables) must parse from memory; fonts with one of the listed faults must be refused; non-trivial: a font with a fault, or one with a gap, reordering or an absent optional table",
		Gen:   genC25,
		Run:   runC25,
		Quick: 10000, Deep: 250000, Fixed: realFonts,
	})
}

func runC05(c *Case, r *Rec) error {
	damaged := len(c.More) > 0
	var cmaps []sfnt.Cmap
	if damaged {
		cmaps = rawCmaps(c)
		r.Label("damaged")
	} else {
		m := model(c.Font)
		labelFont(r, m)
		cmaps = m.Cmaps
	}
	f, err := parse(c.Font)
	if err != nil {
		if damaged {
			r.Label("damaged, refused")
			return nil
		}
		return fmt.Errorf("well-formed font refused: %v", err)
	}
	keys := [][2]int{}
	for p := -1; p < 5; p++ {
		for e := -1; e < 12; e++ {
			keys = append(keys, [2]int{p, e})
		}
	}
	keys = append(keys, [2]int{65536 + 3, 1}, [2]int{3, 65536 + 1}, [2]int{0, 77})
	for _, k := range keys {
		var cm *sfnt.Cmap
		for i := range cmaps {
			if cmaps[i].Plat == k[0] && cmaps[i].Enc == k[1] && cmaps[i].Supported() {
				cm = &cmaps[i]
			}
		}
		got := f.GetCmap(k[0], k[1])
		if cm == nil {
			if len(got) != 0 {
				return fmt.Errorf("GetCmap(%d,%d) gives a map the font does not have: %s", k[0], k[1], clip(mapString(got)))
			}
			continue
		}
		if !documented(k[0], k[1]) {
			continue
		}
		want := cm.RuneMap()
		if len(want) >= 2 {
			r.Nontrivial()
		}
		r.Label("GetCmap(%d,%d) format %d", k[0], k[1], cm.Format)
		gotNZ := nonzero(got)
		if !damaged {
			if a, b := runeMapString(want), runeMapString(gotNZ); a != b {
				return fmt.Errorf("GetCmap(%d,%d), format %d:\n got %s\nwant %s", k[0], k[1], cm.Format, clip(b), clip(a))
			}
			continue
		}
		// More[0] has the map before the glyph ids were raised above 65535 and glyphs were taken away.
		now := damagedMap(c.Font, k, cm)
		for ch, g := range gotNZ {
			if w, ok := now[ch]; !ok || uint32(g) != w {
				return fmt.Errorf("GetCmap(%d,%d), damaged: character %U gives glyph %d, the data say %d", k[0], k[1], ch, g, w)
			}
		}
	}
	return nil
}

// damagedMap gives the full-width glyph numbers of a damaged map: only format 12 groups can have been raised.
func damagedMap(font []byte, k [2]int, orig *sfnt.Cmap) map[rune]uint32 {
	out := map[rune]uint32{}
	for ch, g := range orig.RuneMap() {
		out[ch] = uint32(g)
	}
	if orig.Format != 12 {
		return out
	}
	sf, err := sfnt.ReadDir(font)
	if err != nil {
		return out
	}
	cm, ok := sf.Table("cmap")
	if !ok {
		return out
	}
	for i := 0; i < int(be.Uint16(cm[2:])); i++ {
		if int(be.Uint16(cm[4+8*i:])) != k[0] || int(be.Uint16(cm[6+8*i:])) != k[1] {
			continue
		}
		o := int(be.Uint32(cm[8+8*i:]))
		if be.Uint16(cm[o:]) != 12 {
			continue
		}
		out = map[rune]uint32{}
		for g := 0; g < int(be.Uint32(cm[o+12:])); g++ {
			p := cm[o+16+12*g:]
			a, z, s := be.Uint32(p), be.Uint32(p[4:]), be.Uint32(p[8:])
			for code := a; code <= z; code++ {
				if ch, ok := sfnt.RuneOf(k[0], k[1], code); ok {
					out[ch] = s + code - a
				}
			}
		}
	}
	return out
}

func runC07(c *Case, r *Rec) error {
	m := model(c.Font)
	f, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	var maps []map[rune]uint16
	for _, k := range sfnt.LookupOrder {
		if cs := m.Find(k[0], k[1]); len(cs) > 0 {
			maps = append(maps, cs[0].RuneMap())
			r.Label("map %v", k)
		}
	}
	r.Label("%d of the four maps", len(maps))
	for _, ch := range c.Runes {
		first := true
		n := 0
		for i, mp := range maps {
			if mp[ch] != 0 {
				n++
				if first && i > 0 {
					r.Label("answer from a later map")
					r.Nontrivial()
				}
				if !first && mp[ch] != maps[0][ch] {
					r.Label("maps disagree")
					r.Nontrivial()
				}
				first = false
			}
		}
		if n == 0 {
			r.Label("unmapped rune")
		}
	}
	want := m.Lookup(c.Runes)
	in := append([]rune(nil), c.Runes...)
	got := f.LookupRunes(in)
	if len(got) != len(want) {
		return fmt.Errorf("%d glyphs for %d runes", len(got), len(want))
	}
	for i := range want {
		if uint16(got[i]) != want[i] {
			return fmt.Errorf("rune %d of %U: glyph %d, want %d", i, c.Runes, got[i], want[i])
		}
		if in[i] != c.Runes[i] {
			return fmt.Errorf("LookupRunes changes the list of runes")
		}
	}
	return nil
}

func runC08(c *Case, r *Rec) error {
	m := model(c.Font)
	f, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	if len(c.Ints) > 0 {
		r.Label("pruned")
		if err := f.PruneTables("name"); err != nil {
			return err
		}
		m = m.Prune("name")
	}
	n := 0
	for i := range m.Names {
		r.Label("platform %d encoding %d", m.Names[i].Plat, m.Names[i].Enc)
		if s, ok := m.Names[i].Text(); ok && s != "" {
			n++
			if strings.Contains(s, "'\\") {
				r.Label("escaped characters")
			}
		}
	}
	if n >= 2 {
		r.Nontrivial()
	}
	if !m.HasName {
		r.Label("no names")
	}
	for _, id := range nameIDs(m) {
		var first *sfnt.NameRec
		for i := range m.Names {
			if int(m.Names[i].ID) == id {
				first = &m.Names[i]
				break
			}
		}
		got := f.GetNameByID(id)
		want := ""
		if first != nil {
			s, ok := first.Text()
			if !ok {
				continue
			}
			want = s
		}
		if got != want {
			return fmt.Errorf("GetNameByID(%d) = %q, want %q", id, got, want)
		}
	}
	last := map[[2]uint16]*sfnt.NameRec{}
	for i := range m.Names {
		x := &m.Names[i]
		last[[2]uint16{x.Lang, x.ID}] = x
	}
	got := f.GetNameRecords()
	k := 0
	for lang, l := range got {
		if len(l) == 0 {
			return fmt.Errorf("GetNameRecords lists language %d without names", lang)
		}
		for id, s := range l {
			k++
			x := last[[2]uint16{lang, id}]
			if x == nil {
				return fmt.Errorf("GetNameRecords lists language %d name %d, which the font does not have", lang, id)
			}
			if want, ok := x.Text(); ok && s != want {
				return fmt.Errorf("GetNameRecords: language %d name %d is %q, want %q", lang, id, s, want)
			}
		}
	}
	if k != len(last) {
		return fmt.Errorf("GetNameRecords lists %d names, want %d", k, len(last))
	}
	return nil
}

// ---- C22 ----

// pdfDoc is PDFDocEncoding as ISO 32000-1 Annex D defines it; 0: undefined. (Codes 0x00 are not text.)
var pdfDoc [256]rune

func init() {
	for i := 1; i < 0x18; i++ {
		pdfDoc[i] = rune(i)
	}
	copy(pdfDoc[0x18:], []rune{0x2D8, 0x2C7, 0x2C6, 0x2D9, 0x2DD, 0x2DB, 0x2DA, 0x2DC})
	for i := 0x20; i < 0x7F; i++ {
		pdfDoc[i] = rune(i)
	}
	copy(pdfDoc[0x80:], []rune{
		0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x192, 0x2044, 0x2039, 0x203A, 0x2212, 0x2030, 0x201E, 0x201C, 0x201D, 0x2018,
		0x2019, 0x201A, 0x2122, 0xFB01, 0xFB02, 0x141, 0x152, 0x160, 0x178, 0x17D, 0x131, 0x142, 0x153, 0x161, 0x17E})
	pdfDoc[0xA0] = 0x20AC
	for i := 0xA1; i < 256; i++ {
		pdfDoc[i] = rune(i)
	}
	pdfDoc[0xAD] = 0
}

func genC22(t *rapid.T) *Case {
	c := &Case{}
	switch gen.Pick(t, 4, "kind") {
	case 0: // Unicode text
		var b strings.Builder
		for n := gen.Pick(t, 12, "len"); n > 0; n-- {
			b.WriteRune(validRune(t))
		}
		c.Strs = []string{"utf16", b.String()}
	case 1: // code units
		var units []int
		for n := gen.Pick(t, 12, "len"); n > 0; n-- {
			units = append(units, []int{0x41, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFD, 0xFFFE, 0xFEFF, 0, 0xE000, 0xD7FF, gen.Pick(t, 65536, "any")}[gen.Pick(t, 12, "unit")])
		}
		c.Strs = []string{"units"}
		c.Ints = append([]int{gen.Pick(t, 4, "spare")}, units...)
	case 2: // PDFDoc bytes
		c.Strs = []string{"pdfbytes"}
		c.Ints = []int{gen.Pick(t, 3, "spare")}
		for n := gen.Pick(t, 20, "len"); n > 0; n-- {
			c.Ints = append(c.Ints, gen.Pick(t, 256, "byte"))
		}
	case 3: // text to PDFDoc
		var rs []rune
		for n := gen.Pick(t, 20, "len"); n > 0; n-- {
			if k := pdfDoc[gen.Pick(t, 256, "pdf")]; k != 0 && gen.Pct(t, 70, "covered") {
				rs = append(rs, k)
			} else if gen.Pct(t, 50, "c1") {
				rs = append(rs, rune(gen.Pick(t, 256, "latin")))
			} else {
				rs = append(rs, validRune(t))
			}
		}
		c.Strs = []string{"pdftext"}
		c.Runes = rs
	}
	return c
}

func validRune(t *rapid.T) rune {
	for {
		r := gen.Rune(t)
		if r >= 0 && r <= 0x10FFFF && (r < 0xD800 || r > 0xDFFF) {
			return r
		}
		r = rune(gen.Pick(t, 0xD800, "bmp"))
		return r
	}
}

func spare(b []byte, n int) []byte {
	buf := append(append([]byte(nil), b...), bytes.Repeat([]byte{0xA5}, n)...)
	return buf[:len(b)]
}

// call checks that a decoder leaves its input, and what lies behind it, alone and answers the same twice.
func call(b []byte, f func([]byte) []rune) ([]rune, error) {
	before := append([]byte(nil), b[:cap(b)]...)
	x := f(b)
	y := f(b)
	if !bytes.Equal(before, b[:cap(b)]) {
		return nil, fmt.Errorf("decoding % x changes its input or the bytes behind it", before)
	}
	if string(x) != string(y) || len(x) != len(y) {
		return nil, fmt.Errorf("decoding % x twice gives %U and %U", b, x, y)
	}
	return x, nil
}

func runC22(c *Case, r *Rec) error {
	r.Label("%s", c.Strs[0])
	nonASCII := func(rs []rune) {
		if len(rs) < 2 {
			return
		}
		for _, x := range rs {
			if x > 127 {
				r.Nontrivial()
			}
		}
	}
	switch c.Strs[0] {
	case "all bytes":
		for b := 0; b < 256; b++ {
			got := strutils.PDFDocEncodingToRunes([]byte{byte(b)})
			want := []rune{pdfDoc[b]}
			if pdfDoc[b] == 0 {
				want = nil
			}
			if b == 0 {
				continue
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Errorf("PDFDocEncoding byte %#x decodes to %U, want %U", b, got, want)
			}
			if want == nil {
				continue
			}
			if back := strutils.StringToPDFDocEncoding(string(want)); !bytes.Equal(back, []byte{byte(b)}) {
				return fmt.Errorf("PDFDocEncoding byte %#x: its character %U encodes to % x", b, want, back)
			}
		}
	case "utf16":
		s := c.Strs[1]
		nonASCII([]rune(s))
		enc := strutils.StringToUTF16(s)
		if want := string(gen.UTF16BE(s)); enc != want {
			return fmt.Errorf("StringToUTF16(%q) = % x, want % x", s, enc, want)
		}
		if enc2 := strutils.StringToUTF16(s); enc2 != enc {
			return fmt.Errorf("StringToUTF16(%q) differs between calls", s)
		}
		if back := strutils.UTF16ToString([]byte(enc)); back != s {
			return fmt.Errorf("UTF16ToString(StringToUTF16(%q)) = %q", s, back)
		}
	case "units":
		var b []byte
		var u []uint16
		for _, x := range c.Ints[1:] {
			u = append(u, uint16(x))
			b = append(b, byte(x>>8), byte(x))
		}
		b = spare(b, c.Ints[0])
		want := utf16.Decode(u)
		nonASCII(want)
		got, err := call(b, strutils.UTF16ToRunes)
		if err != nil {
			return err
		}
		if len(got) != len(want) || string(got) != string(want) {
			return fmt.Errorf("UTF16ToRunes(% x) = %U, want %U", b, got, want)
		}
		if s := strutils.UTF16ToString(b); s != string(want) {
			return fmt.Errorf("UTF16ToString(% x) = %q, want %q", b, s, string(want))
		}
		// Odd length: only that the input stays as it is and that the whole code units come out the same.
		if len(b) > 0 {
			odd := append(append([]byte(nil), b...), 0x41)
			odd = spare(odd, c.Ints[0])
			if _, err := call(odd, strutils.UTF16ToRunes); err != nil {
				return err
			}
		}
	case "pdfbytes":
		var b []byte
		var want []rune
		for _, x := range c.Ints[1:] {
			if x == 0 {
				continue
			}
			b = append(b, byte(x))
			if pdfDoc[x] != 0 {
				want = append(want, pdfDoc[x])
			} else {
				r.Label("undefined byte")
			}
		}
		nonASCII(want)
		b = spare(b, c.Ints[0])
		got, err := call(b, strutils.PDFDocEncodingToRunes)
		if err != nil {
			return err
		}
		if string(got) != string(want) || len(got) != len(want) {
			return fmt.Errorf("PDFDocEncodingToRunes(% x) = %U, want %U", b, got, want)
		}
		if s := strutils.PDFDocEncodingToString(b); s != string(want) {
			return fmt.Errorf("PDFDocEncodingToString(% x) = %q, want %q", b, s, string(want))
		}
	case "pdftext":
		var s string
		var want []byte
		nonASCII(c.Runes)
		for _, ch := range c.Runes {
			if ch == 0 || !utf8.ValidRune(ch) {
				continue
			}
			s += string(ch)
			found := false
			for b, x := range pdfDoc {
				if x == ch {
					want = append(want, byte(b))
					found = true
				}
			}
			if !found {
				r.Label("character without code")
			}
		}
		got := strutils.StringToPDFDocEncoding(s)
		if !bytes.Equal(got, want) {
			return fmt.Errorf("StringToPDFDocEncoding(%q) = % x, want % x", s, got, want)
		}
		if again := strutils.StringToPDFDocEncoding(s); !bytes.Equal(got, again) {
			return fmt.Errorf("StringToPDFDocEncoding(%q) differs between calls", s)
		}
	}
	return nil
}

// ---- C24 ----

var numRe = regexp.MustCompile(`[0-9]+`)

// numbers are the whole numbers in a line.
func numbers(s string) []int {
	var out []int
	for _, x := range numRe.FindAllString(s, -1) {
		n, err := strconv.Atoi(x)
		if err != nil {
			n = -1
		}
		out = append(out, n)
	}
	return out
}

func lines(s string) []string { return strings.Split(strings.TrimSuffix(s, "\n"), "\n") }

// sizeMatches tells whether text like "12 B", "3.25 kB" states the size n, with the precision it shows.
func sizeMatches(text string, n int) bool {
	p := strings.Fields(text)
	if len(p) != 2 {
		return false
	}
	v, err := strconv.ParseFloat(p[0], 64)
	if err != nil {
		return false
	}
	unit := map[string]float64{"B": 1, "kB": 1024, "MB": 1024 * 1024}[p[1]]
	if unit == 0 {
		return false
	}
	tol := 0.0
	if i := strings.IndexByte(p[0], '.'); i >= 0 {
		tol = 0.51 * math.Pow(10, -float64(len(p[0])-i-1))
	}
	return math.Abs(v-float64(n)/unit) <= tol
}

func runC24(c *Case, r *Rec) error {
	m := model(c.Font)
	sf, _ := sfnt.ReadDir(c.Font)
	labelFont(r, m)
	if len(sf.Dir) >= 8 {
		r.Nontrivial()
	}
	f, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	subset := false
	for _, o := range c.Ops {
		r.Label("op %s", o.Kind)
		g, err := applyOp(f, o)
		if err != nil {
			return fmt.Errorf("%s failed: %v", o.Kind, err)
		}
		switch o.Kind {
		case "prune":
			m = m.Prune(o.Strs...)
		case "optimize":
			m = m.Clone()
			m.NumHM = m.MinHM()
		case "first":
			if o.Ints[0] < m.NumGlyphs {
				m, subset = m.First(o.Ints[0]), true
			}
		default:
			req := u16s(o.Ints)
			if o.Kind == "runes" {
				req = m.Lookup(o.Runes)
			}
			set := m.Closure(req)
			n := sfnt.MaxKept(set)
			if _, _, err := g.GetGlyphDataOffset(gid(n)); err == nil && n < m.NumGlyphs {
				// Which glyph count is right for ids the font does not have is open; see C11 for the others.
				n = m.NumGlyphs
			}
			m, subset = m.Keep(set, n), true
		}
		f = g
	}
	// The table directory.
	rec := f.TableInfo("trec")
	if subset { // the directory it shows is the source's
		r.Label("described after subsetting")
	}
	if f.String() != rec {
		return fmt.Errorf("String() differs from TableInfo(\"trec\")")
	}
	if !subset {
		ls := lines(rec)
		if ns := numbers(ls[0]); len(ns) != 1 || ns[0] != len(sf.Dir) || !strings.Contains(ls[0], "trec: present") {
			return fmt.Errorf("trec: %q for %d tables", ls[0], len(sf.Dir))
		}
		ls = ls[1:]
		if len(ls) > 0 && ls[len(ls)-1] == "--" {
			ls = ls[:len(ls)-1]
		}
		if len(ls) != len(sf.Dir) {
			return fmt.Errorf("trec: %d lines for %d tables", len(ls), len(sf.Dir))
		}
		for i, e := range sf.Dir {
			k := strings.LastIndex(ls[i], ": ")
			if k < 0 || strings.TrimRight(ls[i][:k], " \x00") != strings.TrimRight(e.Tag, " \x00") || !sizeMatches(ls[i][k+2:], int(e.Length)) {
				return fmt.Errorf("trec: line %d is %q for table %q of %d bytes", i, ls[i], e.Tag, e.Length)
			}
		}
	}
	// has reports whether the table is described, and checks the missing message.
	has := func(name string, present bool) (string, bool, error) {
		s := f.TableInfo(name)
		if !present {
			if s != name+": missing\n" {
				return "", false, fmt.Errorf("%s is missing, but described as %q", name, clip(s))
			}
			r.Label("missing %s", name)
			return s, false, nil
		}
		if strings.Contains(s, "missing") && len(s) < 30 {
			return "", false, fmt.Errorf("%s is present, but described as %q", name, s)
		}
		return s, true, nil
	}
	want := func(name, line string, nums ...int) error {
		if got := numbers(line); fmt.Sprint(got) != fmt.Sprint(nums) {
			return fmt.Errorf("%s: %q, want the numbers %v", name, line, nums)
		}
		return nil
	}
	s, ok, err := has("hhea", true)
	if err != nil {
		return err
	}
	if err := want("hhea", lines(s)[0], m.NumHM); err != nil {
		return err
	}
	if s, ok, err = has("hmtx", sf.Has("hmtx")); err != nil {
		return err
	} else if ok {
		if err := want("hmtx", lines(s)[0], m.NumHM, m.NumGlyphs-m.NumHM); err != nil {
			return err
		}
	}
	if s, ok, err = has("loca", true); err != nil {
		return err
	} else {
		short, long := m.NumGlyphs+1, 0
		if m.LocaFormat == 1 {
			short, long = 0, m.NumGlyphs+1
		}
		l := lines(s)
		if len(l) != 3 {
			return fmt.Errorf("loca: %q", s)
		}
		if err := want("loca", l[1], short); err != nil {
			return err
		}
		if err := want("loca", l[2], long); err != nil {
			return err
		}
	}
	if s, ok, err = has("glyf", sf.Has("glyf")); err != nil {
		return err
	} else if ok {
		total := 0
		for _, g := range m.Glyphs {
			total += len(g)
		}
		i, j := strings.IndexByte(s, '('), strings.IndexByte(s, ')')
		if i < 0 || j < i || !sizeMatches(s[i+1:j], total) {
			return fmt.Errorf("glyf: %q for %d bytes", s, total)
		}
		if err := want("glyf", s[:i], m.NumGlyphs); err != nil {
			return err
		}
	}
	if s, ok, err = has("post", m.Post != nil); err != nil {
		return err
	} else if ok {
		l := lines(strings.SplitN(s, "&", 2)[0])
		if len(l) < 3 {
			return fmt.Errorf("post: %q", l)
		}
		if m.PostNames != nil {
			if err := want("post", l[0], m.NumGlyphs); err != nil {
				return err
			}
		}
		if err := want("post names", l[2], len(m.PostNames)); err != nil {
			return err
		}
		var shown []string
		for _, x := range l[3:] {
			shown = append(shown, x)
		}
		var exp []string
		for i, n := range m.PostNames {
			if i > 10 {
				break
			}
			exp = append(exp, fmt.Sprintf("- post: %d: %s", i+1, n))
		}
		if got, w := strings.Join(shown, "\n"), strings.Join(exp, "\n"); got != w && !strings.Contains(w, "&") && !strings.ContainsRune(strings.Join(m.PostNames, ""), '\n') {
			return fmt.Errorf("post names shown:\n%s\nwant\n%s", got, w)
		}
	}
	if s, ok, err = has("cmap", m.HasCmap); err != nil {
		return err
	} else if ok {
		l := lines(s)
		if len(l) < 3 {
			return fmt.Errorf("cmap: %q", clip(s))
		}
		if err := want("cmap version", l[0], int(m.CmapVer)); err != nil {
			return err
		}
		var keys []string
		for i := range m.Cmaps {
			cm := &m.Cmaps[i]
			if cm.Supported() {
				keys = append(keys, fmt.Sprintf("%d,%d,%d", cm.Format, cm.Plat, cm.Enc))
			}
		}
		if ns := numbers(l[1]); subset && len(ns) == 2 && ns[1] == len(keys) {
			// How many encoding records the source had is not claimed for a subset.
		} else if err := want("cmap", l[1], len(m.Cmaps), len(keys)); err != nil {
			return err
		}
		var got []string
		for _, x := range l[3:] {
			if strings.HasPrefix(x, "cmap subtable: ") {
				k := strings.Fields(x)[2]
				k = strings.TrimSuffix(k, ":")
				got = append(got, strings.SplitN(k, "#", 2)[0])
			}
		}
		sort.Strings(got)
		sort.Strings(keys)
		if strings.Join(got, " ") != strings.Join(keys, " ") {
			return fmt.Errorf("cmap: described maps (format,platform,encoding) %v, want %v", got, keys)
		}
	}
	if _, _, err := has("head", true); err != nil {
		return err
	}
	if _, _, err := has("os2", m.OS2 != nil); err != nil {
		return err
	}
	if _, _, err := has("name", m.HasName); err != nil {
		return err
	}
	for _, u := range c.Strs {
		if s := f.TableInfo(u); !strings.Contains(s, "unsupported") || !strings.HasPrefix(s, u) {
			return fmt.Errorf("unknown table %q is described as %q", u, clip(s))
		}
	}
	return nil
}

// ---- C25 ----

func genC25(t *rapid.T) *Case {
	fault := ""
	if gen.Pct(t, 50, "faulty") {
		fault = rapid.SampledFrom([]string{"no head", "no hhea", "no maxp", "no loca", "magic", "loca format", "name format", "maxp version", "post count", "glyph location"}).Draw(t, "fault")
	}
	o := gen.Opts{Tiny: gen.Pct(t, 40, "tiny"), NoHuge: gen.Pct(t, 70, "noHuge"), MinGlyphs: map[bool]int{true: 2, false: 0}[fault == "glyph location"], NeedName: fault == "name format", NeedPost: fault == "post count"}
	fi := gen.Font(t, o)
	c := &Case{Font: fi.Data, Strs: []string{fault}}
	n := model(fi.Data).NumGlyphs
	switch fault {
	case "":
	case "no head", "no hhea", "no maxp", "no loca":
		c.Font = fontWith(fi, map[string][]byte{fault[3:]: nil})
	case "magic":
		d := tableOf(fi, "head")
		if gen.Pct(t, 70, "flip") {
			d[12+gen.Pick(t, 4, "byte")] ^= 1 << uint(gen.Pick(t, 8, "bit"))
		} else {
			be.PutUint32(d[12:], uint32(gen.Pick(t, 1000, "magic")))
		}
		c.Font = fontWith(fi, map[string][]byte{"head": d})
	case "loca format":
		d := tableOf(fi, "head")
		be.PutUint16(d[50:], uint16([]int{2, 3, 256, 257, 0xFFFF, 0x8000, 0x7FFF, 2 + gen.Pick(t, 65534, "any")}[gen.Pick(t, 8, "format")]))
		c.Font = fontWith(fi, map[string][]byte{"head": d})
	case "name format":
		d := tableOf(fi, "name")
		be.PutUint16(d, uint16([]int{2, 3, 256, 257, 0xFFFF, 2 + gen.Pick(t, 65534, "any")}[gen.Pick(t, 6, "format")]))
		c.Font = fontWith(fi, map[string][]byte{"name": d})
	case "maxp version":
		d := tableOf(fi, "maxp")
		be.PutUint32(d, uint32([]int{0x5000, 0, 1, 0xFFFF, gen.Pick(t, 0x10000, "any")}[gen.Pick(t, 5, "version")]))
		c.Font = fontWith(fi, map[string][]byte{"maxp": d})
	case "glyph location":
		d, g := tableOf(fi, "loca"), uint32(len(tableOf(fi, "glyf")))
		long := be.Uint16(tableOf(fi, "head")[50:]) == 1
		get := func(i int) uint32 {
			if long {
				return be.Uint32(d[4*i:])
			}
			return 2 * uint32(be.Uint16(d[2*i:]))
		}
		put := func(i int, v uint32) {
			if long {
				be.PutUint32(d[4*i:], v)
			} else {
				be.PutUint16(d[2*i:], uint16(v/2))
			}
		}
		i := gen.Pick(t, n+1, "entry")
		switch {
		case gen.Pct(t, 50, "beyond") || get(n-1) < 2: // from here on beyond the outlines
			by := g&^1 + 2*uint32(1+gen.Pick(t, 40, "by")) - get(i)
			if !long && gen.Pct(t, 30, "far") {
				by = 131070 - get(i)
			} else if long && gen.Pct(t, 30, "far") {
				by = []uint32{0x7FFFFFFE, 0x80000000, 0xFFFFFFFE}[gen.Pick(t, 3, "farAway")] - get(i)
			}
			v := get(i) + by
			if v <= g { // short locations reach no farther
				c.Strs[0] = ""
				return c
			}
			for ; i <= n; i++ {
				put(i, v)
			}
		default: // one lower than its predecessor
			for i == 0 || get(i-1) < 2 {
				i = i%n + 1
			}
			put(i, uint32(2*gen.Pick(t, int(get(i-1)/2), "lower")))
			if !long && be.Uint16(d[2*i:]) >= be.Uint16(d[2*i-2:]) || long && be.Uint32(d[4*i:]) >= be.Uint32(d[4*i-4:]) {
				c.Strs[0] = ""
				return c
			}
		}
		c.Font = fontWith(fi, map[string][]byte{"loca": d})
	case "post count":
		d := tableOf(fi, "post")
		if v := be.Uint32(d); v == 0x00020000 || v == 0x00025000 {
			other := n + []int{1, -1, 2, 256, gen.Pick(t, 65535, "any") - n, -n}[gen.Pick(t, 6, "count")]
			other &= 0xFFFF
			if other == n {
				other = (n + 1) & 0xFFFF
			}
			be.PutUint16(d[32:], uint16(other))
			if gen.Pct(t, 40, "long") { // enough data for the stated count
				d = append(d, bytes.Repeat([]byte{0, 3, 3, 'a', 'b', 'c'}, 50)...)
			}
		} else if n != 258 {
			be.PutUint32(d, 0x00010000)
			d = d[:32]
		} else {
			be.PutUint32(d, 0x00020000)
			d = append(d[:32], 1, 3)
			d = append(d, make([]byte, 2*259)...)
		}
		c.Font = fontWith(fi, map[string][]byte{"post": d})
	}
	return c
}

func runC25(c *Case, r *Rec) error {
	fault := ""
	if len(c.Strs) > 0 {
		fault = c.Strs[0]
	}
	f, err := parse(c.Font)
	if fault != "" {
		r.Label("fault: %s", fault)
		r.Nontrivial()
		if err == nil {
			return fmt.Errorf("a font with the fault %q is accepted", fault)
		}
		if f != nil {
			return fmt.Errorf("a refused font is returned along with the error")
		}
		if unitype.ValidateBytes(c.Font) == nil {
			return fmt.Errorf("a font with the fault %q validates", fault)
		}
		return nil
	}
	m := model(c.Font)
	labelFont(r, m)
	sf, _ := sfnt.ReadDir(c.Font)
	prev := uint32(0)
	for i, e := range sf.Dir {
		if e.Offset < prev {
			r.Label("tables not in directory order")
			r.Nontrivial()
		}
		if i > 0 && sf.Dir[i-1].Tag > e.Tag {
			r.Label("directory not sorted")
		}
		prev = e.Offset
	}
	for tag, x := range map[string][]byte{"OS/2": m.OS2, "post": m.Post, "cvt": m.Cvt, "fpgm": m.Fpgm, "prep": m.Prep} {
		if x == nil {
			r.Label("no %s", tag)
			r.Nontrivial()
		}
	}
	if !m.HasName {
		r.Label("no name")
	}
	if !m.HasCmap {
		r.Label("no cmap")
	}
	if err != nil {
		return fmt.Errorf("well-formed font refused: %v", err)
	}
	return nil
}
