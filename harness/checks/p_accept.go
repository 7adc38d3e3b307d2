package checks

import (
	"bytes"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/verifharness/gen"
	"github.com/unidoc/unitype/verifharness/sfnt"
	"pgregory.net/rapid"
)

func init() {
	register(&Prop{
		ID:   "C27",
		Rule: "fonts with oddities that the parser tends to accept (codes mapped twice, unsorted, overlapping and unfinished ranges, wrong and odd lengths, shared and repeated character maps, thousands of names over one another, strings inside the records, overlapping and repeated tables, surplus data) and fonts damaged at random are parsed, and subset, pruned and optimised; every accepted font and every font derived is asked everything, written, read back, validated, asked again and written again, and the outlines and programs in the file are compared with the source bytes by an independent reader; non-trivial: an independent strict decoder refuses the font, but the parser accepts it",
		Gen:  genC27, Run: runC27, Quick: 12000, Deep: 400000,
		FromFile: func(data []byte, ctl uint32) *Case { return &Case{Font: data, Ops: opsFrom(tameOps, data, ctl)} },
	})
}

// genC27 draws a font that is odd in one or more places, and operations.
func genC27(t *rapid.T) *Case {
	if gen.Pct(t, 30, "damaged") {
		return genC15(t)
	}
	fi := gen.Font(t, gen.Opts{Small: true, NoHuge: true, NeedCmap: gen.Pct(t, 70, "cmap"), Tiny: gen.Pct(t, 20, "tiny")})
	c := &Case{}
	ch := map[string][]byte{}
	for k := 1 + gen.Pick(t, 2, "oddities"); k > 0; k-- {
		switch gen.Pick(t, 8, "odd") {
		case 0, 1, 2, 3:
			ch["cmap"] = oddCmap(t, int(be.Uint16(tableOf(fi, "maxp")[4:])))
		case 4, 5:
			ch["name"] = oddName(t)
		case 6: // surplus or missing data
			for _, tag := range []string{"post", "OS/2", "cvt ", "prep", "fpgm", "head", "hhea", "maxp", "hmtx", "loca", "glyf"} {
				x := tableOf(fi, tag)
				if x != nil && gen.Pct(t, 25, "surplus") {
					ch[tag] = append(x, make([]byte, gen.Pick(t, 7, "by"))...)
				}
			}
		case 7: // fields
			if x := tableOf(fi, "OS/2"); x != nil {
				be.PutUint16(x, uint16(gen.Pick(t, 12, "os2")))
				ch["OS/2"] = append(x, make([]byte, gen.Pick(t, 3, "room")*50)...)
			}
			if x := tableOf(fi, "post"); x != nil && gen.Pct(t, 50, "post") {
				be.PutUint32(x, []uint32{0, 0x00018000, 0x00030000, 0x00040000, 0xFFFF0000, 0x00020001}[gen.Pick(t, 6, "postVer")])
				ch["post"] = x
			}
			x := tableOf(fi, "maxp")
			be.PutUint32(x, []uint32{0x00010000, 0x00010001, 0x00020000, 0x7FFFFFFF}[gen.Pick(t, 4, "maxpVer")])
			ch["maxp"] = x
		}
	}
	c.Font = fontWith(fi, ch)
	for k := gen.Pick(t, 3, "damage"); k > 0 && gen.Pct(t, 40, "also"); k-- {
		c.Font = oddDir(t, c.Font)
	}
	n := int(be.Uint16(tableOf(fi, "maxp")[4:]))
	c.Ops = tameOps(t, n)
	return c
}

// tameOps draws derivations of a font of n glyphs.
func tameOps(t *rapid.T, n int) (ops []Op) {
	for k := gen.Pick(t, 4, "ops"); k > 0; k-- {
		o := Op{Font: gen.Pick(t, 4, "which")}
		switch gen.Pick(t, 8, "op") {
		case 0, 1, 2:
			o.Kind, o.Ints = "first", []int{gen.Pick(t, n+1, "n")}
		case 3:
			o.Kind, o.Ints = "keep", drawGids(t, n, 4, false, "keep")
		case 4, 5:
			o.Kind, o.Runes = "runes", wildRunes(t)
		case 6:
			o.Kind, o.Strs = "prune", drawPrune(t)
		case 7:
			o.Kind = "optimize"
		}
		ops = append(ops, o)
	}
	return ops
}

func p16(b []byte, v ...int) []byte {
	for _, x := range v {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}

func p32(b []byte, v ...uint32) []byte {
	for _, x := range v {
		b = append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return b
}

// oddCmap makes a cmap table out of subtables whose ranges, lengths and places are not as they should be.
func oddCmap(t *rapid.T, n int) []byte {
	code := func() int {
		if gen.Pct(t, 15, "edge") {
			return []int{0, 0xFFFF, 0xFFFE, 0xD7FF, 0xE000, 0x7FFF, 0x8000, 0xD800}[gen.Pick(t, 8, "edgeCode")]
		}
		return 0x40 + gen.Pick(t, 24, "code")
	}
	sub := func() []byte {
		lang := gen.Pick(t, 3, "lang")
		switch gen.Pick(t, 8, "format") {
		case 0:
			b := p16(nil, 0, []int{262, 0, 261, 65535}[gen.Pick(t, 4, "len")], lang)
			for i := 0; i < 256; i++ {
				g := 0
				if i%7 == 3 {
					g = gen.Pick(t, n+2, "gid")
				}
				b = append(b, byte(g))
			}
			return b
		case 1, 2:
			first, k := code(), gen.Pick(t, 12, "k")
			b := p16(nil, 6, []int{10 + 2*k, 0, 9, 65535}[gen.Pick(t, 4, "len")], lang, first, k)
			for ; k > 0; k-- {
				b = p16(b, gen.Pick(t, n+2, "gid"))
			}
			return b
		case 3, 4, 5:
			segs := gen.Pick(t, 6, "segs")
			var ends, starts, deltas, offs, ids []int
			for i := 0; i < segs; i++ {
				a := code()
				z := a + gen.Pick(t, 6, "span") - 1
				if z > 0xFFFF {
					z = 0xFFFF
				}
				ends, starts = append(ends, z), append(starts, a)
				if gen.Pct(t, 45, "array") && z >= a {
					at := len(ids)
					if at > 0 && gen.Pct(t, 40, "share") {
						at = gen.Pick(t, at, "at")
					}
					for len(ids) < at+z-a+1 {
						ids = append(ids, gen.Pick(t, n, "gid"))
					}
					offs = append(offs, -1-at)
					deltas = append(deltas, []int{0, 0, 0, 1, 65535}[gen.Pick(t, 5, "delta")])
				} else {
					g := 0
					if m := n - (z - a); m > 0 {
						g = gen.Pick(t, m, "gid")
					}
					offs, deltas = append(offs, 0), append(deltas, g-a)
				}
			}
			if gen.Pct(t, 85, "terminator") || segs == 0 {
				ends, starts, deltas, offs = append(ends, 0xFFFF), append(starts, 0xFFFF), append(deltas, 1), append(offs, 0)
				segs++
			}
			for i := range offs {
				if offs[i] < 0 {
					offs[i] = 2 * (segs - i - 1 - offs[i])
				}
			}
			ids = append(ids, make([]int, gen.Pick(t, 3, "surplus"))...)
			l := 16 + 8*segs + 2*len(ids)
			if gen.Pct(t, 15, "wrongLen") {
				l += gen.Pick(t, 9, "by") - 4
			}
			b := p16(nil, 4, l, lang, 2*segs+gen.Pick(t, 12, "oddCount")/11, gen.Pick(t, 40, "sr"), gen.Pick(t, 4, "es"), gen.Pick(t, 40, "rs"))
			b = append(p16(b, ends...), 0, 0)
			b = p16(p16(p16(b, starts...), deltas...), offs...)
			return p16(b, ids...)
		default:
			k := gen.Pick(t, 6, "groups")
			b := p32(p16(nil, []int{12, 12, 12, 13}[gen.Pick(t, 4, "twelve")], gen.Pick(t, 2, "reserved")), []uint32{uint32(16 + 12*k), 0, 0xFFFFFFFF}[gen.Pick(t, 3, "len")], uint32(lang), uint32(k))
			for ; k > 0; k-- {
				a := uint32(code())
				if gen.Pct(t, 30, "high") {
					a += 0x10000
				}
				b = p32(b, a, a+uint32(gen.Pick(t, 8, "span"))-1, uint32(gen.Pick(t, n, "gid")))
			}
			return b
		}
	}
	k := 1 + gen.Pick(t, 4, "maps")
	type rec struct{ p, e, o int }
	var recs []rec
	var body []byte
	head := 4 + 8*k
	for i := 0; i < k; i++ {
		pe := [][2]int{{3, 1}, {0, 3}, {1, 0}, {3, 10}, {3, 0}, {0, 4}, {0, 6}, {3, 1}, {0, 0}, {2, 1}, {3, 2}, {9, 9}}[gen.Pick(t, 12, "slot")]
		r := rec{pe[0], pe[1], head + len(body)}
		if i > 0 && gen.Pct(t, 25, "again") {
			r.o = recs[gen.Pick(t, i, "which")].o
		} else {
			body = append(body, sub()...)
		}
		recs = append(recs, r)
	}
	b := p16(nil, gen.Pick(t, 3, "version"), k)
	for _, r := range recs {
		b = p32(p16(b, r.p, r.e), uint32(r.o))
	}
	b = append(b, body...)
	return append(b, make([]byte, gen.Pick(t, 3, "tail")*3)...)
}

// oddName makes a name table with strings anywhere in the table, and sometimes more records than fit before them.
func oddName(t *rapid.T) []byte {
	n := []int{gen.Pick(t, 8, "few"), gen.Pick(t, 60, "some"), 5400 + gen.Pick(t, 120, "many"), 5461 + gen.Pick(t, 4000, "more")}[gen.Pick(t, 20, "count")/6]
	format := gen.Pick(t, 2, "format")
	tags := 0
	if format == 1 {
		tags = []int{gen.Pick(t, 5, "tags"), 16000 + gen.Pick(t, 600, "manyTags")}[gen.Pick(t, 12, "tagKind")/11]
	}
	size := 6 + 12*n
	if format == 1 {
		size += 2 + 4*tags
	}
	size += gen.Pick(t, 400, "strings")
	b := make([]byte, size)
	p := gen.PRNG(rapid.Uint32().Draw(t, "seed"))
	copy(b, p.Bytes(size))
	at := []int{0, 6, gen.Pick(t, 1+min(size, 65535), "any"), min(6+12*n, 65535)}[gen.Pick(t, 4, "at")]
	be.PutUint16(b, uint16(format))
	be.PutUint16(b[2:], uint16(n))
	be.PutUint16(b[4:], uint16(at))
	room := min(size-at, 65535)
	place := func(d []byte) {
		o := p.N(room + 1)
		l := p.N(min(room-o, 12) + 1)
		if p.N(50) == 0 {
			l = p.N(room - o + 1)
		}
		if n > 1000 { // so that the strings stay in reach
			o &= 63
			l = p.N(3)
			if o+l > room {
				o, l = 0, 0
			}
		}
		be.PutUint16(d, uint16(l))
		be.PutUint16(d[2:], uint16(o))
	}
	few := gen.Pct(t, 70, "fewKinds")
	for i := 0; i < n; i++ {
		d := b[6+12*i:]
		be.PutUint16(d, uint16(p.N(5)))
		be.PutUint16(d[2:], uint16(p.N(4)))
		if few {
			be.PutUint16(d[4:], uint16(p.N(3)))
			be.PutUint16(d[6:], uint16(p.N(20)))
		}
		place(d[8:])
	}
	if format == 1 {
		be.PutUint16(b[6+12*n:], uint16(tags))
		for i := 0; i < tags; i++ {
			d := b[8+12*n+4*i:]
			place(d)
			o, l := be.Uint16(d[2:]), be.Uint16(d)
			be.PutUint16(d, l)
			be.PutUint16(d[2:], o)
		}
	}
	return b
}

// oddDir moves, repeats or overlaps tables.
func oddDir(t *rapid.T, b []byte) []byte {
	f, err := sfnt.ReadDir(b)
	if err != nil || len(f.Dir) < 2 {
		return b
	}
	i, j := gen.Pick(t, len(f.Dir), "i"), gen.Pick(t, len(f.Dir), "j")
	d, o := entryAt(f, i)[:16], entryAt(f, j)[:16]
	switch gen.Pick(t, 4, "dir") {
	case 0: // other order
		x := append([]byte(nil), d...)
		copy(d, o)
		copy(o, x)
	case 1: // a table nobody reads gives way to a second one of a name
		for k, e := range f.Dir {
			if _, hot := hotFields[e.Tag]; !hot && k != j {
				copy(entryAt(f, k)[:16], o)
				break
			}
		}
	case 2: // two tables of bytes share their data
		var soft [][]byte
		for k, e := range f.Dir {
			if e.Tag == "prep" || e.Tag == "fpgm" || e.Tag == "cvt " || e.Tag == "name" {
				soft = append(soft, entryAt(f, k)[:16])
			}
		}
		if len(soft) > 1 && string(soft[1][:4]) != "name" {
			copy(soft[1][4:], soft[0][4:])
		}
	case 3: // moved behind the others, at any alignment
		return moveLast(b, f, i, gen.Pick(t, 6, "gap"))
	}
	return b
}

// moveLast moves table i of the directory behind the others; no checksum is mended.
func moveLast(b []byte, f *sfnt.File, i, gap int) []byte {
	e := f.Dir[i]
	if uint64(e.Offset)+uint64(e.Length) > uint64(len(b)) {
		return b
	}
	at := len(b) + gap
	nb := make([]byte, at, at+int(e.Length))
	copy(nb, b)
	nb = append(nb, b[e.Offset:e.Offset+e.Length]...)
	be.PutUint32(nb[12+16*i+8:], uint32(at))
	return nb
}

var adjustment = regexp.MustCompile(`checksumAdjustment:0x[0-9a-f]+`)

// ambiguous gives the platforms and encodings with character maps of f in which several codes can be the same
// character: codes of more bits than the encoding has, and encodings that C05 does not lay down.
func ambiguous(f *unitype.Font) map[[2]int]bool {
	out := map[[2]int]bool{}
	for _, s := range subtableKey.FindAllStringSubmatch(f.TableInfo("cmap"), -1) {
		format, _ := strconv.Atoi(s[1])
		p, _ := strconv.Atoi(s[2])
		e, _ := strconv.Atoi(s[3])
		wide := p == 0 && (e == 4 || e == 6) || p == 3 && e == 10
		ucs2 := p == 0 && !wide || p == 3 && (e == 0 || e == 1)
		if !(wide || ucs2 && format != 12 || p == 1 && format == 0) {
			out[[2]int{p, e}] = true
		}
	}
	return out
}

var subtableKey = regexp.MustCompile(`(?m)^cmap subtable: (\d+),(\d+),(\d+)`)

// allAnswers asks a font of which nothing is known everything it can be asked, save what writing does not keep.
// Of a derived font, only the character maps with defined characters are asked for.
func allAnswers(f *unitype.Font, derived bool) []string {
	var out []string
	add := func(q string, v interface{}) { out = append(out, fmt.Sprintf("%s = %v", q, v)) }
	var runes []rune
	seen := map[rune]bool{}
	unclear := ambiguous(f)
	for _, p := range []int{0, 1, 2, 3, 4, 9, 65535} {
		for e := -1; e < 12; e++ {
			if derived && unclear[[2]int{p, e}] {
				continue
			}
			m := map[rune]gid{}
			for r, g := range f.GetCmap(p, e) {
				if g == 0 || derived && r == 0xFFFD { // several codes can be this one
					continue
				}
				m[r] = g
				if !seen[r] {
					seen[r] = true
					runes = append(runes, r)
				}
			}
			add(fmt.Sprintf("GetCmap(%d,%d)", p, e), mapString(m))
		}
	}
	sort.Slice(runes, func(i, j int) bool { return runes[i] < runes[j] })
	if !derived || !unclear[[2]int{3, 1}] && !unclear[[2]int{1, 0}] && !unclear[[2]int{0, 3}] && !unclear[[2]int{3, 10}] {
		add("LookupRunes", f.LookupRunes(append(runes, 0x41, -1)))
	}
	recs := f.GetNameRecords()
	add("GetNameRecords", namesString(recs))
	ids := map[uint16]bool{0: true, 1: true, 77: true}
	for _, x := range recs {
		for id := range x {
			ids[id] = true
		}
	}
	var sorted []int
	for id := range ids {
		sorted = append(sorted, int(id))
	}
	sort.Ints(sorted)
	for i, id := range sorted {
		if i == 100 {
			break
		}
		add("GetNameByID", fmt.Sprintf("%d %q", id, f.GetNameByID(id)))
	}
	first := int64(0)
	for g := 0; g <= 65535; g++ {
		o, l, err := f.GetGlyphDataOffset(gid(g))
		if g == 0 {
			first = o
		}
		if err != nil {
			add("glyphs", g)
			break
		}
		if g < 400 || g > 65530 {
			add(fmt.Sprintf("GetGlyphDataOffset(%d)", g), fmt.Sprint(o-first, l))
		}
	}
	for _, t := range []string{"head", "os2", "hhea", "hmtx", "cmap", "loca", "glyf"} {
		s := adjustment.ReplaceAllString(f.TableInfo(t), "")
		if t == "cmap" {
			if derived {
				continue
			}
			if _, rest, ok := strings.Cut(s, "encoding records:"); ok { // all of them; only supported ones are written
				_, s, _ = strings.Cut(rest, "subtables:")
			}
		}
		add("TableInfo("+t+")", s)
	}
	return out
}

// shape asks for the number of metrics and glyphs, and whether there are outlines.
func shape(f *unitype.Font) (metrics, glyphs int, outlines bool) {
	fmt.Sscanf(f.TableInfo("hhea"), "hhea table: numHMetrics: %d", &metrics)
	for {
		if _, _, err := f.GetGlyphDataOffset(gid(glyphs)); err != nil || glyphs == 65535 {
			break
		}
		glyphs++
	}
	return metrics, glyphs, !strings.HasPrefix(f.TableInfo("glyf"), "glyf: missing")
}

func runC27(c *Case, r *Rec) error {
	f, err := parse(c.Font)
	if err != nil {
		r.Label("refused")
		return nil
	}
	if nm, ng, outlines := shape(f); !outlines {
		r.Label("no outlines")
		return nil
	} else if nm > ng {
		r.Label("more metrics than glyphs")
		return nil
	}
	if _, derr := sfnt.Decode(c.Font); derr != nil {
		r.Label("malformed, accepted")
		r.Nontrivial()
	} else {
		r.Label("well-formed")
	}
	pool := []*unitype.Font{f}
	if b, err := acceptRoundTrip(f, false, r); err != nil {
		return err
	} else if b != nil {
		if err := sameBytes(c.Font, b, f); err != nil {
			return err
		}
	}
	for i, o := range c.Ops {
		f := pool[o.Font%len(pool)]
		switch o.Kind {
		case "first", "keep", "runes", "prune", "optimize":
			var g *unitype.Font
			err := try(func() error {
				var err error
				g, err = applyOp(f, o)
				return err
			})
			if err != nil || g == nil {
				continue
			}
			r.Label("derived: %s", o.Kind)
			if _, err := acceptRoundTrip(g, true, r); err != nil {
				return fmt.Errorf("step %d: after %s %v %U %q: %v", i, o.Kind, o.Ints, o.Runes, o.Strs, err)
			}
			if g != f && len(pool) < 5 {
				pool = append(pool, g)
			}
		}
	}
	return nil
}

func acceptRoundTrip(f *unitype.Font, derived bool, r *Rec) ([]byte, error) {
	want := allAnswers(f, derived)
	b, err := write1(f)
	var p *panicError
	if errors.As(err, &p) {
		return nil, fmt.Errorf("writing: %v", err)
	}
	if err != nil {
		r.Label("not written: %v", err)
		return nil, nil
	}
	g, err := parse(b)
	if err != nil {
		return nil, fmt.Errorf("the written font is refused: %v", err)
	}
	if err := unitype.ValidateBytes(b); err != nil {
		return nil, fmt.Errorf("the written font is invalid: %v", err)
	}
	if err := diffAnswers(want, allAnswers(g, derived)); err != nil {
		return nil, fmt.Errorf("written and read back: %v", err)
	}
	b2, err := mustWrite(g)
	if err != nil {
		return nil, err
	}
	if !bytes.Equal(b, b2) {
		return nil, fmt.Errorf("written, read back and written again: other bytes")
	}
	return b, nil
}

// sameBytes compares outlines and programs of a source file with those of the file written, as found by an
// independent reader.
func sameBytes(src, out []byte, f *unitype.Font) error {
	tab := func(file []byte, tag string) []byte {
		sf, err := sfnt.ReadDir(file)
		if err != nil {
			return nil
		}
		var d []byte
		for _, e := range sf.Dir { // the last one of a name counts
			if strings.TrimSpace(e.Tag) == strings.TrimSpace(tag) {
				d = file[min(uint64(e.Offset), uint64(len(file))):]
				if tag != "glyf" && uint64(e.Length) < uint64(len(d)) { // the glyphs lie anywhere from there
					d = d[:e.Length]
				}
			}
		}
		return d
	}
	for _, tag := range []string{"prep", "fpgm", "cvt "} {
		a, b := tab(src, tag), tab(out, tag)
		if tag == "cvt " && a != nil {
			a = a[:len(a)&^1]
		}
		if a != nil && !bytes.Equal(a, b) {
			return fmt.Errorf("%s: source %d bytes, written %d bytes, or different ones", tag, len(a), len(b))
		}
	}
	g, err := parse(out)
	if err != nil {
		return err
	}
	a, b := tab(src, "glyf"), tab(out, "glyf")
	for i := 0; i < 65536; i++ {
		o1, l1, err := f.GetGlyphDataOffset(gid(i))
		if err != nil {
			break
		}
		o2, l2, err := g.GetGlyphDataOffset(gid(i))
		if err != nil || l1 != l2 || l1 < 0 || o1+l1 > int64(len(a)) || o2+l2 > int64(len(b)) || !bytes.Equal(a[o1:o1+l1], b[o2:o2+l2]) {
			return fmt.Errorf("glyph %d: its outline, %d bytes at %d, is not what is written, %d bytes at %d (%v)", i, l1, o1, l2, o2, err)
		}
	}
	return nil
}
