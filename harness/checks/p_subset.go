package checks

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/verifharness/gen"
	"github.com/unidoc/unitype/verifharness/sfnt"
	"pgregory.net/rapid"
)

// inMemory compares what a font answers with its model.
func inMemory(f *unitype.Font, m *sfnt.Model, runes []rune) error {
	dups := false
	for _, k := range cmapKeys(m) {
		cs := m.Find(k[0], k[1])
		if len(cs) > 1 {
			dups = true
			continue
		}
		got := f.GetCmap(k[0], k[1])
		if len(cs) == 0 {
			if len(got) > 0 {
				return fmt.Errorf("GetCmap(%d,%d) gives a map, want none: %s", k[0], k[1], clip(mapString(got)))
			}
			continue
		}
		if !documented(k[0], k[1]) {
			continue
		}
		if a, b := runeMapString(cs[0].RuneMap()), runeMapString(nonzero(got)); a != b {
			return fmt.Errorf("GetCmap(%d,%d), format %d:\n got %s\nwant %s", k[0], k[1], cs[0].Format, clip(b), clip(a))
		}
	}
	if !dups {
		want := m.Lookup(runes)
		got := f.LookupRunes(runes)
		for i := range want {
			if i >= len(got) || uint16(got[i]) != want[i] {
				return fmt.Errorf("LookupRunes(%U) = %v, want %v", runes, got, want)
			}
		}
	}
	seen := map[uint16]bool{}
	for i := range m.Names {
		x := &m.Names[i]
		if seen[x.ID] {
			continue
		}
		seen[x.ID] = true
		if want, ok := x.Text(); ok {
			if got := f.GetNameByID(int(x.ID)); got != want {
				return fmt.Errorf("GetNameByID(%d) = %q, want %q", x.ID, got, want)
			}
		}
	}
	if !m.HasName && len(f.GetNameRecords()) > 0 {
		return fmt.Errorf("GetNameRecords lists names of a font without names")
	}
	for g := 0; g < m.NumGlyphs; g++ {
		if g > 300 && g < m.NumGlyphs-3 {
			continue
		}
		_, n, err := f.GetGlyphDataOffset(gid(g))
		if err != nil || int(n) != len(m.Glyphs[g]) {
			return fmt.Errorf("GetGlyphDataOffset(%d): length %d, error %v, want %d", g, n, err, len(m.Glyphs[g]))
		}
	}
	if m.NumGlyphs < 65536 {
		if o, l, err := f.GetGlyphDataOffset(gid(m.NumGlyphs)); err == nil {
			return fmt.Errorf("GetGlyphDataOffset(%d) = %d, %d without error in a font of %d glyphs", m.NumGlyphs, o, l, m.NumGlyphs)
		}
	}
	return nil
}

// needsSharing says that a character map, cut to glyphs below n, takes more than a format 4 subtable can hold in either
// of two plain forms: one array for all codes, or a segment for each run of consecutive codes and glyphs.
func needsSharing(m *sfnt.Model, n int) bool {
	for i := range m.Cmaps {
		if m.Cmaps[i].Format != 4 {
			continue
		}
		var codes []int
		for c, g := range m.Cmaps[i].Map {
			if int(g) < n {
				codes = append(codes, int(c))
			}
		}
		if len(codes) == 0 {
			continue
		}
		sort.Ints(codes)
		runs := 1
		for k := 1; k < len(codes); k++ {
			a, b := uint32(codes[k-1]), uint32(codes[k])
			if b != a+1 || m.Cmaps[i].Map[b] != m.Cmaps[i].Map[a]+1 {
				runs++
			}
		}
		if 16+8*(runs+1) > 65535 && 32+2*(codes[len(codes)-1]-codes[0]+1) > 65535 {
			return true
		}
	}
	return false
}

// same checks that two fonts are indistinguishable from outside.
func same(a, b *unitype.Font, m *sfnt.Model, runes []rune) error {
	if err := diffAnswers(answers(a, m, runes), answers(b, m, runes)); err != nil {
		return err
	}
	x, err := mustWrite(a)
	if err != nil {
		return err
	}
	y, err := mustWrite(b)
	if err != nil {
		return err
	}
	if !bytes.Equal(x, y) {
		return fmt.Errorf("the fonts write different bytes")
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C10",
		Rule: "a generated font is subset to its first N glyphs (every boundary biased: 1, count-1, count, beyond, negative), the returned font is queried and the written file decoded, both compared with the reference model; non-trivial: 1 <= N < count and at least one map entry or outline cut off",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{Giga: true, Tiny: gen.Pct(t, 40, "tiny"), MinGlyphs: 2, NoUnsupported: gen.Pct(t, 60, "sup"), NeedCmap: gen.Pct(t, 60, "cmap"), SharedArrays: gen.Pct(t, 2, "shared")})
			m := model(fi.Data)
			n := m.NumGlyphs
			c := &Case{Font: fi.Data, Runes: drawRunes(t, m, 8, "rune")}
			switch gen.Pick(t, 20, "nKind") {
			case 0:
				c.Ints = []int{n}
			case 1:
				c.Ints = []int{n + 1 + gen.Pick(t, 100000, "above")}
			case 2:
				c.Ints = []int{-1 - []int{0, 1, 255, 65535, 65536, 1<<31 - 1, 1<<62 - 1}[gen.Pick(t, 7, "below")]}
			case 3: // a count that equals a small one when cut to 16 bits
				c.Ints = []int{65536*(1+gen.Pick(t, 3, "wrap")) + gen.Pick(t, n, "low")}
			default:
				c.Ints = []int{drawN(t, n, "n")}
			}
			return c
		},
		Run: runC10, Quick: 6000, Deep: 150000,
		Fixed: func() []*Case {
			out := realFonts()
			for _, c := range out {
				c.Ints = []int{100}
				c.Runes = []rune("Aé€xyz")
			}
			return out
		},
	})

	register(&Prop{
		ID:   "C11",
		Rule: "composite-glyph graphs (any depth, sharing, cycles, all argument and scale forms) and glyph requests; the file written by the subset and the returned font are compared with a reference that closes over components; non-trivial: the request needs a glyph it does not name",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{Giga: true, MinGlyphs: 2, Composite: 20 + gen.Pick(t, 60, "comp"), NoUnsupported: gen.Pct(t, 60, "sup"), SharedArrays: gen.Pct(t, 1, "shared")})
			m := model(fi.Data)
			return &Case{Font: fi.Data, Ints: drawGids(t, m.NumGlyphs, 8, gen.Pct(t, 25, "outOfRange"), "gid"), Runes: drawRunes(t, m, 6, "rune")}
		},
		Run: runC11, Quick: 6000, Deep: 150000,
		Fixed: func() []*Case {
			out := realFonts()
			for _, c := range out {
				c.Ints = []int{120, 3, 200, 150}
			}
			return out
		},
	})

	register(&Prop{
		ID:   "C12",
		Rule: "a generated font is subset to a random text; the written file alone is decoded independently: same glyph for each rune, same outlines and metrics over the closure, nothing else, not larger; non-trivial: at least one rune of the text has a glyph and at least one glyph is not needed",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{MinGlyphs: 2, NoDupCmap: true, NeedCmap: gen.Pct(t, 95, "cmap"), NoUnsupported: gen.Pct(t, 60, "sup"),
				CmapOverlap: gen.Pct(t, 50, "overlap"), NoCrossShare: gen.Pct(t, 50, "share"), NoHuge: gen.Pct(t, 60, "noHuge"), SharedArrays: gen.Pct(t, 1, "shared")})
			m := model(fi.Data)
			return &Case{Font: fi.Data, Runes: drawRunes(t, m, 10, "rune")}
		},
		Run: runC12, Quick: 6000, Deep: 150000,
		Fixed: func() []*Case {
			out := realFonts()
			for i, c := range out {
				c.Runes = []rune([]string{"Hello, Wörld", "áéíóúñ", "fi", "", "αβγ \U0001F600", "ÅÄÖ½"}[i%6])
			}
			return out
		},
	})

	register(&Prop{
		ID:   "C21",
		Rule: "histories of 2-9 (5 %: up to 41) operations (subset by count, ids, runes; prune; optimise; write and re-read; query; write) over a growing pool of fonts; at random steps and at the end every font of the pool is compared, in memory and written, with its reference model; non-trivial: at least three operations, one of them applied to a derived font",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{MinGlyphs: 3, MaxGlyphs: []int{12, 40, 300}[gen.Pick(t, 3, "size")], NoDupCmap: true, NeedCmap: gen.Pct(t, 85, "cmap"), NoHuge: true})
			m := model(fi.Data)
			c := &Case{Font: fi.Data, Runes: drawRunes(t, m, 6, "query")}
			n := m.NumGlyphs
			most, fonts := 8, 6
			if gen.Pct(t, 5, "long") {
				most, fonts = 40, 16
			}
			for k := 2 + gen.Pick(t, most, "len"); k > 0; k-- {
				o := Op{Font: gen.Pick(t, fonts, "which")}
				switch gen.Pick(t, 10, "op") {
				case 0, 1:
					o.Kind, o.Ints = "first", []int{drawN(t, n, "first")}
					if most > 8 && gen.Pct(t, 70, "little") && len(c.Ops)/3+1 < n { // little by little
						o.Ints[0] = n - 1 - len(c.Ops)/3
					}
				case 2, 3:
					o.Kind, o.Ints = "keep", drawGids(t, n, 6, false, "keep")
				case 4, 5:
					o.Kind, o.Runes = "runes", drawRunes(t, m, 6, "runes")
				case 6:
					o.Kind, o.Strs = "prune", drawPrune(t)
				case 7:
					o.Kind = "optimize"
				case 8:
					o.Kind = "reread"
				case 9:
					o.Kind = []string{"query", "write", "check"}[gen.Pick(t, 3, "look")]
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: runC21, Quick: 6000, Deep: 150000,
	})
}

func runC10(c *Case, r *Rec) error {
	m := model(c.Font)
	labelFont(r, m)
	n := c.Ints[0]
	f, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	s, err := f.SubsetFirst(n)
	if n < 0 {
		r.Label("negative")
		if err == nil {
			return fmt.Errorf("SubsetFirst(%d) succeeds", n)
		}
		return nil
	}
	if err != nil && n < m.NumGlyphs && needsSharing(m, n) {
		r.Label("refused: does not fit without sharing")
		return nil
	}
	if err != nil {
		return fmt.Errorf("SubsetFirst(%d) of %d glyphs failed: %v", n, m.NumGlyphs, err)
	}
	if n >= m.NumGlyphs {
		r.Label("not smaller")
		twin, err := mustParse(c.Font)
		if err != nil {
			return err
		}
		if err := same(twin, s, m, c.Runes); err != nil {
			return fmt.Errorf("SubsetFirst(%d) of %d glyphs: %v", n, m.NumGlyphs, err)
		}
		return nil
	}
	want := m.First(n)
	cut := 0
	for i := range m.Cmaps {
		if m.Cmaps[i].Supported() {
			cut += len(m.Cmaps[i].Map) - len(want.Cmaps[i].Map)
		}
	}
	if cut > 0 {
		r.Label("map entries cut")
		r.Nontrivial()
	}
	for _, g := range m.Glyphs[n:] {
		if len(g) > 0 {
			r.Nontrivial()
		}
	}
	if m.NumHM > n {
		r.Label("metrics cut")
	}
	if err := inMemory(s, want, c.Runes); err != nil {
		return fmt.Errorf("SubsetFirst(%d), in memory: %v", n, err)
	}
	for g := 0; g < n; g++ {
		if g > 300 {
			break
		}
		o, l, err := s.GetGlyphDataOffset(gid(g))
		if err != nil || int(o) != m.Loca[g] || int(l) != m.Loca[g+1]-m.Loca[g] {
			return fmt.Errorf("SubsetFirst(%d): GetGlyphDataOffset(%d) = %d, %d, %v, source %d, %d", n, g, o, l, err, m.Loca[g], m.Loca[g+1]-m.Loca[g])
		}
	}
	got, _, err := writeAndDecode(s)
	if err != nil {
		return fmt.Errorf("SubsetFirst(%d): %v", n, err)
	}
	if err := want.Written().Diff(got, sfnt.All|sfnt.Minimal); err != nil {
		return fmt.Errorf("SubsetFirst(%d), written: %v", n, err)
	}
	return nil
}

func runC11(c *Case, r *Rec) error {
	m := model(c.Font)
	labelFont(r, m)
	f, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	req := gids(c.Ints)
	s, err := f.SubsetKeepIndices(req)
	if err != nil && needsSharing(m, m.NumGlyphs) {
		r.Label("refused: does not fit without sharing")
		return nil
	}
	if err != nil {
		return fmt.Errorf("SubsetKeepIndices(%v) failed: %v", c.Ints, err)
	}
	for i, g := range gids(c.Ints) {
		if req[i] != g {
			return fmt.Errorf("SubsetKeepIndices changes the list it is given")
		}
	}
	set := m.Closure(u16s(c.Ints))
	named := map[int]bool{}
	out := false
	for _, g := range c.Ints {
		named[g] = true
		out = out || g >= m.NumGlyphs
	}
	for g := range set {
		if !named[g] {
			r.Label("implied glyphs")
			r.Nontrivial()
		}
	}
	if out {
		r.Label("out of range")
	}
	if len(c.Ints) == 0 {
		r.Label("empty request")
	}
	got, _, err := writeAndDecode(s)
	if err != nil {
		return fmt.Errorf("SubsetKeepIndices(%v): %v", c.Ints, err)
	}
	n := sfnt.MaxKept(set)
	if out && got.NumGlyphs == m.NumGlyphs {
		n = m.NumGlyphs
	}
	want := m.Keep(set, n)
	if n < m.NumGlyphs {
		r.Label("ids above are gone")
	}
	if err := want.Written().Diff(got, sfnt.All|sfnt.Minimal); err != nil {
		return fmt.Errorf("SubsetKeepIndices(%v), written: %v", c.Ints, err)
	}
	if err := inMemory(s, want, c.Runes); err != nil {
		return fmt.Errorf("SubsetKeepIndices(%v), in memory: %v", c.Ints, err)
	}
	return nil
}

func runC12(c *Case, r *Rec) error {
	m := model(c.Font)
	labelFont(r, m)
	f, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	twin, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	in := append([]rune(nil), c.Runes...)
	s, err := f.SubsetKeepRunes(in)
	if err != nil && needsSharing(m, m.NumGlyphs) {
		r.Label("refused: does not fit without sharing")
		return nil
	}
	if err != nil {
		return fmt.Errorf("SubsetKeepRunes(%U) failed: %v", c.Runes, err)
	}
	for i := range in {
		if in[i] != c.Runes[i] {
			return fmt.Errorf("SubsetKeepRunes changes the runes it is given")
		}
	}
	lk := m.Lookup(c.Runes)
	set := m.Closure(lk)
	mapped := 0
	for _, g := range lk {
		if g != 0 {
			mapped++
		}
	}
	if mapped > 0 && len(set) < m.NumGlyphs {
		r.Nontrivial()
	}
	r.Label("%d runes with a glyph", min(mapped, 5))
	got, b, err := writeAndDecode(s)
	if err != nil {
		return fmt.Errorf("SubsetKeepRunes(%U): %v", c.Runes, err)
	}
	after := got.Lookup(c.Runes)
	for i := range lk {
		if lk[i] != after[i] {
			return fmt.Errorf("text %U: rune %d gives glyph %d in the written subset, %d in the source", c.Runes, i, after[i], lk[i])
		}
	}
	for g := range set {
		if g >= got.NumGlyphs {
			if len(c.Runes) == 0 {
				continue
			}
			return fmt.Errorf("text %U: glyph %d is gone (%d left)", c.Runes, g, got.NumGlyphs)
		}
		if !bytes.Equal(got.Glyphs[g], m.Glyphs[g]) {
			return fmt.Errorf("text %U: glyph %d has outline %x, source %x", c.Runes, g, got.Glyphs[g], m.Glyphs[g])
		}
		if got.Adv[g] != m.Adv[g] || got.LSB[g] != m.LSB[g] {
			return fmt.Errorf("text %U: glyph %d has advance %d bearing %d, source %d %d", c.Runes, g, got.Adv[g], got.LSB[g], m.Adv[g], m.LSB[g])
		}
	}
	for g := range got.Glyphs {
		if !set[g] && len(got.Glyphs[g]) > 0 {
			return fmt.Errorf("text %U: glyph %d is not needed, but kept", c.Runes, g)
		}
	}
	plain, err := mustWrite(twin)
	if err != nil {
		return err
	}
	shared := false
	for i := range m.Cmaps {
		shared = shared || m.Cmaps[i].Shared
	}
	if shared {
		r.Label("segments share glyph data")
		a, _ := sfnt.ReadDir(plain)
		z, _ := sfnt.ReadDir(b)
		for _, t := range []string{"glyf", "loca", "hmtx"} {
			x, _ := a.Table(t)
			y, _ := z.Table(t)
			if len(y) > len(x) {
				return fmt.Errorf("text %U: %s grows from %d to %d bytes", c.Runes, t, len(x), len(y))
			}
		}
	} else if len(b) > len(plain) {
		return fmt.Errorf("text %U: the subset has %d bytes, the whole font %d", c.Runes, len(b), len(plain))
	}
	return nil
}

type poolFont struct {
	f       *unitype.Font
	m       *sfnt.Model
	minimal bool
	derived bool
}

func (p *poolFont) check(runes []rune) error {
	if err := inMemory(p.f, p.m, runes); err != nil {
		return fmt.Errorf("in memory: %v", err)
	}
	got, _, err := writeAndDecode(p.f)
	if err != nil {
		return err
	}
	aspects := sfnt.All
	if p.minimal {
		aspects |= sfnt.Minimal
	}
	if err := p.m.Written().Diff(got, aspects); err != nil {
		return fmt.Errorf("written: %v", err)
	}
	return nil
}

func dangling(m *sfnt.Model, set map[int]bool) bool {
	for g := range set {
		cs, _ := sfnt.Components(m.Glyphs[g])
		for _, c := range cs {
			if int(c) >= m.NumGlyphs {
				return true
			}
		}
	}
	return false
}

func runC21(c *Case, r *Rec) error {
	m := model(c.Font)
	labelFont(r, m)
	f, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	pool := []*poolFont{{f: f, m: m}}
	onDerived := false
	for i, o := range c.Ops {
		p := pool[o.Font%len(pool)]
		onDerived = onDerived || p.derived
		r.Label("op %s", o.Kind)
		fail := func(err error) error {
			return fmt.Errorf("step %d, %s %v %U %q on font %d of the pool: %v", i, o.Kind, o.Ints, o.Runes, o.Strs, o.Font%len(pool), err)
		}
		switch o.Kind {
		case "first":
			n := o.Ints[0]
			s, err := p.f.SubsetFirst(n)
			if err != nil {
				return fail(err)
			}
			if n >= p.m.NumGlyphs {
				if err := same(p.f, s, p.m, c.Runes); err != nil {
					return fail(err)
				}
				break
			}
			pool = append(pool, &poolFont{s, p.m.First(n), true, true})
		case "keep", "runes":
			var req []uint16
			var s *unitype.Font
			if o.Kind == "keep" {
				for _, g := range o.Ints {
					req = append(req, uint16(g%p.m.NumGlyphs))
				}
				var gs []gid
				for _, g := range req {
					gs = append(gs, gid(g))
				}
				s, err = p.f.SubsetKeepIndices(gs)
			} else {
				req = p.m.Lookup(o.Runes)
				s, err = p.f.SubsetKeepRunes(o.Runes)
			}
			if err != nil {
				return fail(err)
			}
			set := p.m.Closure(req)
			n := sfnt.MaxKept(set)
			if dangling(p.m, set) {
				// A component that an earlier subset by count cut off: how many blank glyphs stay is open.
				r.Label("component cut off earlier")
				if _, _, err := s.GetGlyphDataOffset(gid(n)); err == nil {
					n = p.m.NumGlyphs
				}
			}
			pool = append(pool, &poolFont{s, p.m.Keep(set, n), true, true})
		case "prune":
			if err := p.f.PruneTables(o.Strs...); err != nil {
				return fail(err)
			}
			p.m = p.m.Prune(o.Strs...)
		case "optimize":
			if err := p.f.Optimize(); err != nil {
				return fail(err)
			}
			p.minimal = true
		case "reread":
			b, err := mustWrite(p.f)
			if err != nil {
				return fail(err)
			}
			g, err := parse(b)
			if err != nil {
				return fail(fmt.Errorf("written font does not parse: %v", err))
			}
			pool = append(pool, &poolFont{g, p.m.Written(), p.minimal, true})
		case "query":
			answers(p.f, p.m, c.Runes)
		case "write":
			if _, err := mustWrite(p.f); err != nil {
				return fail(err)
			}
		case "check":
			if err := p.check(c.Runes); err != nil {
				return fail(err)
			}
		}
	}
	r.Label("%d fonts in the pool", len(pool))
	if len(c.Ops) >= 3 && onDerived {
		r.Nontrivial()
	}
	for i, p := range pool {
		if err := p.check(c.Runes); err != nil {
			return fmt.Errorf("after %d steps, font %d of the pool: %v", len(c.Ops), i, err)
		}
	}
	return nil
}
