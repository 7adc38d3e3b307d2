package checks

import (
	"bytes"
	"fmt"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/verifharness/gen"
	"github.com/unidoc/unitype/verifharness/sfnt"
	"pgregory.net/rapid"
)

// drawOps draws a short derivation: subsettings, prunings, optimisations.
func drawOps(t *rapid.T, m *sfnt.Model, max int) []Op {
	var ops []Op
	for k := gen.Pick(t, max+1, "ops"); k > 0; k-- {
		switch gen.Pick(t, 5, "op") {
		case 0:
			ops = append(ops, Op{Kind: "first", Ints: []int{drawN(t, m.NumGlyphs, "first")}})
		case 1:
			ops = append(ops, Op{Kind: "keep", Ints: drawGids(t, m.NumGlyphs, 6, true, "keep")})
		case 2:
			ops = append(ops, Op{Kind: "runes", Runes: drawRunes(t, m, 6, "runes")})
		case 3:
			ops = append(ops, Op{Kind: "prune", Strs: drawPrune(t)})
		case 4:
			ops = append(ops, Op{Kind: "optimize"})
		}
	}
	return ops
}

func drawPrune(t *rapid.T) []string {
	pool := []string{"cmap", "post", "name", "glyf", "OS/2", "", "Cmap", "head", "cmap ", "names"}
	var out []string
	k := gen.Pick(t, 4, "pruneN")
	if gen.Pct(t, 15, "pruneMany") {
		k += gen.Pick(t, 12, "pruneManyN")
	}
	for ; k > 0; k-- {
		i := gen.Pick(t, 6, "prune")
		if i > 2 {
			i = 3 + gen.Pick(t, len(pool)-3, "pruneOther")
		}
		out = append(out, pool[i])
	}
	return out
}

// applyOp applies an operation; a derivation gives a new font.
func applyOp(f *unitype.Font, o Op) (*unitype.Font, error) {
	switch o.Kind {
	case "first":
		return f.SubsetFirst(o.Ints[0])
	case "keep":
		return f.SubsetKeepIndices(gids(o.Ints))
	case "runes":
		return f.SubsetKeepRunes(o.Runes)
	case "prune":
		return f, f.PruneTables(o.Strs...)
	case "optimize":
		return f, f.Optimize()
	}
	panic("harness: unknown operation " + o.Kind)
}

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "a generated well-formed font and a random derivation (0-3 subsettings, prunings, optimisations) is written and the bytes are judged by an independent container checker; non-trivial: at least one derivation step, or a table whose size is not a multiple of 4",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{Giga: true})
			return &Case{Font: fi.Data, Ops: drawOps(t, model(fi.Data), 3)}
		},
		Run: func(c *Case, r *Rec) error {
			f, err := mustParse(c.Font)
			if err != nil {
				return err
			}
			labelFont(r, model(c.Font))
			for _, o := range c.Ops {
				r.Label("op %s", o.Kind)
				if f, err = applyOp(f, o); err != nil {
					return fmt.Errorf("%s failed: %v", o.Kind, err)
				}
			}
			b, err := mustWrite(f)
			if err != nil {
				return err
			}
			sf, err := sfnt.ReadDir(b)
			if err != nil {
				return fmt.Errorf("written file: %v", err)
			}
			if err := sf.WellFormed(); err != nil {
				return fmt.Errorf("written file: %v", err)
			}
			odd := false
			for _, e := range sf.Dir {
				odd = odd || e.Length%4 != 0
			}
			if len(c.Ops) > 0 || odd {
				r.Nontrivial()
			}
			if odd {
				r.Label("table size not a multiple of 4")
			}
			r.Label("%d tables", len(sf.Dir))
			if _, err := parse(b); err != nil {
				return fmt.Errorf("written file does not parse again: %v", err)
			}
			if err := unitype.ValidateBytes(b); err != nil {
				return fmt.Errorf("written file does not validate: %v", err)
			}
			return nil
		},
		Quick: 4000, Deep: 120000,
	})

	register(&Prop{
		ID:   "C02",
		Rule: "a generated well-formed font is parsed and written and head, hhea, maxp, OS/2, post, cvt, fpgm, prep and the version tag are compared byte-wise with the source by an independent decoder; non-trivial: the font has at least two of the optional tables OS/2, post, cvt, fpgm, prep",
		Gen: func(t *rapid.T) *Case {
			return &Case{Font: gen.Font(t, gen.Opts{Tiny: true, Giga: true}).Data}
		},
		Run: func(c *Case, r *Rec) error {
			m := model(c.Font)
			labelFont(r, m)
			k := 0
			for _, x := range [][]byte{m.OS2, m.Post, m.Cvt, m.Fpgm, m.Prep} {
				if x != nil {
					k++
				}
			}
			if k >= 2 {
				r.Nontrivial()
			}
			f, err := mustParse(c.Font)
			if err != nil {
				return err
			}
			got, b, err := writeAndDecode(f)
			if err != nil {
				return err
			}
			sf, _ := sfnt.ReadDir(b)
			src, _ := sfnt.ReadDir(c.Font)
			for _, tag := range sf.Tags() {
				if !src.Has(tag) {
					return fmt.Errorf("the written font has a table %q its source does not have", tag)
				}
			}
			return m.Diff(got, sfnt.Globals)
		},
		Quick: 6000, Deep: 150000,
	})

	register(&Prop{
		ID:   "C03",
		Rule: "a generated well-formed font is parsed and written; glyph data of every glyph is located through the written loca table by an independent decoder and compared, and GetGlyphDataOffset is compared with the source's loca table for every glyph id and for ids out of range; non-trivial: at least two glyphs with and one without outline, or the first glyph not at offset 0",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{Giga: true, Tiny: gen.Pct(t, 40, "tiny"), NoUnsupported: gen.Pct(t, 50, "sup")})
			return &Case{Font: fi.Data}
		},
		Run: func(c *Case, r *Rec) error {
			m := model(c.Font)
			labelFont(r, m)
			full := 0
			for _, g := range m.Glyphs {
				if len(g) > 0 {
					full++
				}
				if len(g) > 65536 {
					r.Label("glyph above 64 KiB")
				}
			}
			if full >= 2 && full < m.NumGlyphs || m.Loca[0] != 0 {
				r.Nontrivial()
			}
			f, err := mustParse(c.Font)
			if err != nil {
				return err
			}
			offsets := func(f *unitype.Font, m *sfnt.Model, what string) error {
				for g := 0; g < m.NumGlyphs; g++ {
					o, l, err := f.GetGlyphDataOffset(gid(g))
					if err != nil || int(o) != m.Loca[g] || int(l) != m.Loca[g+1]-m.Loca[g] {
						return fmt.Errorf("%s: GetGlyphDataOffset(%d) = %d, %d, %v, loca says %d, %d", what, g, o, l, err, m.Loca[g], m.Loca[g+1]-m.Loca[g])
					}
				}
				for _, g := range []int{m.NumGlyphs, m.NumGlyphs + 1, m.NumGlyphs + 256, 65535} {
					if g > 65535 {
						continue
					}
					if o, l, err := f.GetGlyphDataOffset(gid(g)); err == nil {
						return fmt.Errorf("%s: GetGlyphDataOffset(%d) = %d, %d without error in a font of %d glyphs", what, g, o, l, m.NumGlyphs)
					}
				}
				return nil
			}
			if err := offsets(f, m, "source"); err != nil {
				return err
			}
			got, b, err := writeAndDecode(f)
			if err != nil {
				return err
			}
			if err := m.Diff(got, sfnt.Outlines); err != nil {
				return err
			}
			f2, err := parse(b)
			if err != nil {
				return fmt.Errorf("written file does not parse again: %v", err)
			}
			return offsets(f2, got, "written")
		},
		Quick: 6000, Deep: 150000,
	})

	register(&Prop{
		ID:   "C04",
		Rule: "advance and bearing of every glyph, decoded independently, are compared before and after a plain write, an optimisation (also repeated) and a random subsetting; non-trivial: the source has redundant trailing full entries, or extra bearings, or the subset cuts glyphs",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{NoUnsupported: true, NoHuge: gen.Pct(t, 95, "noHuge")})
			m := model(fi.Data)
			c := &Case{Font: fi.Data, Ops: []Op{{Kind: "first", Ints: []int{drawN(t, m.NumGlyphs, "first")}},
				{Kind: "keep", Ints: drawGids(t, m.NumGlyphs, 6, true, "keep")}}}
			if gen.Pct(t, 30, "optFirst") {
				c.Ints = []int{1}
			}
			return c
		},
		Run: runC04, Quick: 5000, Deep: 120000,
	})

	register(&Prop{
		ID:   "C09",
		Rule: "a generated font with a naming table (formats 0 and 1, shared, overlapping, reordered strings, gaps) is parsed and written; records, language tags and name queries are compared; non-trivial: at least two records, of which one non-empty",
		Gen: func(t *rapid.T) *Case {
			return &Case{Font: gen.Font(t, gen.Opts{NeedName: true, MinGlyphs: 1, MaxGlyphs: 6}).Data}
		},
		Run: func(c *Case, r *Rec) error {
			m := model(c.Font)
			labelNames(r, m)
			f, err := mustParse(c.Font)
			if err != nil {
				return err
			}
			b, err := write(f)
			if err != nil {
				// 16-bit offsets cannot express more distinct text than that (stored in order, each string once).
				if lastNameOffset(m) > 65535 {
					r.Label("not expressible")
					return nil
				}
				return fmt.Errorf("writing failed: %v", err)
			}
			got, err := written(b)
			if err != nil {
				return err
			}
			if err := m.Diff(got, sfnt.Names); err != nil {
				return err
			}
			f2, err := parse(b)
			if err != nil {
				return fmt.Errorf("written file does not parse again: %v", err)
			}
			for _, x := range nameIDs(m) {
				if a, b := f.GetNameByID(x), f2.GetNameByID(x); a != b {
					return fmt.Errorf("GetNameByID(%d): %q in the source, %q in the written font", x, a, b)
				}
			}
			if a, b := namesString(f.GetNameRecords()), namesString(f2.GetNameRecords()); a != b {
				return fmt.Errorf("GetNameRecords: source\n%s\nwritten\n%s", a, b)
			}
			return nil
		},
		Quick: 6000, Deep: 150000,
	})

	register(&Prop{
		ID:   "C19",
		Rule: "a generated font is pruned with random lists of names (in one or several calls, possibly after a subsetting or optimisation); the written file is compared table by table with that of an unpruned twin, and the queries with those of a font without the tables; non-trivial: at least one existing table is pruned",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{MinGlyphs: 2, MaxGlyphs: 20})
			m := model(fi.Data)
			var ops []Op
			if gen.Pct(t, 40, "pre") {
				for _, o := range drawOps(t, m, 2) {
					if o.Kind != "prune" {
						ops = append(ops, o)
					}
				}
			}
			for k := 1 + gen.Pick(t, 3, "prunes"); k > 0; k-- {
				ops = append(ops, Op{Kind: "prune", Strs: drawPrune(t)})
			}
			return &Case{Font: fi.Data, Ops: ops, Runes: drawRunes(t, m, 4, "lookup")}
		},
		Run: runC19, Quick: 6000, Deep: 150000,
	})
}

func labelNames(r *Rec, m *sfnt.Model) {
	some := false
	for _, n := range m.Names {
		some = some || len(n.Data) > 0
		r.Label("name platform %d encoding %d", n.Plat, n.Enc)
	}
	if len(m.Names) >= 2 && some {
		r.Nontrivial()
	}
	r.Label("name format %d", m.NameFormat)
	if len(m.LangTags) > 0 {
		r.Label("language tags")
	}
	if lastNameOffset(m) > 20000 {
		r.Label("huge names")
	}
}

// lastNameOffset is the largest offset at which a string begins when each is stored once, in order.
func lastNameOffset(m *sfnt.Model) int {
	seen := map[string]bool{}
	n, last := 0, 0
	add := func(b []byte) {
		if !seen[string(b)] {
			seen[string(b)] = true
			last = n
			n += len(b)
		}
	}
	for _, x := range m.Names {
		add(x.Data)
	}
	for _, x := range m.LangTags {
		add(x)
	}
	return last
}

func runC04(c *Case, r *Rec) error {
	m := model(c.Font)
	labelFont(r, m)
	if m.MinHM() < m.NumHM {
		r.Label("redundant metrics")
		r.Nontrivial()
	}
	if m.NumHM < m.NumGlyphs {
		r.Label("extra bearings")
		r.Nontrivial()
	}
	f, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	got, plain, err := writeAndDecode(f)
	if err != nil {
		return err
	}
	if err := m.Diff(got, sfnt.Metrics); err != nil {
		return fmt.Errorf("plain write: %v", err)
	}
	if got.NumHM > m.NumHM {
		return fmt.Errorf("plain write: %d full metrics, source %d", got.NumHM, m.NumHM)
	}
	opt := func() (*unitype.Font, error) {
		g, err := mustParse(c.Font)
		if err != nil {
			return nil, err
		}
		if err := g.Optimize(); err != nil {
			return nil, fmt.Errorf("optimize: %v", err)
		}
		return g, nil
	}
	g, err := opt()
	if err != nil {
		return err
	}
	got, b1, err := writeAndDecode(g)
	if err != nil {
		return err
	}
	if err := m.Diff(got, sfnt.Metrics|sfnt.Minimal); err != nil {
		return fmt.Errorf("optimize: %v", err)
	}
	if got.NumHM > m.NumHM || len(b1) > len(plain) {
		return fmt.Errorf("optimize: %d full metrics and %d bytes, before %d and %d", got.NumHM, len(b1), m.NumHM, len(plain))
	}
	if err := g.Optimize(); err != nil {
		return fmt.Errorf("second optimize: %v", err)
	}
	b2, err := mustWrite(g)
	if err != nil {
		return err
	}
	if !bytes.Equal(b1, b2) {
		return fmt.Errorf("optimizing again changes the font")
	}
	for _, o := range c.Ops {
		src := f
		if len(c.Ints) > 0 {
			if src, err = opt(); err != nil {
				return err
			}
			r.Label("optimised, then subset")
		}
		s, err := applyOp(src, o)
		if err != nil {
			return fmt.Errorf("%s failed: %v", o.Kind, err)
		}
		got, _, err := writeAndDecode(s)
		if err != nil {
			return fmt.Errorf("%s: %v", o.Kind, err)
		}
		if got.NumGlyphs > m.NumGlyphs {
			return fmt.Errorf("%s: %d glyphs, source %d", o.Kind, got.NumGlyphs, m.NumGlyphs)
		}
		if got.NumGlyphs < m.NumGlyphs {
			r.Label("subset %s cuts", o.Kind)
			r.Nontrivial()
		}
		for i := 0; i < got.NumGlyphs; i++ {
			if got.Adv[i] != m.Adv[i] || got.LSB[i] != m.LSB[i] {
				return fmt.Errorf("%s %v: glyph %d: advance %d bearing %d, source %d %d", o.Kind, o.Ints, i, got.Adv[i], got.LSB[i], m.Adv[i], m.LSB[i])
			}
		}
		if o.Kind == "first" && o.Ints[0] >= m.NumGlyphs {
			continue
		}
		if got.NumHM != got.MinHM() {
			return fmt.Errorf("%s %v: %d full metric entries where %d suffice", o.Kind, o.Ints, got.NumHM, got.MinHM())
		}
		if got.NumHM > m.NumHM {
			return fmt.Errorf("%s: %d full metrics, source %d", o.Kind, got.NumHM, m.NumHM)
		}
	}
	return nil
}

func runC19(c *Case, r *Rec) error {
	m := model(c.Font)
	f, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	twin, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	cut := map[string]bool{}
	for _, o := range c.Ops {
		if f, err = applyOp(f, o); err != nil {
			return fmt.Errorf("%s failed: %v", o.Kind, err)
		}
		if o.Kind != "prune" {
			if twin, err = applyOp(twin, o); err != nil {
				return fmt.Errorf("%s failed: %v", o.Kind, err)
			}
			r.Label("after %s", o.Kind)
			continue
		}
		for _, s := range o.Strs {
			if s == "cmap" || s == "post" || s == "name" {
				cut[s] = true
			} else {
				r.Label("other name pruned")
			}
		}
	}
	b, err := mustWrite(f)
	if err != nil {
		return err
	}
	tb, err := mustWrite(twin)
	if err != nil {
		return err
	}
	sf, err := sfnt.ReadDir(b)
	if err != nil {
		return err
	}
	st, err := sfnt.ReadDir(tb)
	if err != nil {
		return err
	}
	var want []string
	for _, tag := range st.Tags() {
		if cut[tag] {
			r.Nontrivial()
			r.Label("pruned %s", tag)
			continue
		}
		want = append(want, tag)
	}
	if fmt.Sprint(want) != fmt.Sprint(sf.Tags()) {
		return fmt.Errorf("tables after pruning %v: %q, want %q", cut, sf.Tags(), want)
	}
	for _, tag := range want {
		a, _ := st.Table(tag)
		b, _ := sf.Table(tag)
		if tag == "head" && len(a) >= 12 && len(b) >= 12 {
			a, b = append([]byte(nil), a...), append([]byte(nil), b...)
			copy(a[8:12], "0000")
			copy(b[8:12], "0000")
		}
		if !bytes.Equal(a, b) {
			return fmt.Errorf("table %q differs after pruning %v: %x, unpruned %x", tag, cut, b, a)
		}
	}
	for _, k := range cmapKeys(m) {
		got := f.GetCmap(k[0], k[1])
		if cut["cmap"] && len(got) != 0 {
			return fmt.Errorf("GetCmap(%d,%d) gives a map after cmap was pruned", k[0], k[1])
		}
		if w := twin.GetCmap(k[0], k[1]); !cut["cmap"] && mapString(w) != mapString(got) {
			return fmt.Errorf("GetCmap(%d,%d) changed by pruning %v", k[0], k[1], cut)
		}
	}
	lk := f.LookupRunes(c.Runes)
	if len(lk) != len(c.Runes) {
		return fmt.Errorf("%d glyphs for %d runes", len(lk), len(c.Runes))
	}
	for i, g := range lk {
		if cut["cmap"] && g != 0 {
			return fmt.Errorf("rune %U gives glyph %d after cmap was pruned", c.Runes[i], g)
		}
	}
	if !cut["cmap"] && fmt.Sprint(lk) != fmt.Sprint(twin.LookupRunes(c.Runes)) {
		return fmt.Errorf("LookupRunes changed by pruning %v", cut)
	}
	for _, id := range nameIDs(m) {
		got, w := f.GetNameByID(id), twin.GetNameByID(id)
		if cut["name"] {
			w = ""
		}
		if got != w {
			return fmt.Errorf("GetNameByID(%d) = %q, want %q", id, got, w)
		}
	}
	recs := f.GetNameRecords()
	if cut["name"] && len(recs) != 0 {
		return fmt.Errorf("GetNameRecords = %v after name was pruned", recs)
	}
	if !cut["name"] && namesString(recs) != namesString(twin.GetNameRecords()) {
		return fmt.Errorf("GetNameRecords changed by pruning %v", cut)
	}
	for _, tbl := range []string{"cmap", "post", "name"} {
		if cut[tbl] {
			if s := f.TableInfo(tbl); s != tbl+": missing\n" {
				return fmt.Errorf("TableInfo(%s) after pruning it = %q", tbl, clip(s))
			}
		} else if tbl == "cmap" && f.TableInfo(tbl) != twin.TableInfo(tbl) {
			return fmt.Errorf("TableInfo(%s) changed by pruning %v", tbl, cut)
		}
	}
	// Pruning what is gone is accepted, too.
	if err := f.PruneTables("name", "post", "cmap", "cmap"); err != nil {
		return fmt.Errorf("pruning again failed: %v", err)
	}
	return nil
}
