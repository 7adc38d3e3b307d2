package checks

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/verifharness/gen"
	"github.com/unidoc/unitype/verifharness/sfnt"
	"pgregory.net/rapid"
)

// C28: two ways of asking for the same thing give the same font. No model of what a subset is takes part in the
// decision: both sides come from the library, and are compared answer by answer and byte by byte.

func init() {
	register(&Prop{
		ID:   "C28",
		Rule: "a generated font, as it is or after 1-2 subsettings, prunings and optimisations, is asked for the same thing in different ways (a request shuffled, repeated, completed with the components; by character and by glyph; in one step and in several; in another order; before and after writing and reading it again); the fonts obtained must answer and write the same; non-trivial: a request that drops glyphs",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{MinGlyphs: 2, MaxGlyphs: []int{12, 12, 12, 40, 40, 300, 0}[gen.Pick(t, 7, "size")], NeedCmap: gen.Pct(t, 85, "cmap"), NeedPost: gen.Pct(t, 50, "post"), Composite: []int{0, 40}[gen.Pick(t, 2, "composite")], NoHuge: gen.Pct(t, 98, "noHuge")})
			m := model(fi.Data)
			n := m.NumGlyphs
			return &Case{Font: fi.Data, Ops: drawOps(t, m, 2), Runes: drawRunes(t, m, 8, "rune"),
				Ints: append([]int{drawN(t, n, "n"), drawN(t, n, "m"), gen.Pick(t, 1<<16, "shuffle")}, drawGids(t, n, 8, true, "keep")...),
				Strs: drawPrune(t)}
		},
		Run: runC28, Quick: 4000, Deep: 100000,
	})
}

// law is a pair of ways from a font to a font.
type law struct {
	name string
	a, b []Op
}

func runC28(c *Case, r *Rec) error {
	m := model(c.Font)
	labelFont(r, m)
	if needsSharing(m, m.NumGlyphs) {
		r.Label("set aside: a map that needs shared arrays")
		return nil
	}
	// The font the laws are about.
	f, err := replayOps(c.Font, c.Ops)
	if err != nil {
		return err
	}
	r.Label("%d steps before", len(c.Ops))
	base, err := mustWrite(f)
	if err != nil {
		return err
	}
	bm, err := written(base)
	if err != nil {
		return err
	}
	count := bm.NumGlyphs
	n, k := c.Ints[0], c.Ints[1]
	pr := gen.PRNG(c.Ints[2])
	req := c.Ints[3:]
	mixed := append([]int(nil), req...)
	if len(req) > 0 {
		for i := pr.N(3); i > 0; i-- {
			mixed = append(mixed, req[pr.N(len(req))])
		}
	}
	shuffle(&pr, len(mixed), func(i, j int) { mixed[i], mixed[j] = mixed[j], mixed[i] })
	runes := append([]rune(nil), c.Runes...)
	if len(runes) > 0 {
		for i := pr.N(3); i > 0; i-- {
			runes = append(runes, c.Runes[pr.N(len(c.Runes))])
		}
	}
	shuffle(&pr, len(runes), func(i, j int) { runes[i], runes[j] = runes[j], runes[i] })
	var byGlyph []int
	for _, g := range f.LookupRunes(c.Runes) {
		byGlyph = append(byGlyph, int(g))
	}
	set := bm.Closure(u16s(req))
	gone := dangling(bm, set) // after SubsetFirst: a component is missing, and is asked for with its composite
	for _, g := range req {   // asked for, if only to keep the count
		set[g] = true
	}
	var all, part []int
	for g := range set {
		all = append(all, g)
	}
	sort.Ints(all)
	for _, g := range all {
		if pr.N(2) == 0 {
			part = append(part, g)
		}
	}
	if len(part) == 0 && len(all) > 0 {
		part = all[:1]
	}
	top := sfnt.MaxKept(set)
	if gone {
		top = count
		r.Label("components gone")
	}
	if top < count || n < count {
		r.Nontrivial()
	}
	if len(all) > len(req) {
		r.Label("components come along")
	}
	first := func(n int) Op { return Op{Kind: "first", Ints: []int{n}} }
	keep := func(g []int) Op { return Op{Kind: "keep", Ints: g} }
	byRunes := func(rs []rune) Op { return Op{Kind: "runes", Runes: rs} }
	prune := Op{Kind: "prune", Strs: c.Strs}
	optimize := Op{Kind: "optimize"}
	reread := Op{Kind: "reread"}
	ops := func(o ...Op) []Op { return o }
	var single []Op
	for i := range c.Strs {
		single = append(single, Op{Kind: "prune", Strs: c.Strs[len(c.Strs)-1-i:][:1]})
	}
	laws := []law{
		{"the glyphs in another order and repeated", ops(keep(req)), ops(keep(mixed))},
		{"the glyphs with all their components", ops(keep(req)), ops(keep(all))},
		{"the characters in another order and repeated", ops(byRunes(c.Runes)), ops(byRunes(runes))},
		{"the characters, or their glyphs", ops(byRunes(c.Runes)), ops(keep(byGlyph))},
		{"the same glyphs twice", ops(keep(req)), ops(keep(req), keep(req))},
		{"the same characters twice", ops(byRunes(c.Runes)), ops(byRunes(c.Runes), byRunes(c.Runes))},
		{"the first glyphs in one step or two", ops(first(min(n, k))), ops(first(n), first(k))},
		{"the first glyphs in one step or two", ops(first(min(n, k))), ops(first(k), first(n))},
		{"glyphs, or glyphs of the first ones", ops(keep(req)), ops(first(top), keep(req))},
		{"glyphs, or the first ones of these", ops(keep(req)), ops(keep(req), first(top))},
		{"some of the glyphs kept", ops(keep(part)), ops(keep(req), keep(part))},
		{"pruning before or after", ops(prune, keep(req)), ops(keep(req), prune)},
		{"pruning before or after", ops(prune, first(n)), ops(first(n), prune)},
		{"pruning at once or one by one", ops(prune), single},
		{"pruning twice", ops(prune), ops(prune, prune)},
		{"optimising before or after", ops(optimize, keep(req)), ops(keep(req), optimize)},
		{"optimising before or after", ops(optimize, first(n)), ops(first(n), optimize)},
		{"optimising twice", ops(optimize), ops(optimize, optimize)},
		{"optimising and pruning", ops(optimize, prune), ops(prune, optimize)},
		{"reading it again before or after", ops(reread, keep(req)), ops(keep(req), reread)},
		{"reading it again before or after", ops(reread, first(n)), ops(first(n), reread)},
		{"reading it again before or after", ops(reread, byRunes(c.Runes)), ops(byRunes(c.Runes), reread)},
		{"reading it again before or after", ops(reread, prune), ops(prune, reread)},
		{"reading it again before or after", ops(reread, optimize), ops(optimize, reread)},
		{"reading it again", ops(keep(req)), ops(reread, keep(req))},
		{"reading it again", ops(first(n)), ops(reread, first(n))},
	}
	for left := 8; left > 0; left-- {
		i := pr.N(len(laws))
		l := laws[i]
		laws = append(laws[:i], laws[i+1:]...)
		r.Label("%s", l.name)
		if err := l.check(c, bm); err != nil {
			return fmt.Errorf("%s: %v", l.name, err)
		}
	}
	return nil
}

func (l law) check(c *Case, m *sfnt.Model) error {
	x, err := way(c, l.a)
	if err != nil {
		return err
	}
	y, err := way(c, l.b)
	if err != nil {
		return err
	}
	a, err := mustWrite(x)
	if err != nil {
		return fmt.Errorf("%s: %v", describe(l.a), err)
	}
	b, err := mustWrite(y)
	if err != nil {
		return fmt.Errorf("%s: %v", describe(l.b), err)
	}
	if !bytes.Equal(a, b) {
		return fmt.Errorf("%s and %s give different files (%s)", describe(l.a), describe(l.b), firstDiff(a, b))
	}
	for _, o := range append(append([]Op(nil), l.a...), l.b...) {
		if o.Kind == "reread" {
			return nil // what it remembers of its source differs
		}
	}
	if err := diffAnswers(answers(x, m, c.Runes), answers(y, m, c.Runes)); err != nil {
		return fmt.Errorf("%s and %s give different fonts: %v", describe(l.a), describe(l.b), err)
	}
	return nil
}

// way leads from the font of the case to another.
func way(c *Case, ops []Op) (*unitype.Font, error) {
	f, err := replayOps(c.Font, c.Ops)
	if err != nil {
		return nil, err
	}
	for _, o := range ops {
		if o.Kind == "reread" {
			b, err := mustWrite(f)
			if err != nil {
				return nil, err
			}
			if f, err = mustParse(b); err != nil {
				return nil, err
			}
			continue
		}
		if f, err = applyOp(f, o); err != nil {
			return nil, fmt.Errorf("%s: %v", describe(ops), err)
		}
	}
	return f, nil
}

func shuffle(p *gen.PRNG, n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, p.N(i+1))
	}
}
