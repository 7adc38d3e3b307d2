package checks

import (
	"bytes"
	"fmt"
	"os"
	"slices"
	"sync"

	"github.com/sirupsen/logrus"
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/verifharness/gen"
	"github.com/unidoc/unitype/verifharness/sfnt"
	"pgregory.net/rapid"
)

// snapshot is everything observable of a font.
type snapshot struct {
	ans   []string
	bytes []byte
}

func snap(f *unitype.Font, m *sfnt.Model, runes []rune) (s snapshot, err error) {
	s.ans = answers(f, m, runes)
	s.bytes, err = mustWrite(f)
	return s, err
}

func (s snapshot) diff(o snapshot) error {
	if err := diffAnswers(s.ans, o.ans); err != nil {
		return err
	}
	if !bytes.Equal(s.bytes, o.bytes) {
		return fmt.Errorf("the written bytes differ (%s)", firstDiff(s.bytes, o.bytes))
	}
	return nil
}

func firstDiff(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("at byte %d: %#x, then %#x; %d and %d bytes", i, a[i], b[i], len(a), len(b))
		}
	}
	return fmt.Sprintf("%d and %d bytes", len(a), len(b))
}

// replayOps applies operations to a fresh parse.
func replayOps(data []byte, ops []Op) (*unitype.Font, error) {
	f, err := mustParse(data)
	if err != nil {
		return nil, err
	}
	for _, o := range ops {
		if f, err = applyOp(f, o); err != nil {
			return nil, fmt.Errorf("%s failed: %v", o.Kind, err)
		}
	}
	return f, nil
}

// drawHistory draws operations over a pool of fonts.
func drawHistory(t *rapid.T, m *sfnt.Model, max int) []Op {
	var ops []Op
	fonts := 5
	if max >= 8 && gen.Pct(t, 4, "long") {
		max, fonts = 40, 16
	}
	for k := 1 + gen.Pick(t, max, "len"); k > 0; k-- {
		o := Op{Font: gen.Pick(t, fonts, "which")}
		switch gen.Pick(t, 12, "op") {
		case 0, 1:
			o.Kind, o.Ints = "first", []int{drawN(t, m.NumGlyphs, "first")}
			if max > 8 && gen.Pct(t, 70, "little") && m.NumGlyphs > len(ops)/3+1 { // little by little
				o.Ints[0] = m.NumGlyphs - 1 - len(ops)/3
			}
		case 2, 3:
			o.Kind, o.Ints = "keep", drawGids(t, m.NumGlyphs, 6, true, "keep")
		case 4, 5:
			o.Kind, o.Runes = "runes", drawRunes(t, m, 6, "runes")
		case 6, 7:
			o.Kind, o.Strs = "prune", drawPrune(t)
		case 8, 9:
			o.Kind = "optimize"
		case 10:
			o.Kind = "write"
		case 11:
			o.Kind = "query"
		}
		ops = append(ops, o)
	}
	return ops
}

func init() {
	register(&Prop{
		ID:   "C13",
		Rule: "histories of 1-8 (4 %: up to 40) subsettings, prunings, optimisations, writes and queries over a font and the fonts derived from it; after every step or only at the end, every font must answer and write exactly as one made by its own operations alone from a fresh parse; non-trivial: a font is derived and afterwards it or its source is operated on",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{MinGlyphs: 2, MaxGlyphs: []int{12, 30, 300}[gen.Pick(t, 3, "size")], NeedCmap: gen.Pct(t, 85, "cmap"), NeedPost: gen.Pct(t, 50, "post"), NeedName: gen.Pct(t, 50, "name"), NoHuge: true})
			m := model(fi.Data)
			return &Case{Font: fi.Data, Ops: drawHistory(t, m, 8), Runes: drawRunes(t, m, 6, "query"), Ints: []int{gen.Pick(t, 2, "everyStep")}}
		},
		Run: runC13, Quick: 4000, Deep: 100000,
	})

	register(&Prop{
		ID:   "C20",
		Rule: "a random operation sequence is run repeatedly, with the log level at trace, and concurrently with sequences on other fonts (among them the source of a subset and the subset) and with reads, subsettings and writes of the same font; answers and bytes must be the same, and parse-then-write must reproduce written bytes; non-trivial: at least two operations or a concurrent run",
		Gen: func(t *rapid.T) *Case {
			race := os.Getenv("VP_RACE") != ""
			fi := gen.Font(t, gen.Opts{MinGlyphs: 2, NeedCmap: gen.Pct(t, 85, "cmap"), NeedPost: gen.Pct(t, 50, "post"), NoHuge: race || gen.Pct(t, 80, "noHuge")})
			m := model(fi.Data)
			c := &Case{Font: fi.Data, Runes: drawRunes(t, m, 6, "query")}
			for _, o := range drawHistory(t, m, 4) {
				if o.Kind != "write" && o.Kind != "query" {
					c.Ops = append(c.Ops, o)
				}
			}
			mode := []int{0, 0, 0, 1, 2, 2}[gen.Pick(t, 6, "mode")]
			if race {
				mode = 2
			}
			c.Ints = []int{mode}
			if mode == 2 && gen.Pct(t, 50, "other") {
				c.More = [][]byte{gen.Font(t, gen.Opts{MinGlyphs: 2, NoHuge: true, Small: true}).Data}
			}
			return c
		},
		Run: runC20, Quick: 4000, Deep: 100000,
		Fixed: func() []*Case {
			out := realFonts()
			for _, c := range out {
				c.Ops = []Op{{Kind: "runes", Runes: []rune("Hello äöü ½")}}
				c.Runes = []rune("Hé")
				c.Ints = []int{0}
			}
			return out
		},
	})
}

func runC13(c *Case, r *Rec) error {
	m := model(c.Font)
	labelFont(r, m)
	type entry struct {
		f       *unitype.Font
		lineage []Op
		want    snapshot
	}
	fresh := func(lineage []Op) (snapshot, error) {
		g, err := replayOps(c.Font, lineage)
		if err != nil {
			return snapshot{}, err
		}
		return snap(g, m, c.Runes)
	}
	f, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	want, err := fresh(nil)
	if err != nil {
		return err
	}
	pool := []*entry{{f, nil, want}}
	check := func(what string) error {
		for i, e := range pool {
			got, err := snap(e.f, m, c.Runes)
			if err == nil {
				err = e.want.diff(got)
			}
			if err != nil {
				return fmt.Errorf("%s: font %d of the pool, made by %s, is not as made from a fresh parse: %v", what, i, describe(e.lineage), err)
			}
		}
		return nil
	}
	for i, o := range c.Ops {
		e := pool[o.Font%len(pool)]
		r.Label("op %s", o.Kind)
		if len(pool) > 1 {
			r.Nontrivial()
		}
		what := fmt.Sprintf("step %d (%s on font %d)", i, o.Kind, o.Font%len(pool))
		switch o.Kind {
		case "write":
			if _, err := mustWrite(e.f); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		case "query":
			answers(e.f, m, c.Runes)
		default:
			g, err := applyOp(e.f, o)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			lineage := append(append([]Op(nil), e.lineage...), o)
			want, err := fresh(lineage)
			if err != nil {
				return fmt.Errorf("%s, on a fresh parse: %v", what, err)
			}
			switch {
			case o.Kind == "prune" || o.Kind == "optimize":
				e.lineage, e.want = lineage, want
			case g != e.f: // a proper subset
				pool = append(pool, &entry{g, lineage, want})
			}
		}
		if c.Ints[0] == 0 {
			if err := check(what); err != nil {
				return err
			}
		}
	}
	r.Label("%d fonts in the pool", len(pool))
	return check("at the end")
}

func describe(ops []Op) string {
	if len(ops) == 0 {
		return "parsing"
	}
	s := ""
	for i, o := range ops {
		if i > 0 {
			s += ", "
		}
		s += fmt.Sprintf("%s%v%U%q", o.Kind, o.Ints, o.Runes, o.Strs)
	}
	return s
}

func runC20(c *Case, r *Rec) error {
	m := model(c.Font)
	labelFont(r, m)
	if len(c.Ops) >= 2 {
		r.Nontrivial()
	}
	run := func() (*unitype.Font, snapshot, error) {
		f, err := replayOps(c.Font, c.Ops)
		if err != nil {
			return nil, snapshot{}, err
		}
		s, err := snap(f, m, c.Runes)
		return f, s, err
	}
	f, first, err := run()
	if err != nil {
		return err
	}
	again, err := mustWrite(f)
	if err != nil {
		return err
	}
	if !bytes.Equal(again, first.bytes) {
		return fmt.Errorf("writing twice gives different bytes (%s)", firstDiff(first.bytes, again))
	}
	p, err := parse(first.bytes)
	if err != nil {
		return fmt.Errorf("written font does not parse: %v", err)
	}
	if again, err = mustWrite(p); err != nil {
		return err
	}
	if !bytes.Equal(again, first.bytes) {
		return fmt.Errorf("write, parse, write does not reproduce the bytes (%s)", firstDiff(first.bytes, again))
	}
	for i := 0; i < 2; i++ {
		_, s, err := run()
		if err != nil {
			return err
		}
		if err := first.diff(s); err != nil {
			return fmt.Errorf("run %d differs from the first: %v", i+2, err)
		}
	}
	switch c.Ints[0] {
	case 1:
		r.Label("log level")
		for _, lv := range []logrus.Level{logrus.TraceLevel, logrus.DebugLevel, logrus.PanicLevel} {
			old := logrus.GetLevel()
			logrus.SetLevel(lv)
			_, s, err := run()
			logrus.SetLevel(old)
			if err != nil {
				return fmt.Errorf("with log level %v: %v", lv, err)
			}
			if err := first.diff(s); err != nil {
				return fmt.Errorf("with log level %v: %v", lv, err)
			}
		}
	case 2:
		r.Label("concurrent")
		r.Nontrivial()
		return concurrent(c, m, first)
	}
	return nil
}

// concurrent runs several sequences on distinct font values at once.
func concurrent(c *Case, m *sfnt.Model, first snapshot) error {
	type task func() error
	var tasks []task
	same := func() error {
		f, err := replayOps(c.Font, c.Ops)
		if err != nil {
			return err
		}
		s, err := snap(f, m, c.Runes)
		if err != nil {
			return err
		}
		return first.diff(s)
	}
	tasks = append(tasks, same, same)
	for _, other := range c.More {
		om := model(other)
		alone, err := replayOps(other, nil)
		if err != nil {
			return err
		}
		want, err := snap(alone, om, c.Runes)
		if err != nil {
			return err
		}
		tasks = append(tasks, func() error {
			f, err := replayOps(other, nil)
			if err != nil {
				return err
			}
			s, err := snap(f, om, c.Runes)
			if err != nil {
				return err
			}
			return want.diff(s)
		})
	}
	// A source and fonts derived from it are distinct fonts.
	src, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	twin, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	derive := []Op{{Kind: "keep", Ints: []int{0, m.NumGlyphs / 2}}, {Kind: "runes", Runes: c.Runes}, {Kind: "first", Ints: []int{max(1, m.NumGlyphs-1)}}}
	fonts := []*unitype.Font{src}
	var wants []snapshot
	w, err := snap(twin, m, c.Runes)
	if err != nil {
		return err
	}
	wants = append(wants, w)
	for _, o := range derive {
		s, err := applyOp(src, o)
		if err != nil {
			return err
		}
		if s == src {
			continue
		}
		d, err := replayOps(c.Font, []Op{o})
		if err != nil {
			return err
		}
		w, err := snap(d, m, c.Runes)
		if err != nil {
			return err
		}
		fonts = append(fonts, s)
		wants = append(wants, w)
	}
	for i := range fonts {
		f, w := fonts[i], wants[i]
		tasks = append(tasks, func() error {
			s, err := snap(f, m, c.Runes)
			if err != nil {
				return err
			}
			if err := w.diff(s); err != nil {
				return fmt.Errorf("font %d of a source and its subsets, used at the same time: %v", i, err)
			}
			for _, o := range c.Ops {
				if f, err = applyOp(f, o); err != nil {
					return err
				}
			}
			_, err = mustWrite(f)
			return err
		})
	}
	// One font, only read from: queried, described, subset and written.
	shared, err := replayOps(c.Font, c.Ops)
	if err != nil {
		return err
	}
	for k := 0; k < 3; k++ {
		tasks = append(tasks, func() error {
			if k != 1 {
				s, err := snap(shared, m, c.Runes)
				if err != nil {
					return err
				}
				if err := first.diff(s); err != nil {
					return fmt.Errorf("a font used by several at the same time: %v", err)
				}
			}
			for j := range derive {
				s, err := applyOp(shared, derive[(j+k)%len(derive)])
				if err != nil {
					return err
				}
				b, err := mustWrite(s)
				if err != nil {
					return err
				}
				alone, err := replayOps(c.Font, append(slices.Clone(c.Ops), derive[(j+k)%len(derive)]))
				if err != nil {
					return err
				}
				want, err := mustWrite(alone)
				if err != nil {
					return err
				}
				if !bytes.Equal(b, want) {
					return fmt.Errorf("a subset of a font used by several at the same time is not as one made alone (%s)", firstDiff(want, b))
				}
			}
			return nil
		})
	}
	errs := make([]error, len(tasks))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, tk := range tasks {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			errs[i] = try(tk)
		}()
	}
	close(start)
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("concurrent task %d: %v", i, err)
		}
	}
	return nil
}
