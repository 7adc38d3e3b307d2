package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"slices"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/verifharness/gen"
	"pgregory.net/rapid"
)

// Where a font of C26 comes from and what then becomes of the place.
const (
	selfMemory  = iota // a byte slice, which is overwritten
	selfSection        // part of a larger slice, through an io.SectionReader, which is overwritten
	selfStream         // a source that fails every call from then on
	selfRemoved        // a file that is removed
	selfReplace        // a file whose contents are replaced
	selfTrunc          // a file that is emptied
	selfKinds
)

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "a font is parsed from memory, a stream or a file, which is overwritten, failed, removed, replaced or emptied right after or between the operations of a history; at every step the font must answer and write as one parsed from an untouched copy. Lists given to the library lie between guard values, are compared after the call and then overwritten; lists and listings the library returned are kept and compared at the end, or overwritten. The bytes given to parse and validate, damaged ones too, are compared before and after; non-trivial: the place was disturbed, or a list was given or returned, and the font was used afterwards",
		Gen: func(t *rapid.T) *Case {
			fi := gen.Font(t, gen.Opts{MinGlyphs: 1, MaxGlyphs: []int{12, 40, 300}[gen.Pick(t, 3, "size")], NeedCmap: gen.Pct(t, 85, "cmap"), NeedName: gen.Pct(t, 60, "name"), NoHuge: gen.Pct(t, 90, "noHuge")})
			m := model(fi.Data)
			c := &Case{Font: fi.Data, Runes: drawRunes(t, m, 8, "query")}
			c.Ops = drawHistory(t, m, 5)
			c.Ints = []int{gen.Pick(t, selfKinds, "source"), gen.Pick(t, len(c.Ops)+1, "when"), gen.Pick(t, 4, "with")}
			if c.Ints[2] == 3 {
				c.More = append(c.More, gen.Font(t, gen.Opts{Small: true, NoHuge: true}).Data)
			} else {
				c.More = append(c.More, nil)
			}
			c.More = append(c.More, mutate(t, fi.Data, 2))
			return c
		},
		Run: runC26, Quick: 6000, Deep: 150000,
	})
}

// endSource passes on to r until it is ended.
type endSource struct {
	r     io.ReadSeeker
	ended bool
}

var errEnded = errors.New("the source is closed")

func (s *endSource) Read(b []byte) (int, error) {
	if s.ended {
		return 0, errEnded
	}
	return s.r.Read(b)
}

func (s *endSource) Seek(o int64, w int) (int64, error) {
	if s.ended {
		return 0, errEnded
	}
	return s.r.Seek(o, w)
}

// scribble overwrites b.
func scribble(b []byte, how int, other []byte) {
	switch how {
	case 0:
		clear(b)
	case 1:
		for i := range b {
			b[i] ^= 0xFF
		}
	case 2:
		slices.Reverse(b)
	default:
		clear(b)
		copy(b, other)
	}
}

// guarded returns a copy of s with room behind it that holds guard values.
func guarded[T any](s []T, guard T) (list []T, check func(what string) error) {
	all := make([]T, 0, len(s)+8)
	all = append(all, guard, guard)
	all = append(all, s...)
	for len(all) < cap(all) {
		all = append(all, guard)
	}
	list = all[2 : 2+len(s) : len(all)]
	was := slices.Clone(all)
	return list, func(what string) error {
		if !reflect.DeepEqual(all, was) {
			return fmt.Errorf("%s changed the list it was given: %v, before %v", what, all, was)
		}
		for i := range all {
			all[i] = guard // The caller uses its list for something else.
		}
		return nil
	}
}

// untouched parses and validates b and checks that b is as before.
func untouched(b []byte, f func(b []byte)) error {
	all := make([]byte, len(b)+64)
	for i := range all {
		all[i] = 0xA5
	}
	copy(all[16:], b)
	was := bytes.Clone(all)
	f(all[16 : 16+len(b)])
	if !bytes.Equal(all, was) {
		return fmt.Errorf("the bytes given were changed (%s)", firstDiff(was, all))
	}
	return nil
}

func runC26(c *Case, r *Rec) error {
	m := model(c.Font)
	labelFont(r, m)
	for i, b := range [][]byte{c.Font, c.More[1]} {
		if err := untouched(b, func(b []byte) { unitype.ValidateBytes(b) }); err != nil {
			return fmt.Errorf("validating, input %d: %v", i, err)
		}
		if err := untouched(b, func(b []byte) { parse(b) }); err != nil {
			return fmt.Errorf("parsing, input %d: %v", i, err)
		}
	}

	// The font and what ends its source.
	kind, when, how := c.Ints[0], c.Ints[1], c.Ints[2]
	var f *unitype.Font
	var err error
	var disturb func() error
	name := ""
	switch kind {
	case selfMemory:
		name = "bytes overwritten"
		b := bytes.Clone(c.Font)
		f, err = parse(b)
		disturb = func() error { scribble(b, how, c.More[0]); return nil }
	case selfSection:
		name = "part of larger bytes overwritten"
		b := append(bytes.Repeat([]byte{7}, 100), c.Font...)
		n := int64(len(c.Font))
		b = append(b, bytes.Repeat([]byte{9}, 100)...)
		f, err = unitype.Parse(io.NewSectionReader(bytes.NewReader(b), 100, n))
		disturb = func() error { scribble(b, how, c.More[0]); return nil }
	case selfStream:
		name = "source failing"
		s := &endSource{r: bytes.NewReader(c.Font)}
		f, err = unitype.Parse(s)
		disturb = func() error { s.ended = true; return nil }
	default:
		d, done, derr := scratch()
		if derr != nil {
			panic(derr)
		}
		defer done()
		path := filepath.Join(d, "font.ttf")
		if err := os.WriteFile(path, c.Font, 0o644); err != nil {
			panic(err)
		}
		if how == 1 {
			if err := unitype.ValidateFile(path); err != nil {
				return fmt.Errorf("validating a well-formed file: %v", err)
			}
		}
		f, err = unitype.ParseFile(path)
		if got, rerr := os.ReadFile(path); rerr != nil || !bytes.Equal(got, c.Font) {
			return fmt.Errorf("parsing or validating a file changed it (%v)", rerr)
		}
		disturb = func() error {
			switch kind {
			case selfRemoved:
				return os.Remove(path)
			case selfReplace:
				b := bytes.Clone(c.Font)
				scribble(b, how, c.More[0])
				return os.WriteFile(path, b, 0o644)
			}
			return os.Truncate(path, 0)
		}
		name = []string{"file removed", "file replaced", "file emptied"}[kind-selfRemoved]
	}
	if err != nil {
		return fmt.Errorf("well-formed font refused: %v", err)
	}
	ref, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	r.Label("%s", name)
	r.Nontrivial()

	// What the library returned, with what it was then.
	type kept struct {
		what string
		val  interface{}
		was  string
	}
	var results []kept
	keep := func(what string, val interface{}) {
		results = append(results, kept{what, val, fmt.Sprint(val)})
	}
	compare := func(what string) error {
		list, check := guarded(c.Runes, 'x')
		got := f.LookupRunes(list)
		if err := check("LookupRunes"); err != nil {
			return err
		}
		keep("LookupRunes", got)
		names := f.GetNameRecords()
		keep("GetNameRecords", names)
		for _, k := range cmapKeys(m) {
			if cm := f.GetCmap(k[0], k[1]); len(cm) < 5000 {
				keep(fmt.Sprintf("GetCmap(%d,%d)", k[0], k[1]), cm)
			}
		}
		mine, err := snap(f, m, c.Runes)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		want, err := snap(ref, m, c.Runes)
		if err != nil {
			return fmt.Errorf("%s, undisturbed font: %v", what, err)
		}
		if err := want.diff(mine); err != nil {
			return fmt.Errorf("%s: the font is not as one from an undisturbed source (%s): %v", what, name, err)
		}
		return nil
	}
	for i := 0; i <= len(c.Ops); i++ {
		if i == when {
			if err := disturb(); err != nil {
				panic(err)
			}
			if err := compare(fmt.Sprintf("before step %d", i)); err != nil {
				return err
			}
		}
		if i == len(c.Ops) {
			break
		}
		o := c.Ops[i]
		what := fmt.Sprintf("step %d (%s)", i, o.Kind)
		r.Label("op %s", o.Kind)
		var check func(string) error
		var gerr error
		switch o.Kind {
		case "keep":
			var list []gid
			list, check = guarded(gids(o.Ints), gid(0xBEEF))
			f, gerr = f.SubsetKeepIndices(list)
		case "runes":
			var list []rune
			list, check = guarded(o.Runes, rune(0xBEEF))
			f, gerr = f.SubsetKeepRunes(list)
		case "prune":
			var list []string
			list, check = guarded(o.Strs, "cmap")
			gerr = f.PruneTables(list...)
		case "write", "query":
			if err := compare(what); err != nil {
				return err
			}
			continue
		default:
			f, gerr = applyOp(f, o)
		}
		if gerr != nil {
			return fmt.Errorf("%s failed: %v", what, gerr)
		}
		if check != nil {
			if err := check(what); err != nil {
				return err
			}
		}
		if ref, err = applyOp(ref, o); err != nil {
			return fmt.Errorf("%s on the undisturbed font: %v", what, err)
		}
	}
	if err := compare("at the end"); err != nil {
		return err
	}
	for _, k := range results {
		if now := fmt.Sprint(k.val); now != k.was {
			return fmt.Errorf("what %s returned changed afterwards: %s, was %s", k.what, clip(now), clip(k.was))
		}
	}
	// The lists and listings are the caller's.
	for _, k := range results {
		switch v := k.val.(type) {
		case []gid:
			for i := range v {
				v[i] ^= 0x5555
			}
			v = append(v[:len(v)], 1, 2, 3)
			_ = v
		case map[uint16]map[uint16]string:
			for l, x := range v {
				for id := range x {
					x[id] = "changed"
				}
				x[4711] = "new"
				delete(v, l)
			}
		}
	}
	results = nil
	return compare("after changing what was returned")
}
