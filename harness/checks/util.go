package checks

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/sirupsen/logrus"
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/verifharness/gen"
	"github.com/unidoc/unitype/verifharness/sfnt"
	"pgregory.net/rapid"
)

func init() { logrus.SetOutput(io.Discard) }

type gid = unitype.GlyphIndex

func parse(b []byte) (*unitype.Font, error) { return unitype.Parse(bytes.NewReader(b)) }

// mustParse parses a well-formed font.
func mustParse(b []byte) (*unitype.Font, error) {
	f, err := parse(b)
	if err != nil {
		return nil, fmt.Errorf("well-formed font refused: %v", err)
	}
	return f, nil
}

func write(f *unitype.Font) ([]byte, error) {
	var buf bytes.Buffer
	err := f.Write(&buf)
	return buf.Bytes(), err
}

func mustWrite(f *unitype.Font) ([]byte, error) {
	b, err := write(f)
	if err != nil {
		return nil, fmt.Errorf("writing failed: %v", err)
	}
	return b, nil
}

// harnessFault is the panic for a mistake of the harness: the case is set aside, and counted in the evidence.
type harnessFault string

// model decodes a font the generator made; a failure is a defect of the harness.
func model(b []byte) *sfnt.Model {
	m, err := sfnt.Decode(b)
	if err != nil {
		panic(harnessFault("generated font does not decode: " + err.Error()))
	}
	return m
}

// written decodes what unitype wrote.
func written(b []byte) (*sfnt.Model, error) {
	m, err := sfnt.Decode(b)
	if err != nil {
		return nil, fmt.Errorf("the written font is %v", err)
	}
	return m, nil
}

func writeAndDecode(f *unitype.Font) (*sfnt.Model, []byte, error) {
	b, err := mustWrite(f)
	if err != nil {
		return nil, nil, err
	}
	m, err := written(b)
	return m, b, err
}

func gids(ints []int) []gid {
	out := make([]gid, len(ints))
	for i, x := range ints {
		out[i] = gid(x)
	}
	return out
}

func u16s(ints []int) []uint16 {
	out := make([]uint16, len(ints))
	for i, x := range ints {
		out[i] = uint16(x)
	}
	return out
}

// ---- query results ----

func mapString(m map[rune]gid) string {
	if m == nil {
		return "nil"
	}
	mm := map[uint32]uint16{}
	for r, g := range m {
		if g != 0 {
			mm[uint32(r)] = uint16(g)
		}
	}
	return sfnt.MapString(mm)
}

func namesString(m map[uint16]map[uint16]string) string {
	var s []string
	for l, x := range m {
		for id, v := range x {
			s = append(s, fmt.Sprintf("%05d/%05d=%q", l, id, v))
		}
		if len(x) == 0 {
			s = append(s, fmt.Sprintf("%05d/ empty", l))
		}
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

var infoTables = []string{"trec", "head", "os2", "hhea", "hmtx", "cmap", "loca", "glyf", "post", "nosuch"}

// answers asks a font everything it can be asked and returns one answer per question.
func answers(f *unitype.Font, m *sfnt.Model, runes []rune) []string {
	var out []string
	add := func(q string, v interface{}) { out = append(out, fmt.Sprintf("%s = %v", q, v)) }
	for _, k := range cmapKeys(m) {
		add(fmt.Sprintf("GetCmap(%d,%d)", k[0], k[1]), mapString(f.GetCmap(k[0], k[1])))
	}
	add("LookupRunes", f.LookupRunes(runes))
	for _, id := range nameIDs(m) {
		add(fmt.Sprintf("GetNameByID(%d)", id), fmt.Sprintf("%q", f.GetNameByID(id)))
	}
	add("GetNameRecords", namesString(f.GetNameRecords()))
	for g := 0; g <= m.NumGlyphs; g++ {
		if g > 300 && g < m.NumGlyphs-3 {
			continue
		}
		o, l, err := f.GetGlyphDataOffset(gid(g))
		add(fmt.Sprintf("GetGlyphDataOffset(%d)", g), fmt.Sprint(o, l, err))
	}
	for _, t := range infoTables {
		s := f.TableInfo(t)
		if t == "post" {
			s = strings.SplitN(s, "&", 2)[0] // a dump of internals follows
		}
		add("TableInfo("+t+")", s)
	}
	add("String", f.String())
	return out
}

func diffAnswers(want, got []string) error {
	for i := range want {
		if i >= len(got) || want[i] != got[i] {
			g := "nothing"
			if i < len(got) {
				g = got[i]
			}
			return fmt.Errorf("answer was\n%s\nis now\n%s", clip(want[i]), clip(g))
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d answers, %d before", len(got), len(want))
	}
	return nil
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func cmapKeys(m *sfnt.Model) [][2]int {
	keys := [][2]int{{3, 1}, {1, 0}, {0, 3}, {3, 10}, {2, 0}, {0, 77}}
	for _, c := range m.Cmaps {
		k := [2]int{c.Plat, c.Enc}
		dup := false
		for _, x := range keys {
			dup = dup || x == k
		}
		if !dup {
			keys = append(keys, k)
		}
	}
	return keys
}

func nameIDs(m *sfnt.Model) []int {
	seen := map[int]bool{1: true, 77: true}
	ids := []int{1, 77, -1, 65536 + 1}
	for _, n := range m.Names {
		if !seen[int(n.ID)] {
			seen[int(n.ID)] = true
			ids = append(ids, int(n.ID))
		}
	}
	if n := len(ids); n > 400 { // each query looks at every record
		some := append([]int(nil), ids[:60]...)
		for k := 60; k < n-60; k += 1 + n/60 {
			some = append(some, ids[k])
		}
		ids = append(some, ids[n-60:]...)
	}
	return ids
}

// ---- shared generators ----

// drawRunes draws runes, most of them in the font's character maps.
func drawRunes(t *rapid.T, m *sfnt.Model, max int, label string) []rune {
	var have []rune
	seen := map[rune]bool{}
	for i := range m.Cmaps {
		if m.Cmaps[i].Supported() {
			for r := range m.Cmaps[i].RuneMap() {
				if !seen[r] {
					seen[r] = true
					have = append(have, r)
				}
			}
		}
	}
	sort.Slice(have, func(i, j int) bool { return have[i] < have[j] })
	var out []rune
	if max >= 8 && len(have) > 0 && gen.Pct(t, 3, label+"Long") {
		pr := gen.Seed(t, label+"Seed")
		for n := 100 + pr.N(1500); n > 0; n-- {
			switch r := have[pr.N(len(have))]; {
			case len(out) > 0 && pr.N(4) == 0:
				out = append(out, out[len(out)-1])
			case pr.N(6) == 0:
				out = append(out, r+rune(pr.N(9))-4)
			default:
				out = append(out, r)
			}
		}
		return out
	}
	for n := gen.Pick(t, max+1, label+"N"); n > 0; n-- {
		switch k := gen.Pick(t, 10, label+"Kind"); {
		case len(have) > 0 && k < 7:
			out = append(out, have[gen.Pick(t, len(have), label)])
		case len(have) > 0 && k == 7:
			out = append(out, have[gen.Pick(t, len(have), label)]+rune(gen.Pick(t, 5, label+"Near"))-2)
		case len(out) > 0 && k == 8:
			out = append(out, out[gen.Pick(t, len(out), label+"Again")])
		default:
			out = append(out, gen.Rune(t))
		}
	}
	return out
}

// drawGids draws a glyph request: mostly existing glyphs, with repeats and, if wanted, ids out of range.
func drawGids(t *rapid.T, n, max int, outOfRange bool, label string) []int {
	var out []int
	k := 1 + gen.Pick(t, max, label+"N")
	if gen.Pct(t, 5, label+"Empty") {
		k = 0
	}
	if max >= 8 && gen.Pct(t, 2, label+"Long") {
		pr := gen.Seed(t, label+"Seed")
		if pr.N(3) == 0 { // all of them
			for i := 0; i < n; i++ {
				out = append(out, i)
			}
			return out
		}
		top := 1 + pr.N(n)
		for k = 100 + pr.N(3000); k > 0; k-- {
			out = append(out, pr.N(top))
		}
		return out
	}
	if max >= 4 && gen.Pct(t, 8, label+"Row") { // a row of glyphs, up or down, and a few more
		at, step := gen.Pick(t, n, label+"RowAt"), 1-2*gen.Pick(t, 2, label+"RowDown")
		for j := 2 + gen.Pick(t, 9, label+"RowN"); j > 0 && at >= 0 && at < n; j-- {
			out = append(out, at)
			at += step
		}
		k = gen.Pick(t, 3, label+"RowMore")
	}
	low := gen.Pct(t, 30, label+"Low") // stay low so that the subset is truncated
	for ; k > 0; k-- {
		c := gen.Pick(t, 20, label+"Kind")
		switch {
		case c == 19 && len(out) > 0:
			out = append(out, out[gen.Pick(t, len(out), label+"Again")])
		case c == 18 && outOfRange:
			out = append(out, []int{n, n + 1, 65535, n + 100}[gen.Pick(t, 4, label+"Out")]&0xFFFF)
		case low:
			out = append(out, gen.Pick(t, (n+1)/2, label))
		default:
			out = append(out, gen.Pick(t, n, label))
		}
	}
	return out
}

// drawN draws a glyph count for SubsetFirst in [1,n-1] (n >= 2).
func drawN(t *rapid.T, n int, label string) int {
	if n < 2 {
		return 1
	}
	switch gen.Pick(t, 5, label+"Kind") {
	case 0:
		return n - 1
	case 1:
		return 1
	default:
		return 1 + gen.Pick(t, n-1, label)
	}
}

func labelFont(r *Rec, m *sfnt.Model) {
	switch n := m.NumGlyphs; {
	case n == 1:
		r.Label("1 glyph")
	case n <= 12:
		r.Label("2-12 glyphs")
	case n <= 60:
		r.Label("13-60 glyphs")
	case n <= 254:
		r.Label("61-254 glyphs")
	case n <= 300:
		r.Label("255-300 glyphs")
	default:
		r.Label("more than 300 glyphs")
	}
	r.Label("loca format %d", m.LocaFormat)
	for _, c := range m.Cmaps {
		if c.Supported() {
			r.Label("cmap %d,%d", c.Plat, c.Enc)
			r.Label("cmap format %d", c.Format)
		} else {
			r.Label("cmap unsupported format")
		}
	}
	for _, g := range m.Glyphs {
		if len(g) > 1 && g[0] >= 0x80 {
			r.Label("composite glyphs")
			break
		}
	}
	if m.Post != nil {
		r.Label("post %x", m.PostVer)
	}
	if m.OS2 != nil {
		r.Label("OS/2 version %d", int(m.OS2[0])<<8|int(m.OS2[1]))
	}
	if m.HasName {
		r.Label("name format %d", m.NameFormat)
	}
	if m.Loca[0] != 0 {
		r.Label("first glyph not at offset 0")
	}
}
