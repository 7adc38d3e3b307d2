package checks

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/verifharness/gen"
	"github.com/unidoc/unitype/verifharness/sfnt"
	"pgregory.net/rapid"
)

// Inputs of an invocation of the tool (Op.Font).
const (
	cliGood = iota
	cliDamaged
	cliMissing
	cliDirectory
	cliUnwritable // parses, but its names cannot be written
	cliInvalid    // the good font with a bit flipped in one of its tables
)

// Configuration of an invocation (bits of Op.Ints[0]).
const (
	cliOldOutput  = 1 << iota // the output file exists already
	cliBlocked                // the output path is a directory
	cliDebug                  // --loglevel debug
	cliOutfile                // runes: an explicit -o
	cliSeparator              // "--" before the arguments
	cliLongOutput             // the old output is longer than any font here
)

// notGids are arguments no reading makes a glyph id.
var notGids = []string{"x", "", "1.5", "65536", "65537", "131075", "4294967299", "18446744073709551619", "99999999999999999999999", "12a", "a12", "1,2", "0-5", "-1", "-65535", "1 2", "0x1", "0X0A", "0b1", "0o7", "1_0", "1e1", "٣", "1\n"}

var cliInfo = []string{"trec", "head", "os2", "hhea", "hmtx", "cmap", "loca", "glyf", "post", "name"}

// pointers in dumps differ from one process to the next.
var pointers = regexp.MustCompile(`0x[0-9a-f]{9,16}`)

func genC23(t *rapid.T) *Case {
	fi := gen.Font(t, gen.Opts{NoHuge: true, MinGlyphs: 1, NeedCmap: gen.Pct(t, 50, "cmap"), NoUnsupported: gen.Pct(t, 50, "sup")})
	m := model(fi.Data)
	c := &Case{Font: fi.Data, More: [][]byte{mutate(t, fi.Data, 3)}}
	flip := append([]byte{}, fi.Data...)
	if sf, err := sfnt.ReadDir(fi.Data); err == nil {
		var in []int
		for i, e := range sf.Dir {
			if e.Length > 0 {
				in = append(in, i)
			}
		}
		e := sf.Dir[in[gen.Pick(t, len(in), "flipTable")]]
		at := int(e.Offset) + gen.Pick(t, int(e.Length), "flipAt")
		flip[at] ^= 1 << uint(gen.Pick(t, 8, "flipBit"))
	}
	c.More = append(c.More, flip)
	if gen.Pct(t, 6, "unwritable") {
		c.More = append(c.More, unwritable(t, fi))
	}
	for n := 1 + gen.Pick(t, 3, "runs"); n > 0; n-- {
		o := Op{Kind: []string{"validate", "readwrite", "simple", "gids", "gids", "runes", "runes", "info"}[gen.Pick(t, 8, "cmd")]}
		switch k := gen.Pick(t, 20, "input"); {
		case k < 11:
			o.Font = cliGood
		case k < 16:
			o.Font = cliDamaged
		case k < 18:
			o.Font = cliInvalid
		case k == 18:
			o.Font = cliMissing
		default:
			o.Font = cliDirectory
		}
		if len(c.More) > 2 && gen.Pct(t, 70, "useUnwritable") {
			o.Font = cliUnwritable
		}
		conf := 0
		for _, x := range [][2]int{{cliOldOutput, 30}, {cliBlocked, 8}, {cliDebug, 8}, {cliOutfile, 60}, {cliSeparator, 50}, {cliLongOutput, 50}} {
			if gen.Pct(t, x[1], "conf") {
				conf |= x[0]
			}
		}
		o.Ints = []int{conf}
		switch o.Kind {
		case "gids":
			for _, g := range drawGids(t, m.NumGlyphs, 6, gen.Pct(t, 20, "outOfRange"), "gid") {
				s := strconv.Itoa(g)
				if gen.Pct(t, 8, "leadingZeros") {
					s = "000"[:1+gen.Pick(t, 3, "zeros")] + s
				}
				o.Strs = append(o.Strs, s)
			}
			if gen.Pct(t, 25, "notGid") {
				bad := notGids[gen.Pick(t, len(notGids), "bad")]
				at := gen.Pick(t, len(o.Strs)+1, "badAt")
				o.Strs = append(o.Strs[:at], append([]string{bad}, o.Strs[at:]...)...)
			}
		case "runes":
			var ok []rune
			for _, x := range drawRunes(t, m, 8, "rune") {
				if x > 0 && x <= 0x10FFFF && (x < 0xD800 || x > 0xDFFF) {
					ok = append(ok, x)
				}
			}
			if !gen.Pct(t, 4, "noRunes") {
				o.Strs = []string{string(ok)}
			}
		case "info":
			for _, x := range cliInfo {
				if gen.Pct(t, 35, "info") {
					o.Strs = append(o.Strs, x)
				}
			}
			if gen.Pct(t, 35, "cmappings") {
				o.Strs = append(o.Strs, "cmappings")
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// unwritable makes a font whose naming table has more distinct text, in overlapping strings, than can be written
// without overlaps.
func unwritable(t *rapid.T, fi *gen.FontInfo) []byte {
	p := gen.PRNG(rapid.Uint32().Draw(t, "storage"))
	n := 3 + gen.Pick(t, 4, "nNames")
	store := p.Bytes(2 * (20000 + gen.Pick(t, 10000, "nStorage")))
	for i := 0; i < len(store); i += 2 {
		store[i] &= 0x3F
	}
	d := be.AppendUint16(nil, 0)
	d = be.AppendUint16(d, uint16(n))
	d = be.AppendUint16(d, uint16(6+12*n))
	for i := 0; i < n; i++ {
		l := len(store) - 2*n
		for _, v := range []int{3, 1, 0x409, i, l, 2 * i} {
			d = be.AppendUint16(d, uint16(v))
		}
	}
	return fontWith(fi, map[string][]byte{"name": append(d, store...)})
}

// cliWants says what the library does for an invocation: the output file (nil: none may be written), whether the
// tool has to succeed, whether it has to fail, and for info what it prints.
func cliWants(o Op, in []byte, wellFormed bool) (out []byte, succeed, fail bool, print string) {
	if in == nil {
		return nil, false, true, ""
	}
	var gs []gid
	switch o.Kind {
	case "gids":
		if len(o.Strs) == 0 {
			return nil, false, true, ""
		}
		for _, s := range o.Strs {
			x, err := strconv.ParseUint(s, 10, 64)
			if err != nil || x > 65535 {
				return nil, false, true, ""
			}
			gs = append(gs, gid(x))
		}
	case "runes":
		if len(o.Strs) == 0 {
			return nil, false, true, ""
		}
	case "validate":
		if unitype.ValidateBytes(in) != nil {
			return nil, false, true, ""
		}
	}
	f, err := parse(in)
	if err != nil {
		return nil, false, true, ""
	}
	switch o.Kind {
	case "validate":
		return nil, wellFormed, false, ""
	case "info":
		for _, x := range cliInfo {
			for _, y := range o.Strs {
				if x == y {
					print += f.TableInfo(x)
				}
			}
		}
		for _, y := range o.Strs {
			if y == "cmappings" {
				print += cmappings(f)
			}
		}
		return nil, wellFormed, false, print
	case "simple":
		f, err = f.SubsetFirst(256)
	case "gids":
		f, err = f.SubsetKeepIndices(gs)
	case "runes":
		f, err = f.SubsetKeepRunes([]rune(o.Strs[0]))
	}
	if err != nil || f == nil {
		return nil, false, true, ""
	}
	b, err := write(f)
	if err != nil {
		return nil, false, true, ""
	}
	return b, wellFormed, false, ""
}

// cmappings lists the entries of the maps the tool lists, by map, glyph id and rune.
func cmappings(f *unitype.Font) string {
	var b strings.Builder
	for i, k := range [][2]int{{0, 3}, {1, 0}, {3, 1}} {
		m := f.GetCmap(k[0], k[1])
		var runes []rune
		for r := range m {
			runes = append(runes, r)
		}
		sort.Slice(runes, func(i, j int) bool {
			if m[runes[i]] != m[runes[j]] {
				return m[runes[i]] < m[runes[j]]
			}
			return runes[i] < runes[j]
		})
		for _, r := range runes {
			fmt.Fprintf(&b, "%d/%d,%d: %d - %c\n", i, k[0], k[1], m[r], r)
		}
	}
	return b.String()
}

// sortedMappings puts the entries of the maps in print, which follow what TableInfo gives, in a fixed order where they
// agree in map and glyph id.
func sortedMappings(print string) string {
	lines := strings.SplitAfter(print, "\n")
	id := func(s string) string { return mapEntry.FindString(s) }
	for i := 0; i < len(lines); {
		j := i + 1
		for j < len(lines) && id(lines[i]) != "" && (id(lines[j]) == id(lines[i]) || lines[j] == "\n") {
			j++
		}
		sort.Strings(lines[i:j])
		i = j
	}
	return strings.Join(lines, "")
}

var mapEntry = regexp.MustCompile(`^[0-2]/[0-3],[0-3]: [0-9]+ - `)

func listing(d string) string {
	var out []string
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			rel, _ := filepath.Rel(d, p)
			out = append(out, fmt.Sprintf("%s %v", rel, fi.IsDir()))
		}
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func runC23(c *Case, r *Rec) error {
	tool := os.Getenv("VP_CLI")
	if tool == "" {
		panic("harness: VP_CLI not set")
	}
	labelFont(r, model(c.Font))
	for i, o := range c.Ops {
		if err := oneCLI(tool, c, o, r); err != nil {
			return fmt.Errorf("invocation %d: %v", i, err)
		}
	}
	return nil
}

func oneCLI(tool string, c *Case, o Op, r *Rec) error {
	d, done, err := scratch()
	if err != nil {
		panic(err)
	}
	defer done()
	conf := o.Ints[0]
	path := filepath.Join(d, "in put.ttf")
	var in []byte
	name := ""
	switch o.Font {
	case cliGood:
		in, name = c.Font, "well-formed"
	case cliDamaged:
		in, name = c.More[0], "damaged"
	case cliInvalid:
		in, name = c.More[1], "bit flipped"
	case cliUnwritable:
		in, name = c.More[2], "unwritable"
	case cliMissing:
		name = "missing"
	case cliDirectory:
		name = "directory"
		if err := os.Mkdir(path, 0o755); err != nil {
			panic(err)
		}
	}
	if in != nil {
		if err := os.WriteFile(path, in, 0o644); err != nil {
			panic(err)
		}
	}
	var args []string
	outName := ""
	switch o.Kind {
	case "validate":
		args = []string{"validate"}
	case "readwrite":
		args, outName = []string{"readwrite"}, "readwrite.ttf"
	case "simple":
		args, outName = []string{"subset", "simple"}, "subset.ttf"
	case "gids":
		args, outName = []string{"subset", "gids"}, "subset_gids.ttf"
	case "runes":
		args, outName = []string{"subset", "runes"}, "subset_runes.ttf"
		if conf&cliOutfile != 0 {
			outName = filepath.Join("sub dir", "o.ttf")
			if err := os.Mkdir(filepath.Join(d, "sub dir"), 0o755); err != nil {
				panic(err)
			}
			args = append(args, "-o", outName)
		}
	case "info":
		args = []string{"info"}
		for _, x := range o.Strs {
			args = append(args, "--"+x)
		}
	}
	if conf&cliDebug != 0 && o.Kind != "info" {
		args = append(args, "--loglevel", "debug")
	}
	minus := false
	for _, s := range o.Strs {
		minus = minus || strings.HasPrefix(s, "-")
	}
	if conf&cliSeparator != 0 || minus {
		args = append(args, "--")
	}
	args = append(args, path)
	if o.Kind == "gids" || o.Kind == "runes" {
		args = append(args, o.Strs...)
	}

	want, succeed, fail, print := cliWants(o, in, o.Font == cliGood)
	outPath := filepath.Join(d, outName)
	var old []byte
	if outName != "" && conf&cliBlocked != 0 {
		if err := os.Mkdir(outPath, 0o755); err != nil {
			panic(err)
		}
		succeed, fail, want = false, true, nil
	} else if outName != "" && conf&cliOldOutput != 0 {
		old = []byte("not a font")
		if conf&cliLongOutput != 0 {
			old = bytes.Repeat([]byte{0xEE}, 200000)
		}
		if err := os.WriteFile(outPath, old, 0o644); err != nil {
			panic(err)
		}
	}
	before := listing(d)
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, tool, args...)
	cmd.Dir = d
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	rerr := cmd.Run()
	if ctx.Err() != nil {
		return fmt.Errorf("%q on a %s file does not end", args, name)
	}
	if _, ok := rerr.(*exec.ExitError); rerr != nil && !ok {
		panic(fmt.Sprintf("harness: cannot run the tool: %v", rerr))
	}
	what := fmt.Sprintf("%q on a %s file", args, name)
	tail := func() string { return clip(stderr.String() + stdout.String()) }
	switch {
	case rerr == nil && fail:
		return fmt.Errorf("%s has to fail but exits with status 0\n%s", what, tail())
	case rerr != nil && succeed:
		return fmt.Errorf("%s has to succeed but ends with %v\n%s", what, rerr, tail())
	}
	if in != nil {
		if got, err := os.ReadFile(path); err != nil || !bytes.Equal(got, in) {
			return fmt.Errorf("%s changes its input", what)
		}
	}
	after := listing(d)
	res := "fails"
	if rerr == nil {
		res = "succeeds"
		if outName != "" {
			got, err := os.ReadFile(outPath)
			if err != nil {
				return fmt.Errorf("%s reports success without output: %v", what, err)
			}
			if !bytes.Equal(got, want) {
				return fmt.Errorf("%s writes a file of %d bytes, the library %d (%s)", what, len(got), len(want), firstDiff(want, got))
			}
			os.Remove(outPath)
			after = listing(d)
			if old == nil {
				before = strings.TrimSpace(before)
			} else {
				before = strings.Replace(before, outName+" false\n", "", 1)
				before = strings.TrimSuffix(before, "\n"+outName+" false")
			}
		}
		shown := func(s string) string { return sortedMappings(pointers.ReplaceAllString(s, "P")) }
		if o.Kind == "info" && shown(stdout.String()) != shown(print) {
			return fmt.Errorf("%s prints\n%s\nthe library gives\n%s", what, clip(stdout.String()), clip(print))
		}
		if after != before {
			return fmt.Errorf("%s leaves files:\n%s\nbefore:\n%s", what, after, before)
		}
	} else {
		if after != before {
			return fmt.Errorf("%s fails but leaves files:\n%s\nbefore:\n%s", what, after, before)
		}
		if old != nil {
			if got, err := os.ReadFile(outPath); err != nil || !bytes.Equal(got, old) {
				return fmt.Errorf("%s fails but overwrites the output file that was there", what)
			}
		}
	}
	r.Label("%s, %s: %s", o.Kind, name, res)
	if conf&cliBlocked != 0 && outName != "" {
		r.Label("output path not writable")
	}
	if old != nil {
		r.Label("output file exists before")
	}
	if succeed || fail {
		r.Nontrivial()
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C23",
		Rule: "the tool built from the current tree is run as a process, in a scratch directory of its own, on well-formed, damaged, bit-flipped, missing and directory inputs with generated sub-commands and arguments; exit status, every file left and (info) what is printed are compared with what the library does; non-trivial: at least one invocation whose outcome (must succeed with these bytes, or must fail) the property fixes",
		Gen:  genC23, Run: runC23, Quick: 1000, Deep: 20000,
	})
}
