package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/verifharness/gen"
	"github.com/unidoc/unitype/verifharness/sfnt"
	"pgregory.net/rapid"
)

// C29: whatever is done with a font, successfully or not, nothing is left behind.

func init() {
	register(&Prop{
		ID:   "C29",
		Rule: "a well-formed, odd, damaged or truncated font is parsed from memory and from a file, validated, asked, subset, pruned, optimised, and written to memory, to failing destinations, to files, to full disks and to places that cannot be written; afterwards no file of the scratch directories may be open, none but the written ones may exist there, nothing may have been printed, no goroutine may be left, and working directory, environment and logger must be as before; 15 %: many variants of a font go through all this, after which the memory must be free again; non-trivial: a failing step, or the memory measured",
		Gen: func(t *rapid.T) *Case {
			var c *Case
			switch gen.Pick(t, 4, "source") {
			case 0:
				c = genC15(t)
			case 1:
				c = genC27(t)
			default:
				fi := gen.Font(t, gen.Opts{NoHuge: gen.Pct(t, 96, "noHuge"), Mega: gen.Pct(t, 1, "mega"), MinGlyphs: 2, MaxGlyphs: []int{12, 60, 300, 0}[gen.Pick(t, 4, "size")]})
				m := model(fi.Data)
				c = &Case{Font: fi.Data, Ops: drawOps(t, m, 3), Runes: drawRunes(t, m, 5, "rune")}
				if gen.Pct(t, 20, "cut") {
					c.Font = c.Font[:gen.Pick(t, len(c.Font), "at")]
				}
			}
			c.Ints = []int{gen.Pick(t, 1<<16, "seed"), 0}
			if gen.Pct(t, 15, "memory") {
				c.Ints[1] = 1
			}
			return c
		},
		Run: runC29, Quick: 4000, Deep: 100000,
	})
}

// through takes a font through everything. Files are read and written in d only.
func through(c *Case, font []byte, d string, pr *gen.PRNG, r *Rec) (wrote []string) {
	note := func(what string, err error) {
		if err != nil {
			r.Label("%s fails", what)
			r.Nontrivial()
		}
	}
	in := filepath.Join(d, "in.ttf")
	if err := os.WriteFile(in, font, 0o644); err != nil {
		panic(err)
	}
	wrote = append(wrote, "in.ttf")
	missing := filepath.Join(d, "missing", "x.ttf")
	unitype.ParseFile(missing)
	unitype.ParseFile(d)
	unitype.ValidateFile(missing)
	unitype.ValidateFile(d)
	note("ValidateFile", unitype.ValidateFile(in))
	note("ValidateBytes", unitype.ValidateBytes(font))
	src := &faulty{data: font, failAt: pr.N(40), forever: pr.N(2) == 0}
	unitype.Parse(src)
	if f, err := parse(font); err == nil {
		write(f)
	}
	f, err := unitype.ParseFile(in)
	note("ParseFile", err)
	if err != nil {
		return wrote
	}
	ask := func(f *unitype.Font) {
		f.LookupRunes(c.Runes)
		f.GetCmap(3, 1)
		f.GetNameRecords()
		for id := 0; id < 25; id++ {
			f.GetNameByID(id)
		}
		f.GetGlyphDataOffset(1)
		for _, t := range infoTables {
			f.TableInfo(t)
		}
		_ = f.String()
	}
	ask(f)
	for _, o := range c.Ops {
		switch o.Kind {
		case "first", "keep", "runes", "prune", "optimize":
			g, err := applyOp(f, o)
			note(o.Kind, err)
			if err == nil {
				f = g
			}
		}
	}
	ask(f)
	f.Write(&limited{n: pr.N(len(font) + 1), err: errInjected})
	out := filepath.Join(d, "out.ttf")
	wrote = append(wrote, "out.ttf")
	note("WriteFile", f.WriteFile(out))
	f.WriteFile(missing)
	f.WriteFile(d)
	f.WriteFile(in)
	full := filepath.Join(d, "full.ttf")
	wrote = append(wrote, "full.ttf")
	note("WriteFile on a full disk", withFileLimit(pr.N(len(font)+1), func() error { return f.WriteFile(full) }))
	unitype.ValidateFile(full)
	unitype.ParseFile(full)
	return wrote
}

// state is what a process can notice of itself.
func state() []string {
	wd, _ := os.Getwd()
	l := logrus.StandardLogger()
	env := os.Environ()
	sort.Strings(env)
	return []string{"working directory " + wd, "environment " + strings.Join(env, "\n"), fmt.Sprintf("logger: level %v, output %p, formatter %T, %d hooks", l.GetLevel(), l.Out, l.Formatter, len(l.Hooks))}
}

// openIn lists the files open below a directory.
func openIn(d string) (out []string) {
	const fds = "/proc/self/fd"
	l, _ := os.ReadDir(fds)
	for _, e := range l {
		if to, err := os.Readlink(filepath.Join(fds, e.Name())); err == nil && strings.HasPrefix(to, d) {
			out = append(out, strings.TrimPrefix(to, d))
		}
	}
	return out
}

// redirect sends what is printed to a file, until the function returned is called (the first time).
func redirect(to *os.File) func() {
	var saved [3]int
	for fd := 1; fd <= 2; fd++ {
		var err error
		if saved[fd], err = syscall.Dup(fd); err == nil {
			syscall.CloseOnExec(saved[fd])
			err = syscall.Dup3(int(to.Fd()), fd, 0)
		}
		if err != nil {
			panic(harnessFault(err.Error()))
		}
	}
	var once sync.Once
	return func() {
		once.Do(func() {
			for fd := 1; fd <= 2; fd++ {
				syscall.Dup3(saved[fd], fd, 0)
				syscall.Close(saved[fd])
			}
			to.Close()
		})
	}
}

func allocated() int64 {
	var ms runtime.MemStats
	for i := 0; i < 2; i++ { // pools give up their content in the second round
		runtime.GC()
	}
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

func runC29(c *Case, r *Rec) error {
	pr := gen.PRNG(c.Ints[0])
	switch n := len(c.Font); {
	case n > 1<<20:
		r.Label("above 1 MiB")
	case n > 1<<16:
		r.Label("above 64 KiB")
	}
	base, done, err := scratch()
	if err != nil {
		panic(err)
	}
	defer done()
	if base, err = filepath.EvalSymlinks(base); err != nil {
		panic(err)
	}
	said := filepath.Join(base, "said")
	dirs := map[string]string{}
	for _, n := range []string{"work", "tmp", "cwd", "home"} {
		dirs[n] = filepath.Join(base, n)
		if err := os.Mkdir(dirs[n], 0o755); err != nil {
			panic(err)
		}
	}
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	if err := os.Chdir(dirs["cwd"]); err != nil {
		panic(err)
	}
	for k, v := range map[string]string{"TMPDIR": dirs["tmp"], "HOME": dirs["home"], "XDG_CACHE_HOME": dirs["home"]} {
		was, had := os.LookupEnv(k)
		os.Setenv(k, v)
		defer func() {
			if os.Unsetenv(k); had {
				os.Setenv(k, was)
			}
		}()
	}
	outFile, err := os.Create(said)
	if err != nil {
		panic(err)
	}
	restore := redirect(outFile)
	defer restore()

	withFileLimit(1<<40, func() error { return nil }) // its setup is not part of it
	before, routines := state(), runtime.NumGoroutine()
	var wrote []string
	perr := try(func() error { wrote = through(c, c.Font, dirs["work"], &pr, r); return nil })
	if perr != nil {
		r.Label("set aside: panic") // a matter of C14 and C15
		return nil
	}
	if l := slices.DeleteFunc(openIn(base+"/"), func(n string) bool { return n == "said" }); len(l) > 0 {
		return fmt.Errorf("files left open: %q", l)
	}
	for i, s := range state() {
		if s != before[i] {
			return fmt.Errorf("changed:\n%s\ninstead of\n%s", clip(s), clip(before[i]))
		}
	}
	for n, d := range dirs {
		l, err := os.ReadDir(d)
		if err != nil {
			return fmt.Errorf("directory %s is gone: %v", n, err)
		}
		for _, e := range l {
			if n != "work" || !slices.Contains(wrote, e.Name()) {
				return fmt.Errorf("left behind in the %s directory: %q", n, e.Name())
			}
		}
	}
	for i := 0; runtime.NumGoroutine() > routines; i++ {
		if i == 300 {
			buf := make([]byte, 4000)
			return fmt.Errorf("%d goroutines, %d before: %s", runtime.NumGoroutine(), routines, buf[:runtime.Stack(buf, true)])
		}
		time.Sleep(10 * time.Millisecond)
	}
	if c.Ints[1] != 0 && len(c.Font) < 400000 {
		if err := memory(c, dirs["work"], pr, r); err != nil {
			return err
		}
	}
	restore()
	if b, _ := os.ReadFile(said); len(b) > 0 {
		return fmt.Errorf("printed: %s", clip(string(b)))
	}
	return nil
}

// memory takes many variants of the font through everything and compares the memory in use.
func memory(c *Case, d string, pr gen.PRNG, r *Rec) error {
	quiet := &Rec{labels: map[string]int{}}
	size := len(c.Font) + 200
	rounds := min(max(400000/size, 8), 60)
	variant := func(i int) []byte {
		b := bytes.Clone(c.Font)
		if sf, err := sfnt.ReadDir(b); err == nil {
			for _, e := range sf.Dir {
				o, end := int(e.Offset), int(e.Offset)+int(e.Length)
				if o < 0 || end > len(b) || end-o < 6 {
					continue
				}
				switch e.Tag {
				case "head":
					if end-o >= 54 {
						be.PutUint32(b[o+4:], uint32(i)|0x80000000) // revision
						be.PutUint32(b[o+24:], uint32(i))           // creation date
					}
				case "name": // the strings
					for k := o + int(be.Uint16(b[o+4:])); k+2 <= end; k += 8 {
						be.PutUint16(b[k:], uint16(i))
					}
				case "cvt ", "fpgm", "prep", "glyf": // the end of the program, of the last outline
					be.PutUint16(b[end-2:], uint16(i))
				}
			}
		}
		return b
	}
	round := func(i int) {
		p := pr
		try(func() error { through(c, variant(i), d, &p, quiet); return nil })
	}
	began := cpuNow()
	for i := 0; i < 3; i++ {
		round(i)
	}
	if cpuNow()-began > int64(150*time.Millisecond) { // a small file that describes much
		r.Label("memory not measured: too slow")
		return nil
	}
	r.Label("memory measured")
	r.Nontrivial()
	start := allocated()
	for i := 0; i < rounds; i++ {
		round(10 + i)
	}
	grown := allocated() - start
	if most := int64(rounds*size/64) + 40000; grown > most {
		// Once more, for the case that something grew on its own.
		start = allocated()
		for i := 0; i < rounds; i++ {
			round(1000 + i)
		}
		if again := allocated() - start; again > most {
			return fmt.Errorf("%d rounds with variants of a font of %d bytes leave %d and then %d bytes of memory in use", rounds, len(c.Font), grown, again)
		}
	}
	return nil
}
