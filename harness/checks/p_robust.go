package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/verifharness/gen"
	"github.com/unidoc/unitype/verifharness/sfnt"
	"pgregory.net/rapid"
)

// scratch is a directory for files of one case.
func scratch() (string, func(), error) {
	d, err := os.MkdirTemp(os.Getenv("VP_DIR"), "case")
	return d, func() { os.RemoveAll(d) }, err
}

func verdict(err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return "accepted"
}

// largeAllocs is the number of bytes ever allocated in objects above 32 KiB (about).
func largeAllocs() int64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	n := int64(ms.TotalAlloc)
	for _, c := range ms.BySize {
		n -= int64(c.Size) * int64(c.Mallocs)
	}
	return n
}

// maxLarge is what parsing an input of a few kilobytes may need at most: tables for 65535 glyphs, per character map.
const maxLarge = 256 << 20

func init() {
	register(&Prop{
		ID:   "C14",
		Rule: "random bytes, random directories and well-formed fonts damaged by 1-6 field, bit, offset, length, tag, truncation and splice changes are parsed and validated from memory, file and stream under a watchdog for processor time and memory; non-trivial: the damaged file differs from a font by at least one change and its directory still decodes",
		Gen: func(t *rapid.T) *Case {
			return &Case{Font: hostile(t, 6), Ints: []int{gen.Pick(t, 4, "via")}}
		},
		Run: runC14, Quick: 20000, Deep: 1000000,
		FromFile: func(data []byte, ctl uint32) *Case { return &Case{Font: data, Ints: []int{int(ctl & 3)}} },
	})

	register(&Prop{
		ID:   "C15",
		Rule: "well-formed and damaged fonts that the parser accepts are used by 1-8 operations with arbitrary arguments (extreme counts, any glyph ids, invalid runes, unknown names); panics, endless loops and memory blow-up are caught, and a failing call is repeated; non-trivial: a damaged or table-deprived font was accepted",
		Gen:  genC15, Run: runC15, Quick: 20000, Deep: 1000000,
		FromFile: func(data []byte, ctl uint32) *Case { return &Case{Font: data, Ops: opsFrom(wildOps, data, ctl)} },
	})

	register(&Prop{
		ID:   "C16",
		Rule: "validation of generated fonts, of all or sampled single-bit changes of them, and of damaged fonts with all, some or no checksums repaired is compared with an independent checksum reference; non-trivial: the file is damaged yet parses, or bits were flipped",
		Gen: func(t *rapid.T) *Case {
			big := gen.Pct(t, 3, "big")
			fi := gen.Font(t, gen.Opts{Small: !big, NoHuge: !big, Mega: big && gen.Pct(t, 20, "mega")})
			c := &Case{Font: fi.Data, Ints: []int{0}}
			switch k := gen.Pick(t, 12, "kind"); {
			case k >= 10:
				wrongSums(t, c.Font)
			case k < 3:
				c.Font = mutate(t, fi.Data, 3)
			case k < 5: // data changed, checksums right or nearly so
				c.Font = mutate(t, fi.Data, 2)
				sfnt.FixChecksums(c.Font)
				if sf, err := sfnt.ReadDir(c.Font); err == nil && len(sf.Dir) > 0 && gen.Pct(t, 50, "spoil") {
					i := gen.Pick(t, len(sf.Dir), "entry")
					p := entryAt(sf, i)[4:]
					be.PutUint32(p, be.Uint32(p)+uint32(1)<<uint(gen.Pick(t, 32, "bit")))
					if gen.Pct(t, 50, "whole") { // so that only that entry is wrong
						fixAdjustment(c.Font)
					}
				}
			case k < 7 && gen.Pct(t, 60, "outside"): // a table, not read by the parser, that leaves the file
				sf, err := sfnt.ReadDir(c.Font)
				if err != nil {
					break
				}
				var free []int
				for i, e := range sf.Dir {
					if _, hot := hotFields[e.Tag]; !hot && e.Tag != "cvt " && e.Tag != "fpgm" && e.Tag != "prep" {
						free = append(free, i)
					}
				}
				if len(free) == 0 {
					break
				}
				d := entryAt(sf, free[gen.Pick(t, len(free), "free")])
				size := uint32(len(c.Font))
				l := uint32(gen.Pick(t, 12, "len"))
				o := size - l + uint32(gen.Pick(t, 9, "past"))
				if gen.Pct(t, 30, "far") {
					o = []uint32{size + 1000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFF}[gen.Pick(t, 5, "farAway")]
				}
				if gen.Pct(t, 20, "huge") {
					l = []uint32{0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, -o, 1 - o}[gen.Pick(t, 5, "hugeLen")]
				}
				be.PutUint32(d[8:], o)
				be.PutUint32(d[12:], l)
				var sum uint32
				if o < size {
					end := uint64(o) + uint64(l)
					if end > uint64(size) {
						end = uint64(size)
					}
					sum = sfnt.Sum(c.Font[o:end]) // of what there is
				}
				be.PutUint32(d[4:], sum)
				fixAdjustment(c.Font)
			case k < 7: // words swapped: the sum stays
				if len(fi.Data) > 40 {
					a, z := 4*anywhere(t, len(fi.Data)/4, "a"), 4*anywhere(t, len(fi.Data)/4, "b")
					x := append([]byte(nil), fi.Data[a:a+4]...)
					copy(c.Font[a:], c.Font[z:z+4])
					copy(c.Font[z:], x)
				}
			default: // bits
				n := 60
				if len(fi.Data) > 1<<17 {
					n = 6
				}
				if n == 60 && !big && gen.Pct(t, 2, "all") {
					c.Ints = []int{1}
				} else {
					for i := 0; i < n; i++ {
						at := anywhere(t, len(fi.Data), "byte")
						if n == 6 && i%2 == 1 { // the directory and what follows it, which a large font would leave out
							at = gen.Pick(t, 500, "byte")
						}
						c.Ints = append(c.Ints, 8*at+gen.Pick(t, 8, "bit"))
					}
				}
			}
			return c
		},
		Run: runC16, Quick: 12000, Deep: 400000, Fixed: realFonts,
		FromFile: func(data []byte, ctl uint32) *Case {
			data = append([]byte(nil), data...)
			if ctl&3 != 0 {
				sfnt.FixChecksums(data)
			}
			if ctl&3 == 3 && len(data) > 0 {
				data[int(ctl>>2)%len(data)] ^= byte(1 + ctl>>24)
			}
			return &Case{Font: data, Ints: []int{0}}
		},
	})

	register(&Prop{
		ID:   "C17",
		Rule: "each generated font is parsed from sources that deliver pieces of random sizes, fail at every read and seek position in turn (once or for good, with or without data), and end at random lengths; the outcome is an error or the bytes of the undisturbed parse; non-trivial: every case (at least 30 disturbed parses each)",
		Gen: func(t *rapid.T) *Case {
			o := gen.Opts{Small: true, NoHuge: true}
			if gen.Pct(t, 2, "big") {
				o.Big = true
			} else if gen.Pct(t, 25, "larger") {
				o = gen.Opts{NoHuge: gen.Pct(t, 70, "noHuge")}
			}
			fi := gen.Font(t, o)
			if o.Big { // the largest table comes last, so that little else is lost when it is cut
				if f, err := sfnt.ReadDir(fi.Data); err == nil {
					at := 0
					for i, e := range f.Dir {
						if e.Length > f.Dir[at].Length {
							at = i
						}
					}
					fi.Data = moveLast(fi.Data, f, at, gen.Pick(t, 6, "gap"))
				}
			}
			return &Case{Font: fi.Data, Ints: []int{int(rapid.Uint32().Draw(t, "seed"))}}
		},
		Run: runC17, Quick: 1500, Deep: 50000,
	})

	register(&Prop{
		ID:   "C18",
		Rule: "fonts and subsets are written to destinations that fail after any number of bytes, to files with longer, shorter or no earlier content, to missing directories and a full device; damaged and good files are parsed and validated by path and from bytes; non-trivial: every case",
		Gen:  genC18, Run: runC18, Quick: 3000, Deep: 80000,
	})
}

// wrongSums spoils a checksum, or the adjustment, of a valid font in place with a value that a sloppy comparison takes
// for right, and makes entries share tags or data.
// anywhere draws a position in [0,n), for any n.
func anywhere(t *rapid.T, n int, label string) int {
	if n <= 1<<20 {
		return gen.Pick(t, n, label)
	}
	return (gen.Pick(t, n>>16+1, label)<<16 | gen.Pick(t, 1<<16, label)) % n
}

func wrongSums(t *rapid.T, b []byte) {
	sf, err := sfnt.ReadDir(b)
	if err != nil || len(sf.Dir) == 0 {
		return
	}
	n := len(sf.Dir)
	if gen.Pct(t, 40, "shared") {
		var free []int
		for i, e := range sf.Dir {
			if _, hot := hotFields[e.Tag]; !hot && e.Tag != "head" && e.Tag != "cvt " && e.Tag != "fpgm" && e.Tag != "prep" {
				free = append(free, i)
			}
		}
		if len(free) > 0 {
			i := free[gen.Pick(t, len(free), "free")]
			j := gen.Pick(t, n, "like")
			if gen.Pct(t, 50, "alsoFree") {
				j = free[gen.Pick(t, len(free), "likeFree")]
			}
			if n > 1 && gen.Pct(t, 40, "likeNext") {
				if j = i - 1; j < 0 {
					j = i + 1
				}
			}
			d, o := entryAt(sf, i), entryAt(sf, j)
			kind := gen.Pick(t, 3, "share")
			if kind != 1 && sf.Dir[j].Tag != "head" {
				copy(d[:4], o[:4])
			}
			if kind != 0 && sf.Dir[j].Tag != "head" {
				copy(d[4:16], o[4:16])
			}
			if gen.Pct(t, 50, "fixed") {
				fixAdjustment(b)
				return
			}
			if gen.Pct(t, 60, "spoilShared") {
				at := i
				if gen.Pct(t, 50, "theOther") {
					at = j
				}
				be.PutUint32(entryAt(sf, at)[4:], be.Uint32(entryAt(sf, at)[4:])+1)
			}
			fixAdjustment(b)
			return
		}
	}
	special := func(v uint32) uint32 {
		return []uint32{0, 0xFFFFFFFF, 0xB1B0AFBA, ^v, -v, v + 1, v - 1, v ^ 0x80000000, v & 0xFFFF, v &^ 0xFFFF, v << 16, v>>24 | v>>8&0xFF00 | v<<8&0xFF0000 | v<<24, be.Uint32(b)}[gen.Pick(t, 13, "special")]
	}
	if gen.Pct(t, 50, "adjustment") {
		for _, e := range sf.Dir {
			if e.Tag == "head" && e.Length >= 12 {
				p := b[e.Offset+8:]
				be.PutUint32(p, special(be.Uint32(p)))
			}
		}
		return
	}
	p := entryAt(sf, gen.Pick(t, n, "entry"))[4:]
	v := special(be.Uint32(p))
	if gen.Pct(t, 20, "ofAnother") {
		v = be.Uint32(entryAt(sf, gen.Pick(t, n, "another"))[4:])
	}
	be.PutUint32(p, v)
	fixAdjustment(b)
}

// fixAdjustment sets the whole-file adjustment without touching the directory.
func fixAdjustment(b []byte) {
	f, err := sfnt.ReadDir(b)
	if err != nil {
		return
	}
	for _, e := range f.Dir {
		if e.Tag == "head" && uint64(e.Offset)+12 <= uint64(len(b)) {
			be.PutUint32(b[e.Offset+8:], sfnt.FileAdjustment(b, int(e.Offset)))
			return
		}
	}
}

// pieces is a stream that delivers its data in small pieces.
type pieces struct {
	r *bytes.Reader
	p gen.PRNG
}

func (s *pieces) Read(b []byte) (int, error) {
	if n := 1 + s.p.N(97); len(b) > n {
		b = b[:n]
	}
	return s.r.Read(b)
}
func (s *pieces) Seek(o int64, w int) (int64, error) { return s.r.Seek(o, w) }

func runC14(c *Case, r *Rec) error {
	if sf, err := sfnt.ReadDir(c.Font); err == nil && len(sf.Dir) > 0 {
		r.Nontrivial()
	}
	via := 0
	if len(c.Ints) > 0 {
		via = c.Ints[0]
	}
	before := largeAllocs()
	f, err := parse(c.Font)
	used := largeAllocs() - before
	if used > maxLarge && len(c.Font) < 16384 {
		return fmt.Errorf("parsing %d bytes allocates %d MB", len(c.Font), used>>20)
	}
	if used > maxLarge/8 {
		r.Label("over %d MB allocated", maxLarge>>23)
	}
	if (f == nil) == (err == nil) {
		return fmt.Errorf("parse returns font %v and error %v", f != nil, err)
	}
	r.Label("%s", strings.SplitN(verdict(err), ":", 2)[0])
	before = largeAllocs()
	verr := unitype.ValidateBytes(c.Font)
	if used := largeAllocs() - before; used > 2*maxLarge && len(c.Font) < 16384 {
		return fmt.Errorf("validating %d bytes allocates %d MB", len(c.Font), used>>20)
	}
	if verr == nil {
		r.Label("valid")
	}
	if err != nil && verr == nil {
		return fmt.Errorf("bytes that do not parse (%v) validate", err)
	}
	switch via {
	case 1, 2:
		g, err2 := unitype.Parse(&pieces{bytes.NewReader(c.Font), gen.PRNG(len(c.Font))})
		if (err == nil) != (err2 == nil) {
			return fmt.Errorf("from memory: %s, from a stream: %s", verdict(err), verdict(err2))
		}
		return sameWritten(f, g, "a stream")
	case 3:
		d, done, e := scratch()
		if e != nil {
			panic(e)
		}
		defer done()
		p := filepath.Join(d, "f.ttf")
		if e := os.WriteFile(p, c.Font, 0o644); e != nil {
			panic(e)
		}
		r.Label("file")
		return byPath(p, c.Font, f, err, verr)
	}
	return nil
}

// sameWritten compares what two parses of the same bytes write.
func sameWritten(f, g *unitype.Font, what string) error {
	if f == nil || g == nil {
		return nil
	}
	a, e1 := write(f)
	b, e2 := write(g)
	if (e1 == nil) != (e2 == nil) || e1 == nil && !bytes.Equal(a, b) {
		return fmt.Errorf("the font parsed from memory writes %d bytes (%v), from %s %d bytes (%v)", len(a), e1, what, len(b), e2)
	}
	return nil
}

func byPath(p string, data []byte, f *unitype.Font, err, verr error) error {
	g, err2 := unitype.ParseFile(p)
	if (err == nil) != (err2 == nil) {
		return fmt.Errorf("from memory: %s, from a file: %s", verdict(err), verdict(err2))
	}
	if e := sameWritten(f, g, "a file"); e != nil {
		return e
	}
	if verr2 := unitype.ValidateFile(p); (verr == nil) != (verr2 == nil) {
		return fmt.Errorf("ValidateBytes: %s, ValidateFile: %s", verdict(verr), verdict(verr2))
	}
	if now, e := os.ReadFile(p); e != nil || !bytes.Equal(now, data) {
		return fmt.Errorf("parsing or validating a file changes it")
	}
	return nil
}

// ---- C15 ----

// opsFrom draws the operations on a file that was not generated here.
func opsFrom(draw func(*rapid.T, int) []Op, data []byte, ctl uint32) []Op {
	n := 10
	if sf, err := sfnt.ReadDir(data); err == nil {
		if x, ok := sf.Table("maxp"); ok && len(x) >= 6 {
			n = int(be.Uint16(x[4:]))
		}
	}
	return rapid.Custom(func(t *rapid.T) []Op { return draw(t, n) }).Example(int(ctl & 0x7FFFFFFF))
}

func wildInt(t *rapid.T, n int) int {
	return []int{0, 1, -1, n, n - 1, n + 1, 65535, 65536, 65537, 1 << 31, -1 << 31, 1<<63 - 1, -1 << 63, gen.Pick(t, n+2, "some"), gen.Pick(t, 66000, "any")}[gen.Pick(t, 15, "wild")]
}

func genC15(t *rapid.T) *Case {
	c := &Case{}
	n := 10
	switch gen.Pick(t, 10, "source") {
	case 0: // well-formed
		fi := gen.Font(t, gen.Opts{Tiny: gen.Pct(t, 40, "tiny"), NoHuge: true})
		c.Font = fi.Data
	case 1, 2: // optional tables missing
		fi := gen.Font(t, gen.Opts{Small: true, NoHuge: true})
		ch := map[string][]byte{}
		for _, tag := range []string{"hmtx", "glyf", "cmap", "name", "post", "OS/2", "cvt ", "fpgm", "prep"} {
			if gen.Pct(t, 30, "drop") {
				ch[tag] = nil
			}
		}
		c.Font = fontWith(fi, ch)
		if gen.Pct(t, 30, "andDamage") {
			c.Font = mutate(t, c.Font, 2)
		}
	default:
		fi := gen.Font(t, gen.Opts{Small: true, NoHuge: true, NeedCmap: gen.Pct(t, 50, "cmap"), Composite: 50, Tiny: gen.Pct(t, 20, "tiny"), Bad: gen.Pct(t, 20, "bad")})
		// Directed damage that tends to be accepted.
		switch gen.Pick(t, 5, "directed") {
		case 0: // outlines
			g := tableOf(fi, "glyf")
			for k := 1 + gen.Pick(t, 4, "n"); k > 0 && len(g) > 0; k-- {
				p := gen.Pick(t, len(g), "at")
				g[p] = byte(gen.Pick(t, 256, "v"))
			}
			if gen.Pct(t, 20, "shorter") && len(g) > 0 {
				g = g[:gen.Pick(t, len(g), "cut")]
			}
			c.Font = fontWith(fi, map[string][]byte{"glyf": g})
		case 1: // metrics, counts
			ch := map[string][]byte{}
			h := tableOf(fi, "hhea")
			be.PutUint16(h[34:], uint16([]int{0, 1, int(be.Uint16(h[34:])) - 1, gen.Pick(t, 20, "nhm")}[gen.Pick(t, 4, "kind")]))
			ch["hhea"] = h
			if gen.Pct(t, 40, "maxp") {
				x := tableOf(fi, "maxp")
				be.PutUint16(x[4:], uint16([]int{0, 1, int(be.Uint16(x[4:])) - 1, gen.Pick(t, 20, "ng")}[gen.Pick(t, 4, "kind")]))
				ch["maxp"] = x
				ch["post"] = nil
			}
			c.Font = fontWith(fi, ch)
		case 2: // names
			x := tableOf(fi, "name")
			for k := 1 + gen.Pick(t, 4, "n"); k > 0 && len(x) > 0; k-- {
				put16or32(t, x, 2*gen.Pick(t, len(x)/2+1, "at"))
			}
			if x != nil {
				c.Font = fontWith(fi, map[string][]byte{"name": x})
			} else {
				c.Font = fi.Data
			}
		case 3: // maps
			x := tableOf(fi, "cmap")
			for k := 1 + gen.Pick(t, 3, "n"); k > 0 && len(x) > 0; k-- {
				put16or32(t, x, 2*gen.Pick(t, len(x)/2+1, "at"))
			}
			if x != nil {
				c.Font = fontWith(fi, map[string][]byte{"cmap": x})
			} else {
				c.Font = fi.Data
			}
		default:
			c.Font = mutate(t, fi.Data, 3)
		}
	}
	if sf, err := sfnt.ReadDir(c.Font); err == nil {
		if x, ok := sf.Table("maxp"); ok && len(x) >= 6 {
			n = int(be.Uint16(x[4:]))
		}
	}
	c.Ops = wildOps(t, n)
	return c
}

// wildOps draws operations with any arguments, for a font of about n glyphs.
func wildOps(t *rapid.T, n int) (ops []Op) {
	for k := 1 + gen.Pick(t, 8, "ops"); k > 0; k-- {
		o := Op{Font: gen.Pick(t, 4, "which")}
		switch gen.Pick(t, 14, "op") {
		case 0, 1:
			o.Kind, o.Ints = "first", []int{wildInt(t, n)}
		case 2, 3:
			o.Kind = "keep"
			inside := gen.Pct(t, 50, "inside")
			for j := gen.Pick(t, 6, "gids"); j > 0; j-- {
				if inside {
					o.Ints = append(o.Ints, gen.Pick(t, n+1, "gid"))
				} else {
					o.Ints = append(o.Ints, wildInt(t, n)&0xFFFF)
				}
			}
		case 4, 5:
			o.Kind, o.Runes = "runes", wildRunes(t)
		case 6:
			o.Kind, o.Strs = "prune", drawPrune(t)
		case 7:
			o.Kind = "optimize"
		case 8:
			o.Kind = "write"
		case 9:
			o.Kind, o.Ints = "getcmap", []int{wildInt(t, 4), wildInt(t, 11)}
		case 10:
			o.Kind, o.Runes = "lookup", wildRunes(t)
		case 11:
			o.Kind, o.Ints = "name", []int{wildInt(t, 20)}
		case 12:
			o.Kind, o.Ints = "offset", []int{wildInt(t, n) & 0xFFFF}
		case 13:
			o.Kind, o.Ints = "subset", []int{wildInt(t, n) & 0xFFFF}
		}
		ops = append(ops, o)
	}
	return ops
}

func wildRunes(t *rapid.T) []rune {
	var out []rune
	for j := gen.Pick(t, 6, "runes"); j > 0; j-- {
		out = append(out, []rune{0x41, 0x61, 0x20, -1, 0xD800, 0xDFFF, 0xFFFD, 0xFFFF, 0x10FFFF, 0x110000, 1<<31 - 1, -1 << 31, 0, gen.Rune(t)}[gen.Pick(t, 14, "rune")])
	}
	return out
}

func runC15(c *Case, r *Rec) error {
	f, err := parse(c.Font)
	if err != nil {
		r.Label("refused")
		return nil
	}
	_, derr := sfnt.Decode(c.Font)
	if derr != nil {
		r.Label("malformed, accepted")
		r.Nontrivial()
	}
	pool := []*unitype.Font{f}
	for i, o := range c.Ops {
		f := pool[o.Font%len(pool)]
		r.Label("op %s", o.Kind)
		var made *unitype.Font
		call := func() error {
			made = nil
			switch o.Kind {
			case "first", "keep", "runes", "prune", "optimize":
				g, err := applyOp(f, o)
				if err == nil && g != f {
					made = g
				}
				if (g == nil) && err == nil {
					return &panicError{val: "no font and no error"}
				}
				return err
			case "write":
				_, err := write(f)
				return err
			case "getcmap":
				f.GetCmap(o.Ints[0], o.Ints[1])
			case "lookup":
				if n := len(f.LookupRunes(o.Runes)); n != len(o.Runes) {
					return &panicError{val: fmt.Sprintf("%d glyphs for %d runes", n, len(o.Runes))}
				}
			case "name":
				f.GetNameByID(o.Ints[0])
				f.GetNameRecords()
			case "offset":
				_, _, err := f.GetGlyphDataOffset(gid(o.Ints[0]))
				return err
			case "subset":
				_, _, err := f.Subset(gids(o.Ints))
				return err
			}
			return nil
		}
		what := fmt.Sprintf("step %d: %s %v %U %q on font %d of the pool", i, o.Kind, o.Ints, o.Runes, o.Strs, o.Font%len(pool))
		err := try(call)
		if p, ok := err.(*panicError); ok {
			return fmt.Errorf("%s: %v", what, p)
		}
		if err != nil {
			r.Label("failing call")
			for k := 0; k < 2; k++ {
				err2 := try(call)
				if err2 == nil || err2.Error() != err.Error() {
					return fmt.Errorf("%s: fails with %q, and when repeated gives %s", what, err, verdict(err2))
				}
			}
			continue
		}
		if made != nil && len(pool) < 5 {
			pool = append(pool, made)
		}
	}
	for i, f := range pool {
		err := try(func() error {
			for _, tb := range append([]string{"name"}, infoTables...) {
				_ = f.TableInfo(tb)
			}
			_ = f.String()
			f.GetNameRecords()
			f.LookupRunes([]rune{0x41, -1})
			for g := 0; g < 10; g++ {
				f.GetGlyphDataOffset(gid(g))
			}
			return nil
		})
		if err != nil {
			return fmt.Errorf("describing font %d of the pool: %v", i, err)
		}
		_, e1 := write1(f)
		_, e2 := write1(f)
		for _, e := range []error{e1, e2} {
			if p, ok := e.(*panicError); ok {
				return fmt.Errorf("writing font %d of the pool: %v", i, p)
			}
		}
		if verdict(e1) != verdict(e2) {
			return fmt.Errorf("writing font %d of the pool: %s, and when repeated %s", i, verdict(e1), verdict(e2))
		}
	}
	return nil
}

func write1(f *unitype.Font) (b []byte, err error) {
	err = try(func() error {
		var e error
		b, e = write(f)
		return e
	})
	return b, err
}

// ---- C16 ----

func runC16(c *Case, r *Rec) error {
	sf, derr := sfnt.ReadDir(c.Font)
	heads := 0
	if derr == nil {
		for _, e := range sf.Dir {
			if strings.TrimRight(e.Tag, " \x00") == "head" {
				heads++
			}
		}
	}
	if heads > 1 {
		r.Label("two headers") // whose adjustment counts is open
		return nil
	}
	_, perr := parse(c.Font)
	verr := unitype.ValidateBytes(c.Font)
	var want error
	if perr != nil {
		want = perr
		r.Label("does not parse")
	} else if derr != nil {
		want = derr
	} else {
		want = sf.ChecksumsValid()
	}
	if (want == nil) != (verr == nil) {
		return fmt.Errorf("validation gives %s, the reference says %s", verdict(verr), verdict(want))
	}
	if want != nil {
		r.Label("invalid")
		if perr == nil {
			r.Label("invalid, but parses")
			r.Nontrivial()
		}
	} else {
		r.Label("valid")
	}
	if len(c.Ints) == 0 || want != nil {
		return nil
	}
	flip := func(bit int) error {
		b := c.Font
		b[bit/8] ^= 1 << uint(bit%8)
		err := unitype.ValidateBytes(b)
		b[bit/8] ^= 1 << uint(bit%8)
		if err == nil {
			return fmt.Errorf("changing bit %d of byte %d (of %d) of a valid font goes unnoticed", bit%8, bit/8, len(b))
		}
		return nil
	}
	if c.Ints[0] == 1 {
		r.Label("every bit flipped")
		r.Nontrivial()
		step := 1
		if len(c.Font) > 8000 {
			step = 1 + len(c.Font)/8000*7
		}
		for bit := 0; bit < 8*len(c.Font); bit += step {
			if err := flip(bit); err != nil {
				return err
			}
		}
		return nil
	}
	for _, bit := range c.Ints[1:] {
		r.Nontrivial()
		r.Label("bits flipped")
		if err := flip(bit % (8 * len(c.Font))); err != nil {
			return err
		}
	}
	return nil
}

// ---- C17 ----

var errInjected = errors.New("injected fault")

// faulty is a source with disturbances.
type faulty struct {
	data    []byte
	pos     int64
	piece   func() int // size of the next piece; 0: nothing this time
	eofWith bool       // end of file together with the last data
	failAt  int        // number of the call that fails; -1: none
	forever bool
	partial bool  // some data along with the error
	seeks   bool  // count seeks instead of reads
	err     error // what it fails with (nil: errInjected)
	calls   int
	hit     bool
}

func (f *faulty) failure() error {
	if f.err != nil {
		return f.err
	}
	return errInjected
}

func (f *faulty) fault(seek bool) bool {
	if seek != f.seeks {
		return f.hit && f.forever
	}
	n := f.calls
	f.calls++
	if f.failAt >= 0 && (n == f.failAt || f.forever && n > f.failAt) {
		f.hit = true
		return true
	}
	return f.hit && f.forever
}

func (f *faulty) Read(b []byte) (int, error) {
	fail := f.fault(false)
	if len(b) == 0 {
		return 0, nil
	}
	if fail && !f.partial {
		return 0, f.failure()
	}
	if f.pos >= int64(len(f.data)) {
		if fail {
			return 0, f.failure()
		}
		return 0, io.EOF
	}
	if f.piece != nil {
		if n := f.piece(); n < len(b) {
			b = b[:n]
		}
	}
	if fail {
		b = b[:len(b)/2]
	}
	n := copy(b, f.data[f.pos:])
	f.pos += int64(n)
	if fail {
		return n, f.failure()
	}
	if f.eofWith && f.pos == int64(len(f.data)) {
		return n, io.EOF
	}
	return n, nil
}

func (f *faulty) Seek(o int64, w int) (int64, error) {
	if f.fault(true) {
		return 0, errInjected
	}
	switch w {
	case io.SeekCurrent:
		o += f.pos
	case io.SeekEnd:
		o += int64(len(f.data))
	}
	if o < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = o
	return o, nil
}

func runC17(c *Case, r *Rec) error {
	p := gen.PRNG(c.Ints[0])
	r.Nontrivial()
	f, err := mustParse(c.Font)
	if err != nil {
		return err
	}
	want, err := mustWrite(f)
	if err != nil {
		return err
	}
	texts := func(f *unitype.Font) []string {
		post := strings.SplitN(f.TableInfo("post"), "&", 2)[0] // a dump of internals follows
		return []string{namesString(f.GetNameRecords()), f.String(), post, f.TableInfo("cmap"), f.TableInfo("glyf")}
	}
	said := texts(f)
	judge := func(src io.ReadSeeker, mayFail bool, format string, a ...interface{}) error {
		g, err := unitype.Parse(src)
		what := fmt.Sprintf(format, a...)
		if err != nil {
			if !mayFail {
				return fmt.Errorf("%s: refused: %v", what, err)
			}
			return nil
		}
		if g == nil {
			return fmt.Errorf("%s: no font and no error", what)
		}
		b, err := mustWrite(g)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if !bytes.Equal(b, want) {
			return fmt.Errorf("%s: accepted, but the font differs (%s)", what, firstDiff(want, b))
		}
		for i, s := range texts(g) {
			if s != said[i] {
				return fmt.Errorf("%s: accepted, but the font differs: it says\n%s\ninstead of\n%s", what, clip(s), clip(said[i]))
			}
		}
		return nil
	}
	// Pieces.
	for _, pc := range []struct {
		name string
		f    func() int
	}{{"1 byte", func() int { return 1 }}, {"2 bytes", func() int { return 2 }}, {"3 bytes", func() int { return 3 }}, {"random pieces", func() int { return 1 + p.N(40) }},
		{"large pieces", func() int { return 1 + p.N(5000) }}, {"random pieces with empty reads", func() int { return p.N(30) }}} {
		for _, eof := range []bool{false, true} {
			if err := judge(&faulty{data: c.Font, piece: pc.f, failAt: -1, eofWith: eof}, false, "source delivering %s, end with data %v", pc.name, eof); err != nil {
				return err
			}
		}
	}
	// Faults at every call. With small pieces every field of every table is the first one of some read.
	size := []int{1, 2, 2, 3, 4, 7, 61}[p.N(7)]
	failure := []error{errInjected, errInjected, io.ErrUnexpectedEOF, io.EOF, os.ErrDeadlineExceeded, io.ErrNoProgress}[p.N(6)]
	r.Label("failing with: %v", failure)
	for _, seeks := range []bool{false, true} {
		for _, pieced := range []bool{false, true} {
			piece := func() func() int {
				if !pieced {
					return nil
				}
				return func() int { return size }
			}
			count := &faulty{data: c.Font, failAt: -1, seeks: seeks, piece: piece()}
			if err := judge(count, false, "counting"); err != nil {
				return err
			}
			step, most := 1, 200
			if len(c.Font) > 20000 {
				most = 20 + 180*20000/len(c.Font)
			}
			if count.calls > most {
				step = count.calls / most
			}
			for k := p.N(step); k < count.calls; k += step {
				for mode := 0; mode < 4; mode++ {
					src := &faulty{data: c.Font, failAt: k, seeks: seeks, forever: mode&1 != 0, partial: mode&2 != 0, piece: piece(), err: failure}
					if seeks && src.partial {
						continue
					}
					if err := judge(src, true, "failure of %s %d of %d (in pieces: %v, for good: %v, with some data: %v, error: %v)", map[bool]string{true: "seek", false: "read"}[seeks], k, count.calls, pieced, src.forever, src.partial, failure); err != nil {
						return err
					}
				}
			}
			r.Label("%s", map[bool]string{true: "seek failures", false: "read failures"}[seeks])
		}
	}
	// Truncation.
	step := 1
	if len(c.Font) > 65536 {
		step = len(c.Font) / 40
	} else if len(c.Font) > 20000 {
		step = len(c.Font) / 100
	} else if len(c.Font) > 300 {
		step = len(c.Font) / 300
	}
	for n := p.N(step); n < len(c.Font); n += step {
		if err := judge(bytes.NewReader(c.Font[:n]), true, "the file cut to %d of %d bytes", n, len(c.Font)); err != nil {
			return err
		}
	}
	// Cut at table boundaries.
	if sf, err := sfnt.ReadDir(c.Font); err == nil {
		for _, e := range sf.Dir {
			for _, n := range []int{int(e.Offset), int(e.Offset) + 1, int(e.Offset+e.Length) - 1, int(e.Offset + e.Length)} {
				if n < 0 || n >= len(c.Font) {
					continue
				}
				if err := judge(bytes.NewReader(c.Font[:n]), true, "the file cut to %d of %d bytes, at table %q", n, len(c.Font), e.Tag); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// ---- C18 ----

func genC18(t *rapid.T) *Case {
	fi := gen.Font(t, gen.Opts{NoHuge: gen.Pct(t, 90, "noHuge"), MinGlyphs: 1, Mega: gen.Pct(t, 1, "mega") && gen.Pct(t, 50, "mega2")})
	m := model(fi.Data)
	c := &Case{Font: fi.Data, Ops: drawOps(t, m, 1), Ints: []int{int(rapid.Uint32().Draw(t, "seed")), gen.Pick(t, 5, "earlier")}}
	if gen.Pct(t, 40, "damaged") {
		c.More = [][]byte{mutate(t, fi.Data, 3)}
	} else {
		c.More = [][]byte{fi.Data}
	}
	return c
}

// limited accepts n bytes.
type limited struct {
	got     []byte
	n       int
	partial bool
	err     error
}

func (w *limited) Write(b []byte) (int, error) {
	if len(w.got)+len(b) <= w.n {
		w.got = append(w.got, b...)
		return len(b), nil
	}
	k := 0
	if w.partial {
		k = w.n - len(w.got)
		w.got = append(w.got, b[:k]...)
	}
	w.n = len(w.got) // nothing more
	return k, w.err
}

// hiccup fails at one call only.
type hiccup struct {
	got     []byte
	calls   int
	failAt  int
	partial bool
	short   bool // takes part of the data without an error
	err     error
}

func (w *hiccup) Write(b []byte) (int, error) {
	n := w.calls
	w.calls++
	if n == w.failAt {
		k := 0
		if w.partial {
			k = len(b) / 2
		}
		w.got = append(w.got, b[:k]...)
		if w.short {
			return k, nil
		}
		return k, w.err
	}
	w.got = append(w.got, b...)
	return len(b), nil
}

var ignoreSize sync.Once

// withFileLimit runs f while no file can grow beyond n bytes.
func withFileLimit(n int, f func() error) error {
	ignoreSize.Do(func() { signal.Ignore(syscall.SIGXFSZ) }) // writes fail with EFBIG then
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}); err != nil {
		panic(err)
	}
	defer func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(err)
		}
	}()
	return f()
}

func runC18(c *Case, r *Rec) error {
	p := gen.PRNG(c.Ints[0])
	r.Nontrivial()
	f, err := replayOps(c.Font, c.Ops)
	if err != nil {
		return err
	}
	full, err := mustWrite(f)
	if err != nil {
		return err
	}
	failure := []error{errInjected, errInjected, io.EOF, io.ErrShortWrite, os.ErrDeadlineExceeded, io.ErrClosedPipe}[p.N(6)]
	r.Label("failing with: %v", failure)
	limits := []int{0, 1, 11, 12, 13, len(full) - 1, len(full), len(full) + 1, len(full) / 2}
	random, calls := 12, 60
	if len(full) > 1<<18 {
		random, calls = 3, 8
	}
	if len(full) > 1<<20 {
		r.Label("above 1 MiB")
	}
	for i := 0; i < random; i++ {
		limits = append(limits, p.N(len(full)))
	}
	for _, n := range limits {
		for _, partial := range []bool{true, false} {
			w := &limited{n: n, partial: partial, err: failure}
			err := f.Write(w)
			if n >= len(full) {
				if err != nil || !bytes.Equal(w.got, full) {
					return fmt.Errorf("destination with room for %d of %d bytes: error %v, %d bytes", n, len(full), err, len(w.got))
				}
				continue
			}
			if err == nil {
				return fmt.Errorf("destination failing after %d of %d bytes (takes part of a write: %v): no error", n, len(full), partial)
			}
			if !bytes.HasPrefix(full, w.got) {
				return fmt.Errorf("destination failing after %d of %d bytes got something else than a prefix", n, len(full))
			}
		}
	}
	count := &hiccup{failAt: -1}
	if err := f.Write(count); err != nil || !bytes.Equal(count.got, full) {
		return fmt.Errorf("second write: error %v, %d bytes, %d before", err, len(count.got), len(full))
	}
	for k, step := 0, 1+count.calls/calls; k < count.calls; k += step {
		for _, partial := range []bool{true, false} {
			w := &hiccup{failAt: k, partial: true, short: true}
			if err := f.Write(w); err == nil && !bytes.Equal(w.got, full) || !bytes.HasPrefix(full, w.got) {
				return fmt.Errorf("destination taking only part of the data of call %d of %d: error %v, got %d of %d bytes", k, count.calls, err, len(w.got), len(full))
			}
			w = &hiccup{failAt: k, partial: partial, err: failure}
			if err := f.Write(w); err == nil {
				return fmt.Errorf("destination failing once, at call %d of %d (takes part of the data: %v): no error", k, count.calls, partial)
			}
			if !bytes.HasPrefix(full, w.got) {
				return fmt.Errorf("destination failing once, at call %d of %d (takes part of the data: %v) got something else than a prefix", k, count.calls, partial)
			}
		}
	}
	d, done, err := scratch()
	if err != nil {
		panic(err)
	}
	defer done()
	path := filepath.Join(d, "out.ttf")
	switch c.Ints[1] {
	case 0:
		r.Label("new file")
	case 1:
		r.Label("longer file before")
		os.WriteFile(path, bytes.Repeat([]byte{0xEE}, len(full)+1+p.N(5000)), 0o644)
	case 2:
		r.Label("shorter file before")
		os.WriteFile(path, bytes.Repeat([]byte{0xEE}, p.N(len(full))), 0o644)
	case 3:
		r.Label("same length before")
		os.WriteFile(path, bytes.Repeat([]byte{0xEE}, len(full)), 0o644)
	case 4:
		r.Label("overwriting its own source")
		os.WriteFile(path, c.Font, 0o644)
		g, err := unitype.ParseFile(path)
		if err != nil {
			return err
		}
		for _, o := range c.Ops {
			if g, err = applyOp(g, o); err != nil {
				return err
			}
		}
		f = g
	}
	if err := f.WriteFile(path); err != nil {
		return fmt.Errorf("WriteFile: %v", err)
	}
	if got, err := os.ReadFile(path); err != nil || !bytes.Equal(got, full) {
		return fmt.Errorf("WriteFile leaves %d bytes, Write gives %d (%s)", len(got), len(full), firstDiff(full, got))
	}
	if err := f.WriteFile(path); err != nil {
		return fmt.Errorf("second WriteFile: %v", err)
	}
	if got, err := os.ReadFile(path); err != nil || !bytes.Equal(got, full) {
		return fmt.Errorf("the second WriteFile leaves %d bytes, Write gives %d", len(got), len(full))
	}
	bad := []string{filepath.Join(d, "missing", "out.ttf"), d, filepath.Join(path, "out.ttf"), ""}
	for _, b := range bad {
		if err := f.WriteFile(b); err == nil {
			return fmt.Errorf("WriteFile(%q) reports success", strings.Replace(b, d, "DIR", 1))
		}
	}
	if _, err := os.Stat(filepath.Join(d, "missing")); err == nil {
		return fmt.Errorf("WriteFile to a missing directory creates it")
	}
	// A disk that fills up.
	for i, n := range []int{0, 1 + p.N(len(full)-1), len(full) - 1, len(full)} {
		path := filepath.Join(d, fmt.Sprintf("full%d.ttf", i))
		err := withFileLimit(n, func() error { return f.WriteFile(path) })
		got, rerr := os.ReadFile(path)
		switch {
		case n >= len(full) && (err != nil || !bytes.Equal(got, full)):
			return fmt.Errorf("WriteFile where there is room for %d of %d bytes: error %v, %d bytes", n, len(full), err, len(got))
		case n < len(full) && err == nil:
			return fmt.Errorf("WriteFile where there is room for %d of %d bytes reports success and leaves %d", n, len(full), len(got))
		case rerr == nil && !bytes.HasPrefix(full, got):
			return fmt.Errorf("WriteFile where there is room for %d of %d bytes leaves something else than a prefix", n, len(full))
		}
	}
	r.Label("full disk")
	// By path and from bytes.
	for _, b := range c.More {
		in := filepath.Join(d, "in.ttf")
		if err := os.WriteFile(in, b, 0o644); err != nil {
			panic(err)
		}
		g, err := parse(b)
		verr := unitype.ValidateBytes(b)
		r.Label("by path: %s", strings.SplitN(verdict(err), ":", 2)[0])
		if e := byPath(in, b, g, err, verr); e != nil {
			return e
		}
	}
	for _, b := range []string{filepath.Join(d, "nothing.ttf"), d} {
		if _, err := unitype.ParseFile(b); err == nil {
			return fmt.Errorf("ParseFile of something that is not a file succeeds")
		}
		if err := unitype.ValidateFile(b); err == nil {
			return fmt.Errorf("ValidateFile of something that is not a file succeeds")
		}
	}
	return nil
}
