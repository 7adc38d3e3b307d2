package checks

import (
	"github.com/unidoc/unitype/verifharness/gen"
	"github.com/unidoc/unitype/verifharness/sfnt"
	"pgregory.net/rapid"
)

var odd16 = []int{0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 255, 256, 257, 258, 259}
var odd32 = []uint32{0, 1, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFF0, 0x00FFFFFF, 0x40000000, 0x00010000, 0x00020000, 0x00025000, 0x00030000, 0x10FFFF, 0x10FFFE}

// interesting fields of tables: offsets at which counts, versions, formats, lengths are found.
var hotFields = map[string][]int{
	"head": {0, 2, 12, 14, 16, 18, 50, 52},
	"maxp": {0, 2, 4},
	"hhea": {0, 34, 32},
	"post": {0, 2, 32, 34, 36, 38, 40},
	"name": {0, 2, 4, 6, 8, 10, 12, 14, 16, 18},
	"cmap": {0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54, 56, 58, 60},
	"OS/2": {0, 68, 76, 78},
	"loca": {0, 2, 4, 6, 8, 10, 12},
	"glyf": {0, 2, 10, 12, 14, 16},
	"hmtx": {0, 2},
}

// mutate damages a font file in place or returns a new one: 1 to n changes.
func mutate(t *rapid.T, data []byte, n int) []byte {
	b := append([]byte(nil), data...)
	for k := 1 + gen.Pick(t, n, "changes"); k > 0; k-- {
		if gen.Pct(t, 50, "directed") {
			b = directed(t, b)
		} else {
			b = mutateOnce(t, b)
		}
	}
	if gen.Pct(t, 25, "fixSums") {
		sfnt.FixChecksums(b)
	}
	return b
}

func entryAt(f *sfnt.File, i int) []byte { return f.Data[12+16*i:] }

func mutateOnce(t *rapid.T, b []byte) []byte {
	f, err := sfnt.ReadDir(b)
	if err != nil || len(f.Dir) == 0 {
		if len(b) > 0 {
			b[gen.Pick(t, len(b), "byte")] = byte(gen.Pick(t, 256, "val"))
		}
		return b
	}
	n := len(f.Dir)
	// The position of a table's data, if it is in the file.
	pick := func() (sfnt.DirEntry, int, bool) {
		i := gen.Pick(t, n, "table")
		e := f.Dir[i]
		return e, i, uint64(e.Offset)+uint64(e.Length) <= uint64(len(b))
	}
	switch gen.Pick(t, 16, "mutation") {
	case 0, 1, 2, 3: // a field that counts something
		e, _, ok := pick()
		hot := hotFields[e.Tag]
		if !ok || len(hot) == 0 {
			break
		}
		put16or32(t, b[e.Offset:e.Offset+e.Length], hot[gen.Pick(t, len(hot), "field")])
	case 4, 5: // any field
		e, _, ok := pick()
		if !ok || e.Length < 2 {
			break
		}
		put16or32(t, b[e.Offset:e.Offset+e.Length], 2*gen.Pick(t, int(e.Length)/2, "word"))
	case 6: // a bit
		p := gen.Pick(t, len(b), "byte")
		b[p] ^= 1 << uint(gen.Pick(t, 8, "bit"))
	case 7: // directory: offset
		_, i, _ := pick()
		d := entryAt(f, i)
		v := odd32[gen.Pick(t, len(odd32), "odd")]
		switch gen.Pick(t, 4, "offKind") {
		case 0:
			v = uint32(gen.Pick(t, len(b)+8, "off"))
		case 1:
			v = be.Uint32(d[8:]) + uint32(gen.Pick(t, 9, "shift")) - 4
		case 2:
			v = f.Dir[gen.Pick(t, n, "other")].Offset
		}
		be.PutUint32(d[8:], v)
	case 8: // directory: length
		_, i, _ := pick()
		d := entryAt(f, i)
		v := odd32[gen.Pick(t, len(odd32), "odd")]
		switch gen.Pick(t, 3, "lenKind") {
		case 0:
			v = be.Uint32(d[12:]) + uint32(gen.Pick(t, 9, "shift")) - 4
		case 1:
			v = uint32(gen.Pick(t, len(b)+8, "len"))
		}
		be.PutUint32(d[12:], v)
	case 9: // directory: tags
		_, i, _ := pick()
		j := gen.Pick(t, n, "other")
		d, o := entryAt(f, i), entryAt(f, j)
		switch gen.Pick(t, 3, "tagKind") {
		case 0: // swap
			x := append([]byte(nil), d[:4]...)
			copy(d, o[:4])
			copy(o, x)
		case 1:
			copy(d, []string{"zzzz", "glyf", "cmap", "name", "post", "head", "loca", "hmtx", "cvt ", "OS/2"}[gen.Pick(t, 10, "tag")])
		case 2:
			copy(d[4:16], append([]byte(nil), o[4:16]...))
		}
	case 10: // number of tables
		be.PutUint16(b[4:], uint16([]int{n - 1, n + 1, 0, 1, 0xFFFF, n / 2}[gen.Pick(t, 6, "num")]))
	case 11: // cut
		return b[:gen.Pick(t, len(b)+1, "cut")]
	case 12: // a table is cut or filled
		e, i, ok := pick()
		if !ok || e.Length == 0 {
			break
		}
		if gen.Pct(t, 50, "shorter") {
			be.PutUint32(entryAt(f, i)[12:], uint32(gen.Pick(t, int(e.Length), "newLen")))
			break
		}
		a := gen.Pick(t, int(e.Length), "from")
		z := a + 1 + gen.Pick(t, int(e.Length)-a, "to")
		v := byte([]int{0, 0xFF, 0x80, 0x7F, 1}[gen.Pick(t, 5, "fill")])
		for ; a < z; a++ {
			b[int(e.Offset)+a] = v
		}
	case 13: // part of the file is overwritten by another part
		a, z := gen.Pick(t, len(b), "src"), gen.Pick(t, len(b), "dst")
		l := 1 + gen.Pick(t, 64, "n")
		for i := 0; i < l && a+i < len(b) && z+i < len(b); i++ {
			b[z+i] = b[a+i]
		}
	case 14: // a few random bytes
		p := gen.Pick(t, len(b), "at")
		for i := 1 + gen.Pick(t, 6, "n"); i > 0 && p < len(b); i-- {
			b[p] = byte(gen.Pick(t, 256, "val"))
			p++
		}
	case 15: // a table disappears
		_, i, _ := pick()
		copy(b[12+16*i:], "gone")
	}
	return b
}

func put16or32(t *rapid.T, d []byte, o int) {
	if o+4 <= len(d) && gen.Pct(t, 30, "wide") {
		v := odd32[gen.Pick(t, len(odd32), "odd")]
		if gen.Pct(t, 30, "near") {
			v = be.Uint32(d[o:]) + uint32(gen.Pick(t, 9, "shift")) - 4
		}
		be.PutUint32(d[o:], v)
		return
	}
	if o+2 > len(d) {
		return
	}
	v := odd16[gen.Pick(t, len(odd16), "odd")]
	switch gen.Pick(t, 3, "valKind") {
	case 0:
		v = int(be.Uint16(d[o:])) + gen.Pick(t, 9, "shift") - 4
	case 1:
		v = gen.Pick(t, 65536, "any")
	}
	be.PutUint16(d[o:], uint16(v))
}

// hostile draws bytes to be given as a font.
func hostile(t *rapid.T, changes int) []byte {
	switch k := gen.Pick(t, 20, "hostile"); {
	case k == 0:
		n := gen.Pick(t, 300, "n")
		p := gen.PRNG(rapid.Uint32().Draw(t, "seed"))
		return p.Bytes(n)
	case k == 1: // a directory with random entries
		n := gen.Pick(t, 12, "n")
		p := gen.PRNG(rapid.Uint32().Draw(t, "seed"))
		b := append([]byte{0, 1, 0, 0, 0, byte(n)}, p.Bytes(6)...)
		tags := []string{"head", "maxp", "hhea", "hmtx", "loca", "glyf", "name", "post", "cmap", "OS/2", "cvt ", "prep"}
		for i := 0; i < n; i++ {
			b = append(b, tags[gen.Pick(t, len(tags), "tag")]...)
			b = append(b, 0, 0, 0, 0, 0, 0, byte(p.N(4)), byte(p.N(256)), 0, 0, byte(p.N(3)), byte(p.N(256)))
		}
		return append(b, p.Bytes(gen.Pick(t, 1500, "body"))...)
	default:
		return mutate(t, gen.Font(t, gen.Opts{Small: true, NoHuge: true}).Data, changes)
	}
}
