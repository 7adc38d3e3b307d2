package checks

import (
	"github.com/unidoc/unitype/verifharness/gen"
	"github.com/unidoc/unitype/verifharness/sfnt"
	"pgregory.net/rapid"
)

// directed damages one structure of a font: it finds the counts, offsets, arrays and records of a table and makes one
// of them wrong.  Unlike mutateOnce it changes several fields together where one alone is noticed at once.
func directed(t *rapid.T, b []byte) []byte {
	f, err := sfnt.ReadDir(b)
	if err != nil || len(f.Dir) == 0 {
		return b
	}
	at := map[string]int{}
	for i, e := range f.Dir {
		if _, dup := at[e.Tag]; !dup && uint64(e.Offset)+uint64(e.Length) <= uint64(len(b)) {
			at[e.Tag] = i
		}
	}
	table := func(tag string) []byte {
		i, ok := at[tag]
		if !ok {
			return nil
		}
		e := f.Dir[i]
		return b[e.Offset : e.Offset+e.Length]
	}
	u16 := func(d []byte, o int) int {
		if o < 0 || o+2 > len(d) {
			return 0
		}
		return int(be.Uint16(d[o:]))
	}
	set16 := func(d []byte, o, v int) {
		if o >= 0 && o+2 <= len(d) {
			be.PutUint16(d[o:], uint16(v))
		}
	}
	set32 := func(d []byte, o int, v uint32) {
		if o >= 0 && o+4 <= len(d) {
			be.PutUint32(d[o:], v)
		}
	}
	any16 := func(near int) int {
		switch gen.Pick(t, 4, "v16") {
		case 0:
			return near + gen.Pick(t, 7, "near") - 3
		case 1:
			return gen.Pick(t, 65536, "any")
		}
		return odd16[gen.Pick(t, len(odd16), "odd")]
	}
	any32 := func(near uint32) uint32 {
		switch gen.Pick(t, 4, "v32") {
		case 0:
			return near + uint32(gen.Pick(t, 7, "near")) - 3
		case 1:
			return uint32(gen.Pick(t, len(b)+16, "any"))
		}
		return odd32[gen.Pick(t, len(odd32), "odd")]
	}
	longLoca := u16(table("head"), 50) == 1
	numGlyphs := u16(table("maxp"), 4)

	switch gen.Pick(t, 14, "directed") {
	case 0, 1, 2, 3: // character maps
		d := table("cmap")
		n := u16(d, 2)
		if n == 0 || len(d) < 4+8*n {
			return b
		}
		rec := 4 + 8*gen.Pick(t, n, "rec")
		o := int(be.Uint32(d[rec+4:]))
		if gen.Pct(t, 15, "record") {
			switch gen.Pick(t, 4, "recField") {
			case 0:
				set16(d, rec, any16(3))
			case 1:
				set16(d, rec+2, any16(1))
			case 2:
				set32(d, rec+4, any32(uint32(o)))
			default:
				set32(d, rec+4, uint32(gen.Pick(t, len(d)+1, "off")))
			}
			return b
		}
		if o < 0 || o+6 > len(d) {
			return b
		}
		s := d[o:]
		if gen.Pct(t, 8, "format") {
			set16(s, 0, []int{0, 2, 4, 6, 8, 10, 12, 13, 14, any16(4)}[gen.Pick(t, 10, "fmt")])
			return b
		}
		switch u16(s, 0) {
		case 4:
			segs := u16(s, 6) / 2
			for k := 1 + gen.Pick(t, 3, "n"); k > 0; k-- {
				i := gen.Pick(t, segs+1, "seg")
				if gen.Pct(t, 40, "lastSegs") && segs >= 2 {
					i = segs - 2
				}
				switch gen.Pick(t, 8, "f4") {
				case 0: // end code
					set16(s, 14+2*i, any16(0xFFFF))
				case 1: // start code
					set16(s, 16+2*segs+2*i, any16(u16(s, 14+2*i)))
				case 2:
					set16(s, 16+4*segs+2*i, any16(0))
				case 3, 4:
					set16(s, 16+6*segs+2*i, []int{0, 1, 2, 2 * (segs - i), 2 * gen.Pick(t, len(s), "ro"), 0xFFFF, 0xFFFE, 0x8000}[gen.Pick(t, 8, "rangeOffset")])
				case 5:
					set16(s, 6, any16(2*segs))
				case 6:
					set16(s, 2, any16(u16(s, 2)))
				case 7: // a whole segment
					set16(s, 14+2*i, 0xFFFF)
					set16(s, 16+2*segs+2*i, any16(0))
					set16(s, 16+6*segs+2*i, 0)
				}
			}
		case 6:
			set16(s, []int{2, 6, 8, 8, 10}[gen.Pick(t, 5, "f6")], any16(u16(s, 8)))
		case 12, 13:
			if len(s) < 16 {
				return b
			}
			ng := int(be.Uint32(s[12:]))
			i := 0
			if ng > 0 && ng < 100000 {
				i = gen.Pick(t, ng, "group")
			}
			for k := 1 + gen.Pick(t, 2, "n"); k > 0; k-- {
				switch gen.Pick(t, 6, "f12") {
				case 0:
					set32(s, 12, any32(uint32(ng)))
				case 1:
					set32(s, 4, any32(uint32(len(s))))
				case 2:
					set32(s, 16+12*i, any32(0))
				case 3:
					set32(s, 20+12*i, any32(0x10FFFF))
				case 4:
					set32(s, 24+12*i, any32(uint32(numGlyphs)))
				case 5: // a huge range
					set32(s, 16+12*i, []uint32{0, 1, 0x10000, 0xFFFF0000, 0x7FFFFFFF}[gen.Pick(t, 5, "from")])
					set32(s, 20+12*i, []uint32{0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0x10FFFF}[gen.Pick(t, 5, "to")])
				}
			}
		default:
			set16(s, 2*gen.Pick(t, 4, "f0"), any16(262))
		}
	case 4, 5: // glyph locations
		d := table("loca")
		g := len(table("glyf"))
		w := 2
		if longLoca {
			w = 4
		}
		if len(d) < 2*w {
			return b
		}
		put := func(i int, v uint32) {
			if longLoca {
				set32(d, 4*i, v)
			} else {
				set16(d, 2*i, int(v/2))
			}
		}
		get := func(i int) uint32 {
			if longLoca {
				return be.Uint32(d[4*i:])
			}
			return 2 * uint32(be.Uint16(d[2*i:]))
		}
		n := len(d) / w
		i := gen.Pick(t, n, "entry")
		switch gen.Pick(t, 7, "loca") {
		case 0: // the end beyond the outlines
			put(n-1, uint32(g)+uint32(2*(1+gen.Pick(t, 4, "beyond"))))
		case 1:
			put(i, get(i)+uint32(w*gen.Pick(t, 6, "more")))
		case 2:
			put(i, get(i)-uint32(w*gen.Pick(t, 6, "less")))
		case 3: // all from here beyond
			x := uint32(2 * gen.Pick(t, g+10, "by"))
			for ; i < n; i++ {
				put(i, get(i)+x)
			}
		case 4: // zero at the end
			for ; i < n; i++ {
				put(i, 0)
			}
		case 5:
			put(i, any32(uint32(g)))
		case 6: // one glyph takes everything
			for j := range d {
				d[j] = 0
			}
			for i++; i < n; i++ {
				put(i, uint32(g)&^1)
			}
		}
	case 6: // outlines
		g := table("glyf")
		l := table("loca")
		if len(g) < 12 || len(l) < 4 {
			return b
		}
		n := len(l) / 2
		if longLoca {
			n = len(l) / 4
		}
		i := gen.Pick(t, n, "glyph")
		o := 2 * u16(l, 2*i)
		if longLoca {
			o = int(be.Uint32(l[4*i:]))
		}
		if o < 0 || o+12 > len(g) {
			return b
		}
		switch gen.Pick(t, 5, "glyf") {
		case 0:
			set16(g, o, 0xFFFF) // now a composite glyph
		case 1:
			set16(g, o, 0xFFFF)
			set16(g, o+10, []int{0x20, 0x21, 0x1, 0, 0x28, 0x60, 0xA0, 0x120}[gen.Pick(t, 8, "flags")])
			set16(g, o+12, []int{i, 0, numGlyphs - 1, numGlyphs, 0xFFFF}[gen.Pick(t, 5, "component")])
		case 2:
			set16(g, o+10, any16(0x20))
		case 3:
			set16(g, o+12, any16(numGlyphs))
		case 4: // components without end
			set16(g, o, 0xFFFF)
			for k := o + 10; k+2 <= len(g); k += 2 {
				set16(g, k, 0x0020)
			}
		}
	case 7: // PostScript names
		d := table("post")
		if len(d) < 34 {
			return b
		}
		ver := be.Uint32(d)
		switch gen.Pick(t, 6, "post") {
		case 0:
			set32(d, 0, []uint32{0x00010000, 0x00020000, 0x00025000, 0x00030000, 0x00040000, 0x00020001, 0}[gen.Pick(t, 7, "ver")])
		case 1:
			set16(d, 32, any16(numGlyphs))
		case 2, 3:
			if ver == 0x00025000 {
				d[gen.Pick(t, len(d)-34+1, "off")+33] = byte(gen.Pick(t, 256, "v"))
			} else {
				set16(d, 34+2*gen.Pick(t, numGlyphs+1, "g"), []int{258, 258 + numGlyphs, 259, 257, 0xFFFF, 0x8000, 258 + gen.Pick(t, 30, "k")}[gen.Pick(t, 7, "index")])
			}
		case 4: // a name's length
			if o := 34 + 2*numGlyphs; ver == 0x00020000 && o < len(d) {
				d[o+gen.Pick(t, len(d)-o, "name")] = byte([]int{0, 0x7F, 0x80, 0xFF, 1}[gen.Pick(t, 5, "len")])
			}
		case 5:
			be.PutUint32(entryAt(f, at["post"])[12:], uint32([]int{0, 4, 31, 32, 33, 34, 35, len(d) - 1, len(d) - 2, 34 + 2*numGlyphs}[gen.Pick(t, 10, "cut")]))
		}
	case 8: // names
		d := table("name")
		n := u16(d, 2)
		if n == 0 || len(d) < 6+12*n {
			set16(d, 2*gen.Pick(t, 4, "field"), any16(len(d)))
			return b
		}
		o := 6 + 12*gen.Pick(t, n, "rec")
		switch gen.Pick(t, 6, "name") {
		case 0:
			set16(d, o+8, any16(u16(d, o+8)))
		case 1:
			set16(d, o+10, any16(len(d)))
		case 2:
			set16(d, 4, any16(u16(d, 4)))
		case 3:
			set16(d, 2, any16(n))
		case 4:
			set16(d, 0, any16(1))
		case 5: // language tags
			set16(d, 0, 1)
			set16(d, 6+12*n, any16(1))
			set16(d, 8+12*n, any16(0))
			set16(d, 10+12*n, any16(0))
		}
	case 9: // metrics
		d := table("hhea")
		set16(d, 34, []int{0, 1, numGlyphs, numGlyphs + 1, numGlyphs - 1, 0x7FFF, 0x8000, 0xFFFF}[gen.Pick(t, 8, "metrics")])
		if i, ok := at["hmtx"]; ok && gen.Pct(t, 40, "hmtxCut") {
			e := entryAt(f, i)
			be.PutUint32(e[12:], uint32(gen.Pick(t, int(f.Dir[i].Length)+1, "hmtxLen")))
		}
	case 10: // glyph count, here and there
		d := table("maxp")
		v := []int{0, 1, numGlyphs - 1, numGlyphs + 1, 0x7FFF, 0x8000, 0xFFFF, 257, 258, 259}[gen.Pick(t, 10, "numGlyphs")]
		set16(d, 4, v)
		if p := table("post"); gen.Pct(t, 60, "postToo") && len(p) >= 34 {
			if ver := be.Uint32(p); ver == 0x00020000 || ver == 0x00025000 {
				set16(p, 32, v)
			} else if gen.Pct(t, 50, "post1") {
				set32(p, 0, 0x00010000)
			}
		}
		if gen.Pct(t, 30, "metricsToo") {
			set16(table("hhea"), 34, v)
		}
	case 11, 12: // a table that claims to be huge, and content that agrees
		claim := []uint32{0xFFFFFFFF, 0xFFFFFFFE, 0x80000000, 0x7FFFFFFF, 0x7FFFFFFE, 0x40000000, 0x20000000, 0x10000000 + uint32(gen.Pick(t, 1000, "odd"))}[gen.Pick(t, 8, "claim")]
		i := gen.Pick(t, len(f.Dir), "table")
		if g, ok := at["glyf"]; ok && gen.Pct(t, 40, "huge glyf") {
			i = g
		}
		e := entryAt(f, i)
		if gen.Pct(t, 25, "empty, far away") {
			be.PutUint32(e[12:], uint32(gen.Pick(t, 2, "len")))
			be.PutUint32(e[8:], []uint32{uint32(len(b)), uint32(len(b)) + 1, uint32(len(b)) + 4, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}[gen.Pick(t, 6, "far")])
			break
		}
		be.PutUint32(e[12:], claim)
		switch f.Dir[i].Tag {
		case "glyf":
			d := table("loca")
			if !longLoca && gen.Pct(t, 50, "long") {
				// Too few entries then, but the first ones are read.
				set16(table("head"), 50, 1)
				longLoca = true
			}
			if longLoca && len(d) >= 8 {
				for k := gen.Pick(t, len(d)/4, "from") + 1; k < len(d)/4; k++ {
					set32(d, 4*k, claim&^3)
				}
			}
		case "cmap":
			d := table("cmap")
			if n := u16(d, 2); n > 0 && len(d) > 4+8*n {
				o := int(be.Uint32(d[4+8*gen.Pick(t, n, "rec")+4:]))
				if o >= 0 && o+16 <= len(d) {
					set16(d, o, 12)
					set32(d, o+4, claim)
					set32(d, o+12, claim/12)
				}
			}
		case "name":
			set16(table("name"), 2, 0xFFFF)
		case "hmtx":
			set16(table("hhea"), 34, 0xFFFF)
		}
	case 13: // versions and location format
		switch gen.Pick(t, 6, "version") {
		case 0:
			set16(table("head"), 50, []int{0, 1, 2, 0xFFFF, 256}[gen.Pick(t, 5, "locFormat")])
		case 1:
			set16(table("OS/2"), 0, []int{0, 1, 2, 3, 4, 5, 6, 0xFFFF}[gen.Pick(t, 8, "os2")])
		case 2:
			set32(table("maxp"), 0, []uint32{0x00005000, 0x00010000, 0, 0x00020000, 0xFFFFFFFF, 0x0000FFFF}[gen.Pick(t, 6, "maxp")])
		case 3:
			set32(table("head"), 12, any32(0x5F0F3CF5))
		case 4:
			be.PutUint32(b, []uint32{0x00010000, 0x74727565, 0x4F54544F, 0x74746366, 0x00020000, 0}[gen.Pick(t, 6, "sfnt")])
		case 5:
			if i, ok := at["OS/2"]; ok {
				be.PutUint32(entryAt(f, i)[12:], uint32([]int{0, 2, 68, 77, 78, 79, 86, 96, 100}[gen.Pick(t, 9, "os2len")]))
			}
		}
	}
	return b
}
