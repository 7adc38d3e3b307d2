package gen

import (
	"sort"

	"pgregory.net/rapid"
)

type pair struct{ code, gid int }

type slot struct {
	p, e    int
	max     int   // largest code
	formats []int // candidates
	sym     bool
}

var slots = []slot{
	{0, 0, 0xFFFF, []int{4, 6, 0}, false},
	{0, 1, 0xFFFF, []int{4, 6, 12}, false},
	{0, 2, 0xFFFF, []int{4}, false},
	{0, 3, 0xFFFF, []int{4, 6, 4, 12}, false},
	{0, 4, 0x10FFFF, []int{12, 12, 4}, false},
	{0, 5, 0x10FFFF, []int{14}, false},
	{0, 6, 0x10FFFF, []int{12, 13}, false},
	{1, 0, 0xFF, []int{0, 6, 0, 4}, false},
	{1, 1, 0xFFFF, []int{2, 6}, false},
	{3, 0, 0xFFFF, []int{4, 4, 6}, true},
	{3, 1, 0xFFFF, []int{4, 4, 4, 6, 0, 12}, false},
	{3, 2, 0xFFFF, []int{2, 4}, false},
	{3, 3, 0xFFFF, []int{4}, false},
	{3, 10, 0x10FFFF, []int{12, 12, 12, 4, 8, 10}, false},
}

var mainSlots = []int{10, 7, 3, 13} // (3,1) (1,0) (0,3) (3,10)

var codeBases = []int{0x41, 0x61, 0x20, 0xA0, 0xC4, 0x3B1, 0x400, 0x4E00, 0xFB01, 0xFF00, 0xFFF4, 0, 0x7E, 0xFA, 0xD7F8, 0xE000, 0xF020, 0x2018}
var suppBases = []int{0x10000, 0x1F600, 0x10FFF0, 0x20000, 0xFFF8}

// mapping draws sorted (code, gid) pairs; gid 0 does not occur.
func (g *fontGen) mapping(s slot, format int) []pair {
	t, n := g.t, g.n
	m := map[int]int{}
	maxCode, maxGid := s.max, n-1
	if format == 0 {
		maxCode = 255
		if maxGid > 255 {
			maxGid = 255
		}
	}
	if format == 6 && maxCode > 0xFFFF {
		maxCode = 0xFFFF
	} else if format != 12 && format != 6 && maxCode > 0xFFFE {
		maxCode = 0xFFFE
	}
	if maxGid < 1 {
		return nil
	}
	ok := func(c int) bool { return c >= 0 && c <= maxCode && !(c >= 0xD800 && c < 0xE000) }
	g.sharedLen = 0
	if g.o.SharedArrays && format == 4 && s.max >= 0xFFFF {
		pr := seed(t, "sharedSeed")
		g.sharedLen = 1500 + pr.N(6000)
		a := make([]int, g.sharedLen)
		for i := range a {
			a[i] = 1 + pr.N(maxGid)
		}
		var ps []pair
		for k, c := 0, 0x20; k < 3+pr.N(20) && c+g.sharedLen < 0xFFFE; k++ {
			if c < 0xE000 && c+g.sharedLen >= 0xD800 {
				c = 0xE000
				continue
			}
			for i, gid := range a {
				ps = append(ps, pair{c + i, gid})
			}
			c += g.sharedLen
		}
		return ps
	}
	if format == 12 && s.max > 0xFFFF && !g.o.Small && !g.o.NoHuge && Pct(t, 1, "cmapMost") && Pct(t, 20, "cmapMost2") {
		// More groups than 16 bits can count.
		pr := seed(t, "cmapMostSeed")
		var ps []pair
		for i, k := 0, 65530+pr.N(3000); i < k; i++ {
			ps = append(ps, pair{0x10000 + 2*i, 1 + pr.N(maxGid)})
		}
		return ps
	}
	runs := 1 + Pick(t, 5, "cmapRuns")
	if Pct(t, 5, "cmapEmpty") {
		return nil
	}
	if g.n > 60 && Pct(t, 50, "cmapDense") {
		// Every glyph has a code, consecutive or scattered.
		pr := seed(t, "cmapDenseSeed")
		base := codeBases[pr.N(len(codeBases))]
		step := 1 + pr.N(3)
		scatter := pr.N(2) == 1
		for i := 0; i < n; i++ {
			c := base + i*step
			if step == 3 {
				c = base + i*2 + pr.N(2)
			}
			if format == 0 {
				c &= 255
			}
			gid := i
			if scatter {
				gid = pr.N(n)
			}
			if ok(c) && gid > 0 && gid <= maxGid {
				m[c] = gid
			}
		}
		runs = 1
	}
	if !g.o.Small && !g.o.NoHuge && maxCode > 255 && Pct(t, 2, "cmapBig") {
		// Many codes, many of them for the same glyph.
		pr := seed(t, "cmapBigSeed")
		base := []int{0x100, 0x3400, 0x4E00, 0xE000}[pr.N(4)]
		if maxCode > 0xFFFF && pr.N(2) == 1 {
			base = 0x20000
		}
		gid := 1 + pr.N(maxGid)
		for i, k := 0, 4000+pr.N(28000); i < k; i++ {
			switch {
			case pr.N(50) == 0:
				gid = 1 + pr.N(maxGid)
				continue
			case gid < maxGid && pr.N(8) != 0:
				gid++
			default:
				gid = 1 + pr.N(maxGid)
			}
			if c := base + i; ok(c) {
				m[c] = gid
			}
		}
	}
	var last []int
	for r := 0; r < runs; r++ {
		var base int
		switch {
		case s.sym && Pct(t, 70, "symBase"):
			base = 0xF020 + Pick(t, 0xC0, "symCode")
		case maxCode > 0xFFFF && Pct(t, 60, "suppBase"):
			base = suppBases[Pick(t, len(suppBases), "sb")]
		case maxCode <= 255 && Pct(t, 70, "byteBase"):
			base = Pick(t, 256, "bb")
		case g.o.CmapOverlap || Pct(t, 70, "poolBase"):
			base = codeBases[Pick(t, len(codeBases), "base")]
		default:
			base = Int(t, 0, maxCode, "code")
		}
		length := 1 + Pick(t, 12, "runLen")
		gid := 1 + Pick(t, maxGid, "runGid")
		kind := Pick(t, 6, "runKind")
		step, gidStep := 1, 1
		if kind == 5 {
			// Regular jumps, also by nearly a whole number of bytes.
			step = []int{1, 1, 1, 1, 2, 255, 256, 257}[Pick(t, 8, "codeStep")]
			gidStep = []int{256, 257, 255, 2, 512, 3}[Pick(t, 6, "gidStep")]
			gid = 1 + gid%8
		}
		var list []int
		if kind == 4 && last != nil { // the same glyphs again
			list = last
		} else {
			for i := 0; i < length; i++ {
				switch kind {
				case 0, 4: // consecutive
					if gid+i <= maxGid {
						list = append(list, gid+i)
					}
				case 1: // scattered
					list = append(list, 1+Pick(t, maxGid, "gid"))
				case 2: // consecutive with holes
					if gid+i <= maxGid {
						x := gid + i
						if Pct(t, 25, "hole") {
							x = 0
						}
						list = append(list, x)
					}
				case 3: // descending
					if gid-i >= 1 {
						list = append(list, gid-i)
					}
				case 5:
					if gid+i*gidStep <= maxGid {
						list = append(list, gid+i*gidStep)
					}
				}
			}
		}
		last = list
		for i, x := range list {
			if c := base + i*step; x > 0 && ok(c) {
				m[c] = x
			}
		}
	}
	out := make([]pair, 0, len(m))
	for c, x := range m {
		out = append(out, pair{c, x})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].code < out[j].code })
	return out
}

func (g *fontGen) encode(format int, ps []pair, lang int) []byte {
	switch format {
	case 0:
		b := w16(nil, 0, 262, lang)
		var a [256]byte
		for _, p := range ps {
			if p.code < 256 && p.gid < 256 {
				a[p.code] = byte(p.gid)
			}
		}
		return append(b, a[:]...)
	case 6:
		return g.encode6(ps, lang)
	case 4:
		return g.encode4(ps, lang)
	case 12:
		return g.encode12(ps, lang)
	}
	return nil
}

func (g *fontGen) encode6(ps []pair, lang int) []byte {
	t := g.t
	// One window of at most 600 codes: the pairs outside it are dropped.
	if len(ps) == 0 {
		return w16(nil, 6, 10, lang, Pick(t, 100, "f6first"), 0)
	}
	at := Pick(t, len(ps), "f6at")
	first := ps[at].code
	window := 600
	if len(ps) > 3000 {
		window = 32000
	}
	lead := Pick(t, 3, "f6lead")
	if first-lead >= 0 {
		first -= lead
	}
	end := first
	vals := map[int]int{}
	if !g.o.Small && ps[len(ps)-1].code > 0x3000 && Pct(t, 4, "f6beyond") {
		// From the surrogates, which are no characters, to the end.
		first := 0xDFFF - Pick(t, 5, "f6surrogates")
		vals[0xFFFD] = 1 + Pick(t, g.n-1, "f6fffd")
		end := 0xFFFD
		for _, p := range ps {
			if p.code >= 0xE000 && p.code <= 0xFFFF {
				vals[p.code] = p.gid
				if p.code > end {
					end = p.code
				}
			}
		}
		b := w16(nil, 6, 10+2*(end-first+1), lang, first, end-first+1)
		for c := first; c <= end; c++ {
			b = w16(b, vals[c])
		}
		return b
	}
	for _, p := range ps {
		if p.code >= first && p.code < first+window {
			vals[p.code] = p.gid
			end = p.code
		}
	}
	end += Pick(t, 3, "f6trail")
	if end > 0xFFFF {
		end = 0xFFFF
	}
	if ps[len(ps)-1].code <= 255 && end > 255 {
		end = 255
	}
	cnt := end - first + 1
	b := w16(nil, 6, 10+2*cnt, lang, first, cnt)
	for c := first; c <= end; c++ {
		b = w16(b, vals[c])
	}
	return b
}

func (g *fontGen) encode12(ps []pair, lang int) []byte {
	t := g.t
	var groups []uint32
	pr := seed(t, "f12split")
	for i := 0; i < len(ps); {
		j := i + 1
		for j < len(ps) && ps[j].code == ps[j-1].code+1 && ps[j].gid == ps[j-1].gid+1 && pr.N(8) != 7 {
			j++
		}
		groups = append(groups, uint32(ps[i].code), uint32(ps[j-1].code), uint32(ps[i].gid))
		i = j
	}
	l := lang
	b := w16(nil, 12, 0)
	b = w32(b, uint32(16+4*len(groups)), uint32(l), uint32(len(groups)/3))
	return w32(b, groups...)
}

func (g *fontGen) encode4(ps []pair, lang int) []byte {
	t := g.t
	pr := seed(t, "f4split")
	mode := Pick(t, 3, "f4mode") // 0 mixed, 1 deltas only, 2 arrays preferred
	type seg struct{ start, end, delta, arr int }
	var segs []seg
	var arr []int
	type stored struct {
		off, delta int
		raw        []int
	}
	var prev []stored
	size := 16 + 8
	for i := 0; i < len(ps); {
		j := i + 1
		shared := g.sharedLen > 0
		useArr := mode == 2 && pr.N(5) != 4 || mode == 0 && pr.N(2) == 1 || shared
		if !useArr {
			for j < len(ps) && ps[j].code == ps[j-1].code+1 && ps[j].gid == ps[j-1].gid+1 && pr.N(12) != 11 {
				j++
			}
			segs = append(segs, seg{ps[i].code, ps[j-1].code, (ps[i].gid - ps[i].code) & 0xFFFF, -1})
			size += 8
		} else {
			for !shared && j < len(ps) && ps[j].code-ps[j-1].code <= 1+pr.N(3) && pr.N(20) != 19 {
				j++
			}
			if shared {
				j = i + g.sharedLen
			}
			delta := 0
			switch k := pr.N(4); {
			case shared:
			case k == 0:
				delta = pr.N(65536)
			case k == 1:
				delta = 0xFFFF - pr.N(5)
			}
			if !shared && len(prev) > 0 && !g.o.NoCrossShare && pr.N(6) == 5 {
				// try to use an earlier array with another delta
				delta = (ps[i].gid - prev[0].raw[0]) & 0xFFFF
			}
			build := func() ([]int, bool) {
				var raw []int
				k := i
				for c := ps[i].code; c <= ps[j-1].code; c++ {
					v := 0
					if ps[k].code == c {
						v = (ps[k].gid - delta) & 0xFFFF
						if v == 0 {
							return nil, false
						}
						k++
					}
					raw = append(raw, v)
				}
				return raw, true
			}
			raw, ok := build()
			if !ok {
				delta = 0
				raw, _ = build()
			}
			off := -1
			if pr.N(2) == 1 || shared {
				for _, s := range prev {
					if len(s.raw) >= len(raw) && equal(s.raw[:len(raw)], raw) && (s.delta == delta || !g.o.NoCrossShare) {
						off = s.off
						break
					}
				}
			}
			if off < 0 {
				if pr.N(10) == 9 {
					arr = append(arr, pr.N(65536)) // an entry nothing refers to
					size += 2
				}
				off = len(arr)
				arr = append(arr, raw...)
				size += 2 * len(raw)
			}
			prev = append(prev, stored{off, delta, raw})
			segs = append(segs, seg{ps[i].code, ps[j-1].code, delta, off})
			size += 8
		}
		i = j
		if size > 65000 {
			break
		}
	}
	term := seg{0xFFFF, 0xFFFF, 1, -1}
	if Pct(t, 15, "f4term") {
		term.arr = len(arr)
		term.delta = pr.N(65536)
		arr = append(arr, 0)
	}
	segs = append(segs, term)
	n := len(segs)
	sr, es := 1, 0
	for sr*2 <= n {
		sr *= 2
		es++
	}
	b := w16(nil, 4, 16+8*n+2*len(arr), lang, 2*n, 2*sr, es, 2*n-2*sr)
	for _, s := range segs {
		b = w16(b, s.end)
	}
	b = w16(b, 0)
	for _, s := range segs {
		b = w16(b, s.start)
	}
	for _, s := range segs {
		b = w16(b, s.delta)
	}
	for i, s := range segs {
		if s.arr < 0 {
			b = w16(b, 0)
		} else {
			b = w16(b, 2*(n-i)+2*s.arr)
		}
	}
	return w16(b, arr...)
}

func equal(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (g *fontGen) unsupported(format int) []byte {
	t := g.t
	body := filler(t, 20+Pick(t, 40, "unsupLen"), "unsup")
	if format < 8 {
		return append(w16(nil, format, 6+len(body), 0), body...)
	}
	if format == 14 {
		return append(w32(w16(nil, 14), uint32(10+len(body)), 0), body...)
	}
	return append(w32(w16(nil, format, 0), uint32(12+len(body)), 0), body...)
}

func (g *fontGen) cmap() []byte {
	t := g.t
	type rec struct {
		p, e, lang int
		max        int
		format     int
		data       []byte
		share      int // index of the record whose data is used, or -1
	}
	var recs []rec
	var chosen []int
	if g.o.CmapOverlap {
		for _, s := range mainSlots {
			if Pct(t, 75, "mainSlot") {
				chosen = append(chosen, s)
			}
		}
		if Pct(t, 20, "otherSlot") {
			chosen = append(chosen, Pick(t, len(slots), "slot"))
		}
	} else {
		k := Pick(t, 6, "cmaps")
		if k == 0 && g.o.NeedCmap {
			k = 1
		}
		for i := 0; i < k; i++ {
			if Pct(t, 60, "mainSlot") {
				chosen = append(chosen, mainSlots[Pick(t, 4, "main")])
			} else {
				chosen = append(chosen, Pick(t, len(slots), "slot"))
			}
		}
	}
	sort.Ints(chosen)
	for i, si := range chosen {
		s := slots[si]
		if i > 0 && chosen[i-1] == si {
			if g.o.NoDupCmap || s.p != 1 {
				continue
			}
		}
		f := s.formats[Pick(t, len(s.formats), "format")]
		if g.o.NoUnsupported && f != 0 && f != 4 && f != 6 && f != 12 {
			if s.e == 5 { // variation sequences only
				continue
			}
			f = 4
			if s.max > 0xFFFF {
				f = 12
			}
		}
		r := rec{p: s.p, e: s.e, max: s.max, format: f, share: -1}
		if s.p == 1 {
			r.lang = len(recs) // distinct languages
			if len(recs) > 0 && recs[len(recs)-1].p == 1 {
				r.lang = recs[len(recs)-1].lang + 1
			} else if Pct(t, 50, "lang0") {
				r.lang = 0
			} else {
				r.lang = Pick(t, 150, "lang")
			}
		} else if Pct(t, 10, "oddLang") {
			r.lang = Pick(t, 60000, "lang")
			if f == 12 && Pct(t, 60, "wideLang") {
				r.lang = []int{65535, 65536, 65537, 0x12345, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}[Pick(t, 7, "wide")]
			}
		}
		switch f {
		case 0, 4, 6, 12:
			if len(recs) > 0 && Pct(t, 25, "shareSub") {
				for j := range recs {
					if recs[j].format == f && recs[j].share < 0 && recs[j].p != 1 && s.p != 1 && recs[j].max <= s.max {
						r.share = j
						r.lang = recs[j].lang
					}
				}
			}
			if r.share < 0 {
				r.data = g.encode(f, g.mapping(s, f), r.lang)
			}
		default:
			r.data = g.unsupported(f)
		}
		recs = append(recs, r)
		if s.p == 1 && s.e == 0 && r.data != nil && !g.o.NoDupCmap && !g.o.Small && (r.format == 0 || r.format == 6) && Pct(t, 3, "manyLangs") {
			// The same map for many languages.
			for k := 10 + Pick(t, 120, "manyLangsN"); k > 0; k-- {
				r.lang++
				r.data = append([]byte(nil), r.data...)
				r.data[4], r.data[5] = byte(r.lang>>8), byte(r.lang)
				recs = append(recs, r)
			}
		}
	}
	b := w16(nil, 0, len(recs))
	offs := make([]int, len(recs))
	var body []byte
	order := make([]int, len(recs))
	for i := range order {
		order[i] = i
	}
	if Pct(t, 25, "subOrder") {
		order = perm(t, len(recs))
	}
	gap := Pct(t, 15, "subGaps")
	for _, i := range order {
		if recs[i].share >= 0 {
			continue
		}
		if gap {
			body = append(body, make([]byte, 2*Pick(t, 4, "subGap"))...)
		}
		offs[i] = 4 + 8*len(recs) + len(body)
		body = append(body, recs[i].data...)
	}
	for i, r := range recs {
		o := offs[i]
		if r.share >= 0 {
			o = offs[r.share]
		}
		b = w32(w16(b, r.p, r.e), uint32(o))
	}
	return append(b, body...)
}

var _ = rapid.Bool
