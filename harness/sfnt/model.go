package sfnt

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf16"
)

// Cmap is one decoded character map.
type Cmap struct {
	Plat, Enc, Format int
	Lang              uint32
	Map               map[uint32]uint16 // code -> glyph, non-zero glyphs only
	Shared            bool              // format 4 glyph array entries used by several segments
}

// Supported tells whether unitype documents support for the format.
func (c *Cmap) Supported() bool {
	return c.Format == 0 || c.Format == 4 || c.Format == 6 || c.Format == 12
}

// NameRec is a naming table record.
type NameRec struct {
	Plat, Enc, Lang, ID uint16
	Data                []byte
}

// Model is the abstract content of a font.
type Model struct {
	Version    uint32
	Head       []byte // checksum adjustment zeroed
	Hhea       []byte // number of metrics zeroed
	Maxp       []byte // glyph count zeroed
	NumGlyphs  int
	NumHM      int
	LocaFormat int
	Loca       []int
	Glyphs     [][]byte
	Adv        []uint16
	LSB        []int16
	OS2        []byte // nil: absent (for all below)
	Cvt        []byte
	Fpgm       []byte
	Prep       []byte
	Post       []byte // 32 byte header, version zeroed
	PostVer    uint32
	PostNames  []string // nil when the table carries none
	HasName    bool
	NameFormat uint16
	Names      []NameRec
	LangTags   [][]byte
	HasCmap    bool
	CmapVer    uint16
	Cmaps      []Cmap
}

var errShort = errors.New("table too short")

type malformed struct{ msg string }

func bad(format string, a ...interface{}) { panic(malformed{fmt.Sprintf(format, a...)}) }

func u16(b []byte, o int) uint16 {
	if o < 0 || o+2 > len(b) {
		bad("read of 2 bytes at %d in %d bytes", o, len(b))
	}
	return be.Uint16(b[o:])
}
func u32(b []byte, o int) uint32 {
	if o < 0 || o+4 > len(b) {
		bad("read of 4 bytes at %d in %d bytes", o, len(b))
	}
	return be.Uint32(b[o:])
}
func sub(b []byte, a, z int) []byte {
	if a < 0 || z < a || z > len(b) {
		bad("range %d:%d in %d bytes", a, z, len(b))
	}
	return b[a:z]
}

func cp(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c
}

// Decode decodes a whole font, strictly: sizes of fixed-size tables must be exact.
func Decode(data []byte) (m *Model, err error) {
	defer func() {
		if r := recover(); r != nil {
			if mf, ok := r.(malformed); ok {
				err = errors.New("malformed font: " + mf.msg)
				return
			}
			panic(r)
		}
	}()
	f, err := ReadDir(data)
	if err != nil {
		return nil, err
	}
	for _, e := range f.Dir {
		if uint64(e.Offset)+uint64(e.Length) > uint64(len(data)) {
			bad("table %q outside file", e.Tag)
		}
	}
	m = &Model{Version: f.Version}
	head, _ := f.Table("head")
	if len(head) != 54 {
		bad("head has %d bytes", len(head))
	}
	m.Head = headZeroed(head)
	if u32(head, 12) != 0x5F0F3CF5 {
		bad("head magic")
	}
	m.LocaFormat = int(u16(head, 50))
	maxp, _ := f.Table("maxp")
	if len(maxp) != 32 {
		bad("maxp has %d bytes", len(maxp))
	}
	m.Maxp = cp(maxp)
	m.NumGlyphs = int(u16(maxp, 4))
	be.PutUint16(m.Maxp[4:], 0)
	hhea, _ := f.Table("hhea")
	if len(hhea) != 36 {
		bad("hhea has %d bytes", len(hhea))
	}
	m.Hhea = cp(hhea)
	m.NumHM = int(u16(hhea, 34))
	be.PutUint16(m.Hhea[34:], 0)

	if hmtx, ok := f.Table("hmtx"); ok {
		m.Adv, m.LSB = decodeHmtx(hmtx, m.NumHM, m.NumGlyphs)
	} else {
		bad("no hmtx")
	}

	loca, _ := f.Table("loca")
	glyf, ok := f.Table("glyf")
	if !ok {
		bad("no glyf")
	}
	m.Loca = decodeLoca(loca, m.LocaFormat, m.NumGlyphs)
	for i := 0; i < m.NumGlyphs; i++ {
		m.Glyphs = append(m.Glyphs, cp(sub(glyf, m.Loca[i], m.Loca[i+1])))
	}

	for _, t := range []struct {
		tag string
		dst *[]byte
	}{{"OS/2", &m.OS2}, {"cvt ", &m.Cvt}, {"fpgm", &m.Fpgm}, {"prep", &m.Prep}} {
		if b, ok := f.Table(t.tag); ok {
			*t.dst = cp(b)
		}
	}
	if post, ok := f.Table("post"); ok {
		if len(post) < 32 {
			bad("post has %d bytes", len(post))
		}
		m.PostVer = u32(post, 0)
		m.Post = cp(post[:32])
		be.PutUint32(m.Post, 0)
		m.PostNames = decodePostNames(post, m.NumGlyphs)
	}
	if name, ok := f.Table("name"); ok {
		decodeName(m, name)
	}
	if cmap, ok := f.Table("cmap"); ok {
		decodeCmap(m, cmap)
	}
	return m, nil
}

func decodeHmtx(hmtx []byte, nhm, n int) (adv []uint16, lsb []int16) {
	if nhm < 1 || nhm > n {
		bad("%d metrics for %d glyphs", nhm, n)
	}
	for i := 0; i < n; i++ {
		if i < nhm {
			adv = append(adv, u16(hmtx, 4*i))
			lsb = append(lsb, int16(u16(hmtx, 4*i+2)))
		} else {
			adv = append(adv, u16(hmtx, 4*(nhm-1)))
			lsb = append(lsb, int16(u16(hmtx, 4*nhm+2*(i-nhm))))
		}
	}
	return
}

func decodeLoca(loca []byte, format, n int) []int {
	out := make([]int, n+1)
	for i := range out {
		switch format {
		case 0:
			out[i] = 2 * int(u16(loca, 2*i))
		case 1:
			out[i] = int(u32(loca, 4*i))
		default:
			bad("loca format %d", format)
		}
		if i > 0 && out[i] < out[i-1] {
			bad("loca decreasing at %d", i)
		}
	}
	return out
}

func decodePostNames(post []byte, n int) []string {
	switch u32(post, 0) {
	case 0x00010000:
		if n != 258 {
			bad("post 1.0 with %d glyphs", n)
		}
		return append([]string(nil), MacGlyphNames[:]...)
	case 0x00020000:
		if int(u16(post, 32)) != n {
			bad("post 2.0 for %d glyphs", u16(post, 32))
		}
		var pascal []string
		o := 34 + 2*n
		for o < len(post) {
			l := int(post[o])
			pascal = append(pascal, string(sub(post, o+1, o+1+l)))
			o += 1 + l
		}
		names := make([]string, n)
		for i := range names {
			x := int(u16(post, 34+2*i))
			if x < 258 {
				names[i] = MacGlyphNames[x]
			} else if x-258 < len(pascal) {
				names[i] = pascal[x-258]
			} else {
				bad("post name index %d", x)
			}
		}
		return names
	case 0x00025000:
		if int(u16(post, 32)) != n {
			bad("post 2.5 for %d glyphs", u16(post, 32))
		}
		names := make([]string, n)
		for i := range names {
			x := i + int(int8(sub(post, 34+i, 35+i)[0]))
			if x < 0 || x >= 258 {
				bad("post 2.5 name index %d", x)
			}
			names[i] = MacGlyphNames[x]
		}
		return names
	}
	return nil
}

func decodeName(m *Model, b []byte) {
	m.HasName = true
	m.NameFormat = u16(b, 0)
	cnt := int(u16(b, 2))
	so := int(u16(b, 4))
	o := 6
	for i := 0; i < cnt; i++ {
		r := NameRec{Plat: u16(b, o), Enc: u16(b, o+2), Lang: u16(b, o+4), ID: u16(b, o+6)}
		l, off := int(u16(b, o+8)), int(u16(b, o+10))
		r.Data = cp(sub(b, so+off, so+off+l))
		m.Names = append(m.Names, r)
		o += 12
	}
	switch m.NameFormat {
	case 0:
	case 1:
		k := int(u16(b, o))
		o += 2
		for i := 0; i < k; i++ {
			l, off := int(u16(b, o)), int(u16(b, o+2))
			m.LangTags = append(m.LangTags, cp(sub(b, so+off, so+off+l)))
			o += 4
		}
	default:
		bad("name format %d", m.NameFormat)
	}
	if so < o {
		bad("name storage at %d inside its %d byte header", so, o)
	}
}

func decodeCmap(m *Model, b []byte) {
	m.HasCmap = true
	m.CmapVer = u16(b, 0)
	n := int(u16(b, 2))
	for i := 0; i < n; i++ {
		o := 4 + 8*i
		c := Cmap{Plat: int(u16(b, o)), Enc: int(u16(b, o+2)), Map: map[uint32]uint16{}}
		off := int(u32(b, o+4))
		if off < 4+8*n {
			bad("cmap subtable at %d inside the records", off)
		}
		s := sub(b, off, len(b))
		c.Format = int(u16(s, 0))
		put := func(code uint32, g uint32) {
			if g == 0 {
				return
			}
			if g >= uint32(m.NumGlyphs) {
				bad("cmap glyph %d of %d", g, m.NumGlyphs)
			}
			c.Map[code] = uint16(g)
		}
		switch c.Format {
		case 0:
			s = sub(s, 0, int(u16(s, 2)))
			if len(s) != 262 {
				bad("cmap format 0 length %d", len(s))
			}
			c.Lang = uint32(u16(s, 4))
			for k := 0; k < 256; k++ {
				put(uint32(k), uint32(s[6+k]))
			}
		case 4:
			s = sub(s, 0, int(u16(s, 2)))
			c.Lang = uint32(u16(s, 4))
			sc2 := int(u16(s, 6))
			if sc2%2 != 0 || sc2 == 0 {
				bad("cmap format 4 segCountX2 %d", sc2)
			}
			sc := sc2 / 2
			sr := 2
			es := 0
			for sr*2 <= sc2 {
				sr *= 2
				es++
			}
			if int(u16(s, 8)) != sr || int(u16(s, 10)) != es || int(u16(s, 12)) != sc2-sr {
				bad("cmap format 4 search fields %d %d %d for %d segments", u16(s, 8), u16(s, 10), u16(s, 12), sc)
			}
			ends, starts, deltas, ros := 14, 16+sc2, 16+2*sc2, 16+3*sc2
			prev := -1
			used := map[int]bool{}
			for k := 0; k < sc; k++ {
				e, st := int(u16(s, ends+2*k)), int(u16(s, starts+2*k))
				d, ro := u16(s, deltas+2*k), int(u16(s, ros+2*k))
				if st <= prev || e < st {
					bad("cmap format 4 segment %d: %d-%d after %d", k, st, e, prev)
				}
				prev = e
				for code := st; code <= e; code++ {
					var g uint16
					if ro == 0 {
						g = uint16(code) + d
					} else {
						p := ros + 2*k + ro + 2*(code-st)
						if p < ros+sc2 {
							bad("cmap format 4 range offset into header")
						}
						g = u16(s, p)
						c.Shared = c.Shared || used[p]
						used[p] = true
						if g != 0 {
							g += d
						}
					}
					if k == sc-1 && code == 0xFFFF && g != 0 {
						bad("cmap format 4 terminator maps to %d", g)
					}
					put(uint32(code), uint32(g))
				}
			}
			if prev != 0xFFFF || u16(s, starts+2*(sc-1)) != 0xFFFF {
				bad("cmap format 4 without terminator")
			}
		case 6:
			s = sub(s, 0, int(u16(s, 2)))
			c.Lang = uint32(u16(s, 4))
			first, cnt := int(u16(s, 6)), int(u16(s, 8))
			for k := 0; k < cnt; k++ {
				if first+k > 0xFFFF {
					bad("cmap format 6 code range")
				}
				put(uint32(first+k), uint32(u16(s, 10+2*k)))
			}
			if len(s) != 10+2*cnt {
				bad("cmap format 6 length %d for %d entries", len(s), cnt)
			}
		case 12:
			s = sub(s, 0, int(u32(s, 4)))
			c.Lang = u32(s, 8)
			ng := int(u32(s, 12))
			if len(s) != 16+12*ng {
				bad("cmap format 12 length %d for %d groups", len(s), ng)
			}
			prev := int64(-1)
			for k := 0; k < ng; k++ {
				a, z, g := u32(s, 16+12*k), u32(s, 20+12*k), u32(s, 24+12*k)
				if int64(a) <= prev || z < a {
					bad("cmap format 12 group %d", k)
				}
				prev = int64(z)
				for code := a; ; code++ {
					put(code, g+(code-a))
					if code == z {
						break
					}
				}
			}
		}
		m.Cmaps = append(m.Cmaps, c)
	}
}

// RuneOf maps a character code of a cmap subtable to its character; ok is false for encodings or codes outside the
// documented ones.
func RuneOf(plat, enc int, code uint32) (rune, bool) {
	switch {
	case plat == 0, plat == 3 && (enc == 0 || enc == 1 || enc == 10):
		if code > 0x10FFFF || code >= 0xD800 && code < 0xE000 {
			return 0, false
		}
		return rune(code), true
	case plat == 1 && enc == 0:
		if code > 255 {
			return 0, false
		}
		return MacRoman[code], true
	}
	return 0, false
}

// RuneMap gives the rune -> glyph map (non-zero glyphs) of a supported subtable.
func (c *Cmap) RuneMap() map[rune]uint16 {
	out := map[rune]uint16{}
	for code, g := range c.Map {
		if r, ok := RuneOf(c.Plat, c.Enc, code); ok {
			out[r] = g
		}
	}
	return out
}

// Find returns the supported subtables for a platform and encoding.
func (m *Model) Find(plat, enc int) []*Cmap {
	var out []*Cmap
	for i := range m.Cmaps {
		c := &m.Cmaps[i]
		if c.Plat == plat && c.Enc == enc && c.Supported() {
			out = append(out, c)
		}
	}
	return out
}

// LookupOrder is the documented order of LookupRunes.
var LookupOrder = [][2]int{{3, 1}, {1, 0}, {0, 3}, {3, 10}}

// Lookup is the reference LookupRunes.
func (m *Model) Lookup(rs []rune) []uint16 {
	var maps []map[rune]uint16
	for _, k := range LookupOrder {
		if cs := m.Find(k[0], k[1]); len(cs) > 0 {
			maps = append(maps, cs[0].RuneMap())
		}
	}
	out := make([]uint16, len(rs))
	for i, r := range rs {
		for _, mp := range maps {
			if g := mp[r]; g != 0 {
				out[i] = g
				break
			}
		}
	}
	return out
}

// Components decodes the direct components of a glyph.
func Components(g []byte) (out []uint16, ok bool) {
	if len(g) == 0 {
		return nil, true
	}
	if len(g) < 10 {
		return nil, false
	}
	if int16(be.Uint16(g)) >= 0 {
		return nil, true
	}
	o := 10
	for {
		if o+4 > len(g) {
			return nil, false
		}
		fl := be.Uint16(g[o:])
		out = append(out, be.Uint16(g[o+2:]))
		o += 4
		if fl&1 != 0 {
			o += 4
		} else {
			o += 2
		}
		switch {
		case fl&0x8 != 0:
			o += 2
		case fl&0x40 != 0:
			o += 4
		case fl&0x80 != 0:
			o += 8
		}
		if o > len(g) {
			return nil, false
		}
		if fl&0x20 == 0 {
			return out, true
		}
	}
}

// Closure computes the set of existing glyphs needed by gids.
func (m *Model) Closure(gids []uint16) map[int]bool {
	set := map[int]bool{}
	var todo []int
	add := func(g int) {
		if g < m.NumGlyphs && !set[g] {
			set[g] = true
			todo = append(todo, g)
		}
	}
	for _, g := range gids {
		add(int(g))
	}
	for len(todo) > 0 {
		g := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		cs, _ := Components(m.Glyphs[g])
		for _, c := range cs {
			add(int(c))
		}
	}
	return set
}

// Clone copies the model (sharing immutable bytes).
func (m *Model) Clone() *Model {
	c := *m
	c.Glyphs = append([][]byte(nil), m.Glyphs...)
	c.Adv = append([]uint16(nil), m.Adv...)
	c.LSB = append([]int16(nil), m.LSB...)
	c.Names = append([]NameRec(nil), m.Names...)
	c.Cmaps = nil
	for _, cm := range m.Cmaps {
		k := cm
		k.Map = map[uint32]uint16{}
		for a, b := range cm.Map {
			k.Map[a] = b
		}
		c.Cmaps = append(c.Cmaps, k)
	}
	return &c
}

// MinHM is the smallest number of full metric entries that describes the advances.
func (m *Model) MinHM() int {
	k := len(m.Adv)
	for k >= 2 && m.Adv[k-1] == m.Adv[k-2] {
		k--
	}
	return k
}

// First is the reference SubsetFirst for 1 <= n < NumGlyphs.
func (m *Model) First(n int) *Model {
	c := m.Clone()
	if n >= c.NumGlyphs {
		return c
	}
	c.NumGlyphs = n
	c.Glyphs = c.Glyphs[:n]
	c.Adv = c.Adv[:n]
	c.LSB = c.LSB[:n]
	if c.PostNames != nil && len(c.PostNames) > n {
		c.PostNames = c.PostNames[:n]
	}
	for i := range c.Cmaps {
		for code, g := range c.Cmaps[i].Map {
			if int(g) >= n {
				delete(c.Cmaps[i].Map, code)
			}
		}
	}
	c.NumHM = c.MinHM()
	return c
}

// Keep is the reference SubsetKeepIndices, with n glyphs remaining.
func (m *Model) Keep(set map[int]bool, n int) *Model {
	c := m.First(n)
	for i := range c.Glyphs {
		if !set[i] {
			c.Glyphs[i] = nil
		}
	}
	c.NumHM = c.MinHM()
	return c
}

// MaxKept is the glyph count SubsetKeepIndices leaves for a kept set.
func MaxKept(set map[int]bool) int {
	n := 0
	for g := range set {
		if g > n {
			n = g
		}
	}
	return n + 1
}

// Prune is the reference PruneTables.
func (m *Model) Prune(tables ...string) *Model {
	c := m.Clone()
	for _, t := range tables {
		switch t {
		case "cmap":
			c.HasCmap, c.Cmaps, c.CmapVer = false, nil, 0
		case "post":
			c.Post, c.PostVer, c.PostNames = nil, 0, nil
		case "name":
			c.HasName, c.Names, c.LangTags, c.NameFormat = false, nil, nil, 0
		}
	}
	return c
}

// Written is what a reader of the written font sees: unsupported character maps gone.
func (m *Model) Written() *Model {
	c := m.Clone()
	var keep []Cmap
	for _, cm := range c.Cmaps {
		if cm.Supported() {
			keep = append(keep, cm)
		}
	}
	c.Cmaps = keep
	return c
}

// Aspects selectable in Diff.
const (
	Globals = 1 << iota
	Outlines
	Metrics
	Cmaps
	Names
	Minimal // number of full metrics must be minimal
	All     = Globals | Outlines | Metrics | Cmaps | Names
)

func diffTable(name string, want, got []byte) error {
	if (want == nil) != (got == nil) {
		return fmt.Errorf("table %s: present %v, want %v", name, got != nil, want != nil)
	}
	if !bytes.Equal(want, got) {
		return fmt.Errorf("table %s differs: got %s want %s", name, hexs(got), hexs(want))
	}
	return nil
}

func hexs(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%x...(%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// Diff compares the model of a written font (got) with the expected one (m).
func (m *Model) Diff(got *Model, aspects int) error {
	if got.NumGlyphs != m.NumGlyphs {
		return fmt.Errorf("glyph count %d, want %d", got.NumGlyphs, m.NumGlyphs)
	}
	if aspects&Globals != 0 {
		if m.Version != got.Version {
			return fmt.Errorf("sfnt version %08x, want %08x", got.Version, m.Version)
		}
		for _, t := range []struct {
			n    string
			w, g []byte
		}{{"head", m.Head, got.Head}, {"hhea", m.Hhea, got.Hhea}, {"maxp", m.Maxp, got.Maxp}, {"OS/2", m.OS2, got.OS2},
			{"cvt", m.Cvt, got.Cvt}, {"fpgm", m.Fpgm, got.Fpgm}, {"prep", m.Prep, got.Prep}, {"post header", m.Post, got.Post}} {
			if err := diffTable(t.n, t.w, t.g); err != nil {
				return err
			}
		}
		if m.Post != nil {
			switch got.PostVer {
			case 0x00030000:
			case 0x00010000, 0x00020000, 0x00025000:
				if strings.Join(got.PostNames, "\x00") != strings.Join(m.PostNames, "\x00") {
					return fmt.Errorf("post version %08x gives names %q, want %q", got.PostVer, got.PostNames, m.PostNames)
				}
			default:
				return fmt.Errorf("post version %08x (source %08x)", got.PostVer, m.PostVer)
			}
		}
	}
	if aspects&Outlines != 0 {
		for i := range m.Glyphs {
			if !bytes.Equal(m.Glyphs[i], got.Glyphs[i]) {
				return fmt.Errorf("glyph %d: outline %s, want %s", i, hexs(got.Glyphs[i]), hexs(m.Glyphs[i]))
			}
		}
	}
	if aspects&Metrics != 0 {
		for i := range m.Adv {
			if m.Adv[i] != got.Adv[i] || m.LSB[i] != got.LSB[i] {
				return fmt.Errorf("glyph %d: advance %d lsb %d, want %d %d", i, got.Adv[i], got.LSB[i], m.Adv[i], m.LSB[i])
			}
		}
	}
	if aspects&Minimal != 0 {
		if got.NumHM != got.MinHM() {
			return fmt.Errorf("%d full metric entries where %d suffice", got.NumHM, got.MinHM())
		}
	}
	if aspects&Cmaps != 0 {
		if m.HasCmap != got.HasCmap {
			return fmt.Errorf("cmap present %v, want %v", got.HasCmap, m.HasCmap)
		}
		if m.CmapVer != got.CmapVer {
			return fmt.Errorf("cmap version %v, want %v", got.CmapVer, m.CmapVer)
		}
		if err := DiffCmaps(m.Cmaps, got.Cmaps); err != nil {
			return err
		}
	}
	if aspects&Names != 0 {
		if m.HasName != got.HasName || m.NameFormat != got.NameFormat || len(m.Names) != len(got.Names) || len(m.LangTags) != len(got.LangTags) {
			return fmt.Errorf("name table: present %v format %d records %d tags %d, want %v %d %d %d", got.HasName, got.NameFormat, len(got.Names),
				len(got.LangTags), m.HasName, m.NameFormat, len(m.Names), len(m.LangTags))
		}
		for i, w := range m.Names {
			g := got.Names[i]
			if w.Plat != g.Plat || w.Enc != g.Enc || w.Lang != g.Lang || w.ID != g.ID || !bytes.Equal(w.Data, g.Data) {
				return fmt.Errorf("name record %d: %+v, want %+v", i, g, w)
			}
		}
		for i, w := range m.LangTags {
			if !bytes.Equal(w, got.LangTags[i]) {
				return fmt.Errorf("language tag %d: %x, want %x", i, got.LangTags[i], w)
			}
		}
	}
	return nil
}

func cmapKey(c *Cmap) string {
	return fmt.Sprintf("platform %d encoding %d format %d language %d", c.Plat, c.Enc, c.Format, c.Lang)
}

// DiffCmaps compares the supported subtables of want with got, as lists regardless of order.
func DiffCmaps(want, got []Cmap) error {
	var w, g []*Cmap
	for i := range want {
		if want[i].Supported() {
			w = append(w, &want[i])
		}
	}
	for i := range got {
		g = append(g, &got[i])
	}
	key := func(c *Cmap) string {
		return cmapKey(c) + " " + MapString(c.Map)
	}
	ks := func(l []*Cmap) []string {
		var s []string
		for _, c := range l {
			s = append(s, key(c))
		}
		sort.Strings(s)
		return s
	}
	a, b := ks(w), ks(g)
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a):
			return fmt.Errorf("%d character maps, want %d; extra %s", len(b), len(a), clip(b[i]))
		case i >= len(b):
			return fmt.Errorf("%d character maps, want %d; missing %s", len(b), len(a), clip(a[i]))
		case a[i] != b[i]:
			return fmt.Errorf("character map\n got %s\nwant %s", clip(b[i]), clip(a[i]))
		}
	}
	return nil
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// MapString renders a code map in a canonical form.
func MapString(m map[uint32]uint16) string {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%x:%d ", k, m[uint32(k)])
	}
	return b.String()
}

// Text decodes a name record per the documented encodings; ok is false for other encodings or text that is not
// well-formed in its encoding.
func (r *NameRec) Text() (s string, ok bool) {
	switch {
	case r.Plat == 0, r.Plat == 3 && (r.Enc == 0 || r.Enc == 1 || r.Enc == 10):
		if len(r.Data)%2 != 0 {
			return "", false
		}
		var u []uint16
		for i := 0; i < len(r.Data); i += 2 {
			u = append(u, be.Uint16(r.Data[i:]))
		}
		for i := 0; i < len(u); i++ {
			switch {
			case u[i] >= 0xD800 && u[i] < 0xDC00:
				if i+1 >= len(u) || u[i+1] < 0xDC00 || u[i+1] > 0xDFFF {
					return "", false
				}
				i++
			case u[i] >= 0xDC00 && u[i] < 0xE000:
				return "", false
			}
		}
		return Printable(utf16.Decode(u)), true
	case r.Plat == 1:
		var rs []rune
		for _, b := range r.Data {
			rs = append(rs, MacRoman[b])
		}
		return Printable(rs), true
	}
	return "", false
}

// Printable escapes unprintable characters other than newline.
func Printable(rs []rune) string {
	var b strings.Builder
	for _, r := range rs {
		if unicode.IsPrint(r) || r == '\n' {
			b.WriteRune(r)
		} else {
			b.WriteString(strconv.QuoteRune(r))
		}
	}
	return b.String()
}
