// Package sfnt is an independent reference implementation of the parts of the TrueType/OpenType file
// format that unitype handles. It is written from the specification and shares no code with unitype.
package sfnt

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

var be = binary.BigEndian

// DirEntry is a table directory entry.
type DirEntry struct {
	Tag                      string
	Checksum, Offset, Length uint32
}

// File is a font file with its decoded directory.
type File struct {
	Data                                        []byte
	Version                                     uint32
	Num, SearchRange, EntrySelector, RangeShift uint16
	Dir                                         []DirEntry
}

// ReadDir decodes the table directory.
func ReadDir(data []byte) (*File, error) {
	if len(data) < 12 {
		return nil, errors.New("file shorter than a font header")
	}
	f := &File{Data: data, Version: be.Uint32(data), Num: be.Uint16(data[4:]), SearchRange: be.Uint16(data[6:]),
		EntrySelector: be.Uint16(data[8:]), RangeShift: be.Uint16(data[10:])}
	for i := 0; i < int(f.Num); i++ {
		o := 12 + 16*i
		if o+16 > len(data) {
			return nil, errors.New("truncated table directory")
		}
		e := data[o:]
		f.Dir = append(f.Dir, DirEntry{string(e[:4]), be.Uint32(e[4:]), be.Uint32(e[8:]), be.Uint32(e[12:])})
	}
	return f, nil
}

// Table returns the data of the table with the exact 4 character tag.
func (f *File) Table(tag string) ([]byte, bool) {
	for _, e := range f.Dir {
		if e.Tag == tag {
			if uint64(e.Offset)+uint64(e.Length) > uint64(len(f.Data)) {
				return nil, false
			}
			return f.Data[e.Offset : e.Offset+e.Length], true
		}
	}
	return nil, false
}

// Has tells whether the directory has a table.
func (f *File) Has(tag string) bool {
	for _, e := range f.Dir {
		if e.Tag == tag {
			return true
		}
	}
	return false
}

// Tags lists the tags in directory order.
func (f *File) Tags() []string {
	var s []string
	for _, e := range f.Dir {
		s = append(s, e.Tag)
	}
	return s
}

// Sum is the OpenType checksum of b (zero padded to a multiple of 4).
func Sum(b []byte) uint32 {
	var s uint32
	for len(b) >= 4 {
		s += be.Uint32(b)
		b = b[4:]
	}
	if len(b) > 0 {
		var t [4]byte
		copy(t[:], b)
		s += be.Uint32(t[:])
	}
	return s
}

func headZeroed(b []byte) []byte {
	c := append([]byte(nil), b...)
	for i := 8; i < 12; i++ {
		c[i] = 0
	}
	return c
}

// FileAdjustment computes the checksum adjustment for the whole file, given the offset of its head table.
func FileAdjustment(data []byte, headOff int) uint32 {
	c := append([]byte(nil), data...)
	for i := headOff + 8; i < headOff+12; i++ {
		c[i] = 0
	}
	return 0xB1B0AFBA - Sum(c)
}

// ChecksumsValid decides the validity property (C16): every entry in the file, table checksums right, file
// adjustment right.
func (f *File) ChecksumsValid() error {
	for _, e := range f.Dir {
		if uint64(e.Offset)+uint64(e.Length) > uint64(len(f.Data)) {
			return fmt.Errorf("table %q (offset %d length %d) outside the file of %d bytes", e.Tag, e.Offset, e.Length, len(f.Data))
		}
		b := f.Data[e.Offset : e.Offset+e.Length]
		if e.Tag == "head" {
			if len(b) < 12 {
				return errors.New("head too short")
			}
			b = headZeroed(b)
		}
		if s := Sum(b); s != e.Checksum {
			return fmt.Errorf("table %q: checksum %08x, directory says %08x", e.Tag, s, e.Checksum)
		}
	}
	for _, e := range f.Dir {
		if e.Tag == "head" {
			want := FileAdjustment(f.Data, int(e.Offset))
			got := be.Uint32(f.Data[e.Offset+8:])
			if got != want {
				return fmt.Errorf("checksum adjustment %08x, want %08x", got, want)
			}
			return nil
		}
	}
	return errors.New("no head table")
}

// WellFormed decides that the file is a well-formed font container (C01).
func (f *File) WellFormed() error {
	n := int(f.Num)
	if n == 0 {
		return errors.New("no tables")
	}
	sel := bits.Len(uint(n)) - 1
	sr := 16 << sel
	if int(f.SearchRange) != sr || int(f.EntrySelector) != sel || int(f.RangeShift) != 16*n-sr {
		return fmt.Errorf("search fields for %d tables: got range %d selector %d shift %d, want %d %d %d", n,
			f.SearchRange, f.EntrySelector, f.RangeShift, sr, sel, 16*n-sr)
	}
	for i := 1; i < n; i++ {
		if f.Dir[i-1].Tag >= f.Dir[i].Tag {
			return fmt.Errorf("directory not sorted or duplicate: %q then %q", f.Dir[i-1].Tag, f.Dir[i].Tag)
		}
	}
	type rng struct {
		tag  string
		a, b uint64
	}
	rs := []rng{{"directory", 0, uint64(12 + 16*n)}}
	for _, e := range f.Dir {
		if strings.Trim(e.Tag, "\x00") != e.Tag || len(e.Tag) != 4 {
			return fmt.Errorf("odd tag %q", e.Tag)
		}
		if e.Offset%4 != 0 {
			return fmt.Errorf("table %q starts at %d, not 4 byte aligned", e.Tag, e.Offset)
		}
		if uint64(e.Offset)+uint64(e.Length) > uint64(len(f.Data)) {
			return fmt.Errorf("table %q outside file", e.Tag)
		}
		if e.Offset < uint32(12+16*n) {
			return fmt.Errorf("table %q starts inside the directory", e.Tag)
		}
		if e.Length > 0 {
			rs = append(rs, rng{e.Tag, uint64(e.Offset), uint64(e.Offset) + uint64(e.Length)})
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].a < rs[j].a })
	for i := 1; i < len(rs); i++ {
		if rs[i].a < rs[i-1].b {
			return fmt.Errorf("tables %q and %q overlap", rs[i-1].tag, rs[i].tag)
		}
	}
	return f.ChecksumsValid()
}

// TableData is a table to be put into a file.
type TableData struct {
	Tag  string
	Data []byte
}

// Layout says how Assemble arranges tables.
type Layout struct {
	DirOrder  []int    // permutation of the tables for the directory
	DataOrder []int    // permutation of the tables for their data
	Gaps      [][]byte // bytes before the i-th table data (in data order), after alignment padding
	Tail      []byte   // bytes after the last table
	Unaligned bool     // do not pad tables to 4 bytes
}

// Assemble builds a font file with right checksums and search fields.
func Assemble(version uint32, tables []TableData, l Layout) []byte {
	n := len(tables)
	out := make([]byte, 12+16*n)
	be.PutUint32(out, version)
	be.PutUint16(out[4:], uint16(n))
	if n > 0 {
		sel := bits.Len(uint(n)) - 1
		be.PutUint16(out[6:], uint16(16<<sel))
		be.PutUint16(out[8:], uint16(sel))
		be.PutUint16(out[10:], uint16(16*n-16<<sel))
	}
	offs := make([]int, n)
	order := l.DataOrder
	if len(order) != n {
		order = make([]int, n)
		for i := range order {
			order[i] = i
		}
	}
	headOff := -1
	for k, i := range order {
		if !l.Unaligned {
			for len(out)%4 != 0 {
				out = append(out, 0)
			}
		}
		if k < len(l.Gaps) {
			out = append(out, l.Gaps[k]...)
		}
		offs[i] = len(out)
		d := tables[i].Data
		if tables[i].Tag == "head" && len(d) >= 12 {
			headOff = len(out)
			d = headZeroed(d)
		}
		out = append(out, d...)
	}
	if !l.Unaligned {
		for len(out)%4 != 0 {
			out = append(out, 0)
		}
	}
	out = append(out, l.Tail...)
	dir := l.DirOrder
	if len(dir) != n {
		dir = make([]int, n)
		for i := range dir {
			dir[i] = i
		}
		sort.SliceStable(dir, func(a, b int) bool { return tables[dir[a]].Tag < tables[dir[b]].Tag })
	}
	for k, i := range dir {
		e := out[12+16*k:]
		copy(e, tables[i].Tag)
		d := tables[i].Data
		if tables[i].Tag == "head" && len(d) >= 12 {
			d = headZeroed(d)
		}
		be.PutUint32(e[4:], Sum(d))
		be.PutUint32(e[8:], uint32(offs[i]))
		be.PutUint32(e[12:], uint32(len(d)))
	}
	if headOff >= 0 {
		be.PutUint32(out[headOff+8:], 0xB1B0AFBA-Sum(out))
	}
	return out
}

// FixChecksums recomputes, in place, every directory checksum and the file adjustment, where the directory entries
// allow it.
func FixChecksums(data []byte) {
	f, err := ReadDir(data)
	if err != nil {
		return
	}
	head := -1
	for i, e := range f.Dir {
		if uint64(e.Offset)+uint64(e.Length) > uint64(len(data)) {
			continue
		}
		b := data[e.Offset : e.Offset+e.Length]
		if e.Tag == "head" {
			if len(b) < 12 {
				continue
			}
			head = int(e.Offset)
			b = headZeroed(b)
		}
		be.PutUint32(data[12+16*i+4:], Sum(b))
	}
	if head >= 12+16*int(f.Num) {
		be.PutUint32(data[head+8:], 0)
		be.PutUint32(data[head+8:], 0xB1B0AFBA-Sum(data))
	}
}
