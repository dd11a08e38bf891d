package ref

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/text/encoding/charmap"
)

// Exp is the expectation for one leaf: exactly Eq, or whatever F accepts ("" is an absent leaf).
type Exp struct {
	Eq string
	F  func(got string) bool
	// Unk marks a code the data dictionary does not define.
	Unk bool
}

// Want maps leaf paths to expectations.
type Want map[string]Exp

// Dec decodes bytes into expectations.
type Dec struct {
	B   []byte
	off int
	W   Want
	P   string
	May *bool // set when the implementation may refuse the input instead

	Trace *[][2]int // start and end of each piece taken
}

// NewDec starts decoding b.
func NewDec(b []byte, w Want, prefix string, may *bool) *Dec {
	return &Dec{B: b, W: w, P: prefix, May: may}
}

// Take consumes n bytes.
func (d *Dec) Take(n int) []byte {
	b := d.B[d.off : d.off+n]
	if d.Trace != nil && n > 0 {
		*d.Trace = append(*d.Trace, [2]int{d.off, d.off + n})
	}
	d.off += n
	return b
}

// Left is the number of bytes not consumed.
func (d *Dec) Left() int { return len(d.B) - d.off }

// In is a decoder at the same position with a deeper path.
func (d *Dec) In(name string, f func(d *Dec)) {
	old := d.P
	d.P = old + name + "."
	f(d)
	d.P = old
}

// Set expects a plain value.
func (d *Dec) Set(name string, v any) { d.W[d.P+name] = Exp{Eq: fmt.Sprint(v)} }

// Any accepts every value of a leaf.
func (d *Dec) Any(name string) { d.W[d.P+name] = Exp{F: func(string) bool { return true }} }

func (d *Dec) seti(name string, v int) { d.W[d.P+name] = Exp{Eq: strconv.Itoa(v)} }

// U8 and the like decode big-endian unsigned integers.
func (d *Dec) U8(name string) int   { v := U(d.Take(1)); d.seti(name, v); return v }
func (d *Dec) U16(name string) int  { v := U(d.Take(2)); d.seti(name, v); return v }
func (d *Dec) U24(name string) int  { v := U(d.Take(3)); d.seti(name, v); return v }
func (d *Dec) U32(name string) int  { v := U(d.Take(4)); d.seti(name, v); return v }
func (d *Dec) Time(name string) int { v := U(d.Take(4)); d.SetTime(name, v); return v }

// SetTime expects a timestamp; zero is unset.
func (d *Dec) SetTime(name string, v int) {
	if v == 0 {
		d.W[d.P+name] = Exp{}
		return
	}
	d.W[d.P+name] = Exp{Eq: "@" + strconv.Itoa(v)}
}

// U is a big-endian unsigned integer.
func U(b []byte) int {
	v := 0
	for _, x := range b {
		v = v*256 + int(x)
	}
	return v
}

// I24 is a signed 24-bit integer.
func (d *Dec) I24(name string) {
	v := U(d.Take(3))
	if v >= 1<<23 {
		v -= 1 << 24
	}
	d.seti(name, v)
}

// Bytes expects the raw bytes.
func (d *Dec) Bytes(name string, n int) { d.W[d.P+name] = Exp{Eq: fmt.Sprintf("x%x", d.Take(n))} }

// Bool expects a truth value.
func (d *Dec) Bool(name string, v bool) { d.W[d.P+name] = Exp{Eq: strconv.FormatBool(v)} }

// Enum expects the name of a code; an undefined code must be refused or
// reported as unrecognised, with its raw value in rawName if the message has
// such a field.
func (d *Dec) Enum(name, rawName string, table map[int]string) {
	v := U(d.Take(1))
	if n, ok := table[v]; ok {
		d.W[d.P+name] = Exp{Eq: n}
		return
	}
	*d.May = true
	d.W[d.P+name] = Exp{F: unrecognised, Unk: true}
	if rawName != "" {
		d.W[d.P+rawName] = Exp{Eq: strconv.Itoa(v)}
	}
}

func unrecognised(got string) bool {
	return got == "" || strings.HasSuffix(got, "_UNRECOGNIZED") || strings.HasSuffix(got, "_UNSPECIFIED")
}

// Charmaps gives the character set of each code page the data dictionary lists.
var Charmaps = map[byte]*charmap.Charmap{
	0: charmap.ISO8859_1, 1: charmap.ISO8859_1, 2: charmap.ISO8859_2, 3: charmap.ISO8859_3, 5: charmap.ISO8859_5,
	7: charmap.ISO8859_7, 9: charmap.ISO8859_9, 13: charmap.ISO8859_13, 15: charmap.ISO8859_15, 16: charmap.ISO8859_16,
	80: charmap.KOI8R, 85: charmap.KOI8U,
}

// CodePages names the encodings.
var CodePages = map[byte]string{
	0: "ENCODING_DEFAULT", 1: "ISO_8859_1", 2: "ISO_8859_2", 3: "ISO_8859_3", 5: "ISO_8859_5", 7: "ISO_8859_7",
	9: "ISO_8859_9", 13: "ISO_8859_13", 15: "ISO_8859_15", 16: "ISO_8859_16", 80: "KOI8_R", 85: "KOI8_U", 255: "ENCODING_EMPTY",
}

const padding = "\t\n\v\f\r \x00"

// paddingLoose are characters that may be taken for padding: the decodings of
// 85, A0 and FF, which some equipment pads with.
func loose(m *charmap.Charmap) string {
	s := padding + "\u0085\u00a0\ufffd"
	if m != nil {
		for _, b := range []byte{0x85, 0xA0, 0xFF} {
			s += string(m.DecodeByte(b))
		}
	}
	return s
}

// TextExp is the expectation for a decoded text.
func TextExp(want string, looseSet string) Exp {
	core := strings.Trim(want, looseSet)
	return Exp{F: func(got string) bool {
		if got == "" {
			return core == ""
		}
		s, err := strconv.Unquote(got)
		if err != nil || !utf8.ValidString(s) {
			return false
		}
		return strings.Trim(s, padding) == s && strings.Trim(s, looseSet) == core && strings.Contains(want, s)
	}}
}

// Decode decodes a code-page string.
func Decode(page byte, b []byte) string {
	if page == 255 {
		return ""
	}
	m := Charmaps[page]
	if m == nil {
		m = charmap.ISO8859_1
	}
	var sb strings.Builder
	for _, x := range b {
		sb.WriteRune(m.DecodeByte(x))
	}
	return sb.String()
}

var looseSets = func() (t [256]string) {
	for p := range t {
		m := Charmaps[byte(p)]
		if m == nil {
			m = charmap.ISO8859_1
		}
		t[p] = loose(m)
	}
	return
}()

// Str expects a code page string of n bytes, code page included.
func (d *Dec) Str(name string, n int) {
	b := d.Take(n)
	p := d.P + name + "."
	enc := CodePages[b[0]]
	if enc == "" {
		enc = "ENCODING_UNRECOGNIZED"
	}
	d.W[p+"encoding"] = Exp{Eq: enc}
	d.W[p+"length"] = Exp{Eq: strconv.Itoa(n - 1)}
	// A field of 00 and FF only holds no text.
	filler := true
	for _, x := range b[1:] {
		if x != 0 && x != 0xFF {
			filler = false
		}
	}
	if filler {
		d.W[p+"value"] = Exp{F: func(got string) bool { return got == "" || got == `""` }}
		return
	}
	if want := Decode(b[0], b[1:]); strings.Trim(want, looseSets[b[0]]) == want {
		d.W[p+"value"] = Exp{Eq: strconv.Quote(want)}
	} else {
		d.W[p+"value"] = TextExp(want, looseSets[b[0]])
	}
}

// Ia5 expects an IA5 string of n bytes.
func (d *Dec) Ia5(name string, n int) {
	b := d.Take(n)
	p := d.P + name + "."
	d.W[p+"length"] = Exp{Eq: strconv.Itoa(n)}
	d.W[p+"value"] = Ia5Exp(b)
}

// Ia5Exp is the expectation for the text of an IA5 field.
func Ia5Exp(b []byte) Exp {
	for _, x := range b {
		if x >= 0x80 {
			// Not IA5; whatever is shown must be text, and the ASCII runs inside must survive.
			var runs []string
			for _, r := range strings.FieldsFunc(string(latin(b)), func(r rune) bool { return r >= 0x80 || strings.ContainsRune(padding, r) }) {
				runs = append(runs, r)
			}
			return Exp{F: func(got string) bool {
				if got == "" {
					return len(runs) == 0
				}
				s, err := strconv.Unquote(got)
				if err != nil || !utf8.ValidString(s) {
					return false
				}
				for _, r := range runs {
					i := strings.Index(s, r)
					if i < 0 {
						return false
					}
					s = s[i+len(r):]
				}
				return true
			}}
		}
	}
	return Exp{Eq: strconv.Quote(strings.Trim(string(b), padding))}
}

func latin(b []byte) []rune {
	r := make([]rune, len(b))
	for i, x := range b {
		r[i] = rune(x)
	}
	return r
}

// digits decodes packed decimal; ok is false if a nibble is not a digit.
func digits(b []byte) (v int, ok bool) {
	for _, x := range b {
		if x>>4 > 9 || x&15 > 9 {
			return 0, false
		}
		v = v*100 + int(x>>4)*10 + int(x&15)
	}
	return v, true
}

// Bcd expects a packed decimal number of n bytes.
func (d *Dec) Bcd(name string, n int) {
	b := d.Take(n)
	v, ok := digits(b)
	if !ok {
		*d.May = true
		d.Any(name + ".length")
		d.W[d.P+name+".value"] = Exp{} // never a number
		return
	}
	d.seti(name+".value", v)
	d.seti(name+".length", n)
}

// Date expects a packed calendar date.
func (d *Dec) Date(name string) { d.In(name, func(d *Dec) { d.date() }) }

func (d *Dec) date() {
	b := d.Take(4)
	y, ok1 := digits(b[:2])
	m, ok2 := digits(b[2:3])
	dd, ok3 := digits(b[3:])
	if !ok1 || !ok2 || !ok3 {
		*d.May = true
		y, m, dd = 0, 0, 0
	}
	d.seti("year", y)
	d.seti("month", m)
	d.seti("day", dd)
}

// MonthYear expects a packed month and two-digit year.
func (d *Dec) MonthYear(name string) {
	b := d.Take(2)
	m, ok1 := digits(b[:1])
	y, ok2 := digits(b[1:])
	if !ok1 || !ok2 {
		*d.May = true
		m, y = 0, -2000
	}
	if m == 0 && y == 0 {
		y = -2000
	}
	d.seti(name+".month", m)
	d.seti(name+".year", 2000+y)
}

func zero(v string) bool {
	switch v {
	case "", "0", "false", `""`, "x":
		return true
	}
	return strings.HasSuffix(v, "_UNSPECIFIED")
}

// Diff compares an expectation with the leaves an implementation returned.
func (w Want) Diff(got map[string]string) (path, detail string) {
	var bad []string
	for p, e := range w {
		g := got[p]
		if e.F != nil {
			if e.F(g) {
				continue
			}
		} else if g == e.Eq || zero(g) && zero(e.Eq) {
			continue
		}
		bad = append(bad, p)
	}
	for p, g := range got {
		if _, ok := w[p]; !ok && g != "{}" && !zero(g) {
			bad = append(bad, p)
		}
	}
	if len(bad) == 0 {
		return "", ""
	}
	sort.Strings(bad)
	var sb strings.Builder
	for i, p := range bad {
		if i == 6 {
			fmt.Fprintf(&sb, "... %d more", len(bad)-6)
			break
		}
		e, ok := w[p]
		want := e.Eq
		if !ok {
			want = "(absent)"
		} else if e.F != nil {
			want = "(see the reference decoder)"
		} else if want == "" {
			want = "(absent)"
		}
		g := got[p]
		if g == "" {
			g = "(absent)"
		}
		fmt.Fprintf(&sb, "%s: want %s got %s; ", p, want, g)
	}
	return generic(bad[0]), sb.String()
}

func generic(p string) string {
	var sb strings.Builder
	in := false
	for _, r := range p {
		switch {
		case r == '[':
			in = true
			sb.WriteString("[]")
		case r == ']':
			in = false
		case !in:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

// Unknown says whether some code has no meaning.
func (w Want) Unknown() bool {
	for _, e := range w {
		if e.Unk {
			return true
		}
	}
	return false
}
