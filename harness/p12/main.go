// P12: names decode by their code page and encode back.
package main

import (
	"bytes"
	"fmt"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
)

func main() { mc.Main("P12", run) }

// site is a text field inside an elementary file.
type site struct {
	ef   string
	off  int
	n    int // bytes, code page included
	path string
	base []byte
	e    *ref.EF
}

var sites = []*site{
	{ef: "identification", off: 65, n: 36, path: "driver_card_holder.card_holder_surname"},
	{ef: "identification", off: 101, n: 36, path: "driver_card_holder.card_holder_first_names"},
	{ef: "identification g2", off: 17, n: 36, path: "card.card_issuing_authority_name"},
	{ef: "driving_licence_info", off: 0, n: 36, path: "driving_licence_issuing_authority"},
	{ef: "current_usage g2", off: 5, n: 14, path: "session_open_vehicle.number"},
	{ef: "vehicles_used", off: 2 + 31 + 15, n: 14, path: "records[1].vehicle_registration.number"},
	{ef: "vehicles_used g2", off: 2 + 48 + 15, n: 14, path: "records[1].vehicle_registration.number"},
	{ef: "events_data", off: 24 + 10, n: 14, path: "events[1].event_vehicle_registration.number"},
	{ef: "faults_data g2", off: 24 + 10, n: 14, path: "faults[1].fault_vehicle_registration.number"},
	{ef: "control_activity_data", off: 5 + 18 + 1, n: 14, path: "control_vehicle_registration.number"},
}

// ia5 fields have no code page.
var ia5Sites = []*site{
	{ef: "driving_licence_info g2", off: 37, n: 16, path: "driving_licence_number"},
	{ef: "identification", off: 141, n: 2, path: "driver_card_holder.card_holder_preferred_language"},
	{ef: "icc", off: 9, n: 8, path: "card_approval_number"},
	{ef: "icc", off: 18, n: 2, path: "embedder_ic_assembler_id.country_code"},
}

// plain says that a text would be stripped of nothing.
func plain(s string) bool {
	const pad = "\t\n\v\f\r \x00\u0085\u00a0\u00ff\ufffd"
	return strings.Trim(s, pad) == s
}

// field puts text bytes into the site and checks decoding and writing back.
func field(c *mc.Ch, s *site, text []byte, ia5 bool) {
	content := bytes.Clone(s.base)
	copy(content[s.off:s.off+s.n], text)
	data := ef.Card(s.e, content)
	c.Visit(mc.Hash(text) + uint64(s.off))
	f, err := tachograph.UnmarshalFile(data)
	if err != nil {
		c.Fail(s.ef+" "+s.path+": refused: "+ef.Class(err), "error", err.Error(), "text", text, "file", data)
	}
	card := f.GetDriverCard()
	full := strings.Join(s.e.Path, ".") + "." + s.path
	sub := ef.Sub(card, full)
	if sub == nil {
		c.Fail(s.ef+" "+s.path+": missing", "text", text, "file", data)
	}
	w := ref.Want{}
	may := false
	d := ref.NewDec(text, w, "", &may)
	if ia5 {
		d.Ia5("f", s.n)
	} else {
		d.Str("f", s.n)
	}
	got := mc.FlattenAt("f", sub, "raw_data")
	if p, diff := w.Diff(got); p != "" {
		c.Fail(s.ef+" "+s.path+": "+p, "diff", diff, "text", text, "file", data)
	}
	c.Outcome(got["f.value"])
	out, err := tachograph.MarshalFile(f)
	if err != nil {
		c.Fail(s.ef+" "+s.path+": marshal: "+ef.Class(err), "error", err.Error(), "text", text, "file", data)
	}
	if !bytes.Equal(out, data) {
		c.Fail(s.ef+" "+s.path+": written back differently", "text", text, "file", data, "output", out)
	}
	// The text alone, without the bytes it was read from.
	ef.Set(card, full+".raw_data", nil)
	rewrite(c, s, f, card, full, text, ia5)
}

// has says whether an encoding (none: IA5) has a character.
func has(enc string, r rune) bool {
	if r < 0x80 || enc == "" {
		return r < 0x80
	}
	for p, name := range ref.CodePages {
		if name != enc {
			continue
		}
		for x := 0x80; x < 0x100; x++ {
			if got := ref.Decode(p, []byte{byte(x)}); got == string(r) && r != 0xFFFD {
				return true
			}
		}
		return false
	}
	return false
}

// rewrite marshals a file whose text has no raw bytes and reads it again.
func rewrite(c *mc.Ch, s *site, f *tachographv1.File, card *cardv1.DriverCardFile, full string, text []byte, ia5 bool) {
	before := ef.Sub(card, full)
	o, fd := ef.Walk(card, full+".value")
	value := o.Get(fd).String()
	enc := ""
	if !ia5 {
		enc = before.(*ddv1.StringValue).GetEncoding().String()
	}
	out, err := tachograph.MarshalFile(f)
	if err != nil {
		n, own := 0, enc != "ENCODING_EMPTY" && enc != "ENCODING_UNRECOGNIZED"
		for _, r := range value {
			n, own = n+1, own && has(enc, r)
		}
		if own && n < s.n+map[bool]int{true: 1}[ia5] {
			c.Fail(s.ef+" "+s.path+": text of the code page's own characters cannot be written: "+ef.Class(err), "error", err.Error(), "value", value, "encoding", enc)
		}
		c.Outcome("cannot write")
		return
	}
	if enc == "ENCODING_EMPTY" || enc == "ENCODING_UNRECOGNIZED" {
		// No code page to write the text in.
		c.Outcome("no code page")
		return
	}
	g, err := tachograph.UnmarshalFile(out)
	if err != nil {
		c.Fail(s.ef+" "+s.path+": the rewritten file is refused: "+ef.Class(err), "error", err.Error(), "value", value, "encoding", enc, "output", out)
	}
	after := ef.Sub(g.GetDriverCard(), full)
	a, b := proto.Clone(before), proto.Clone(after)
	ef.Set(a, "raw_data", nil)
	ef.Set(b, "raw_data", nil)
	same := proto.Equal(a, b)
	if !same && !plain(value) {
		// Padding at the ends of the text may go, or become other padding.
		ef.Set(a, "value", strings.Trim(value, "\t\n\v\f\r \x00\u0085\u00a0\u00ff\ufffd"))
		o, fd := ef.Walk(b, "value")
		ef.Set(b, "value", strings.Trim(o.Get(fd).String(), "\t\n\v\f\r \x00\u0085\u00a0\u00ff\ufffd"))
		same = proto.Equal(a, b)
	}
	if !same {
		c.Fail(s.ef+" "+s.path+": text changes when written", "want", fmt.Sprint(a), "got", fmt.Sprint(b), "output", out)
	}
	// The bytes of the field: page, text, blanks.
	rs, ok := ref.Split(out)
	if !ok {
		c.Fail(s.ef+" "+s.path+": malformed output", "output", out)
	}
	var body []byte
	for _, r := range rs {
		if r.FID == s.e.FID && r.Appendix == s.e.Appendix {
			body = r.Value
		}
	}
	if len(body) != len(s.base) {
		c.Fail(s.ef+" "+s.path+": file length changes", "want", len(s.base), "got", len(body), "output", out)
	}
	want := bytes.Clone(s.base)
	copy(want[s.off:s.off+s.n], body[s.off:s.off+s.n])
	if !bytes.Equal(want, body) {
		c.Fail(s.ef+" "+s.path+": other bytes change", "want", want, "got", body)
	}
}

func run(k *mc.Check) {
	for _, s := range append(append([]*site{}, sites...), ia5Sites...) {
		s.e = ref.EFByName(s.ef)
		s.base = s.e.Default(2)
		if s.e.Record == 0 {
			s.base = s.e.Default(0)
		}
	}
	pages := []byte{1, 0, 2, 3, 5, 7, 9, 13, 15, 16, 80, 85, 255, 4, 14, 17, 200}

	k.Explore("every code page, every byte, at the start, in the middle and at the end", 0, func(c *mc.Ch) {
		s := sites[c.Free(len(sites))]
		var page byte
		if k.Thorough() || s == sites[4] {
			page = byte(c.Free(256))
		} else {
			page = pages[c.Free(len(pages))]
		}
		v := byte(c.Free(256))
		for pos := 0; pos < 3; pos++ {
			t := bytes.Repeat([]byte("x"), s.n)
			t[0] = page
			t[[]int{1, s.n / 2, s.n - 1}[pos]] = v
			field(c, s, t, false)
			if k.Thorough() || page == 1 || page == 5 {
				// With padding after it.
				t = bytes.Repeat([]byte(" "), s.n)
				t[0] = page
				copy(t[1:], "Ab C")
				t[[]int{1, 3, 5}[pos]] = v
				field(c, s, t, false)
			}
		}
	})

	alpha := []byte{' ', 0x00, 0xFF, 'A', 0xA0, 0x85, '\t', 0xE4}
	k.Explore("padding before, inside and after the text", 0, func(c *mc.Ch) {
		page := pages[c.Free(len(pages))]
		s := sites[[]int{0, 4}[c.Free(2)]]
		fill := []byte{' ', 0x00, 0xFF, 'z'}[c.Free(4)]
		t := bytes.Repeat([]byte{fill}, s.n)
		t[0] = page
		n := mc.Pick2(k, 3, 5)
		for i := 0; i < n; i++ {
			t[1+i] = alpha[c.Free(len(alpha))]
		}
		field(c, s, t, false)
		u := bytes.Clone(t)
		copy(u[s.n-n:], t[1:1+n])
		field(c, s, u, false)
	})

	k.Explore("every character in every encoding", 0, func(c *mc.Ch) {
		page := pages[c.Free(12)]
		lo := c.Free(mc.Pick2(k, 0x30, 0x440)) * 256
		s := sites[0]
		data := ef.Card(s.e, s.base)
		f, card := ef.Parse(c, data)
		full := strings.Join(s.e.Path, ".") + "." + s.path
		ef.Set(card, full+".raw_data", nil)
		ef.Set(card, full+".encoding", int(encoding(page)))
		for r := rune(lo); r < rune(lo)+256; r++ {
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			ef.Set(card, full+".value", string(r))
			c.Visit(mc.HashS(fmt.Sprint(page, r)))
			rewrite(c, s, f, card, full, nil, false)
			ef.Set(card, full+".value", "a"+string(r)+"b")
			rewrite(c, s, f, card, full, nil, false)
		}
	})

	k.Explore("texts of every length", 0, func(c *mc.Ch) {
		s := sites[c.Free(len(sites))]
		page := pages[c.Free(12)]
		data := ef.Card(s.e, s.base)
		f, card := ef.Parse(c, data)
		full := strings.Join(s.e.Path, ".") + "." + s.path
		ef.Set(card, full+".raw_data", nil)
		ef.Set(card, full+".encoding", int(encoding(page)))
		r := ref.Decode(page, []byte{0xE4})
		for n := 0; n < s.n+3; n++ {
			v := strings.Repeat(r, n)
			ef.Set(card, full+".value", v)
			c.Visit(mc.HashS(fmt.Sprint(page, n, s.off)))
			if n >= s.n {
				if _, err := tachograph.MarshalFile(f); err == nil {
					c.Fail(s.ef+" "+s.path+": a text longer than its field is written", "value", v)
				}
				continue
			}
			rewrite(c, s, f, card, full, []byte{}, false)
		}
	})

	k.Explore("IA5 fields: every byte in every position", 1, func(c *mc.Ch) {
		s := ia5Sites[c.Free(len(ia5Sites))]
		t := bytes.Clone(s.base[s.off : s.off+s.n])
		if c.Free(2) == 1 {
			t = bytes.Repeat([]byte{' '}, s.n)
			copy(t[s.n/2:], "Q")
		}
		for i := range t {
			t[i] += byte(c.Pick(256))
		}
		field(c, s, t, true)
	})

	k.Explore("IA5 padding", 0, func(c *mc.Ch) {
		s := ia5Sites[[]int{0, 2}[c.Free(2)]]
		t := bytes.Repeat([]byte{[]byte{' ', 0x00, 0xFF, 'z'}[c.Free(4)]}, s.n)
		n := mc.Pick2(k, 3, 4)
		for i := 0; i < n; i++ {
			t[i] = alpha[c.Free(len(alpha))]
		}
		field(c, s, t, true)
		u := bytes.Clone(t)
		copy(u[s.n-n:], t[:n])
		field(c, s, u, true)
	})
	k.Assume("golang.org/x/text/encoding/charmap gives the character sets of ISO 8859 and KOI8 correctly")
	k.Assume("a text field that keeps the bytes it was read from (raw_data) is written from them; new texts are written with raw_data cleared")
}

func encoding(page byte) ddv1.Encoding {
	return ddv1.Encoding(ddv1.Encoding_value[ref.CodePages[page]])
}
