// P30: a value that the format cannot hold is refused, not cut to fit.
package main

import (
	"bytes"
	"fmt"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func main() { mc.Main("P30", run) }

// left says which fields are not set: those that say how the rest is laid out
// (which is the business of P05, P06 and P29), and those of certificates, whose
// bytes as issued are written whatever the fields say.
func left(fd protoreflect.FieldDescriptor) bool {
	switch n := string(fd.Name()); n {
	case "raw_data", "signature", "valid", "generation", "oldest_day_record_index", "newest_day_record_index", "ecc_certificate", "rsa_certificate":
		return true
	case "card_type":
		return fd.Parent().Name() != "FullCardNumber"
	default:
		return strings.HasSuffix(n, "_record_length")
	}
}

type subject struct {
	name string
	file *tachographv1.File
	fs   []ef.Field
}

// judge: what is written is read as it was set, or nothing is written.
func judge(c *mc.Ch, f *tachographv1.File, x *ef.Field, v protoreflect.Value) {
	what := mc.Generic(strings.TrimPrefix(x.Name, ".driver_card."))
	set := fmt.Sprintf("%.60q", v.String())
	want := mc.Flatten(f, "raw_data", "signature") // writing must not change what is written
	out, err := tachograph.MarshalFile(f)
	if err != nil {
		c.Outcome("refused " + what)
		return
	}
	g, err := tachograph.UnmarshalFile(out)
	if err != nil {
		c.Fail("what is written cannot be read: "+what, "value", set, "error", err.Error(), "output", out)
	}
	got := mc.Flatten(g, "raw_data", "signature")
	if p, d := mc.Diff(want, got); p != "" {
		if b, isBytes := v.Interface().([]byte); isBytes {
			// bytes shorter than the field are filled up with zeros
			if r, isBytes := x.At(g.ProtoReflect()).Interface().([]byte); isBytes && len(r) > len(b) && bytes.Equal(r, append(bytes.Clone(b), make([]byte, len(r)-len(b))...)) {
				x.Set(g.ProtoReflect(), v)
				if p, _ := mc.Diff(want, mc.Flatten(g, "raw_data", "signature")); p == "" {
					c.Outcome("filled up " + what)
					return
				}
			}
		}
		c.Fail("cut to fit: "+what, "value", set, "difference", d, "output", out)
	}
	c.Outcome("held " + what)
}

func run(k *mc.Check) {
	every := k.Thorough()
	nums := ef.Nums(k.Thorough())
	lister := &ef.Lister{Every: every, Only: "driver_card", Left: left}
	for i := range ref.Slots {
		sl := &ref.Slots[i]
		content := sl.Content(1)
		if strings.HasPrefix(sl.Name, "driver_activity_data") {
			content = ref.ActivityFile(54, 0, 3, 2, 4)
		}
		file := func(content []byte) *tachographv1.File {
			rs := sl.Records(content, -1)
			if sl.Name != "icc" {
				rs = append([]ref.Record{{FID: 2, Value: ref.Icc}}, rs...)
			}
			f, err := tachograph.UnmarshalFile(ref.Join(rs))
			if err != nil {
				return nil
			}
			return f
		}
		var ss []*subject
		have := map[string]bool{}
		add := func(name string, content []byte) {
			f := file(content)
			if f == nil {
				return
			}
			s := &subject{name: sl.Name + name, file: f}
			known := len(have)
			for _, x := range lister.Fields(f.ProtoReflect(), "") {
				if strings.Contains(x.Name, ".identification.card.owner_identification.") {
					continue // how a number that is no driver's is read; P11
				}
				if g := mc.Generic(x.Name); (sl.Name == "icc" || !strings.HasPrefix(x.Name, ".driver_card.icc.")) && (every || name == "" || !have[g]) {
					have[g] = true
					s.fs = append(s.fs, x)
				}
			}
			if name == "" && len(s.fs) > 0 || len(have) > known {
				ss = append(ss, s)
			}
		}
		add("", content)
		if len(ss) == 0 {
			continue // certificates
		}
		// Other contents bring fields out that this one does not have: codes
		// without a name, and what follows from other codes.
		for at := range content {
			for _, b := range []byte{0, 1, 2, 3, 4, 0xee, 0xff} {
				if other := bytes.Clone(content); other[at] != b {
					other[at] = b
					add(fmt.Sprintf(" with byte %d=%02x", at, b), other)
				}
			}
		}
		k.Explore(sl.Name+": any field, any value", 0, func(c *mc.Ch) {
			s := ss[c.Free(len(ss))]
			x := &s.fs[c.Free(len(s.fs))]
			vs := ef.Values(x.FD, x.At(s.file.ProtoReflect()), nums)
			if len(vs) == 0 {
				panic("no values for " + x.Name)
			}
			v := vs[c.Free(len(vs))]
			f := proto.CloneOf(s.file)
			if c.Free(2) == 1 {
				ef.Bare(f.ProtoReflect())
			}
			x.Set(f.ProtoReflect(), v)
			if c.WantLog() {
				c.Log("%s %s=%.60q", s.name, x.Name, v.String())
			}
			c.Visit(mc.HashS(s.name + x.Name + "=" + v.String()))
			judge(c, f, x, v)
		})
	}
}
