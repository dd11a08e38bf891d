// P21: the embedded certificate store returns exactly the named certificate.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"github.com/way-platform/tachograph-go/internal/cert"
	"github.com/way-platform/tachograph-go/internal/cert/certcache"
	"github.com/way-platform/tachograph-go/internal/security"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func main() { mc.Main("P21", run) }

const dir = "/repo/internal/cert/certcache/"

var (
	root  []byte
	files [2]map[string][]byte
	index struct {
		G1, G2 []struct{ CHR, CAR, Country, URL string }
	}
)

func load() {
	var err error
	if root, err = os.ReadFile(dir + "root/EC_PK.bin"); err != nil {
		panic(err)
	}
	for g, d := range []string{"g1", "g2"} {
		files[g] = map[string][]byte{}
		l, _ := filepath.Glob(dir + d + "/*.bin")
		for _, f := range l {
			b, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			files[g][strings.TrimSuffix(filepath.Base(f), ".bin")] = b
		}
	}
	b, err := os.ReadFile(dir + "index.json")
	if err == nil {
		err = json.Unmarshal(b, &index)
	}
	if err != nil {
		panic(err)
	}
}

// get asks the store; root for gen 2.
func get(gen int, chr string) (proto.Message, error) {
	r, ctx := cert.NewEmbeddedResolver(), context.Background()
	switch gen {
	case 0:
		c, err := r.GetRsaCertificate(ctx, chr)
		if c == nil {
			return nil, err
		}
		return c, err
	case 1:
		c, err := r.GetEccCertificate(ctx, chr)
		if c == nil {
			return nil, err
		}
		return c, err
	default:
		c, err := r.GetRootCertificate(ctx)
		if c == nil {
			return nil, err
		}
		return c, err
	}
}

func bytesOf(m proto.Message, field string) []byte {
	r := m.ProtoReflect()
	return r.Get(r.Descriptor().Fields().ByName(protoreflect.Name(field))).Bytes()
}

func strOf(m proto.Message, field string) string {
	r := m.ProtoReflect()
	return r.Get(r.Descriptor().Fields().ByName(protoreflect.Name(field))).String()
}

// judge compares a lookup with the files.
func judge(c *mc.Ch, gen int, chr, h string) proto.Message {
	m, err := get(gen, chr)
	if gen == 2 {
		if err != nil || m == nil {
			c.Fail("no root", "error", fmt.Sprint(err), "history", h)
		}
		if strOf(m, "key_id") != new(big.Int).SetBytes(root[:8]).String() || !bytes.Equal(bytesOf(m, "rsa_modulus"), root[8:136]) || !bytes.Equal(bytesOf(m, "rsa_exponent"), root[136:]) {
			c.Fail("another root", "got", fmt.Sprint(m), "history", h)
		}
		return m
	}
	want, ok := files[gen][chr]
	if ok != (err == nil) || ok != (m != nil) {
		c.Fail("lookup", "generation", gen+1, "holder", chr, "error", fmt.Sprint(err), "embedded", ok, "history", h)
	}
	if !ok {
		c.Outcome("none")
		return nil
	}
	if !bytes.Equal(bytesOf(m, "raw_data"), want) {
		c.Fail("another certificate", "generation", gen+1, "holder", chr, "got", bytesOf(m, "raw_data"), "history", h)
	}
	if m.ProtoReflect().Get(m.ProtoReflect().Descriptor().Fields().ByName("signature_valid")).Bool() {
		c.Fail("counts as verified", "generation", gen+1, "holder", chr, "history", h)
	}
	c.Outcome("found")
	return m
}

// scribble overwrites everything a message holds.
func scribble(m proto.Message) {
	var walk func(r protoreflect.Message)
	walk = func(r protoreflect.Message) {
		r.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			switch {
			case fd.Kind() == protoreflect.BytesKind:
				b := v.Bytes()
				for i := range b {
					b[i] ^= 0xA5
				}
			case fd.Message() != nil && !fd.IsList():
				walk(v.Message())
			case fd.Kind() == protoreflect.StringKind:
				r.Set(fd, protoreflect.ValueOfString("0"))
			case fd.Kind() == protoreflect.BoolKind:
				r.Set(fd, protoreflect.ValueOfBool(true))
			}
			return true
		})
	}
	walk(m.ProtoReflect())
}

func run(k *mc.Check) {
	load()
	var refs []string
	for g := range files {
		for chr := range files[g] {
			refs = append(refs, chr)
		}
	}
	for i := range refs { // a fixed order
		for j := i + 1; j < len(refs); j++ {
			if refs[j] < refs[i] {
				refs[i], refs[j] = refs[j], refs[i]
			}
		}
	}
	listed := append(append([]string{}, refs...), new(big.Int).SetBytes(root[:8]).String())
	for _, e := range index.G1 {
		listed = append(listed, e.CHR)
	}
	for _, e := range index.G2 {
		listed = append(listed, e.CHR)
	}
	k.Explore("every embedded and every listed reference, in both generations", 0, func(c *mc.Ch) {
		gen, i := c.Free(2), c.Free(len(listed))
		c.Visit(mc.HashS(fmt.Sprint(gen, listed[i])))
		judge(c, gen, listed[i], "")
	})
	k.Explore("neighbours of embedded references", 0, func(c *mc.Ch) {
		gen := c.Free(2)
		chr := refs[c.Free(len(refs))]
		b := []byte(chr)
		switch c.Free(8) {
		case 0:
			b[c.Free(len(b))] = byte(c.Free(256))
		case 1:
			i := c.Free(len(b) + 1)
			b = append(b[:i:i], append([]byte{byte(c.Free(256))}, b[i:]...)...)
		case 2:
			i := c.Free(len(b))
			b = append(b[:i:i], b[i+1:]...)
		case 3:
			v, _ := new(big.Int).SetString(chr, 10)
			b = []byte(fmt.Sprint(v.Uint64() ^ 1<<c.Free(64)))
		case 4:
			b = b[:c.Free(len(b)+1)]
		case 5:
			b = b[c.Free(len(b)+1):]
		case 6:
			i, j := c.Free(len(b)), c.Free(len(b))
			b[i], b[j] = b[j], b[i]
		case 7:
			l := []string{"../g1/" + chr, "../g2/" + chr, "./" + chr, "/" + chr, chr + ".bin", "g1/" + chr, "../root/EC_PK", "*", "?", chr + "/", chr + "\x00", "..", ".", "EC_PK", strings.Repeat("9", 300), "\xff", "-" + chr, chr + ".bin/../" + chr, "../g1/../g1/" + chr, "//" + chr}
			b = []byte(l[c.Free(len(l))])
		}
		c.Visit(mc.HashS(fmt.Sprint(gen, string(b))))
		judge(c, gen, string(b), "")
		if d, ok := []func(string) ([]byte, bool){certcache.ReadG1, certcache.ReadG2}[gen](string(b)); ok != (files[gen][string(b)] != nil) || !bytes.Equal(d, files[gen][string(b)]) {
			c.Fail("cache lookup", "generation", gen+1, "holder", string(b))
		}
	})
	k.Explore("embedded certificates are what their names say", 0, func(c *mc.Ch) {
		gen, i := c.Free(2), c.Free(len(refs))
		chr := refs[i]
		raw, ok := files[gen][chr]
		if !ok {
			return
		}
		c.Visit(mc.HashS(fmt.Sprint("content", gen, chr)))
		m, err := get(gen, chr)
		if err != nil {
			c.Fail("lookup", "generation", gen+1, "holder", chr, "error", err.Error())
		}
		if gen == 1 {
			f, ok := ref.ECSplit(raw)
			if !ok || fmt.Sprint(f.CHR) != chr || strOf(m, "certificate_holder_reference") != chr {
				c.Fail("filed under another holder", "generation", gen+1, "holder", chr)
			}
			return
		}
		content, ok := ref.RSAOpen(raw, root[8:136], root[136:], new(big.Int).SetBytes(root[:8]).String())
		if !ok || new(big.Int).SetBytes(content[20:28]).String() != chr {
			c.Fail("filed under another holder", "generation", gen+1, "holder", chr, "genuine", ok)
		}
		r, err := cert.Root()
		if err != nil {
			c.Fail("no root")
		}
		x, _ := security.UnmarshalRsaCertificate(bytesOf(m, "raw_data"))
		if err := security.VerifyRsaCertificateWithRoot(x, r); err != nil || x.GetCertificateHolderReference() != chr {
			c.Fail("does not verify", "holder", chr, "error", fmt.Sprint(err))
		}
	})
	k.Explore("the index as loaded is the file", 0, func(c *mc.Ch) {
		x, err := certcache.LoadIndex()
		c.Visit(2)
		if err != nil || len(x.G1) != len(index.G1) || len(x.G2) != len(index.G2) {
			c.Fail("index", "error", fmt.Sprint(err))
		}
		for i, e := range index.G1 {
			if g := x.G1[i]; g.CHR != e.CHR || g.CAR != e.CAR || g.URL != e.URL || g.Country != e.Country {
				c.Fail("index entry", "generation", 1, "entry", i)
			}
		}
		for i, e := range index.G2 {
			if g := x.G2[i]; g.CHR != e.CHR || g.CAR != e.CAR || g.URL != e.URL || g.Country != e.Country {
				c.Fail("index entry", "generation", 2, "entry", i)
			}
		}
		// Damaging it harms nobody.
		for i := range x.G1 {
			x.G1[i].URL, x.G1[i].CHR = "", ""
		}
		y, err := certcache.LoadIndex()
		if err != nil || y.G1[0].URL != index.G1[0].URL || y.G1[len(y.G1)-1].CHR != index.G1[len(index.G1)-1].CHR {
			c.Fail("index damaged by a caller", "error", fmt.Sprint(err))
		}
	})
	// Executions share the store, so damage anywhere shows in all that follow.
	k.Explore("lookups, with their results overwritten, in sequences", 0, func(c *mc.Ch) {
		h := ""
		var held []proto.Message
		var snaps []proto.Message
		for d := 0; d < mc.Pick2(k, 4, 5); d++ {
			op := c.Free(7)
			h += fmt.Sprint(op, " ")
			c.Visit(mc.HashS("seq" + h))
			var m proto.Message
			switch op {
			case 0, 1: // an embedded certificate
				m = judge(c, op, firstOf(op), h)
			case 2:
				m = judge(c, 2, "", h)
			case 3:
				judge(c, 0, firstOf(1), h)
				judge(c, 1, firstOf(0), h)
			case 4, 5: // overwrite the oldest or newest result
				if len(held) == 0 {
					return
				}
				i := 0
				if op == 5 {
					i = len(held) - 1
				}
				scribble(held[i])
				snaps[i] = proto.Clone(held[i])
			case 6:
				return
			}
			for i := range held {
				if !proto.Equal(held[i], snaps[i]) {
					c.Fail("a result changed by itself", "history", h, "result", i)
				}
			}
			if m != nil {
				held = append(held, m)
				snaps = append(snaps, proto.Clone(m))
			}
		}
	})
	k.Assume("the embedded files of the working tree are the published ones; generation 1 files are checked to open under the embedded root key, generation 2 files to name their holder")
}

func firstOf(gen int) string {
	best := ""
	for chr := range files[gen] {
		if best == "" || chr < best {
			best = chr
		}
	}
	return best
}
