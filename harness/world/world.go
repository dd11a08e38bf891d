// Package world makes complete files and a resolver whose certificates fit them.
package world

import (
	"bytes"
	"context"
	"errors"
	"fmt"

	"github.com/way-platform/tachograph-go/internal/security"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

const (
	RootID = 0xFD45432001FFFF01
	CAID   = 0x0D44202001FFFF01
	GCAID  = 0x0D44202001FFFF02
	CardID = 0x1122334455667788
)

var (
	p256 = &ref.Curves[3]

	CACert  = ref.GoodRSACert("root", RootID, CAID, "ca")
	G1Cert  = ref.GoodRSACert("ca", CAID, CardID, "card")
	GCACert = ref.GoodECCert(p256, "groot", 1, GCAID, "gca")
	G2Cert  = ref.GoodECCert(p256, "gca", GCAID, CardID, "card")
)

func flip(b []byte, i int) []byte {
	b = bytes.Clone(b)
	b[i] ^= 0x10
	return b
}

// Driver is a driver card with every elementary file; k varies the content.
// Its certificates are genuine, except that of odd k's.
func Driver(k int) []byte {
	var rs []ref.Record
	for i := range ref.Slots {
		s := &ref.Slots[i]
		content := s.Content(k)
		switch s.Name {
		case "card_certificate":
			content = G1Cert
			if k%2 == 1 {
				content = flip(G1Cert, 30)
			}
		case "ca_certificate":
			content = CACert
		case "card_sign_certificate g2", "card_ma_certificate g2":
			content = G2Cert
		case "ca_certificate g2":
			content = GCACert
		}
		sig := -1
		if s.Signed {
			sig = k
		}
		rs = append(rs, s.Records(content, sig)...)
	}
	return ref.Join(rs)
}

// Small is a driver card with little but its certificates; g says of which generations.
func Small(g1, g2 bool) []byte {
	rs := []ref.Record{{FID: 2, Value: ref.Icc}}
	add := func(name string, content []byte) {
		s := ref.SlotByName(name)
		if content == nil {
			content = s.Content(0)
		}
		rs = append(rs, s.Records(content, -1)...)
	}
	if g1 {
		add("identification", nil)
		add("places", nil)
		add("card_certificate", G1Cert)
		add("ca_certificate", CACert)
	}
	if g2 {
		add("identification g2", nil)
		add("places g2", nil)
		add("card_sign_certificate g2", G2Cert)
		add("ca_certificate g2", GCACert)
	}
	return ref.Join(rs)
}

// Raw is a card that is no driver card: kept as records.
func Raw() []byte {
	return ref.Join([]ref.Record{
		{FID: 0x0002, Value: ref.Icc}, {FID: 0x0005, Value: []byte{1, 2, 3, 4, 5, 6, 7, 8}},
		{FID: 0x0501, Value: make([]byte, 11)}, {FID: 0x0520, Value: make([]byte, 211)},
		{FID: 0x0520, Appendix: 1, Value: bytes.Repeat([]byte{7}, 128)}, {FID: 0x050A, Value: bytes.Repeat([]byte{9}, 300)},
	})
}

// VU1 is a generation 1 vehicle unit download.
func VU1(k int) []byte {
	return ref.JoinVU([]ref.Transfer{
		{TREP: 1, B: ref.Overview1(1+k, 2)}, {TREP: 2, B: ref.Activities1(2, 4+k, 2, 1)}, {TREP: 2, B: ref.Activities1(1, 2, 0, 2)},
		{TREP: 3, B: ref.Faults1(1, 2, 1, 1)}, {TREP: 4, B: ref.Speed1(1 + k)}, {TREP: 5, B: ref.Technical1(1)},
	})
}

// VU2 is a generation 2 download, of version 1 or 2.
func VU2(v int) []byte {
	n := func(int) int { return 1 }
	base := byte(0x20)
	var ts []ref.Transfer
	if v == 2 {
		base = 0x30
		ts = append(ts, ref.Transfer{TREP: 0, B: []byte{2, 2}})
	}
	for _, t := range []byte{base + 1, base + 2, base + 2, base + 3, 0x24, base + 5} {
		ts = append(ts, ref.Transfer{TREP: t, B: ref.Gen2(t, n)})
	}
	return ref.JoinVU(ts)
}

var errUnknown = errors.New("not known")

// Resolver knows the authorities of the cards above.  It gives out the same
// objects again and again, as a resolver with a cache does.
type Resolver struct {
	Hook func(what string) // called first
	Root *securityv1.RootCertificate
	RSA  map[string]*securityv1.RsaCertificate
	ECC  map[string]*securityv1.EccCertificate
}

// NewResolver makes a resolver.
func NewResolver(hook func(what string)) *Resolver {
	k := ref.RSAOf("root")
	root, err := security.UnmarshalRootCertificate(append(append(ref.U64(RootID), k.Mod()...), k.Exp()...))
	if err != nil {
		panic(err)
	}
	rsa, err := security.UnmarshalRsaCertificate(bytes.Clone(CACert))
	if err != nil {
		panic(err)
	}
	ecc, err := security.UnmarshalEccCertificate(bytes.Clone(GCACert))
	if err != nil {
		panic(err)
	}
	return &Resolver{Hook: hook, Root: root,
		RSA: map[string]*securityv1.RsaCertificate{fmt.Sprint(uint64(CAID)): rsa},
		ECC: map[string]*securityv1.EccCertificate{fmt.Sprint(uint64(GCAID)): ecc}}
}

func (r *Resolver) hook(s string) {
	if r.Hook != nil {
		r.Hook(s)
	}
}

func (r *Resolver) GetRootCertificate(ctx context.Context) (*securityv1.RootCertificate, error) {
	r.hook("root")
	return r.Root, nil
}

func (r *Resolver) GetRsaCertificate(ctx context.Context, chr string) (*securityv1.RsaCertificate, error) {
	r.hook("rsa")
	if c := r.RSA[chr]; c != nil {
		return c, nil
	}
	return nil, errUnknown
}

func (r *Resolver) GetEccCertificate(ctx context.Context, chr string) (*securityv1.EccCertificate, error) {
	r.hook("ecc")
	if c := r.ECC[chr]; c != nil {
		return c, nil
	}
	return nil, errUnknown
}

// Scribble overwrites every byte slice in m in place.
func Scribble(m proto.Message) {
	var walk func(r protoreflect.Message)
	walk = func(r protoreflect.Message) {
		r.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			switch {
			case fd.IsList() && fd.Kind() == protoreflect.BytesKind:
				for i := 0; i < v.List().Len(); i++ {
					Flip(v.List().Get(i).Bytes())
				}
			case fd.IsList() && fd.Message() != nil:
				for i := 0; i < v.List().Len(); i++ {
					walk(v.List().Get(i).Message())
				}
			case fd.IsMap() || fd.IsList():
			case fd.Kind() == protoreflect.BytesKind:
				Flip(v.Bytes())
			case fd.Message() != nil:
				walk(v.Message())
			}
			return true
		})
	}
	walk(m.ProtoReflect())
}

// Flip complements b in place.
func Flip(b []byte) {
	for i := range b {
		b[i] ^= 0xFF
	}
}
