// P18: a verified card means every certificate chain on it checks out.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/big"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/security"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
)

func main() { mc.Main("P18", run) }

const (
	rootID = 0xFD45432001FFFF01
	caID   = 0x0D44202001FFFF01
	ca2ID  = 0x0D44202002FFFF01
	gcaID  = 0x0D44202001FFFF02
	gca2ID = 0x0D44202002FFFF02
	cardID = 0x1122334455667788
)

var (
	p256 = &ref.Curves[3]
	p384 = &ref.Curves[4]

	caCert   = ref.GoodRSACert("root", rootID, caID, "ca")
	ca2Cert  = ref.GoodRSACert("root", rootID, ca2ID, "ca2")
	rogueCA  = ref.GoodRSACert("rogue", rootID, caID, "ca") // not made by the root
	g1Cert   = ref.GoodRSACert("ca", caID, cardID, "card")
	g1ByCA2  = ref.GoodRSACert("ca2", caID, cardID, "card") // names ca, made by ca2
	g1Under2 = ref.GoodRSACert("ca2", ca2ID, cardID, "card")
	gcaCert  = ref.GoodECCert(p256, "groot", 1, gcaID, "gca")
	gca2Cert = ref.GoodECCert(p256, "groot", 1, gca2ID, "gca2")
	gca3Cert = ref.GoodECCert(p384, "groot", 1, gcaID, "gca")
	g2Cert   = ref.GoodECCert(p256, "gca", gcaID, cardID, "card")
	g2ByCA2  = ref.GoodECCert(p256, "gca2", gcaID, cardID, "card")
	g2Under2 = ref.GoodECCert(p256, "gca2", gca2ID, cardID, "card")
)

func flip(b []byte, i int) []byte {
	b = bytes.Clone(b)
	b[i] ^= 0x10
	return b
}

func rootFile() []byte {
	k := ref.RSAOf("root")
	return append(append(ref.U64(rootID), k.Mod()...), k.Exp()...)
}

// A link is one answer of the resolver; nil raw with no error is a nil certificate.
type answers struct {
	rsa, ecc, root int
}

const nRSA, nECC, nRoot = 10, 9, 7

var errResolver = errors.New("the source is not available")

// resolver answers by the menu and records what it was asked.
type resolver struct {
	a    answers
	ctx  context.Context
	bad  string
	asks []string
}

func (r *resolver) note(ctx context.Context, what string) {
	if ctx != r.ctx {
		r.bad = "another context"
	}
	r.asks = append(r.asks, what)
}

func parseRSA(raw []byte) *securityv1.RsaCertificate {
	c, err := security.UnmarshalRsaCertificate(bytes.Clone(raw))
	if err != nil {
		panic(err)
	}
	return c
}

func parseECC(raw []byte) *securityv1.EccCertificate {
	c, err := security.UnmarshalEccCertificate(bytes.Clone(raw))
	if err != nil {
		panic(err)
	}
	return c
}

func withKey(c *securityv1.RsaCertificate, holder string, chr uint64) *securityv1.RsaCertificate {
	k := ref.RSAOf(holder)
	c.SetCertificateHolderReference(fmt.Sprint(chr))
	c.SetRsaModulus(k.Mod())
	c.SetRsaExponent(k.Exp())
	return c
}

func (a answers) rsaAnswer(chr string) (*securityv1.RsaCertificate, error) {
	own, holder, id := caCert, "ca", uint64(caID)
	if chr == fmt.Sprint(uint64(ca2ID)) {
		own, holder, id = ca2Cert, "ca2", ca2ID
	}
	switch a.rsa {
	case 0:
		return parseRSA(own), nil
	case 1:
		return withKey(parseRSA(own), holder, id), nil
	case 2:
		return nil, errResolver
	case 3: // another authority
		if holder == "ca" {
			return parseRSA(ca2Cert), nil
		}
		return parseRSA(caCert), nil
	case 4:
		return parseRSA(flip(own, 60)), nil
	case 5:
		return nil, nil
	case 6:
		return parseRSA(rogueCA), nil
	case 7: // the name of one, the key of the other
		return withKey(parseRSA(own), "ca2", id), nil
	case 8: // an incomplete key
		c := withKey(parseRSA(own), holder, id)
		c.SetRsaExponent(nil)
		return c, nil
	default: // an error wins over a certificate
		return parseRSA(own), errResolver
	}
}

func (a answers) eccAnswer(chr string) (*securityv1.EccCertificate, error) {
	own := gcaCert
	if chr == fmt.Sprint(uint64(gca2ID)) {
		own = gca2Cert
	}
	switch a.ecc {
	case 0:
		return parseECC(own), nil
	case 1:
		return nil, errResolver
	case 2:
		if bytes.Equal(own, gcaCert) {
			return parseECC(gca2Cert), nil
		}
		return parseECC(gcaCert), nil
	case 3:
		return parseECC(gca3Cert), nil
	case 4:
		c := parseECC(own)
		c.SetPublicKey(nil)
		return c, nil
	case 5:
		return nil, nil
	case 6:
		c := parseECC(own)
		c.GetPublicKey().SetDomainParametersOid("1.2.3.4")
		return c, nil
	case 7:
		c := parseECC(own)
		c.GetPublicKey().SetPublicPointY(flip(c.GetPublicKey().GetPublicPointY(), 5))
		return c, nil
	default:
		return parseECC(own), errResolver
	}
}

func (a answers) rootAnswer() (*securityv1.RootCertificate, error) {
	parse := func(b []byte) *securityv1.RootCertificate {
		r, err := security.UnmarshalRootCertificate(b)
		if err != nil {
			panic(err)
		}
		return r
	}
	switch a.root {
	case 0:
		return parse(rootFile()), nil
	case 1:
		return nil, errResolver
	case 2: // the key of another root
		k := ref.RSAOf("rogue")
		return parse(append(append(ref.U64(rootID), k.Mod()...), k.Exp()...)), nil
	case 3:
		return nil, nil
	case 4:
		return parse(append(ref.U64(rootID-1), rootFile()[8:]...)), nil
	case 5:
		return &securityv1.RootCertificate{}, nil
	default:
		return parse(rootFile()), errResolver
	}
}

func (r *resolver) GetRootCertificate(ctx context.Context) (*securityv1.RootCertificate, error) {
	r.note(ctx, "root")
	return r.a.rootAnswer()
}

func (r *resolver) GetRsaCertificate(ctx context.Context, chr string) (*securityv1.RsaCertificate, error) {
	r.note(ctx, "rsa "+chr)
	return r.a.rsaAnswer(chr)
}

func (r *resolver) GetEccCertificate(ctx context.Context, chr string) (*securityv1.EccCertificate, error) {
	r.note(ctx, "ecc "+chr)
	return r.a.eccAnswer(chr)
}

// model1 is the verdict on the generation 1 application.
func model1(m *securityv1.RsaCertificate, a answers) bool {
	raw := m.GetRawData()
	if m == nil || len(raw) != 194 {
		return false
	}
	ca, err := a.rsaAnswer(fmt.Sprint(new(big.Int).SetBytes(raw[186:])))
	if err != nil || ca == nil {
		return false
	}
	mod, exp, chr := ca.GetRsaModulus(), ca.GetRsaExponent(), ca.GetCertificateHolderReference()
	if len(mod) == 0 || len(exp) == 0 {
		root, err := a.rootAnswer()
		if err != nil || root == nil {
			return false
		}
		content, ok := ref.RSAOpen(ca.GetRawData(), root.GetRsaModulus(), root.GetRsaExponent(), root.GetKeyId())
		if !ok {
			return false
		}
		mod, exp, chr = content[28:156], content[156:], fmt.Sprint(new(big.Int).SetBytes(content[20:28]))
	}
	_, ok := ref.RSAOpen(raw, mod, exp, chr)
	return ok
}

// model2 is the verdict on the generation 2 application.
func model2(m *securityv1.EccCertificate, a answers) bool {
	if m == nil {
		return false
	}
	f, ok := ref.ECSplit(m.GetRawData())
	if !ok {
		return false
	}
	ca, err := a.eccAnswer(fmt.Sprint(f.CAR))
	if err != nil || ca == nil {
		return false
	}
	return eccOK(f, ca)
}

func eccOK(f ref.ECFields, ca *securityv1.EccCertificate) bool {
	for i := range ref.Curves {
		if cv := &ref.Curves[i]; cv.OID == ca.GetPublicKey().GetDomainParametersOid() {
			n := func(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
			return ref.ECVerify(cv, n(ca.GetPublicKey().GetPublicPointX()), n(ca.GetPublicKey().GetPublicPointY()), f.Body, n(f.R), n(f.S))
		}
	}
	return false
}

// makeCard makes the card of the two states.
const nG1, nG2 = 8, 9

func makeCard(s1, s2 int) []byte {
	rs := []ref.Record{{FID: 2, Value: ref.Icc}}
	add := func(name string, content []byte) {
		s := ref.SlotByName(name)
		if content == nil {
			content = s.Content(0)
		}
		rs = append(rs, s.Records(content, -1)...)
	}
	switch s1 {
	case 1:
		add("card_certificate", g1Cert)
	case 2:
		add("card_download", nil) // an application without its certificate
	case 3:
		add("card_certificate", flip(g1Cert, 20))
	case 4:
		add("card_certificate", flip(g1Cert, 150))
	case 5:
		add("card_certificate", g1ByCA2)
	case 6:
		add("card_certificate", g1Under2)
	case 7: // only the authority's certificate
		add("ca_certificate", caCert)
	}
	if s1 == 1 {
		add("ca_certificate", caCert)
	}
	switch s2 {
	case 1:
		add("card_ma_certificate g2", nil)
		add("card_sign_certificate g2", g2Cert)
		add("ca_certificate g2", gcaCert)
	case 2:
		add("card_download g2", nil)
	case 3:
		add("card_sign_certificate g2", flip(g2Cert, 40))
	case 4:
		add("card_sign_certificate g2", flip(g2Cert, len(g2Cert)-10))
	case 5:
		add("card_sign_certificate g2", g2ByCA2)
	case 6:
		add("card_sign_certificate g2", g2Under2)
	case 7: // the mutual authentication certificate is not the signing one
		add("card_ma_certificate g2", g2Cert)
	case 8:
		add("card_sign_certificate g2", g2Cert[:len(g2Cert)-64])
	}
	return ref.Join(rs)
}

// certs are the places of certificates on a card that may be marked valid.
func marks(d *cardv1.DriverCardFile) []proto.Message {
	var l []proto.Message
	add := func(m proto.Message) {
		if m.ProtoReflect().IsValid() {
			l = append(l, m)
		}
	}
	add(d.GetTachograph().GetCardCertificate().GetRsaCertificate())
	add(d.GetTachographG2().GetCardSignCertificate().GetEccCertificate())
	return l
}

// setValid marks the certificates of a card as valid, as an earlier verification would.
func setValid(d *cardv1.DriverCardFile) {
	for _, m := range marks(d) {
		r := m.ProtoReflect()
		ef.Set(m, "signature_valid", true)
		_ = r
	}
}

// strip removes what verification may fill in.
func strip(f *tachographv1.File) *tachographv1.File {
	f = proto.Clone(f).(*tachographv1.File)
	if c := f.GetDriverCard().GetTachograph().GetCardCertificate().GetRsaCertificate(); c != nil {
		c.ClearSignatureValid()
		c.ClearCertificateHolderReference()
		c.ClearEndOfValidity()
		c.ClearRsaModulus()
		c.ClearRsaExponent()
	}
	if c := f.GetDriverCard().GetTachographG2().GetCardSignCertificate().GetEccCertificate(); c != nil {
		c.ClearSignatureValid()
	}
	return f
}

func judge(c *mc.Ch, f *tachographv1.File, a answers, h string) bool {
	d := f.GetDriverCard()
	c1, c2 := d.GetTachograph().GetCardCertificate().GetRsaCertificate(), d.GetTachographG2().GetCardSignCertificate().GetEccCertificate()
	ok1, ok2 := !d.HasTachograph() || model1(c1, a), !d.HasTachographG2() || model2(c2, a)
	before := strip(f)
	ctx := context.WithValue(context.Background(), "k", "v")
	r := &resolver{a: a, ctx: ctx}
	err := tachograph.VerifyOptions{CertificateResolver: r}.VerifyFile(ctx, f)
	fail := func(key string) {
		c.Fail(key, "case", h, "error", fmt.Sprint(err), "asked", fmt.Sprint(r.asks))
	}
	switch {
	case err == nil && !ok1:
		fail("verified although the generation 1 chain is broken")
	case err == nil && !ok2:
		fail("verified although the generation 2 chain is broken")
	case err != nil && ok1 && ok2:
		fail("refused although every chain is genuine: " + ef.Class(err))
	case r.bad != "":
		fail("resolver called with " + r.bad)
	}
	if c1.GetSignatureValid() && !ok1 {
		fail("generation 1 certificate counts as valid although its chain is broken")
	}
	if c2.GetSignatureValid() && !ok2 {
		fail("generation 2 certificate counts as valid although its chain is broken")
	}
	if err == nil && (c1 != nil && !c1.GetSignatureValid() || c2 != nil && d.HasTachographG2() && !c2.GetSignatureValid()) {
		fail("verified, but a certificate does not count as valid")
	}
	if err == nil && c1 != nil {
		content, _ := ref.RSAOpen(c1.GetRawData(), ref.RSAOf("ca").Mod(), ref.RSAOf("ca").Exp(), fmt.Sprint(uint64(caID)))
		if c1.GetCertificateHolderReference() != fmt.Sprint(uint64(cardID)) || content != nil && !bytes.Equal(c1.GetRsaModulus(), content[28:156]) {
			fail("verified, but the certificate exposes something else")
		}
	}
	if !proto.Equal(before, strip(f)) {
		fail("verification changed more than its findings")
	}
	c.Outcome(fmt.Sprint(ok1, ok2, err == nil))
	return err == nil
}

func run(k *mc.Check) {
	type parsed struct{ f *tachographv1.File }
	cards := make([][]parsed, nG1)
	for i := range cards {
		for j := 0; j < nG2; j++ {
			f, err := tachograph.UnmarshalFile(makeCard(i, j))
			if err != nil {
				f = nil
			}
			cards[i] = append(cards[i], parsed{f})
		}
	}
	load := func(c *mc.Ch, i, j int) *tachographv1.File {
		f := cards[i][j].f
		if f == nil {
			if j != 8 {
				c.Fail("card refused", "file", makeCard(i, j))
			}
			return nil // a certificate cut short does not parse
		}
		if f.GetType() != tachographv1.File_DRIVER_CARD {
			return nil
		}
		return proto.Clone(f).(*tachographv1.File)
	}
	k.Explore("every state of both applications, every answer to every call, earlier success or not", 0, func(c *mc.Ch) {
		i, j := c.Free(nG1), c.Free(nG2)
		a := answers{rsa: c.Free(nRSA), ecc: c.Free(nECC), root: c.Free(nRoot)}
		f := load(c, i, j)
		if f == nil {
			return
		}
		stale := c.Free(2) == 1
		if stale {
			setValid(f.GetDriverCard())
		}
		h := fmt.Sprintf("card %d/%d answers %v stale %v", i, j, a, stale)
		c.Visit(mc.HashS(h))
		judge(c, f, a, h)
	})
	k.Explore("sequences of verifications of one file with different answers", 0, func(c *mc.Ch) {
		i, j := []int{0, 1, 5, 6}[c.Free(4)], []int{0, 1, 5, 6}[c.Free(4)]
		f := load(c, i, j)
		if f == nil {
			return
		}
		h := fmt.Sprintf("card %d/%d", i, j)
		for n := 0; n < mc.Pick2(k, 3, 4); n++ {
			x := c.Free(8)
			a := []answers{{}, {rsa: 2}, {ecc: 1}, {root: 1}, {rsa: 3}, {ecc: 2}, {rsa: 1, root: 1}, {rsa: 5, ecc: 5}}[x]
			h += fmt.Sprintf(" %v", a)
			c.Visit(mc.HashS(h))
			judge(c, f, a, h)
		}
	})
	menu := func(n int) []byte { return [][]byte{g1Cert, caCert, g2Cert, gcaCert}[n] }
	k.Explore("any one byte changed in any certificate of the chains", 1, func(c *mc.Ch) {
		which := c.Free(4)
		b := bytes.Clone(menu(which))
		ef.Mutate(c, b, 0, len(b), mc.Pick2(k, 24, 256))
		c.Visit(mc.Hash(b))
		certs := [4][]byte{g1Cert, caCert, g2Cert, gcaCert}
		certs[which] = b
		rs := []ref.Record{{FID: 2, Value: ref.Icc}, {FID: 0xC100, Value: certs[0]}, {FID: 0xC101, Appendix: 2, Value: certs[2]}}
		f, err := tachograph.UnmarshalFile(ref.Join(rs))
		if err != nil {
			return
		}
		ca := func(chr string) *securityv1.RsaCertificate { return parseRSA(certs[1]) }
		r := &fixed{rsa: ca, ecc: certs[3]}
		err = tachograph.VerifyOptions{CertificateResolver: r}.VerifyFile(context.Background(), f)
		// Which bytes are sealed: all of the generation 1 certificates; body and signature of the others.
		genuine := bytes.Equal(b, menu(which))
		if !genuine && which == 2 {
			if x, ok := ref.ECSplit(b); ok {
				g, _ := ref.ECSplit(g2Cert)
				genuine = bytes.Equal(x.Body, g.Body) && bytes.Equal(x.R, g.R) && bytes.Equal(x.S, g.S)
			} else if err == nil {
				g, _ := ref.ECSplit(g2Cert)
				if !bytes.Contains(b, g.Body) || !bytes.Contains(b, append(bytes.Clone(g.R), g.S...)) {
					c.Fail("verified with a changed certificate", "certificate", b)
				}
				return
			}
		}
		if which == 3 { // the resolver vouches for its answer: what counts is its key
			cc, e := security.UnmarshalEccCertificate(b)
			g, _ := ref.ECSplit(g2Cert)
			genuine = e == nil && eccOK(g, cc)
		}
		if (err == nil) != genuine {
			c.Fail("chain with a changed certificate", "which", which, "certificate", b, "error", fmt.Sprint(err))
		}
		d := f.GetDriverCard()
		if g := d.GetTachograph().GetCardCertificate().GetRsaCertificate().GetSignatureValid(); g && which < 2 && !genuine {
			c.Fail("changed chain counts as valid", "which", which, "certificate", b)
		}
		if g := d.GetTachographG2().GetCardSignCertificate().GetEccCertificate().GetSignatureValid(); g && which >= 2 && !genuine {
			c.Fail("changed chain counts as valid", "which", which, "certificate", b)
		}
		c.Outcome(fmt.Sprint(which, genuine))
	})
	k.Explore("without a resolver: the card's own authority", 0, func(c *mc.Ch) {
		// Only reachable inside the library; the card's generation 1 authority has no key before it is verified.
		s1, s2 := c.Free(4), c.Free(5)
		add := []ref.Record{{FID: 2, Value: ref.Icc}}
		add = append(add, [][]ref.Record{nil, {{FID: 0xC100, Value: g1Cert}}, {{FID: 0xC100, Value: g1Cert}, {FID: 0xC108, Value: caCert}}, {{FID: 0xC108, Value: caCert}}}[s1]...)
		add = append(add, [][]ref.Record{nil, {{FID: 0xC101, Appendix: 2, Value: g2Cert}}, {{FID: 0xC101, Appendix: 2, Value: g2Cert}, {FID: 0xC108, Appendix: 2, Value: gcaCert}}, {{FID: 0xC101, Appendix: 2, Value: g2Cert}, {FID: 0xC108, Appendix: 2, Value: gca2Cert}}, {{FID: 0xC108, Appendix: 2, Value: gcaCert}}}[s2]...)
		f, err := tachograph.UnmarshalFile(ref.Join(add))
		if err != nil || f.GetDriverCard() == nil {
			return
		}
		d := f.GetDriverCard()
		if c.Free(2) == 1 {
			setValid(d)
		}
		keyed := c.Free(2) == 1
		if ca := d.GetTachograph().GetCaCertificate().GetRsaCertificate(); ca != nil && keyed {
			withKey(ca, "ca", caID)
		}
		c.Visit(mc.HashS(fmt.Sprint("own", s1, s2, keyed)))
		err = card.VerifyOptions{}.VerifyDriverCardFile(context.Background(), d)
		ok1, ok2 := s1 == 0 || s1 == 2 && keyed, s2 == 0 || s2 == 2
		if (err == nil) != (ok1 && ok2) {
			c.Fail("own authority", "s1", s1, "s2", s2, "keyed", keyed, "error", fmt.Sprint(err))
		}
		if d.GetTachograph().GetCardCertificate().GetRsaCertificate().GetSignatureValid() && !ok1 || d.GetTachographG2().GetCardSignCertificate().GetEccCertificate().GetSignatureValid() && !ok2 {
			c.Fail("own authority: counts as valid", "s1", s1, "s2", s2)
		}
	})
	k.Explore("files that are not driver cards", 0, func(c *mc.Ch) {
		var f *tachographv1.File
		n := c.Free(10)
		if n > 0 {
			f = &tachographv1.File{}
			f.SetType(tachographv1.File_Type(n - 1))
		}
		if c.Free(2) == 1 && f != nil {
			f.SetDriverCard(&cardv1.DriverCardFile{})
		}
		r := &resolver{ctx: context.Background()}
		err := tachograph.VerifyOptions{CertificateResolver: r}.VerifyFile(context.Background(), f)
		t := f.GetType()
		want := f != nil && (t == tachographv1.File_VEHICLE_UNIT || t == tachographv1.File_RAW_CARD || t == tachographv1.File_DRIVER_CARD && f.HasDriverCard())
		if (err == nil) != want {
			c.Fail("other file", "type", t.String(), "error", fmt.Sprint(err))
		}
	})
	k.Assume("the certificates of a resolver are trusted as far as the library's contract goes: a generation 1 authority that comes without its key is opened with the root's key, any other key is taken as given")
}

// fixed answers always the same.
type fixed struct {
	rsa func(string) *securityv1.RsaCertificate
	ecc []byte
}

func (r *fixed) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) {
	return security.UnmarshalRootCertificate(rootFile())
}
func (r *fixed) GetRsaCertificate(_ context.Context, chr string) (*securityv1.RsaCertificate, error) {
	return r.rsa(chr), nil
}
func (r *fixed) GetEccCertificate(_ context.Context, chr string) (*securityv1.EccCertificate, error) {
	return security.UnmarshalEccCertificate(bytes.Clone(r.ecc))
}
