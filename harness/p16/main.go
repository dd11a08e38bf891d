// P16: generation 1 certificates verify exactly when genuinely signed.
package main

import (
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"math/big"
	"time"

	"github.com/way-platform/tachograph-go/internal/security"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func main() { mc.Main("P16", run) }

// auth is an authority's public key as a caller holds it.
type auth struct {
	chr      string
	mod, exp []byte
}

func authOf(k *ref.RSAKey, chr uint64) auth { return auth{fmt.Sprint(chr), k.Mod(), k.Exp()} }

func (a auth) verify(cert *securityv1.RsaCertificate, root bool) error {
	if root {
		r := &securityv1.RootCertificate{}
		r.SetKeyId(a.chr)
		r.SetRsaModulus(bytes.Clone(a.mod))
		r.SetRsaExponent(bytes.Clone(a.exp))
		return security.VerifyRsaCertificateWithRoot(cert, r)
	}
	ca := &securityv1.RsaCertificate{}
	ca.SetCertificateHolderReference(a.chr)
	ca.SetRsaModulus(bytes.Clone(a.mod))
	ca.SetRsaExponent(bytes.Clone(a.exp))
	return security.VerifyRsaCertificateWithCA(cert, ca)
}

// opens is the reference verdict.
func (a auth) opens(raw []byte) (content []byte, ok bool) {
	if len(raw) != 194 || len(a.mod) == 0 || len(a.exp) == 0 || fmt.Sprint(u64(raw[186:])) != a.chr {
		return nil, false
	}
	n, s := new(big.Int).SetBytes(a.mod), new(big.Int).SetBytes(raw[:128])
	if s.Cmp(n) >= 0 {
		return nil, false
	}
	m := new(big.Int).Exp(s, new(big.Int).SetBytes(a.exp), n)
	if m.BitLen() > 1024 {
		return nil, false
	}
	b := m.FillBytes(make([]byte, 128))
	content = append(append([]byte{}, b[1:107]...), raw[128:186]...)
	h := sha1.Sum(content)
	return content, b[0] == 0x6A && b[127] == 0xBC && bytes.Equal(h[:], b[107:127])
}

// exposed compares the fields after acceptance with the signed content.
func exposed(cert *securityv1.RsaCertificate, content []byte) string {
	switch {
	case !cert.GetSignatureValid():
		return "signature_valid"
	case cert.GetCertificateAuthorityReference() != fmt.Sprint(u64(content[1:9])):
		return "certificate_authority_reference"
	case cert.GetCertificateHolderReference() != fmt.Sprint(u64(content[20:28])):
		return "certificate_holder_reference"
	case !bytes.Equal(cert.GetRsaModulus(), content[28:156]):
		return "rsa_modulus"
	case !bytes.Equal(cert.GetRsaExponent(), content[156:]):
		return "rsa_exponent"
	}
	eov := u64(content[16:20])
	if eov == 0 || eov == 0xFFFFFFFF {
		if !cert.HasEndOfValidity() {
			return ""
		}
	}
	if cert.GetEndOfValidity().GetSeconds() != int64(eov) || !cert.HasEndOfValidity() || cert.GetEndOfValidity().GetNanos() != 0 {
		return "end_of_validity"
	}
	return ""
}

// judge parses and verifies a certificate under an authority.
func judge(c *mc.Ch, what string, raw []byte, a auth, root bool) {
	c.Visit(mc.Hash(append(append(append([]byte(a.chr), raw...), a.mod...), a.exp...)))
	cert, err := security.UnmarshalRsaCertificate(bytes.Clone(raw))
	if err != nil {
		if len(raw) == 194 {
			c.Fail(what+": not parsed: "+ef.Class(err), "certificate", raw)
		}
		c.Outcome("not parsed")
		return
	}
	if len(raw) != 194 {
		c.Fail(what+": certificate of another length parsed", "length", len(raw))
	}
	if g := cert.GetCertificateAuthorityReference(); g != fmt.Sprint(u64(raw[186:])) {
		c.Fail(what+": authority reference as parsed", "got", g, "certificate", raw)
	}
	if cert.GetSignatureValid() {
		c.Fail(what+": valid before verification", "certificate", raw)
	}
	after(c, what, cert, raw, a, root)
	out, err := security.AppendRsaCertificate([]byte{1, 2}, cert)
	if err != nil || !bytes.Equal(out[2:], raw) {
		c.Fail(what+": verification changed the bytes", "certificate", raw, "output", out)
	}
}

func after(c *mc.Ch, what string, cert *securityv1.RsaCertificate, raw []byte, a auth, root bool) {
	before := proto.Clone(cert).(*securityv1.RsaCertificate)
	err := a.verify(cert, root)
	content, ok := a.opens(raw)
	switch {
	case err != nil && ok:
		c.Fail(what+": genuine certificate refused: "+ef.Class(err), "error", err.Error(), "certificate", raw, "modulus", a.mod, "exponent", a.exp, "chr", a.chr)
	case err == nil && !ok:
		c.Fail(what+": certificate accepted that is not genuine", "certificate", raw, "modulus", a.mod, "exponent", a.exp, "chr", a.chr)
	case ok:
		if d := exposed(cert, content); d != "" {
			c.Fail(what+": exposed "+d, "content", content, "got", cert.String())
		}
		c.Outcome("accepted")
	default:
		if cert.GetSignatureValid() {
			c.Fail(what+": refused but marked valid", "error", err.Error(), "certificate", raw)
		}
		if m := cert.GetRsaModulus(); len(m) > 0 && !bytes.Equal(m, before.GetRsaModulus()) {
			c.Fail(what+": refused but exposes a key", "certificate", raw)
		}
		if m := cert.GetRsaExponent(); len(m) > 0 && !bytes.Equal(m, before.GetRsaExponent()) {
			c.Fail(what+": refused but exposes an exponent", "certificate", raw)
		}
		if m := cert.GetCertificateHolderReference(); m != "" && m != before.GetCertificateHolderReference() {
			c.Fail(what+": refused but exposes a holder", "certificate", raw)
		}
		c.Outcome("refused: " + ef.Class(err))
	}
}

const (
	rootID = 0xFD45432001FFFF01
	caID   = 0x0D44202001FFFF01
	ca2ID  = 0x0D44202002FFFF01
	cardID = 0x1122334455667788
)

func run(k *mc.Check) {
	root, ca, ca2, card := ref.RSAOf("root"), ref.RSAOf("ca"), ref.RSAOf("ca2"), ref.RSAOf("card")
	caContent := ref.RSAContent(rootID, caID, 1900000000, ca.Mod(), ca.Exp())
	caCert := ref.RSACert(root, caContent, rootID)
	cardContent := ref.RSAContent(caID, cardID, 1800000000, card.Mod(), card.Exp())
	cardCert := ref.RSACert(ca, cardContent, caID)
	type link struct {
		raw  []byte
		a    auth
		root bool
	}
	links := []link{{cardCert, authOf(ca, caID), false}, {caCert, authOf(root, rootID), true}}
	edges := ef.Core

	k.Explore("a genuine certificate with any one byte changed", 1, func(c *mc.Ch) {
		l := links[c.Free(2)]
		b := bytes.Clone(l.raw)
		ef.Mutate(c, b, 0, len(b), 256)
		judge(c, "certificate", b, l.a, l.root)
	})
	k.Explore("a genuine certificate with edge values in any two bytes", 2, func(c *mc.Ch) {
		l := links[c.Free(2)]
		b := bytes.Clone(l.raw)
		ef.Mutate(c, b, 0, len(b), mc.Pick2(k, 3, len(edges)+1))
		judge(c, "certificate", b, l.a, l.root)
	})
	k.Explore("a genuine certificate with any one bit flipped, and any other", 0, func(c *mc.Ch) {
		l := links[c.Free(2)]
		b := bytes.Clone(l.raw)
		i := c.Free(194 * 8)
		j := c.Free(mc.Pick2(k, 40, 194*8))
		b[i/8] ^= 1 << (i % 8)
		b[j*(194*8/mc.Pick2(k, 40, 194*8))/8] ^= 1 << (j % 8)
		judge(c, "certificate", b, l.a, l.root)
	})
	k.Explore("an authority key with any one byte changed", 1, func(c *mc.Ch) {
		l := links[c.Free(2)]
		kb := append(bytes.Clone(l.a.mod), l.a.exp...)
		ef.Mutate(c, kb, 0, len(kb), 256)
		a := l.a
		a.mod, a.exp = kb[:128], kb[128:]
		judge(c, "authority", l.raw, a, l.root)
	})
	k.Explore("an authority key of any length", 0, func(c *mc.Ch) {
		l := links[c.Free(2)]
		a := l.a
		part := func(b []byte, how, n int) []byte {
			switch how {
			case 0:
				return b
			case 1:
				return b[:min(n, len(b))]
			case 2:
				return b[min(n, len(b)):]
			case 3:
				return append(make([]byte, n), b...)
			case 4:
				return append(bytes.Clone(b), make([]byte, n)...)
			default:
				return make([]byte, n)
			}
		}
		if c.Free(2) == 0 {
			a.mod = part(a.mod, c.Free(6), c.Free(140))
		} else {
			a.exp = part(a.exp, c.Free(6), c.Free(20))
		}
		if a.exp = bytes.Clone(a.exp); len(a.exp) > 40 {
			a.exp = a.exp[:40]
		}
		judge(c, "authority", l.raw, a, l.root)
	})
	k.Explore("any other reference of the authority", 0, func(c *mc.Ch) {
		l := links[c.Free(2)]
		a, b := l.a, bytes.Clone(l.raw)
		switch c.Free(5) {
		case 0: // any character of the decimal reference
			s := []byte(a.chr)
			s[c.Free(len(s))] = byte(c.Free(256))
			a.chr = string(s)
		case 1:
			a.chr = []string{"", " ", "0", "0" + a.chr, "+" + a.chr, a.chr + " ", " " + a.chr, a.chr + "0", "-" + a.chr, fmt.Sprintf("%x", uint64(rootID)), a.chr[1:], a.chr[:len(a.chr)-1], a.chr + "\x00", a.chr + ".0", "1", "18446744073709551615"}[c.Free(16)]
		case 2: // any one bit of the authority's reference
			v := u64(b[186:])
			a.chr = fmt.Sprint(v ^ 1<<c.Free(64))
		case 3: // both sides changed together: the reference in clear is what names the key
			i, v := c.Free(8), byte(c.Free(256))
			b[186+i] = v
			a.chr = fmt.Sprint(u64(b[186:]))
		case 4:
			v := []uint64{0, 1, 1 << 32, 1 << 63, 1<<63 - 1, 1<<64 - 1, 1<<32 - 1, 10, 99}[c.Free(9)]
			copy(b[186:], ref.U64(v))
			a.chr = fmt.Sprint(v)
			if c.Free(2) == 1 {
				a.chr = fmt.Sprint(int64(v))
			}
		}
		judge(c, "reference", b, a, l.root)
	})
	k.Explore("any one byte of a signed content", 1, func(c *mc.Ch) {
		b := bytes.Clone(cardContent)
		ef.Mutate(c, b, 0, len(b), 256)
		judge(c, "content", ref.RSACert(ca, b, caID), authOf(ca, caID), c.Free(2) == 1)
	})
	k.Explore("edge values in any two bytes of a signed content", 2, func(c *mc.Ch) {
		b := bytes.Clone(cardContent)
		ef.Mutate(c, b, 0, mc.Pick2(k, 30, len(b)), mc.Pick2(k, 4, len(edges)+1))
		judge(c, "content", ref.RSACert(ca, b, caID), authOf(ca, caID), false)
	})
	k.Explore("any one byte of the block that is signed", 1, func(c *mc.Ch) {
		b := ref.RSABlock(cardContent)
		ef.Mutate(c, b, 0, len(b), 256)
		judge(c, "block", append(append(ca.Raw(b), cardContent[106:]...), ref.U64(caID)...), authOf(ca, caID), c.Free(2) == 1)
	})
	k.Explore("signed blocks of other layouts", 0, func(c *mc.Ch) {
		content := bytes.Clone(cardContent)
		h := sha1.Sum(content)
		hash, rec, rest := h[:], content[:106], content[106:]
		head, trail := byte(0x6A), byte(0xBC)
		switch c.Free(10) {
		case 1:
			x := sha1.Sum(rec)
			hash = x[:]
		case 2:
			x := sha1.Sum(rest)
			hash = x[:]
		case 3:
			x := sha256.Sum256(content)
			hash = x[:20]
		case 4:
			x := sha256.Sum256(content)
			hash = x[12:]
		case 5:
			x := sha1.Sum(append(bytes.Clone(content), ref.U64(caID)...))
			hash = x[:]
		case 6:
			hash = make([]byte, 20)
		case 7:
			x := sha1.Sum(nil)
			hash = x[:]
		case 8:
			x := sha1.Sum(append([]byte{0x6A}, content...))
			hash = x[:]
		case 9:
			hash = append(bytes.Clone(h[:19]), h[19]^1)
		}
		head = []byte{0x6A, 0x4A, 0x6B, 0x60, 0x00, 0x01, 0x6C, 0xEA}[c.Free(8)]
		trail = []byte{0xBC, 0xCC, 0xBB, 0x00, 0xB0, 0x0C, 0x3C, 0xFF}[c.Free(8)]
		b := append([]byte{head}, rec...)
		b = append(append(b, hash...), trail)
		key := []*ref.RSAKey{ca, ca2, root, card}[c.Free(4)]
		s := new(big.Int).SetBytes(key.Raw(b))
		switch c.Free(4) {
		case 1: // the other root
			s.Sub(key.N, s)
		case 2: // out of range
			s.Add(s, key.N)
		case 3: // not signed at all
			s.SetBytes(b)
		}
		if s.BitLen() > 1024 {
			return
		}
		sig := s.FillBytes(make([]byte, 128))
		judge(c, "block", append(append(sig, rest...), ref.U64(caID)...), authOf(ca, caID), false)
	})
	k.Explore("signatures around the modulus", 0, func(c *mc.Ch) {
		l := links[c.Free(2)]
		n := new(big.Int).SetBytes(l.a.mod)
		base := []*big.Int{big.NewInt(0), n, new(big.Int).SetBytes(l.raw[:128]), new(big.Int).Add(new(big.Int).SetBytes(l.raw[:128]), n), new(big.Int).Sub(n, new(big.Int).SetBytes(l.raw[:128])), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 1024), big.NewInt(1))}[c.Free(6)]
		s := new(big.Int).Add(base, big.NewInt(int64(c.Free(5)-2)))
		if s.Sign() < 0 || s.BitLen() > 1024 {
			return
		}
		judge(c, "range", append(s.FillBytes(make([]byte, 128)), l.raw[128:]...), l.a, l.root)
	})
	k.Explore("small authority keys, whose openings are forgeable", 0, func(c *mc.Ch) {
		// With these a certificate can be made without any private key; the verdict is the arithmetic's.
		mods := [][]byte{{0}, {1}, {2}, {0xFF}, make([]byte, 128), bytes.Repeat([]byte{0xFF}, 128), append([]byte{1}, make([]byte, 128)...), append([]byte{1}, make([]byte, 127)...), append(make([]byte, 127), 1), bytes.Repeat([]byte{0xFF}, 129)}
		exps := [][]byte{{0}, {1}, {2}, {3}, make([]byte, 8), {0, 0, 0, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 0, 1, 0, 1}}
		a := auth{fmt.Sprint(uint64(caID)), mods[c.Free(len(mods))], exps[c.Free(len(exps))]}
		var s []byte
		switch c.Free(4) {
		case 0:
			s = cardCert[:128]
		case 1:
			s = ref.RSABlock(cardContent)
		case 2:
			s = make([]byte, 128)
		default:
			s = append(make([]byte, 127), 1)
		}
		judge(c, "small key", append(append(bytes.Clone(s), cardContent[106:]...), ref.U64(caID)...), a, c.Free(2) == 1)
	})
	k.Explore("every pair of authority and certificate", 0, func(c *mc.Ch) {
		ks := []*ref.RSAKey{root, ca, ca2, card}
		ids := []uint64{rootID, caID, ca2ID, cardID}
		signer, outer, inner, holder, key, name := c.Free(4), c.Free(4), c.Free(4), c.Free(4), c.Free(4), c.Free(4)
		raw := ref.RSACert(ks[signer], ref.RSAContent(ids[inner], ids[holder], 1900000000, ks[holder].Mod(), ks[holder].Exp()), ids[outer])
		judge(c, "pair", raw, authOf(ks[key], ids[name]), c.Free(2) == 1)
	})
	k.Explore("every length", 0, func(c *mc.Ch) {
		n := c.Free(mc.Pick2(k, 600, 5000))
		fill := c.Free(3)
		b := bytes.Clone(cardCert)
		for len(b) < n {
			b = append(b, []byte{0, 0xFF, 0x31}[fill])
		}
		judge(c, "length", b[:n], authOf(ca, caID), false)
		// The same bytes set by a caller, not parsed.
		cert := &securityv1.RsaCertificate{}
		cert.SetRawData(b[:n])
		after(c, "length", cert, b[:n], authOf(ca, caID), c.Free(2) == 1)
		// Root keys have a fixed length, too.
		r, err := security.UnmarshalRootCertificate(b[:n])
		if (err == nil) != (n == 144) {
			c.Fail("root key length", "length", n)
		}
		if err == nil && (r.GetKeyId() != fmt.Sprint(u64(b[:8])) || !bytes.Equal(r.GetRsaModulus(), b[8:136]) || !bytes.Equal(r.GetRsaExponent(), b[136:144])) {
			c.Fail("root key content", "file", b[:n])
		}
	})
	k.Explore("a root key with any two bytes changed", 2, func(c *mc.Ch) {
		b := append(append(ref.U64(rootID), root.Mod()...), root.Exp()...)
		ef.Mutate(c, b, 0, len(b), mc.Pick2(k, 6, 30))
		c.Visit(mc.Hash(b))
		r, err := security.UnmarshalRootCertificate(b)
		if err != nil || r.GetKeyId() != fmt.Sprint(u64(b[:8])) || !bytes.Equal(r.GetRsaModulus(), b[8:136]) || !bytes.Equal(r.GetRsaExponent(), b[136:]) {
			c.Fail("root key content", "file", b)
		}
	})
	k.Explore("sequences of verifications of one certificate", 0, func(c *mc.Ch) {
		raw := cardCert
		if c.Free(2) == 1 {
			raw = append(bytes.Clone(cardCert[:150]), append([]byte{cardCert[150] ^ 4}, cardCert[151:]...)...)
		}
		cert, err := security.UnmarshalRsaCertificate(bytes.Clone(raw))
		if err != nil {
			c.Fail("not parsed", "certificate", raw)
		}
		h := fmt.Sprint(mc.Hash(raw))
		for i := 0; i < mc.Pick2(k, 4, 5); i++ {
			op := c.Free(9)
			h += fmt.Sprint(op)
			c.Visit(mc.HashS(h))
			switch op {
			case 0:
				after(c, "sequence", cert, raw, authOf(ca, caID), false)
			case 1:
				after(c, "sequence", cert, raw, authOf(ca2, caID), false)
			case 2:
				after(c, "sequence", cert, raw, authOf(ca, ca2ID), false)
			case 3:
				after(c, "sequence", cert, raw, auth{chr: fmt.Sprint(uint64(caID))}, false)
			case 4:
				after(c, "sequence", cert, raw, authOf(ca, caID), true)
			case 5:
				after(c, "sequence", cert, raw, auth{chr: fmt.Sprint(uint64(caID)), mod: ca.Mod()}, true)
			case 6:
				if security.VerifyRsaCertificateWithCA(cert, nil) == nil || cert.GetSignatureValid() {
					c.Fail("sequence: no authority, but valid", "history", h)
				}
			case 7:
				if security.VerifyRsaCertificateWithRoot(cert, nil) == nil || cert.GetSignatureValid() {
					c.Fail("sequence: no root, but valid", "history", h)
				}
			case 8:
				return
			}
		}
	})
	k.Explore("certificates whose fields are set before verification", 0, func(c *mc.Ch) {
		// What was known before, from elsewhere, does not survive it.
		l := links[c.Free(2)]
		raw := bytes.Clone(l.raw)
		if c.Free(2) == 1 {
			i := c.Free(len(raw))
			raw[i] ^= 0x10
		}
		cert := &securityv1.RsaCertificate{}
		cert.SetRawData(bytes.Clone(raw))
		set := c.Free(1 << 6)
		c.Visit(mc.Hash(append(bytes.Clone(raw), byte(set))))
		if set&1 != 0 {
			cert.SetCertificateHolderReference("77")
		}
		if set&2 != 0 {
			cert.SetCertificateAuthorityReference("78")
		}
		if set&4 != 0 {
			cert.SetEndOfValidity(timestamppb.New(time.Unix(4000000000, 5)))
		}
		if set&8 != 0 {
			cert.SetRsaModulus(bytes.Repeat([]byte{0xEE}, 128))
		}
		if set&16 != 0 {
			cert.SetRsaExponent([]byte{1, 2, 3})
		}
		if set&32 != 0 {
			cert.SetSignatureValid(true)
		}
		after(c, "fields set before", cert, raw, l.a, l.root)
	})
	k.Explore("chains of two verifications", 1, func(c *mc.Ch) {
		// The authority's certificate, as verified, is what verifies the next one.
		b := bytes.Clone(caCert)
		ef.Mutate(c, b, 0, len(b), 256)
		cc, err := security.UnmarshalRsaCertificate(b)
		if err != nil {
			c.Fail("not parsed")
		}
		c.Visit(mc.Hash(b))
		e1 := authOf(root, rootID).verify(cc, true)
		leaf, _ := security.UnmarshalRsaCertificate(bytes.Clone(cardCert))
		snap := proto.Clone(cc)
		e2 := security.VerifyRsaCertificateWithCA(leaf, cc)
		if !proto.Equal(snap, cc) {
			c.Fail("chain: the authority changed", "certificate", b)
		}
		genuine := bytes.Equal(b, caCert)
		if (e1 == nil) != genuine || (e2 == nil) != genuine || leaf.GetSignatureValid() != genuine {
			c.Fail("chain", "authority", b, "first", fmt.Sprint(e1), "second", fmt.Sprint(e2))
		}
		c.Outcome(fmt.Sprint(genuine))
	})
	k.Assume("the reference opens certificates with math/big by appendix 11, section 3.3, and takes signatures that are not below the modulus as not genuine; the clear reference must name the authority, the reference inside is only reported")
}

func u64(b []byte) uint64 {
	v := uint64(0)
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}
