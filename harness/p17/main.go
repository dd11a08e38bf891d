// P17: generation 2 certificates verify exactly when genuinely signed.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"

	"github.com/way-platform/tachograph-go/internal/security"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	"google.golang.org/protobuf/proto"
)

func main() { mc.Main("P17", run) }

// A key an authority may have.
type auth struct {
	oid  string
	x, y []byte
}

func authOf(k *ref.ECKey) auth {
	return auth{k.OID, k.X.FillBytes(make([]byte, k.Size)), k.Y.FillBytes(make([]byte, k.Size))}
}

func (a auth) cert() *securityv1.EccCertificate {
	pk := &securityv1.EccCertificate_PublicKey{}
	pk.SetDomainParametersOid(a.oid)
	pk.SetPublicPointX(bytes.Clone(a.x))
	pk.SetPublicPointY(bytes.Clone(a.y))
	c := &securityv1.EccCertificate{}
	c.SetPublicKey(pk)
	return c
}

// genuine is the reference verdict. It is memoised, as the textbook arithmetic is slow.
var memo sync.Map

func (a auth) genuine(body, r, s []byte) bool {
	var cv *ref.Curve
	for i := range ref.Curves {
		if ref.Curves[i].OID == a.oid {
			cv = &ref.Curves[i]
		}
	}
	if cv == nil {
		return false
	}
	key := fmt.Sprintf("%s %x %x %x %x %x", a.oid, a.x, a.y, mc.Hash(body), r, s)
	if v, ok := memo.Load(key); ok {
		return v.(bool)
	}
	n := func(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
	v := ref.ECVerify(cv, n(a.x), n(a.y), body, n(r), n(s))
	memo.Store(key, v)
	return v
}

// parse parses a certificate and compares its fields.
func parse(c *mc.Ch, what string, raw []byte) (*securityv1.EccCertificate, ref.ECFields, bool) {
	c.Visit(mc.Hash(raw))
	f, strict := ref.ECSplit(raw)
	in := bytes.Clone(raw)
	cert, err := security.UnmarshalEccCertificate(in)
	if err != nil {
		if strict && f.KnownCurve && f.Usual {
			c.Fail(what+": not parsed: "+ef.Class(err), "error", err.Error(), "certificate", raw)
		}
		c.Outcome("not parsed: " + ef.Class(err))
		return nil, f, strict
	}
	if out, err := security.AppendEccCertificate(nil, cert); err != nil || !bytes.Equal(out, raw) {
		c.Fail(what+": written differently", "certificate", raw, "output", out)
	}
	if cert.GetSignatureValid() {
		c.Fail(what+": valid before verification", "certificate", raw)
	}
	if !strict {
		c.Outcome("parsed leniently")
		return cert, f, false
	}
	d := ""
	switch {
	case int(cert.GetCertificateProfileIdentifier()) != f.CPI:
		d = "certificate_profile_identifier"
	case cert.GetCertificateAuthorityReference() != fmt.Sprint(f.CAR):
		d = "certificate_authority_reference"
	case !bytes.Equal(cert.GetCertificateHolderAuthorisation(), f.CHA):
		d = "certificate_holder_authorisation"
	case f.KnownCurve && cert.GetPublicKey().GetDomainParametersOid() != f.OID:
		d = "domain_parameters_oid"
	case !f.KnownCurve && curve(cert.GetPublicKey().GetDomainParametersOid()):
		d = "domain_parameters_oid of another curve"
	case !bytes.Equal(cert.GetPublicKey().GetPublicPointX(), f.X):
		d = "public_point_x"
	case !bytes.Equal(cert.GetPublicKey().GetPublicPointY(), f.Y):
		d = "public_point_y"
	case cert.GetCertificateHolderReference() != fmt.Sprint(f.CHR):
		d = "certificate_holder_reference"
	case cert.GetCertificateEffectiveDate().GetSeconds() != int64(f.From) || !cert.HasCertificateEffectiveDate() && f.From != 0 || cert.GetCertificateEffectiveDate().GetNanos() != 0:
		d = "certificate_effective_date"
	case cert.GetCertificateExpirationDate().GetSeconds() != int64(f.Til) || !cert.HasCertificateExpirationDate() && f.Til != 0 || cert.GetCertificateExpirationDate().GetNanos() != 0:
		d = "certificate_expiration_date"
	case !bytes.Equal(cert.GetSignature().GetR(), f.R):
		d = "signature.r"
	case !bytes.Equal(cert.GetSignature().GetS(), f.S):
		d = "signature.s"
	}
	if d != "" {
		c.Fail(what+": field "+d, "certificate", raw, "got", cert.String())
	}
	c.Outcome("parsed")
	return cert, f, true
}

func curve(oid string) bool {
	for _, c := range ref.Curves {
		if c.OID == oid {
			return true
		}
	}
	return false
}

// judge parses and verifies. sealed is the body and signature that were made
// with the key, for certificates with an unusual wrapping.
func judge(c *mc.Ch, what string, raw []byte, a auth, sealedBody, sealedSig []byte) {
	cert, f, strict := parse(c, what, raw)
	if cert == nil {
		return
	}
	snap := a.cert()
	err := security.VerifyEccCertificateWithCA(cert, snap)
	if !proto.Equal(snap, a.cert()) {
		c.Fail(what+": verification changed the authority's certificate", "certificate", raw)
	}
	if cert.GetSignatureValid() != (err == nil) {
		c.Fail(what+": signature_valid is not the verdict", "certificate", raw, "error", fmt.Sprint(err))
	}
	if out, _ := security.AppendEccCertificate(nil, cert); !bytes.Equal(out, raw) {
		c.Fail(what+": verification changed the bytes", "certificate", raw, "output", out)
	}
	if !strict {
		if err == nil && !(bytes.Contains(raw, sealedBody) && bytes.Contains(raw, sealedSig)) {
			c.Fail(what+": accepted although not genuine", "certificate", raw, "oid", a.oid, "x", a.x, "y", a.y)
		}
		return
	}
	verdict(c, what, raw, f, a, err)
}

func verdict(c *mc.Ch, what string, raw []byte, f ref.ECFields, a auth, err error) {
	ok := a.genuine(f.Body, f.R, f.S)
	switch {
	case err == nil && !ok:
		c.Fail(what+": accepted although not genuine", "certificate", raw, "oid", a.oid, "x", a.x, "y", a.y)
	case err != nil && ok:
		if len(a.x) == len(a.y) && 2*len(f.R) == len(f.R)+len(f.S) && f.Usual {
			c.Fail(what+": genuine certificate refused: "+ef.Class(err), "error", err.Error(), "certificate", raw, "oid", a.oid, "x", a.x, "y", a.y)
		}
	case ok:
		c.Outcome("accepted")
	default:
		c.Outcome("refused: " + ef.Class(err))
	}
}

const (
	caID  = 0x0D44202001FFFF02
	holID = 0x1122334455667788
)

func run(k *mc.Check) {
	cv := ref.Curves
	nc := len(cv)
	type made struct {
		raw, body, sig []byte
		ca             *ref.ECKey
	}
	mk := func(a, h int) made {
		ca, hk := ref.ECOf(&cv[a], "ca"), ref.ECOf(&cv[h], "holder")
		body := ref.NewECBody(hk, caID, holID).DER()
		sig := ca.Sign(body)
		return made{ref.ECCert(body, sig), body, sig, ca}
	}
	table := make([][]made, nc)
	for a := range cv {
		for h := range cv {
			table[a] = append(table[a], mk(a, h))
		}
	}
	k.Explore("every curve of the authority and of the holder, every authority key", 0, func(c *mc.Ch) {
		a, h, b := c.Free(nc), c.Free(nc), c.Free(nc)
		m := table[a][h]
		key := authOf(ref.ECOf(&cv[b], []string{"ca", "ca2", "holder"}[c.Free(3)]))
		judge(c, "curves", m.raw, key, m.body, m.sig)
	})
	k.Explore("an authority's point under the name of another curve", 0, func(c *mc.Ch) {
		a, b := c.Free(nc), c.Free(nc+8)
		m := table[a][a]
		key := authOf(m.ca)
		if b < nc {
			key.oid = cv[b].OID
		} else {
			key.oid = []string{"", "1.2.3", "1.3.36.3.3.2.8.1.1", "brainpoolP256r1", " " + key.oid, key.oid + " ", "1.3.132.0.33", "1.3.36.3.3.2.8.1.1.8"}[b-nc]
		}
		judge(c, "curve name", m.raw, key, m.body, m.sig)
	})
	k.Explore("a body signed under another digest", 0, func(c *mc.Ch) {
		a, h, part := c.Free(nc), c.Free(nc), c.Free(4)
		ca := ref.ECOf(&cv[a], "ca")
		body := ref.NewECBody(ref.ECOf(&cv[a], "holder"), caID, holID).DER()
		msg := body
		switch part {
		case 1: // only the value
			msg = body
			for i := 0; i < 8; i++ {
				if body[i] == 0x5F && body[i+1] == 0x29 {
					msg = body[i:]
					break
				}
			}
		case 2: // with the wrapping
			msg = ref.ECCert(body, make([]byte, 2*cv[a].Size))
		case 3:
			msg = nil
		}
		sig := ca.SignHash(cv[h].Hash(msg), msg)
		judge(c, "digest", ref.ECCert(body, sig), authOf(ca), body, sig)
	})
	// Which curves take all values: those of the standard library are fast.
	fast := 3 // secp256r1
	k.Explore("parsing a certificate with any one byte changed", 1, func(c *mc.Ch) {
		m := table[0][c.Free(nc)]
		b := bytes.Clone(m.raw)
		ef.Mutate(c, b, 0, len(b), 256)
		parse(c, "parsing", b)
	})
	k.Explore("parsing a certificate with edge values in any two bytes", 2, func(c *mc.Ch) {
		m := table[fast][c.Free(mc.Pick2(k, 2, nc))]
		b := bytes.Clone(m.raw)
		ef.Mutate(c, b, 0, len(b), mc.Pick2(k, 4, 10))
		parse(c, "parsing", b)
	})
	k.Explore("parsing a certificate with any value in two bytes of its structure", 2, func(c *mc.Ch) {
		m := table[0][c.Free(mc.Pick2(k, 1, nc))]
		b := bytes.Clone(m.raw)
		ef.Mutate(c, b, 0, mc.Pick2(k, 9, 60), 256)
		parse(c, "parsing", b)
	})
	k.Explore("verifying a certificate with any one byte changed", 1, func(c *mc.Ch) {
		m := table[fast][fast]
		b := bytes.Clone(m.raw)
		ef.Mutate(c, b, 0, len(b), 256)
		judge(c, "one byte", b, authOf(m.ca), m.body, m.sig)
	})
	k.Explore("verifying a certificate with any one bit flipped, on every curve", 0, func(c *mc.Ch) {
		a := c.Free(nc)
		m := table[a][a]
		b := bytes.Clone(m.raw)
		i := c.Free(len(b))
		bit := c.Free(mc.Pick2(k, 1, 8))
		if !k.Thorough() {
			bit = i % 8
			if i%3 != 0 && i > 30 && i < len(b)-2*cv[a].Size-8 && a != fast {
				return
			}
		}
		b[i] ^= 1 << bit
		judge(c, "one bit", b, authOf(m.ca), m.body, m.sig)
	})
	k.Explore("verifying with edge values in any two bytes", 2, func(c *mc.Ch) {
		m := table[fast][fast]
		b := bytes.Clone(m.raw)
		ef.Mutate(c, b, 0, len(b), mc.Pick2(k, 2, 4))
		judge(c, "two bytes", b, authOf(m.ca), m.body, m.sig)
	})
	k.Explore("an authority's point with any one byte changed", 1, func(c *mc.Ch) {
		a := c.Free(nc)
		m := table[a][a]
		kb := append(authOf(m.ca).x, authOf(m.ca).y...)
		n := 3
		if a >= fast {
			n = 20
		}
		ef.Mutate(c, kb, 0, len(kb), mc.Pick2(k, n, 256))
		s := m.ca.Size
		judge(c, "point", m.raw, auth{m.ca.OID, kb[:s], kb[s:]}, m.body, m.sig)
	})
	k.Explore("other points and incomplete keys", 0, func(c *mc.Ch) {
		a := c.Free(nc)
		m := table[a][a]
		key := authOf(m.ca)
		p := m.ca.C.Params().P
		neg := new(big.Int).Sub(p, m.ca.Y).FillBytes(make([]byte, m.ca.Size))
		body, sig := m.body, m.sig
		forge := func() { // what verifies when the key's point is neutral
			z := new(big.Int).SetBytes(m.ca.Hash(body))
			if d := len(m.ca.Hash(body))*8 - m.ca.C.Params().N.BitLen(); d > 0 {
				z.Rsh(z, uint(d))
			}
			x, _ := m.ca.C.ScalarBaseMult(z.Bytes())
			x.Mod(x, m.ca.C.Params().N)
			sig = append(x.FillBytes(make([]byte, m.ca.Size)), big.NewInt(1).FillBytes(make([]byte, m.ca.Size))...)
		}
		switch c.Free(16) {
		case 0:
			key.y = neg
		case 1:
			key.x, key.y = key.y, key.x
		case 2:
			key.x = nil
		case 3:
			key.y = nil
		case 4:
			key.x, key.y = nil, nil
		case 5:
			key.x, key.y = make([]byte, m.ca.Size), make([]byte, m.ca.Size)
		case 6:
			key.x, key.y = []byte{0}, []byte{0}
			forge()
		case 7:
			key.x, key.y = make([]byte, m.ca.Size), make([]byte, m.ca.Size)
			forge()
		case 8:
			key.x, key.y = p.Bytes(), p.Bytes()
			forge()
		case 9:
			key.x, key.y = []byte{0}, []byte{1}
			forge()
		case 10:
			key.x = append([]byte{0}, key.x...)
			key.y = append([]byte{0}, key.y...)
		case 11: // the generator, whose private key is 1
			key.x = m.ca.C.Params().Gx.FillBytes(make([]byte, m.ca.Size))
			key.y = m.ca.C.Params().Gy.FillBytes(make([]byte, m.ca.Size))
		case 12:
			key.x, key.y = []byte{1}, []byte{1}
			forge()
		case 13:
			key.y = bytes.Repeat([]byte{0xFF}, m.ca.Size)
		case 14:
			key.y = append(bytes.Clone(key.y), 0)
		case 15:
			key.x = key.x[1:]
		}
		judge(c, "other point", ref.ECCert(body, sig), key, m.body, m.sig)
	})
	k.Explore("signature values at their limits", 0, func(c *mc.Ch) {
		a := c.Free(nc)
		m := table[a][a]
		n := m.ca.C.Params().N
		s := m.ca.Size
		pick := func(b []byte) *big.Int {
			v := new(big.Int).SetBytes(b)
			switch c.Free(10) {
			case 1:
				return big.NewInt(0)
			case 2:
				return big.NewInt(1)
			case 3:
				return new(big.Int).Set(n)
			case 4:
				return new(big.Int).Sub(n, v)
			case 5:
				return new(big.Int).Add(n, v)
			case 6:
				return new(big.Int).Sub(n, big.NewInt(1))
			case 7:
				return new(big.Int).Add(n, big.NewInt(1))
			case 8:
				return new(big.Int).Add(v, big.NewInt(1))
			case 9:
				return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*s)), big.NewInt(1))
			}
			return v
		}
		r, t := pick(m.sig[:s]), pick(m.sig[s:])
		if c.Free(2) == 1 {
			r, t = t, r
		}
		size := s + c.Free(2)
		if r.BitLen() > 8*size || t.BitLen() > 8*size {
			return
		}
		sig := append(r.FillBytes(make([]byte, size)), t.FillBytes(make([]byte, size))...)
		judge(c, "limits", ref.ECCert(m.body, sig), authOf(m.ca), m.body, sig)
	})
	k.Explore("signed bodies with any one byte of a field", 1, func(c *mc.Ch) {
		m := table[fast][0]
		b := ref.NewECBody(ref.ECOf(&cv[c.Free(nc)], "holder"), caID, holID)
		v := append(append(append(append(append([]byte{b.CPI}, ref.U64(b.CAR)...), b.CHA...), ref.U64(b.CHR)...), 0, 0, 0, 0), 0, 0, 0, 0)
		copy(v[24:], []byte{byte(b.From >> 24), byte(b.From >> 16), byte(b.From >> 8), byte(b.From)})
		copy(v[28:], []byte{byte(b.Til >> 24), byte(b.Til >> 16), byte(b.Til >> 8), byte(b.Til)})
		ef.Mutate(c, v, 0, len(v), mc.Pick2(k, 24, 256))
		b.CPI, b.CHA = v[0], v[9:16]
		b.CAR, b.CHR = u64(v[1:9]), u64(v[16:24])
		b.From, b.Til = ref.U(v[24:28]), ref.U(v[28:32])
		body := b.DER()
		sig := m.ca.Sign(body)
		judge(c, "body", ref.ECCert(body, sig), authOf(m.ca), body, sig)
	})
	k.Explore("signed bodies with points of every length and marker", 0, func(c *mc.Ch) {
		m := table[fast][0]
		b := ref.NewECBody(ref.ECOf(&cv[c.Free(nc)], "holder"), caID, holID)
		n := c.Free(150)
		p := bytes.Repeat([]byte{0x5A}, n)
		copy(p, b.Point)
		if n > 0 {
			p[0] = []byte{4, 0, 2, 3, 5, 6, 7, 255}[c.Free(8)]
		}
		b.Point = p
		body := b.DER()
		sig := m.ca.Sign(body)
		judge(c, "points", ref.ECCert(body, sig), authOf(m.ca), body, sig)
	})
	k.Explore("certificates with signatures of every length", 0, func(c *mc.Ch) {
		a := c.Free(nc)
		m := table[a][a]
		n := c.Free(150)
		sig := make([]byte, n)
		if c.Free(2) == 0 {
			copy(sig, m.sig)
		} else { // the halves separately
			h := n / 2
			s := m.ca.Size
			copy(sig[max(0, h-s):h], m.sig[max(0, s-h):s])
			copy(sig[h+max(0, n-h-s):], m.sig[s+max(0, s-(n-h)):])
		}
		raw := ref.ECCert(m.body, sig)
		sealed := sig
		if n%2 == 1 {
			sealed = m.sig // no signature has two halves then
		}
		judge(c, "signature length", raw, authOf(m.ca), m.body, sealed)
	})
	k.Explore("certificates cut and extended to every length", 0, func(c *mc.Ch) {
		a := c.Free(nc)
		m := table[a][a]
		n := c.Free(400)
		b := bytes.Clone(m.raw)
		for len(b) < n {
			b = append(b, []byte{0, 0xFF}[n%2])
		}
		judge(c, "cut", b[:n], authOf(m.ca), m.body, m.sig)
		// The same bytes set by a caller.
		cert := &securityv1.EccCertificate{}
		cert.SetRawData(b[:n])
		if security.VerifyEccCertificateWithCA(cert, authOf(m.ca).cert()) == nil || cert.GetSignatureValid() {
			c.Fail("cut: accepted without a signature", "certificate", b[:n])
		}
	})
	k.Explore("elements of a certificate left out, doubled or exchanged", 0, func(c *mc.Ch) {
		m := table[fast][fast]
		hk := ref.ECOf(&cv[0], "holder")
		b := ref.NewECBody(hk, caID, holID)
		full := b.DER()
		// the elements of the body
		var parts [][]byte
		v := full[3:]
		if full[2] == 0x81 {
			v = full[4:]
		}
		for len(v) > 0 {
			i := 1
			if v[0]&0x1F == 0x1F {
				i = 2
			}
			n := int(v[i])
			i++
			if n == 0x81 {
				n = int(v[i])
				i++
			}
			parts = append(parts, v[:i+n])
			v = v[i+n:]
		}
		i, j := c.Free(len(parts)), c.Free(len(parts)+2)
		var seq [][]byte
		for x := range parts {
			switch {
			case j == len(parts) && x == i: // left out
			case j == len(parts)+1 && x == i: // doubled
				seq = append(seq, parts[x], parts[x])
			case j < len(parts) && x == i:
				seq = append(seq, parts[j])
			case j < len(parts) && x == j:
				seq = append(seq, parts[i])
			default:
				seq = append(seq, parts[x])
			}
		}
		body := ref.DER("7F4E", seq...)
		sig := m.ca.Sign(body)
		raw := ref.ECCert(body, sig)
		switch c.Free(5) {
		case 1:
			raw = ref.DER("7F21", ref.DER("5F37", sig), body)
		case 2:
			raw = ref.DER("7F21", body)
		case 3:
			raw = ref.DER("7F21", body, body, ref.DER("5F37", sig))
		case 4:
			raw = ref.DER("7F21", body, ref.DER("5F37", sig), ref.DER("5F37", m.sig))
		}
		judge(c, "elements", raw, authOf(m.ca), body, sig)
	})
	k.Explore("sequences of verifications of one certificate", 0, func(c *mc.Ch) {
		m := table[fast][fast]
		raw := m.raw
		cert, f, _ := parse(c, "sequence", raw)
		if cert == nil {
			return
		}
		h := ""
		for i := 0; i < mc.Pick2(k, 4, 6); i++ {
			op := c.Free(6)
			h += fmt.Sprint(op)
			c.Visit(mc.HashS("seq" + h))
			a := authOf(m.ca)
			switch op {
			case 1:
				a = authOf(ref.ECOf(&cv[fast], "ca2"))
			case 2:
				a.oid = "1.2.3"
			case 3:
				a.x = nil
			case 4, 5:
				var ca *securityv1.EccCertificate
				if op == 5 {
					ca = &securityv1.EccCertificate{}
				}
				if security.VerifyEccCertificateWithCA(cert, ca) == nil || cert.GetSignatureValid() {
					c.Fail("sequence: no authority, but valid", "history", h)
				}
				continue
			}
			err := security.VerifyEccCertificateWithCA(cert, a.cert())
			if cert.GetSignatureValid() != (err == nil) {
				c.Fail("sequence: signature_valid is not the verdict", "history", h)
			}
			verdict(c, "sequence", raw, f, a, err)
		}
	})
	k.Assume("the reference verifies ECDSA by the textbook definition over the standard curves' group operations; wrappings that are not the standard's encoding may be refused, and are accepted only around a body and a signature that were made together")
}

func u64(b []byte) uint64 {
	v := uint64(0)
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}
