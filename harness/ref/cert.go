package ref

import (
	"bytes"
	"crypto/elliptic"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/asn1"
	"fmt"
	"math/big"
	"sync"

	"github.com/keybase/go-crypto/brainpool"
)

// RSAKey is a 1024-bit key pair.
type RSAKey struct {
	N, D *big.Int
	E    int64
}

func prime(seed string) *big.Int {
	var b []byte
	for i := 0; len(b) < 64; i++ {
		h := sha256.Sum256([]byte(fmt.Sprint(seed, i)))
		b = append(b, h[:]...)
	}
	b[0] |= 0xC0
	b[63] |= 1
	p := new(big.Int).SetBytes(b)
	for !p.ProbablyPrime(20) {
		p.Add(p, big.NewInt(2))
	}
	return p
}

// NewRSA makes the key pair of a name, always the same.
func NewRSA(name string) *RSAKey {
	for i := 0; ; i++ {
		p, q := prime(fmt.Sprint(name, "p", i)), prime(fmt.Sprint(name, "q", i))
		one := big.NewInt(1)
		phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
		d := new(big.Int).ModInverse(big.NewInt(65537), phi)
		if d != nil {
			return &RSAKey{N: new(big.Int).Mul(p, q), D: d, E: 65537}
		}
	}
}

// Mod and Exp are the key's encodings in certificates.
func (k *RSAKey) Mod() []byte { return k.N.FillBytes(make([]byte, 128)) }
func (k *RSAKey) Exp() []byte { return be(8, int(k.E)) }

// Raw applies the private key to a 128-byte block.
func (k *RSAKey) Raw(block []byte) []byte {
	return new(big.Int).Exp(new(big.Int).SetBytes(block), k.D, k.N).FillBytes(make([]byte, 128))
}

// RSAContent is the 164-byte content of a generation 1 certificate.
func RSAContent(car, chr uint64, eov int, n, e []byte) []byte {
	return cat([]byte{1}, U64(car), hx("FF544143484F01"), be(4, eov), U64(chr), n, e)
}

// U64 is the 8-byte form of a reference.
func U64(v uint64) []byte {
	return []byte{byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// RSABlock is the block that is signed for a content.
func RSABlock(content []byte) []byte {
	h := sha1.Sum(content)
	return cat([]byte{0x6A}, content[:106], h[:], []byte{0xBC})
}

// RSACert signs a content; car is the reference in clear at the end.
func RSACert(k *RSAKey, content []byte, car uint64) []byte {
	return cat(k.Raw(RSABlock(content)), content[106:], U64(car))
}

// RSAOpen opens a certificate independently: the content, and whether it is genuine.
func RSAOpen(cert, mod, exp []byte, chr string) (content []byte, ok bool) {
	if len(cert) != 194 {
		return nil, false
	}
	n, e := new(big.Int).SetBytes(mod), new(big.Int).SetBytes(exp)
	car := new(big.Int).SetBytes(cert[186:]).String()
	if len(mod) == 0 || len(exp) == 0 || car != chr || new(big.Int).SetBytes(cert[:128]).Cmp(n) >= 0 {
		return nil, false
	}
	m := new(big.Int).Exp(new(big.Int).SetBytes(cert[:128]), e, n)
	if m.BitLen() > 1024 {
		return nil, false
	}
	b := m.FillBytes(make([]byte, 128))
	if b[0] != 0x6A || b[127] != 0xBC {
		return nil, false
	}
	content = cat(b[1:107], cert[128:186])
	h := sha1.Sum(content)
	return content, bytes.Equal(h[:], b[107:127])
}

// Curve is a curve of the generation 2 certificates.
type Curve struct {
	Name, OID string
	C         elliptic.Curve
	Size      int // bytes of a coordinate
	Hash      func([]byte) []byte
}

func h256(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
func h384(b []byte) []byte { h := sha512.Sum384(b); return h[:] }
func h512(b []byte) []byte { h := sha512.Sum512(b); return h[:] }

// Curves lists the standardised domain parameters and their hash functions.
var Curves = []Curve{
	{"brainpoolP256r1", "1.3.36.3.3.2.8.1.1.7", brainpool.P256r1(), 32, h256},
	{"brainpoolP384r1", "1.3.36.3.3.2.8.1.1.11", brainpool.P384r1(), 48, h384},
	{"brainpoolP512r1", "1.3.36.3.3.2.8.1.1.13", brainpool.P512r1(), 64, h512},
	{"secp256r1", "1.2.840.10045.3.1.7", elliptic.P256(), 32, h256},
	{"secp384r1", "1.3.132.0.34", elliptic.P384(), 48, h384},
	{"secp521r1", "1.3.132.0.35", elliptic.P521(), 66, h512},
}

// ECKey is a key pair on one of the curves.
type ECKey struct {
	*Curve
	D, X, Y *big.Int
}

// NewEC makes the key pair of a name, always the same.
func NewEC(c *Curve, name string) *ECKey {
	d := new(big.Int).SetBytes(h512([]byte(name)))
	d.Mod(d, new(big.Int).Sub(c.C.Params().N, big.NewInt(1)))
	d.Add(d, big.NewInt(1))
	x, y := c.C.ScalarBaseMult(d.Bytes())
	return &ECKey{c, d, x, y}
}

// Point is the uncompressed public point.
func (k *ECKey) Point() []byte {
	return cat([]byte{4}, k.X.FillBytes(make([]byte, k.Size)), k.Y.FillBytes(make([]byte, k.Size)))
}

// hashInt takes the leftmost bits of a digest.
func hashInt(h []byte, n *big.Int) *big.Int {
	z := new(big.Int).SetBytes(h)
	if d := len(h)*8 - n.BitLen(); d > 0 {
		z.Rsh(z, uint(d))
	}
	return z
}

// Sign makes a plain ECDSA signature with a fixed nonce per message.
func (k *ECKey) Sign(msg []byte) []byte { return k.SignHash(k.Hash(msg), msg) }

// SignHash is Sign for a digest.
func (k *ECKey) SignHash(digest, msg []byte) []byte {
	n := k.C.Params().N
	for i := 0; ; i++ {
		nonce := new(big.Int).SetBytes(h512(cat(k.D.Bytes(), msg, []byte{byte(i)})))
		nonce.Mod(nonce, n)
		if nonce.Sign() == 0 {
			continue
		}
		r, _ := k.C.ScalarBaseMult(nonce.Bytes())
		r.Mod(r, n)
		s := new(big.Int).Mul(r, k.D)
		s.Add(s, hashInt(digest, n))
		s.Mul(s, new(big.Int).ModInverse(nonce, n)).Mod(s, n)
		if r.Sign() != 0 && s.Sign() != 0 {
			return cat(r.FillBytes(make([]byte, k.Size)), s.FillBytes(make([]byte, k.Size)))
		}
	}
}

// ECVerify checks a plain signature from the textbook definition.
func ECVerify(c *Curve, x, y *big.Int, msg []byte, r, s *big.Int) bool {
	p := c.C.Params()
	n := p.N
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(n) >= 0 || s.Cmp(n) >= 0 || x.Cmp(p.P) >= 0 || y.Cmp(p.P) >= 0 || !c.C.IsOnCurve(x, y) {
		return false
	}
	w := new(big.Int).ModInverse(s, n)
	u1 := hashInt(c.Hash(msg), n)
	u1.Mul(u1, w).Mod(u1, n)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, n)
	x1, y1 := c.C.ScalarBaseMult(u1.Bytes())
	x2, y2 := c.C.ScalarMult(x, y, u2.Bytes())
	if x1.Cmp(x2) == 0 && y1.Cmp(y2) != 0 {
		return false
	}
	var xx *big.Int
	if x1.Cmp(x2) == 0 {
		xx, _ = c.C.Double(x1, y1)
	} else {
		xx, _ = c.C.Add(x1, y1, x2, y2)
	}
	return xx.Mod(xx, n).Cmp(r) == 0
}

// DER writes a tag and length before the parts.
func DER(tag string, parts ...[]byte) []byte {
	v := cat(parts...)
	l := []byte{byte(len(v))}
	switch {
	case len(v) > 255:
		l = cat([]byte{0x82}, be(2, len(v)))
	case len(v) > 127:
		l = []byte{0x81, byte(len(v))}
	}
	return cat(hx(tag), l, v)
}

// ECBody describes the body of a generation 2 certificate.
type ECBody struct {
	CPI       byte
	CAR, CHR  uint64
	CHA       []byte
	OID       string
	Point     []byte
	From, Til int
}

// NewECBody describes a usual certificate for a key.
func NewECBody(k *ECKey, car, chr uint64) ECBody {
	return ECBody{0, car, chr, hx("FF534D52445401"), k.OID, k.Point(), 1600000000, 1900000000}
}

// DER is the encoded body.
func (b ECBody) DER() []byte {
	var oid asn1.ObjectIdentifier
	v := 0
	for _, ch := range b.OID + "." {
		if ch == '.' {
			oid = append(oid, v)
			v = 0
		} else {
			v = v*10 + int(ch-'0')
		}
	}
	o, err := asn1.Marshal(oid)
	if err != nil {
		panic(err)
	}
	return DER("7F4E", DER("5F29", []byte{b.CPI}), DER("42", U64(b.CAR)), DER("5F4C", b.CHA),
		DER("7F49", o, DER("86", b.Point)), DER("5F20", U64(b.CHR)), DER("5F25", be(4, b.From)), DER("5F24", be(4, b.Til)))
}

// ECCert wraps a body and a signature.
func ECCert(body, sig []byte) []byte { return DER("7F21", body, DER("5F37", sig)) }

// Chain keys, made once.
var (
	keyMu   sync.Mutex
	rsaKeys = map[string]*RSAKey{}
	ecKeys  = map[string]*ECKey{}
)

// RSAOf gives the key of a name.
func RSAOf(name string) *RSAKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	if rsaKeys[name] == nil {
		rsaKeys[name] = NewRSA(name)
	}
	return rsaKeys[name]
}

// ECOf gives the key of a name on a curve.
func ECOf(c *Curve, name string) *ECKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	k := c.Name + name
	if ecKeys[k] == nil {
		ecKeys[k] = NewEC(c, name)
	}
	return ecKeys[k]
}

// ECFields is what a generation 2 certificate says.
type ECFields struct {
	CPI               int
	CAR, CHR          uint64
	CHA               []byte
	OID               string
	X, Y              []byte
	From, Til         int
	R, S              []byte
	Body, Outer       []byte
	KnownCurve, Usual bool // Usual: every length is the curve's
}

// tlv takes one element of this tag with a minimal definite length.
func tlv(b []byte, tag string) (v, full, rest []byte, ok bool) {
	t := hx(tag)
	if !bytes.HasPrefix(b, t) || len(b) < len(t)+1 {
		return nil, nil, nil, false
	}
	i, n := len(t)+1, int(b[len(t)])
	switch {
	case n == 0x81 && len(b) > i:
		n = int(b[i])
		i++
		if n < 128 {
			return nil, nil, nil, false
		}
	case n == 0x82 && len(b) > i+1:
		n = int(b[i])<<8 | int(b[i+1])
		i += 2
		if n < 256 {
			return nil, nil, nil, false
		}
	case n >= 128:
		return nil, nil, nil, false
	}
	if len(b) < i+n {
		return nil, nil, nil, false
	}
	return b[i : i+n], b[:i+n], b[i+n:], true
}

// ECSplit parses a certificate strictly by the standard's table.
func ECSplit(raw []byte) (f ECFields, ok bool) {
	outer, full, rest, ok := tlv(raw, "7F21")
	if !ok || len(rest) > 0 || len(raw) < 204 || len(raw) > 341 {
		return f, false
	}
	f.Outer = full
	body, bodyFull, rest, ok := tlv(outer, "7F4E")
	if !ok {
		return f, false
	}
	f.Body = bodyFull
	sig, _, rest, ok := tlv(rest, "5F37")
	if !ok || len(rest) > 0 || len(sig)%2 != 0 {
		return f, false
	}
	f.R, f.S = sig[:len(sig)/2], sig[len(sig)/2:]
	field := func(tag string, n int) []byte {
		if !ok {
			return nil
		}
		var v []byte
		v, _, body, ok = tlv(body, tag)
		if n >= 0 && len(v) != n {
			ok = false
		}
		if !ok {
			return make([]byte, max(n, 0))
		}
		return v
	}
	be64 := func(b []byte) (v uint64) {
		for _, x := range b {
			v = v<<8 | uint64(x)
		}
		return v
	}
	f.CPI = U(field("5F29", 1))
	f.CAR = be64(field("42", 8))
	f.CHA = field("5F4C", 7)
	pk := field("7F49", -1)
	f.CHR = be64(field("5F20", 8))
	f.From = U(field("5F25", 4))
	f.Til = U(field("5F24", 4))
	if !ok || len(body) > 0 {
		return f, false
	}
	_, oid, pk, ok := tlv(pk, "06")
	if !ok {
		return f, false
	}
	point, _, pk, ok := tlv(pk, "86")
	if !ok || len(pk) > 0 || len(point)%2 != 1 || point[0] != 4 {
		return f, false
	}
	f.X, f.Y = point[1:1+len(point)/2], point[1+len(point)/2:]
	for _, c := range Curves {
		if bytes.Equal(oidDER(c.OID), oid) {
			f.OID, f.KnownCurve = c.OID, true
			f.Usual = len(f.X) == c.Size
		}
	}
	switch len(sig) {
	case 64, 96, 128, 132:
	default:
		f.Usual = false
	}
	return f, true
}

func oidDER(s string) []byte {
	var oid asn1.ObjectIdentifier
	v := 0
	for _, ch := range s + "." {
		if ch == '.' {
			oid = append(oid, v)
			v = 0
		} else {
			v = v*10 + int(ch-'0')
		}
	}
	o, err := asn1.Marshal(oid)
	if err != nil {
		panic(err)
	}
	return o
}
