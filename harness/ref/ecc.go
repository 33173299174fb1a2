package ref

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"math/big"
	"sync"

	"github.com/btcsuite/btcd/btcec"
)

// HalfNonce is 1/2 mod n: its point has the shortest known x coordinate (166 bits).
var HalfNonce = new(big.Int).Rsh(new(big.Int).Add(NK1, big.NewInt(1)), 1).FillBytes(make([]byte, 32))

var (
	K1   = btcec.S256()
	R1   = elliptic.P256()
	NK1  = K1.N
	NR1  = R1.Params().N
	HK1  = new(big.Int).Rsh(NK1, 1)
	HR1  = new(big.Int).Rsh(NR1, 1)
	one  = big.NewInt(1)
	zero = big.NewInt(0)
)

// Pub64 returns X||Y of priv*G.
func Pub64(c elliptic.Curve, priv []byte) []byte {
	x, y := c.ScalarBaseMult(priv)
	return Cat(x.FillBytes(make([]byte, 32)), y.FillBytes(make([]byte, 32)))
}
func Compress(pub64 []byte) []byte {
	if pub64[63]&1 == 1 {
		return Cat([]byte{3}, pub64[:32])
	}
	return Cat([]byte{2}, pub64[:32])
}
func PubK1(priv []byte) []byte { return Compress(Pub64(K1, priv)) }
func PubR1(priv []byte) []byte { return Compress(Pub64(R1, priv)) }

// VerifyECDSA checks a 64-byte r||s signature over a 32-byte digest.
func VerifyECDSA(c elliptic.Curve, pub64, digest, sig []byte) bool {
	if len(sig) != 64 || len(pub64) != 64 || len(digest) != 32 {
		return false
	}
	x, y := new(big.Int).SetBytes(pub64[:32]), new(big.Int).SetBytes(pub64[32:])
	if !c.IsOnCurve(x, y) {
		return false
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if c == elliptic.Curve(K1) {
		if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(NK1) >= 0 || s.Cmp(NK1) >= 0 {
			return false
		}
		pk := btcec.PublicKey{Curve: K1, X: x, Y: y}
		return (&btcec.Signature{R: r, S: s}).Verify(digest, &pk)
	}
	return ecdsa.Verify(&ecdsa.PublicKey{Curve: c, X: x, Y: y}, digest, r, s)
}

func Decompress(c elliptic.Curve, p []byte) []byte {
	if len(p) != 33 || (p[0] != 2 && p[0] != 3) {
		return nil
	}
	if c == elliptic.Curve(K1) {
		k, err := btcec.ParsePubKey(p, K1)
		if err != nil {
			return nil
		}
		return Cat(k.X.FillBytes(make([]byte, 32)), k.Y.FillBytes(make([]byte, 32)))
	}
	x, y := elliptic.UnmarshalCompressed(c, p)
	if x == nil {
		return nil
	}
	return Cat(x.FillBytes(make([]byte, 32)), y.FillBytes(make([]byte, 32)))
}

// SignWith signs digest with private d and nonce k, no S normalisation. Returns r||s or nil.
func SignWith(c elliptic.Curve, d, k, digest []byte) []byte {
	n := c.Params().N
	kk := new(big.Int).SetBytes(k)
	kk.Mod(kk, n)
	if kk.Sign() == 0 {
		return nil
	}
	x, _ := c.ScalarBaseMult(kk.FillBytes(make([]byte, 32)))
	r := new(big.Int).Mod(x, n)
	s := new(big.Int).Mul(r, new(big.Int).SetBytes(d))
	s.Add(s, new(big.Int).SetBytes(digest))
	s.Mul(s, new(big.Int).ModInverse(kk, n))
	s.Mod(s, n)
	if r.Sign() == 0 || s.Sign() == 0 {
		return nil
	}
	return Cat(r.FillBytes(make([]byte, 32)), s.FillBytes(make([]byte, 32)))
}

func IsLowS(c elliptic.Curve, sig []byte) bool {
	h := new(big.Int).Rsh(c.Params().N, 1)
	return new(big.Int).SetBytes(sig[32:]).Cmp(h) <= 0
}
func LowS(c elliptic.Curve, sig []byte) []byte {
	s := new(big.Int).SetBytes(sig[32:])
	if !IsLowS(c, sig) {
		s.Sub(c.Params().N, s)
	}
	return Cat(sig[:32], s.FillBytes(make([]byte, 32)))
}

// DER

func derInt(b []byte) []byte {
	for len(b) > 1 && b[0] == 0 {
		b = b[1:]
	}
	if b[0]&0x80 != 0 {
		b = Cat([]byte{0}, b)
	}
	return Cat([]byte{2, byte(len(b))}, b)
}

// DER encodes r||s strictly.
func DER(sig []byte) []byte {
	body := Cat(derInt(sig[:32]), derInt(sig[32:]))
	return Cat([]byte{0x30, byte(len(body))}, body)
}

// ParseDER parses strict (BIP-66) DER and returns r||s.
func ParseDER(d []byte) ([]byte, error) {
	if len(d) < 8 || len(d) > 72 || d[0] != 0x30 || int(d[1]) != len(d)-2 {
		return nil, ErrRef
	}
	get := func(b []byte) (v, rest []byte, ok bool) {
		if len(b) < 3 || b[0] != 2 || b[1] == 0 || int(b[1]) > len(b)-2 {
			return nil, nil, false
		}
		v = b[2 : 2+int(b[1])]
		rest = b[2+int(b[1]):]
		if v[0]&0x80 != 0 || (len(v) > 1 && v[0] == 0 && v[1]&0x80 == 0) {
			return nil, nil, false
		}
		return v, rest, true
	}
	r, rest, ok := get(d[2:])
	if !ok {
		return nil, ErrRef
	}
	s, rest, ok := get(rest)
	if !ok || len(rest) != 0 {
		return nil, ErrRef
	}
	ri, si := new(big.Int).SetBytes(r), new(big.Int).SetBytes(s)
	if ri.BitLen() > 256 || si.BitLen() > 256 {
		return nil, ErrRef
	}
	return Cat(ri.FillBytes(make([]byte, 32)), si.FillBytes(make([]byte, 32))), nil
}

// RecoverK1 returns the secp256k1 key a 64-byte signature with recovery bit v (0 or 1) belongs to, or nil.
func RecoverK1(sig []byte, v byte, digest []byte) []byte {
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
	if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(NK1) >= 0 || s.Cmp(NK1) >= 0 {
		return nil
	}
	p := Decompress(K1, Cat([]byte{2 + v}, sig[:32]))
	if p == nil {
		return nil
	}
	inv := new(big.Int).ModInverse(r, NK1)
	a := new(big.Int).Mul(s, inv)
	b := new(big.Int).Mul(new(big.Int).SetBytes(digest), inv)
	b.Neg(b)
	x1, y1 := K1.ScalarMult(new(big.Int).SetBytes(p[:32]), new(big.Int).SetBytes(p[32:]), a.Mod(a, NK1).FillBytes(make([]byte, 32)))
	x2, y2 := K1.ScalarBaseMult(b.Mod(b, NK1).FillBytes(make([]byte, 32)))
	x, y := K1.Add(x1, y1, x2, y2)
	return Cat(x.FillBytes(make([]byte, 32)), y.FillBytes(make([]byte, 32)))
}

var shortMu sync.Mutex

var shortTab = map[elliptic.Curve]*[2][]*big.Int{}

// ShortS signs with the nonce among 1..32768 that gives the shortest (low) s: two leading zero bytes
// more often than not.
func ShortS(c elliptic.Curve, d, digest []byte) []byte {
	const m = 32768
	p, n := c.Params().P, c.Params().N
	shortMu.Lock()
	tab := shortTab[c]
	if tab == nil {
		tab = &[2][]*big.Int{make([]*big.Int, m), make([]*big.Int, m)}
		gx, gy := c.Params().Gx, c.Params().Gy
		x, y := c.ScalarBaseMult([]byte{2})
		mod := func(v *big.Int) *big.Int { return v.Mod(v, p) }
		tab[0][0], tab[0][1] = new(big.Int).Mod(gx, n), new(big.Int).Mod(x, n)
		for i := 2; i < m; i++ { // the (i+1)-fold of the base point
			l := mod(new(big.Int).Sub(x, gx))
			l.ModInverse(l, p)
			l = mod(l.Mul(l, new(big.Int).Sub(y, gy)))
			nx := new(big.Int).Mul(l, l)
			nx = mod(nx.Sub(nx.Sub(nx, x), gx))
			ny := new(big.Int).Sub(gx, nx)
			ny = mod(ny.Sub(ny.Mul(ny, l), gy))
			x, y = nx, ny
			tab[0][i] = new(big.Int).Mod(x, n)
		}
		for i := range tab[1] {
			k := big.NewInt(int64(i + 1))
			tab[1][i] = k.ModInverse(k, n)
		}
		shortTab[c] = tab
	}
	shortMu.Unlock()
	dd, z := new(big.Int).SetBytes(d), new(big.Int).SetBytes(digest)
	best, at, s, q, o := new(big.Int).Set(n), 0, new(big.Int), new(big.Int), new(big.Int)
	for i, r := range tab[0] {
		s.Mul(r, dd)
		s.Add(s, z)
		q.QuoRem(s, n, o)
		s.Mul(o, tab[1][i])
		q.QuoRem(s, n, o)
		if o.Sign() == 0 {
			continue
		}
		if q.Sub(n, o); q.Cmp(o) < 0 {
			o.Set(q)
		}
		if o.Cmp(best) < 0 {
			best.Set(o)
			at = i
		}
	}
	return LowS(c, SignWith(c, d, big.NewInt(int64(at+1)).FillBytes(make([]byte, 32)), digest))
}
