package ref

import (
	"math/big"
)

// Textbook big-integer curve arithmetic, independent of any curve library.

// W is a short Weierstrass curve y^2 = x^3 + ax + b.
type W struct {
	P, A, B, Gx, Gy, N *big.Int
	Size               int
}

func bi(h string) *big.Int {
	v, ok := new(big.Int).SetString(h, 16)
	if !ok {
		panic("bad constant")
	}
	return v
}

var (
	WK1 = &W{P: bi("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"), A: bi("0"), B: bi("7"),
		Gx: bi("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), Gy: bi("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
		N: bi("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"), Size: 32}
	WR1 = &W{P: bi("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"), A: bi("ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"),
		B: bi("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"), Gx: bi("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
		Gy: bi("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"), N: bi("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"), Size: 32}
	WSM2 = &W{P: bi("fffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff"), A: bi("fffffffeffffffffffffffffffffffffffffffff00000000fffffffffffffffc"),
		B: bi("28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e93"), Gx: bi("32c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7"),
		Gy: bi("bc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0"), N: bi("fffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123"), Size: 32}
	WBLS = &W{P: bi("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab"), A: bi("0"), B: bi("4"),
		Gx: bi("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"),
		Gy: bi("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"),
		N:  bi("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"), Size: 48}
	WPallas = &W{P: bi("40000000000000000000000000000000224698fc094cf91b992d30ed00000001"), A: bi("0"), B: bi("5"),
		Gx: bi("1"), Gy: bi("1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb"),
		N: bi("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"), Size: 32}
)

type jac struct{ x, y, z *big.Int }

func (w *W) m(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, w.P) }
func (w *W) s(a, b *big.Int) *big.Int { r := new(big.Int).Sub(a, b); return r.Mod(r, w.P) }
func (w *W) a(a, b *big.Int) *big.Int { r := new(big.Int).Add(a, b); return r.Mod(r, w.P) }

func (w *W) dbl(p jac) jac {
	if p.z.Sign() == 0 || p.y.Sign() == 0 {
		return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	}
	yy := w.m(p.y, p.y)
	s := w.m(big.NewInt(4), w.m(p.x, yy))
	z2 := w.m(p.z, p.z)
	mm := w.a(w.m(big.NewInt(3), w.m(p.x, p.x)), w.m(w.A, w.m(z2, z2)))
	x := w.s(w.m(mm, mm), w.m(big.NewInt(2), s))
	y := w.s(w.m(mm, w.s(s, x)), w.m(big.NewInt(8), w.m(yy, yy)))
	return jac{x, y, w.m(big.NewInt(2), w.m(p.y, p.z))}
}
func (w *W) addj(p, q jac) jac {
	if p.z.Sign() == 0 {
		return q
	}
	if q.z.Sign() == 0 {
		return p
	}
	pz2, qz2 := w.m(p.z, p.z), w.m(q.z, q.z)
	u1, u2 := w.m(p.x, qz2), w.m(q.x, pz2)
	s1, s2 := w.m(p.y, w.m(qz2, q.z)), w.m(q.y, w.m(pz2, p.z))
	h, r := w.s(u2, u1), w.s(s2, s1)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return w.dbl(p)
		}
		return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	}
	h2 := w.m(h, h)
	h3 := w.m(h2, h)
	v := w.m(u1, h2)
	x := w.s(w.s(w.m(r, r), h3), w.m(big.NewInt(2), v))
	y := w.s(w.m(r, w.s(v, x)), w.m(s1, h3))
	return jac{x, y, w.m(h, w.m(p.z, q.z))}
}
func (w *W) affine(p jac) (x, y *big.Int) {
	if p.z.Sign() == 0 {
		return nil, nil
	}
	zi := new(big.Int).ModInverse(p.z, w.P)
	z2 := w.m(zi, zi)
	return w.m(p.x, z2), w.m(p.y, w.m(z2, zi))
}

// Mul returns k*P (nil, nil at infinity).
func (w *W) Mul(k, px, py *big.Int) (x, y *big.Int) {
	r := jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	p := jac{px, py, big.NewInt(1)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = w.dbl(r)
		if k.Bit(i) == 1 {
			r = w.addj(r, p)
		}
	}
	return w.affine(r)
}
func (w *W) MulG(k *big.Int) (x, y *big.Int) { return w.Mul(k, w.Gx, w.Gy) }
func (w *W) Add(px, py, qx, qy *big.Int) (x, y *big.Int) {
	return w.affine(w.addj(jac{px, py, big.NewInt(1)}, jac{qx, qy, big.NewInt(1)}))
}
func (w *W) On(x, y *big.Int) bool {
	l := w.m(y, y)
	r := w.a(w.a(w.m(x, w.m(x, x)), w.m(w.A, x)), w.B)
	return l.Cmp(r) == 0
}

// Compress gives 02/03||X (SEC1).
func (w *W) Compress(x, y *big.Int) []byte {
	return Cat([]byte{2 + byte(y.Bit(0))}, x.FillBytes(make([]byte, w.Size)))
}

// BLSCompress is the ZCash compressed G1 encoding.
func BLSCompress(x, y *big.Int) []byte {
	b := x.FillBytes(make([]byte, 48))
	b[0] |= 0x80
	if y.Cmp(new(big.Int).Rsh(WBLS.P, 1)) > 0 {
		b[0] |= 0x20
	}
	return b
}

// Edwards25519.

var (
	EdP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	EdL = bi("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
	edD = bi("52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3")
	edX = bi("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a")
	edY = bi("6666666666666666666666666666666666666666666666666666666666666658")
)

type edp struct{ x, y, z, t *big.Int }

func edm(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, EdP) }
func edAdd(p, q edp) edp {
	sub := func(a, b *big.Int) *big.Int { r := new(big.Int).Sub(a, b); return r.Mod(r, EdP) }
	add := func(a, b *big.Int) *big.Int { r := new(big.Int).Add(a, b); return r.Mod(r, EdP) }
	A := edm(sub(p.y, p.x), sub(q.y, q.x))
	B := edm(add(p.y, p.x), add(q.y, q.x))
	C := edm(edm(p.t, edm(big.NewInt(2), edD)), q.t)
	D := edm(big.NewInt(2), edm(p.z, q.z))
	E, F, G, H := sub(B, A), sub(D, C), add(D, C), add(B, A)
	return edp{edm(E, F), edm(G, H), edm(F, G), edm(E, H)}
}
func edMul(k *big.Int, p edp) edp {
	r := edp{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = edAdd(r, r)
		if k.Bit(i) == 1 {
			r = edAdd(r, p)
		}
	}
	return r
}
func edEnc(p edp) []byte {
	zi := new(big.Int).ModInverse(p.z, EdP)
	x, y := edm(p.x, zi), edm(p.y, zi)
	b := Rev(y.FillBytes(make([]byte, 32)))
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

// EdMulG returns the encoding of k*B (k as integer).
func EdMulG(k *big.Int) []byte {
	return edEnc(edMul(k, edp{edX, edY, big.NewInt(1), edm(edX, edY)}))
}
