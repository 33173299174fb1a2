package key

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha512"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"testing"

	kc "github.com/blocktree/go-owcdrivers/owkeychain"
	"pgregory.net/rapid"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

// ---------------------------------------------------------------- reference scheme

const (
	k1    = uint32(0xECC00000)
	r1    = uint32(0xECC00001)
	sm2   = uint32(0xECC00002)
	ed    = uint32(0xECC00004)
	x25   = uint32(0xECC00005)
	c25   = uint32(0xECC00006)
	bls1  = uint32(0xECC00007)
	bls2  = uint32(0xECC00008)
	pasta = uint32(0xECC00009)
)

var allCurves = []uint32{k1, k1, k1, r1, sm2, ed, x25, c25, bls1, bls2, pasta}

func name(c uint32) string {
	return map[uint32]string{k1: "secp256k1", r1: "secp256r1", sm2: "sm2", ed: "ed25519", x25: "x25519", c25: "curve25519", bls1: "bls-nul", bls2: "bls-aug", pasta: "pasta"}[c]
}

func isEd(c uint32) bool  { return c == ed || c == x25 || c == c25 }
func isBLS(c uint32) bool { return c == bls1 || c == bls2 }
func wc(c uint32) *ref.W {
	switch c {
	case k1:
		return ref.WK1
	case r1:
		return ref.WR1
	case sm2:
		return ref.WSM2
	case bls1, bls2:
		return ref.WBLS
	case pasta:
		return ref.WPallas
	}
	return nil
}

// node is the reference extended key.
type node struct {
	curve uint32
	depth byte
	fp    []byte
	index uint32
	cc    []byte
	key   []byte // private scalar or public key
	priv  bool
}

func pub(c uint32, k []byte) []byte {
	if isEd(c) {
		return ref.EdMulG(new(big.Int).SetBytes(ref.Rev(k)))
	}
	w := wc(c)
	x, y := w.MulG(new(big.Int).SetBytes(k))
	if x == nil {
		return nil
	}
	if isBLS(c) {
		return ref.BLSCompress(x, y)
	}
	return w.Compress(x, y)
}

func (n *node) pubBytes() []byte {
	if n.priv {
		return pub(n.curve, n.key)
	}
	return n.key
}

func root(seed []byte, c uint32) *node {
	h := sha512.Sum512(seed)
	i := h[:]
	switch {
	case isEd(c):
		i[0] &= 0xf8
		i[31] = i[31]&0x3f | 0x40
	case isBLS(c):
		if i[0] > 0x72 {
			i[0] = 0x72
		}
	case c == pasta:
		i[0] &= 3
	}
	return &node{curve: c, fp: make([]byte, 4), cc: i[32:], key: i[:32], priv: true}
}

func (n *node) i(idx uint32) []byte {
	data := n.key
	if n.priv && idx < 1<<31 {
		data = pub(n.curve, n.key)
	}
	return n.iWith(data, idx)
}

func (n *node) iWith(data []byte, idx uint32) []byte {
	m := hmac.New(sha512.New, n.cc)
	if len(data) == 32 {
		m.Write([]byte{0})
	}
	m.Write(data)
	m.Write(ref.BE32(idx))
	i := m.Sum(nil)
	if isBLS(n.curve) && i[0] > 0x72 {
		i[0] = 0x72
	}
	if n.curve == pasta {
		i[0], i[1], i[2] = 0, 0, 0
	}
	return i
}

// privFromI gives the child scalar for a given derivation block; nil when the index is invalid.
func (n *node) privFromI(i []byte) []byte {
	var k []byte
	if isEd(n.curve) {
		v := new(big.Int).SetBytes(ref.Rev(i[:28]))
		v.Mul(v, big.NewInt(8))
		v.Add(v, new(big.Int).SetBytes(ref.Rev(n.key)))
		if new(big.Int).Mod(v, ref.EdL).Sign() == 0 {
			return nil
		}
		k = ref.Rev(v.FillBytes(make([]byte, 32)))
	} else {
		v := new(big.Int).SetBytes(i[:32])
		ord := wc(n.curve).N
		if v.Sign() == 0 || v.Cmp(ord) >= 0 {
			return nil
		}
		v.Add(v, new(big.Int).SetBytes(n.key))
		v.Mod(v, ord)
		if v.Sign() == 0 {
			return nil
		}
		k = v.FillBytes(make([]byte, 32))
	}
	return k
}

func (n *node) child(idx uint32) *node {
	i := n.i(idx)
	k := n.privFromI(i)
	if k == nil {
		return nil
	}
	return &node{n.curve, n.depth + 1, ref.H160(n.pubBytes())[:4], idx, i[32:], k, true}
}

func (n *node) neuter() *node {
	m := *n
	m.key, m.priv = n.pubBytes(), false
	return &m
}

const (
	prvPre = "07a8100c28"
	pubPre = "07a81031a2"
	blsPre = "3e00faea69"
)

func (n *node) payload() []byte {
	d := ref.Cat(ref.BE32(n.curve), []byte{n.depth}, n.fp, ref.BE32(n.index), n.cc)
	if n.priv || isEd(n.curve) {
		d = append(d, 0)
	}
	return append(d, n.key...)
}

func (n *node) encode() string {
	pre := prvPre
	if !n.priv {
		pre = pubPre
		if isBLS(n.curve) {
			pre = blsPre
		}
	}
	return ref.B58CheckEnc(ref.Cat(kit.UnHex(pre), n.payload()), ref.B58BTC, "doubleSHA256")
}

func (n *node) real() *kc.ExtendedKey {
	return kc.NewExtendedKey(append([]byte{}, n.key...), append([]byte{}, n.cc...), append([]byte{}, n.fp...), n.depth, n.index, n.priv, n.curve)
}

func same(t *rapid.T, what string, got *kc.ExtendedKey, err error, want *node) {
	if err != nil || got == nil {
		t.Fatalf("%s: error %v, want %s", what, err, want.encode())
	}
	if g := got.OWEncode(); g != want.encode() {
		t.Fatalf("%s:\n got %s\nwant %s (key %x)", what, g, want.encode(), want.key)
	}
}

// drawNode draws a private extended key: a root or an arbitrary interior node.
func drawNode(t *rapid.T) *node {
	c := rapid.SampledFrom(allCurves).Draw(t, "curve")
	if kit.OneIn(t, 3, "root") {
		return root(kit.BytesRange(t, 16, 64, "seed"), c)
	}
	n := &node{curve: c, depth: rapid.SampledFrom([]byte{0, 1, 2, 3, 100, 253, 254}).Draw(t, "depth"), fp: kit.Bytes(t, 4, "fp"), index: kit.U32(t, "idx"), cc: kit.Bytes(t, 32, "cc"), priv: true}
	switch {
	case isEd(c):
		k := kit.Uniform(t, 32, "key")
		k[0] &= 0xf8
		k[31] = k[31]&0x3f | 0x40
		n.key = k
	case c == pasta:
		n.key = kit.Scalar(t, new(big.Int).Lsh(big.NewInt(1), 250), "key")
	default:
		n.key = kit.Scalar(t, wc(c).N, "key")
	}
	return n
}

func drawIndex(t *rapid.T) uint32 {
	return rapid.SampledFrom([]uint32{0, 1, 2, 44, 88, 255, 256, 65536, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<31 + 44, 1<<32 - 1, 0xffffffff}).Draw(t, "index") ^ uint32(rapid.IntRange(0, 1).Draw(t, "r"))*uint32(rapid.Uint16().Draw(t, "rnd"))
}

// ---------------------------------------------------------------- K01

func TestK01_Child(t *testing.T) {
	kit.Check(t, 300, func(t *rapid.T, c *kit.Case) {
		n := drawNode(t)
		idx := drawIndex(t)
		want := n.child(idx)
		k := n.real()
		c.Class("%s hardened=%v", name(n.curve), idx >= 1<<31)
		c.NonTrivial(n.encode(), idx)
		c.Sample("%s child %d", n.encode(), idx)
		c.Eval(5)
		got, err := k.GenPrivateChild(idx)
		if want == nil {
			if err == nil {
				t.Fatalf("%s: invalid child %d was derived", n.encode(), idx)
			}
			return
		}
		same(t, fmt.Sprintf("%s private child %d of %s", name(n.curve), idx, n.encode()), got, err, want)
		b, err := got.GetPrivateKeyBytes()
		if err != nil || !bytes.Equal(b, want.key) {
			t.Fatalf("%s private key bytes %x (%v), want %x", name(n.curve), b, err, want.key)
		}
		wantPub := want.neuter()
		// public child of the private parent
		gp, err := k.GenPublicChild(idx)
		same(t, fmt.Sprintf("%s public child %d of private parent", name(n.curve), idx), gp, err, wantPub)
		// neutering
		same(t, "public half of the private child", got.GetPublicKey(), nil, wantPub)
		if g := got.GetPublicKeyBytes(); !bytes.Equal(g, wantPub.key) {
			t.Fatalf("%s public key bytes %x, want %x", name(n.curve), g, wantPub.key)
		}
		same(t, "public half of the parent", k.GetPublicKey(), nil, n.neuter())
		// a public key is its own public half and gives away nothing private
		for _, e := range []*kc.ExtendedKey{gp, got.GetPublicKey()} {
			same(t, "public half of a public key", e.GetPublicKey(), nil, wantPub)
			if g := e.GetPublicKeyBytes(); !bytes.Equal(g, wantPub.key) {
				t.Fatalf("%s public key bytes of a public key %x, want %x", name(n.curve), g, wantPub.key)
			}
			if b, err := e.GetPrivateKeyBytes(); err == nil {
				t.Fatalf("%s: private bytes %x of a public key", name(n.curve), b)
			}
			if ch, err := e.GenPrivateChild(idx); err == nil {
				t.Fatalf("%s: private child %s of a public key", name(n.curve), ch.OWEncode())
			}
		}
		// public derivation from the public parent
		pp, err := k.GetPublicKey().GenPublicChild(idx)
		if idx >= 1<<31 {
			if err == nil {
				t.Fatalf("%s hardened child %d derived from a public key", name(n.curve), idx)
			}
		} else {
			same(t, fmt.Sprintf("%s public child %d of public parent", name(n.curve), idx), pp, err, wantPub)
		}
		if k.OWEncode() != n.encode() {
			t.Fatalf("derivation changed the parent key")
		}
		if w := wc(n.curve); w != nil && !isBLS(n.curve) && n.curve != pasta {
			x, y := w.MulG(new(big.Int).SetBytes(want.key))
			full := ref.Cat(x.FillBytes(make([]byte, 32)), y.FillBytes(make([]byte, 32)))
			for _, e := range []*kc.ExtendedKey{got, gp} {
				if g := e.GetUncompressedPublicKeyBytes(); !bytes.Equal(g, full) {
					t.Fatalf("%s uncompressed public key %x, want %x", name(n.curve), g, full)
				}
			}
		}
	})
}

// Children whose scalar starts with two or more zero bytes are found by searching the index space.
func TestK01_ShortScalars(t *testing.T) {
	kit.Check(t, 6, func(t *rapid.T, c *kit.Case) {
		n := drawNode(t)
		for isEd(n.curve) || n.curve == pasta {
			n.curve = k1
			n.key = kit.Scalar(t, ref.NK1, "key2")
		}
		hard := rapid.Bool().Draw(t, "hardened")
		start := uint32(rapid.IntRange(0, 1<<30).Draw(t, "start"))
		data := n.key
		if hard {
			start |= 1 << 31
		} else {
			data = n.pubBytes()
		}
		for j := uint32(0); j < 400000; j++ {
			i := n.iWith(data, start+j)
			ch := n.privFromI(i)
			if ch == nil || ch[0] != 0 || ch[1] != 0 {
				continue
			}
			idx := start + j
			want := n.child(idx)
			got, err := n.real().GenPrivateChild(idx)
			c.Eval(1)
			c.Class("%s zeros=2", name(n.curve))
			c.NonTrivial(n.encode(), idx)
			c.Sample("%s child %d has scalar %x", name(n.curve), idx, want.key)
			same(t, fmt.Sprintf("%s private child %d of %s", name(n.curve), idx, n.encode()), got, err, want)
			gp, err := n.real().GenPublicChild(idx)
			same(t, fmt.Sprintf("%s public child %d of %s", name(n.curve), idx, n.encode()), gp, err, want.neuter())
			return
		}
	})
}

// Random derivation histories: private and public side stay in step, at every step the extended
// key may be exported, re-imported, or switched to public-only derivation.
func TestK01_History(t *testing.T) {
	kit.Check(t, 30, func(t *rapid.T, c *kit.Case) {
		cv := rapid.SampledFrom(allCurves).Draw(t, "curve")
		seed := kit.BytesRange(t, 16, 64, "seed")
		m := root(seed, cv)
		k, err := kc.InitRootKeyFromSeed(seed, cv)
		same(t, "root", k, err, m)
		steps := rapid.IntRange(1, 8).Draw(t, "steps")
		for s := 0; s < steps; s++ {
			c.Eval(1)
			switch rapid.IntRange(0, 4).Draw(t, "op") {
			case 0: // export / import
				k2, err := kc.OWDecode(k.OWEncode())
				same(t, "import", k2, err, m)
				k = k2
			case 1: // continue public only
				if m.priv {
					m = m.neuter()
				}
				k = k.GetPublicKey()
				same(t, "neuter", k, nil, m)
			default:
				idx := drawIndex(t)
				if !m.priv {
					if idx >= 1<<31 {
						if _, err := k.GenPublicChild(idx); err == nil {
							t.Fatalf("hardened child of a public key")
						}
						continue
					}
					if _, err := k.GenPrivateChild(idx); err == nil {
						t.Fatalf("private child of a public key")
					}
					// model: derive through the arithmetic on points
					i := m.iWith(m.key, idx)
					p := addPub(m.curve, m.key, i[:32])
					if p == nil {
						continue
					}
					m = &node{m.curve, m.depth + 1, ref.H160(m.key)[:4], idx, i[32:], p, false}
					k, err = k.GenPublicChild(idx)
				} else {
					ch := m.child(idx)
					if ch == nil {
						continue
					}
					m = ch
					k, err = k.GenPrivateChild(idx)
				}
				same(t, fmt.Sprintf("step %d index %d", s, idx), k, err, m)
			}
		}
		c.Class("%s depth=%d priv=%v", name(cv), m.depth, m.priv)
		c.NonTrivial(m.encode())
		c.Sample("%s", m.encode())
	})
}

// addPub computes the public child from the public parent (nil when not modelled).
func addPub(c uint32, p, il []byte) []byte {
	if isEd(c) || isBLS(c) || c == pasta {
		return nil
	}
	w := wc(c)
	v := new(big.Int).SetBytes(il)
	if v.Sign() == 0 || v.Cmp(w.N) >= 0 {
		return nil
	}
	x := new(big.Int).SetBytes(p[1:])
	y2 := new(big.Int).Exp(x, big.NewInt(3), w.P)
	y2.Add(y2, new(big.Int).Mul(w.A, x))
	y2.Add(y2, w.B)
	y := new(big.Int).ModSqrt(y2.Mod(y2, w.P), w.P)
	if byte(y.Bit(0)) != p[0]&1 {
		y.Sub(w.P, y)
	}
	qx, qy := w.MulG(v)
	rx, ry := w.Add(x, y, qx, qy)
	if rx == nil {
		return nil
	}
	return w.Compress(rx, ry)
}

// ---------------------------------------------------------------- K02

func TestK02_Path(t *testing.T) {
	kit.Check(t, 60, func(t *rapid.T, c *kit.Case) {
		cv := rapid.SampledFrom(append([]uint32{k1, k1, k1}, allCurves...)).Draw(t, "curve")
		seed := kit.BytesRange(t, 16, 64, "seed")
		m := root(seed, cv)
		rel := m
		var parts []string
		n := rapid.IntRange(0, 5).Draw(t, "n")
		var soft []uint32
		for i := 0; i < n; i++ {
			v := uint32(kit.U64Range(t, 0, 1<<31-1, "elem"))
			h := rapid.Bool().Draw(t, "hard")
			s := strconv.Itoa(int(v))
			idx := v
			if h {
				s += "'"
				idx += 1 << 31
				soft = nil
			} else {
				soft = append(soft, idx)
			}
			parts = append(parts, s)
			m = m.child(idx)
			if m == nil {
				return
			}
			if h {
				rel = m
			}
		}
		path := "m/" + strings.Join(parts, "/")
		if n == 0 {
			path = rapid.SampledFrom([]string{"m", "/", ""}).Draw(t, "rootpath")
		}
		got, err := kc.DerivedPrivateKeyWithPath(seed, path, cv)
		c.Eval(2)
		c.Class("%s n=%d", name(cv), n)
		c.NonTrivial(seed, path, cv)
		c.Sample("%q on %s", path, name(cv))
		same(t, fmt.Sprintf("path %q", path), got, err, m)
		// a relative path from a private key may start with a hardened step
		if v := uint32(kit.U64Range(t, 0, 1<<31-1, "hardrel")); m.child(1<<31+v) != nil {
			w, rp := m.child(1<<31+v), fmt.Sprintf("/%d'", v)
			if rapid.Bool().Draw(t, "more") {
				if ch := w.child(v / 2); ch != nil {
					w, rp = ch, rp+fmt.Sprintf("/%d", v/2)
				}
			}
			g, err := m.real().DerivedPublicKeyFromPath(rp)
			same(t, fmt.Sprintf("relative path %q from private", rp), g, err, w.neuter())
			c.Eval(1)
		}
		// relative public path from the last hardened node equals the private path
		if len(soft) > 0 {
			rp := ""
			for _, s := range soft {
				rp += "/" + strconv.Itoa(int(s))
			}
			g, err := rel.neuter().real().DerivedPublicKeyFromPath(rp)
			same(t, fmt.Sprintf("relative public path %q", rp), g, err, m.neuter())
			g, err = rel.real().DerivedPublicKeyFromPath(rp)
			same(t, fmt.Sprintf("relative public path %q from private", rp), g, err, m.neuter())
			c.Eval(2)
			_, err = rel.neuter().real().DerivedPublicKeyFromPath(rp + "/0'")
			if err == nil {
				t.Fatalf("relative path %q/0' (hardened) was derived from a public key", rp)
			}
		}
	})
}

// Coin helpers follow the wallet path m/44'/88'/coin/index.
func TestK02_Coin(t *testing.T) {
	kit.Check(t, 30, func(t *rapid.T, c *kit.Case) {
		seed := kit.BytesRange(t, 16, 64, "seed")
		coin, ci := kc.Bitcoin, uint32(0)
		if rapid.Bool().Draw(t, "eth") {
			coin, ci = kc.Ethereum, 1
		}
		m := root(seed, k1).child(1<<31 + 44).child(1<<31 + 88).child(ci)
		g, err := kc.GetCoinRootPublicKey(seed, coin)
		c.Eval(2)
		c.NonTrivial(seed, ci)
		same(t, "coin root public key", g, err, m.neuter())
		idx := drawIndex(t)
		ch := m.child(idx)
		if ch == nil {
			return
		}
		b, err := kc.DerivedPrivateKeyBytes(seed, coin, idx)
		if err != nil || !bytes.Equal(b, ch.key) {
			t.Fatalf("DerivedPrivateKeyBytes(%d) = %x, %v; want %x", idx, b, err, ch.key)
		}
		if idx < 1<<31 {
			p, err := g.DerivedPublicKeyFromSerializes(idx)
			same(t, "wallet address key", p, err, ch.neuter())
		}
	})
}

// Malformed paths, seed lengths and depth overflow are refused.
func TestK02_Refuse(t *testing.T) {
	kit.Check(t, 400, func(t *rapid.T, c *kit.Case) {
		cv := rapid.SampledFrom(allCurves).Draw(t, "curve")
		c.Eval(1)
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 0:
			n := rapid.SampledFrom([]int{0, 1, 8, 15, 65, 66, 100, 128}).Draw(t, "len")
			seed := kit.Bytes(t, n, "seed")
			c.Class("seedlen=%d", n)
			c.NonTrivial(seed, cv)
			if k, err := kc.InitRootKeyFromSeed(seed, cv); err == nil {
				t.Fatalf("seed of %d bytes accepted: %v", n, k)
			}
			if _, err := kc.DerivedPrivateKeyWithPath(seed, "m/0", cv); err == nil {
				t.Fatalf("seed of %d bytes accepted by path derivation", n)
			}
		case 1: // depth limit
			n := drawNode(t)
			n.depth = 255
			idx := drawIndex(t)
			c.Class("depth255 %s", name(n.curve))
			c.NonTrivial(n.encode(), idx)
			if k, err := n.real().GenPrivateChild(idx); err == nil {
				t.Fatalf("child below depth 255: %s", k.OWEncode())
			}
			if k, err := n.real().GenPublicChild(idx); err == nil {
				t.Fatalf("public child below depth 255: %s", k.OWEncode())
			}
			if k, err := n.neuter().real().GenPublicChild(idx & 0x7fffffff); err == nil {
				t.Fatalf("public child of a public key below depth 255: %s", k.OWEncode())
			}
		case 2: // public keys give no private material
			n := drawNode(t).neuter()
			idx := drawIndex(t)
			c.Class("private-from-public")
			c.NonTrivial(n.encode(), idx)
			if k, err := n.real().GenPrivateChild(idx); err == nil {
				t.Fatalf("private child of public key: %s", k.OWEncode())
			}
			if b, err := n.real().GetPrivateKeyBytes(); err == nil {
				t.Fatalf("private bytes of public key: %x", b)
			}
		case 3: // malformed elements
			bad := rapid.SampledFrom([]string{"m/-1", "m/-1'", "m/2147483648", "m/2147483648'", "m/4294967296", "m/4294967295", "m/99999999999999999999", "m/", "m//1", "m/1/", "n/1", "M/1", "1/2", "/1", "m1", "m/1''", "m/'", "m/1'2", "m/a", "m/0x10", "m/1h", "m/m", "m/1/m/2", "m/-2147483648'", "m/1.0", "m/1e3", "m/4294967340'"}).Draw(t, "bad")
			pre := kit.BytesRange(t, 16, 64, "seed")
			c.Class("path %s", bad)
			c.NonTrivial(bad, cv)
			if k, err := kc.DerivedPrivateKeyWithPath(pre, bad, cv); err == nil {
				t.Fatalf("path %q accepted: %s", bad, k.OWEncode())
			}
			relp := strings.TrimPrefix(bad, "m")
			if bad == "/1" || bad == "m1" || bad == "M/1" || bad == "n/1" || bad == "1/2" {
				relp = "1"
			}
			n := root(pre, k1)
			if k, err := n.real().DerivedPublicKeyFromPath(relp); err == nil {
				t.Fatalf("relative path %q accepted: %s", relp, k.OWEncode())
			}
		case 4: // element out of range anywhere in a path
			v := rapid.SampledFrom([]int64{-5, -1, 1 << 31, 1<<31 + 7, 1 << 32, 1<<32 + 1, 1 << 40, -1 << 31}).Draw(t, "v")
			s := strconv.FormatInt(v, 10)
			if rapid.Bool().Draw(t, "h") {
				s += "'"
			}
			path := "m/0/" + s
			if rapid.Bool().Draw(t, "mid") {
				path += "/1"
			}
			c.Class("range")
			c.NonTrivial(path, cv)
			if k, err := kc.DerivedPrivateKeyWithPath(make([]byte, 32), path, k1); err == nil {
				t.Fatalf("path %q accepted: %s", path, k.OWEncode())
			}
		}
	})
}

// ---------------------------------------------------------------- K03

func TestK03_Serialize(t *testing.T) {
	kit.Check(t, 400, func(t *rapid.T, c *kit.Case) {
		n := drawNode(t)
		if rapid.Bool().Draw(t, "pub") {
			n = n.neuter()
		}
		n.depth = byte(rapid.IntRange(0, 255).Draw(t, "depth2"))
		s := n.encode()
		c.Eval(4)
		c.Class("%s priv=%v", name(n.curve), n.priv)
		c.NonTrivial(s)
		c.Sample("%s", s)
		if g := n.real().OWEncode(); g != s {
			t.Fatalf("OWEncode = %s, want %s", g, s)
		}
		d, err := kc.OWDecode(s)
		same(t, "decode", d, err, n)
		b, err := d.GetPrivateKeyBytes()
		if n.priv != (err == nil) || n.priv && !bytes.Equal(b, n.key) {
			t.Fatalf("decoded key: private bytes %x, %v", b, err)
		}
		if g := d.GetPublicKeyBytes(); !bytes.Equal(g, n.pubBytes()) {
			t.Fatalf("decoded key: public bytes %x want %x", g, n.pubBytes())
		}
		// share data for multi-signature wallets
		share, err := kc.GetMultiSigShareData(s)
		if err != nil {
			t.Fatalf("share data of %s: %v", s, err)
		}
		p := n.pubBytes()
		d2 := ref.Cat(kit.UnHex("0861249612ae5c"))
		if len(p) == 32 {
			d2 = append(d2, 0)
		}
		want := ref.B58Enc(ref.Cat(d2, p, n.cc, ref.BE32(n.curve)), ref.B58BTC)
		if share != want {
			t.Fatalf("share data %s want %s", share, want)
		}
		if isBLS(n.curve) {
			return // the owchain format is defined for 32 and 33 byte keys
		}
		ms, err := kc.ChainDecode(share)
		if err != nil || !bytes.Equal(ms.Pubkey, p) || !bytes.Equal(ms.ChainCode, n.cc) || ms.CurveType != n.curve {
			t.Fatalf("ChainDecode(%s) = %+v, %v", share, ms, err)
		}
	})
}

func TestK03_Reject(t *testing.T) {
	kit.Check(t, 2500, func(t *rapid.T, c *kit.Case) {
		n := drawNode(t)
		if n.curve != k1 {
			n.curve, n.key = k1, kit.Scalar(t, ref.NK1, "k2")
		}
		if rapid.Bool().Draw(t, "pub") {
			n = n.neuter()
		}
		s := n.encode()
		var bad string
		kind := rapid.IntRange(0, 4).Draw(t, "kind")
		switch kind {
		case 0: // substitution
			b := []byte(s)
			for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
				b[kit.Pos(t, 0, len(b)-1, "p")] = ref.B58BTC[rapid.IntRange(0, 57).Draw(t, "ch")]
			}
			bad = string(b)
		case 1:
			bad = kit.MutStr(t, s, "mut")
		case 2: // right checksum, truncated or extended payload
			d := n.payload()
			pre := prvPre
			if !n.priv {
				pre = pubPre
			}
			if rapid.Bool().Draw(t, "cut") {
				d = d[:kit.Pos(t, 0, len(d)-1, "at")]
			} else {
				d = append(d, kit.BytesRange(t, 1, 20, "ext")...)
			}
			bad = ref.B58CheckEnc(ref.Cat(kit.UnHex(pre), d), ref.B58BTC, "doubleSHA256")
		case 3: // private key marker broken
			d := n.payload()
			if !n.priv {
				return
			}
			d[45] = byte(rapid.IntRange(1, 255).Draw(t, "mark"))
			bad = ref.B58CheckEnc(ref.Cat(kit.UnHex(prvPre), d), ref.B58BTC, "doubleSHA256")
		case 4:
			bad = kit.Str(t, ref.B58BTC+"0OIl -", 0, 12, "junk")
			bad = rapid.SampledFrom([]string{"", "owpub", "owprv", "ow", "owchain"}).Draw(t, "pre") + bad
		}
		if bad == s {
			return
		}
		c.Eval(3)
		c.Class("kind=%d", kind)
		c.NonTrivial(bad)
		c.Sample("%q", bad)
		var k *kc.ExtendedKey
		var err error
		if p := kit.NoPanic(func() { k, err = kc.OWDecode(bad) }); p != "" {
			t.Fatalf("OWDecode(%q): %s", bad, p)
		}
		if err == nil {
			t.Fatalf("OWDecode accepted %q: %s", bad, k.OWEncode())
		}
		if p := kit.NoPanic(func() { _, err = kc.GetMultiSigShareData(bad) }); p != "" || err == nil {
			t.Fatalf("GetMultiSigShareData(%q): %s %v", bad, p, err)
		}
		var ms *kc.MultiSigShare
		if p := kit.NoPanic(func() { ms, err = kc.ChainDecode(bad) }); p != "" || err == nil {
			t.Fatalf("ChainDecode(%q): %s %v", bad, p, ms)
		}
	})
}

// Base58check helpers used for plain public key addresses.
func TestK03_Base58check(t *testing.T) {
	kit.Check(t, 1500, func(t *rapid.T, c *kit.Case) {
		fix := kit.BytesRange(t, 0, 5, "fix")
		data := kit.BytesRange(t, 0, 100, "data")
		want := ref.B58CheckEnc(ref.Cat(fix, data), ref.B58BTC, "doubleSHA256")
		c.Eval(3)
		c.NonTrivial(fix, data)
		if g := kc.Base58checkEncode(append([]byte{}, data...), append([]byte{}, fix...)); g != want {
			t.Fatalf("Base58checkEncode(%x,%x) = %s want %s", data, fix, g, want)
		}
		back, err := kc.Base58checkDecode(want, fix)
		if err != nil || !bytes.Equal(back, data) {
			t.Fatalf("Base58checkDecode(%s,%x) = %x, %v", want, fix, back, err)
		}
		s := kit.MutStr(t, want, "mut")
		rd, rerr := ref.B58CheckDec(s, ref.B58BTC, "doubleSHA256")
		ok := rerr == nil && bytes.HasPrefix(rd, fix)
		var got []byte
		if p := kit.NoPanic(func() { got, err = kc.Base58checkDecode(s, fix) }); p != "" {
			t.Fatalf("Base58checkDecode(%q,%x): %s", s, fix, p)
		}
		if ok != (err == nil) {
			t.Fatalf("Base58checkDecode(%q,%x) = %x, %v; reference valid=%v", s, fix, got, err, ok)
		}
		c.Class("valid=%v", ok)
	})
}
