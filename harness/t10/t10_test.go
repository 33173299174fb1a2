package t10

import (
	"fmt"
	"math/big"
	"testing"

	moac "github.com/blocktree/go-owcdrivers/moacchainTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

type rq struct {
	to               string
	nonce            uint64
	amount, gas, bid *big.Int
	test             bool
}

// str is a string item of RLP (at most 55 bytes), num a number.
func str(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return b
	}
	return ref.Cat([]byte{0x80 + byte(len(b))}, b)
}
func num(n *big.Int) []byte { return str(n.Bytes()) }
func u(n uint64) []byte     { return num(new(big.Int).SetUint64(n)) }

func list(items ...[]byte) []byte {
	b := ref.Cat(items...)
	switch {
	case len(b) < 56:
		return ref.Cat([]byte{0xc0 + byte(len(b))}, b)
	case len(b) < 256:
		return ref.Cat([]byte{0xf8, byte(len(b))}, b)
	}
	return ref.Cat([]byte{0xf9, byte(len(b) >> 8), byte(len(b))}, b)
}

func (q *rq) chain() uint64 {
	if q.test {
		return 101
	}
	return 99
}

func (q *rq) build(v uint64, r, s *big.Int) []byte {
	z := u(0)
	return list(u(q.nonce), z, num(q.bid), num(q.gas), str(kit.UnHex(q.to[2:])), num(q.amount), z, z, z, u(v), num(r), num(s))
}
func (q *rq) blank() []byte { return q.build(q.chain(), new(big.Int), new(big.Int)) }
func (q *rq) signed(sig []byte) string {
	return "0x" + kit.Hex(q.build(q.chain()*2+35+uint64(sig[64]), new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])))
}

func small(n *big.Int) bool { return n.Sign() >= 0 && n.BitLen() <= 256 }
func (q *rq) valid() bool {
	return len(q.to) == 42 && q.to[:2] == "0x" && gen.IsHex(q.to[2:]) && small(q.amount) && small(q.gas) && small(q.bid)
}

func big256(t *rapid.T, l string) *big.Int {
	switch rapid.IntRange(0, 2).Draw(t, l+".mode") {
	case 0:
		return new(big.Int).SetUint64(uint64(rapid.IntRange(0, 300).Draw(t, l)))
	case 1:
		return new(big.Int).SetUint64(kit.U64(t, l))
	}
	return new(big.Int).SetBytes(kit.BytesRange(t, 0, 32, l))
}

func draw(t *rapid.T) *rq {
	q := &rq{to: "0x" + kit.Hex(kit.Bytes(t, 20, "to")), nonce: kit.U64(t, "nonce"), test: rapid.Bool().Draw(t, "testnet")}
	if rapid.Bool().Draw(t, "small nonce") {
		q.nonce = uint64(rapid.IntRange(0, 300).Draw(t, "nonce2"))
	}
	q.amount, q.gas, q.bid = big256(t, "amount"), big256(t, "gas"), big256(t, "price")
	return q
}

func (q *rq) create() (string, string, error) {
	return moac.CreateEmptyRawTransactionAndHash(q.to, q.nonce, q.amount, q.gas, q.bid, q.test)
}

func request(t *rapid.T, q *rq) (string, []byte) {
	tx, h, err := q.create()
	if err != nil {
		t.Fatalf("%+v refused: %v", *q, err)
	}
	w := q.blank()
	if tx != kit.Hex(w) {
		t.Fatalf("%+v: transaction differs\n got %s\nwant %x", *q, tx, w)
	}
	d := ref.Keccak(w)
	if h != kit.Hex(d) {
		t.Fatalf("digest of %s is %s, want %x", tx, h, d)
	}
	return tx, d
}

func TestT10_Create(t *testing.T) {
	kit.Check(t, 10000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, _ := request(t, q)
		c.Eval(2)
		c.Class("create testnet=%v long=%v", q.test, len(tx) > 112)
		c.NonTrivial(tx)
		c.Sample("%s", tx)
	})
}

func TestT10_Refuse(t *testing.T) {
	kit.Check(t, 8000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		mode := rapid.IntRange(0, 3).Draw(t, "mode")
		switch mode {
		case 0:
			q.to = kit.MutStr(t, q.to, "mut")
		case 1:
			q.to = rapid.SampledFrom([]string{"0x", "0X", "", "x0", "1x"}).Draw(t, "pre") + kit.Hex(kit.BytesRange(t, 0, 40, "h"))
		case 2, 3:
			n := new(big.Int).SetBytes(kit.BytesRange(t, 30, 70, "n"))
			if rapid.Bool().Draw(t, "neg") {
				n = new(big.Int).Neg(big256(t, "n"))
			}
			*[]**big.Int{&q.amount, &q.gas, &q.bid}[rapid.IntRange(0, 2).Draw(t, "which")] = n
		}
		if q.valid() {
			request(t, q)
		} else {
			var tx string
			var err error
			if m := kit.NoPanic(func() { tx, _, err = q.create() }); m != "" {
				t.Fatalf("%+v: %s", *q, m)
			}
			if err == nil {
				t.Fatalf("%+v cannot be met but gives %s", *q, tx)
			}
			c.NonTrivial(fmt.Sprintf("%+v", *q))
		}
		c.Eval(1)
		c.Class("refuse mode %d valid=%v", mode, q.valid())
	})
}

// external signs with a chosen nonce.
func external(t *rapid.T, key, d []byte) []byte {
	k := kit.Scalar(t, ref.NK1, "nonce")
	if rapid.Bool().Draw(t, "short") {
		k = ref.HalfNonce
	}
	s := ref.SignWith(ref.K1, key, k, d)
	if s == nil {
		t.Skip("no signature")
	}
	if kit.Rare(t, 15, "shorts") {
		s = ref.ShortS(ref.K1, key, d)
	}
	s = ref.LowS(ref.K1, s)
	return append(s, recid(t, key, d, s))
}

func recid(t *rapid.T, key, d, sig []byte) byte {
	p := ref.Pub64(ref.K1, key)
	for v := byte(0); v < 2; v++ {
		if string(ref.RecoverK1(sig, v, d)) == string(p) {
			return v
		}
	}
	t.Skip("signature without recovery bit")
	return 0
}

func signature(t *rapid.T, key, d []byte) []byte {
	if rapid.Bool().Draw(t, "own signer") {
		kit.SeedRand(rapid.Uint64().Draw(t, "ent"))
		s, err := moac.SignRawTransaction(kit.Hex(d), key)
		if err != nil || len(s) != 65 {
			t.Fatalf("signing %x with %x gives %x, %v", d, key, s, err)
		}
		gen.CheckSig(t, ref.K1, key, d, s[:64], "moac")
		if w := recid(t, key, d, s[:64]); s[64] != w {
			t.Fatalf("signing %x with %x gives %x, whose recovery bit is %d", d, key, s, w)
		}
		return append([]byte{}, s...)
	}
	return external(t, key, d)
}

func TestT10_Combine(t *testing.T) {
	kit.Check(t, 500, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, d := request(t, q)
		key := gen.KeyK1(t, "key")
		sig := signature(t, key, d)
		pub := kit.Hex(ref.PubK1(key))
		pass, out := moac.VerifyAndCombineRawTransaction(tx, kit.Hex(sig), pub, q.test)
		if !pass || out != q.signed(sig) {
			t.Fatalf("%s with %x under %s gives %v\n got %s\nwant %s", tx, sig, pub, pass, out, q.signed(sig))
		}
		c.Eval(1)
		c.Class("combine long=%v", len(tx) > 112)
		c.NonTrivial(out)
		c.Sample("%s", out)
	})
}

func TestT10_Tamper(t *testing.T) {
	kit.Check(t, 500, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, d := request(t, q)
		key := gen.KeyK1(t, "key")
		sig := signature(t, key, d)
		pub := ref.PubK1(key)
		test := q.test
		var stxt, ptxt string
		kit.Before(t, func() { moac.VerifyAndCombineRawTransaction(tx, kit.Hex(sig), kit.Hex(pub), test) })
		mode := rapid.IntRange(0, 8).Draw(t, "mode")
		switch mode {
		case 8: // text that is not hexadecimal
			switch rapid.IntRange(0, 2).Draw(t, "what") {
			case 0:
				tx = gen.Junk(t, tx)
			case 1:
				stxt = gen.Junk(t, kit.Hex(sig))
			case 2:
				ptxt = gen.Junk(t, kit.Hex(pub))
			}
		case 0:
			tx = kit.Hex(gen.Flip(t, kit.UnHex(tx), 0, "tx"))
		case 1:
			sig = gen.Flip(t, sig, 0, "sigflip")
		case 2:
			pub = ref.PubK1(gen.OtherScalar(t, ref.NK1, key, "other"))
		case 3:
			o := draw(t)
			if string(o.blank()) == string(q.blank()) {
				t.Skip("same")
			}
			tx, test = kit.Hex(o.blank()), o.test
		case 4:
			sig = kit.BytesRange(t, 0, 70, "len")
		case 5:
			pub = kit.BytesRange(t, 0, 66, "publen")
		case 6:
			test = !test
		case 7:
			sig = ref.Cat(kit.Bytes(t, 32, "r"), kit.Bytes(t, 32, "s"), []byte{byte(rapid.IntRange(0, 3).Draw(t, "v"))})
			if sig[64] < 2 && string(ref.RecoverK1(sig[:64], sig[64], d)) == string(ref.Pub64(ref.K1, key)) {
				t.Skip("valid")
			}
		}
		if stxt == "" {
			stxt = kit.Hex(sig)
		}
		if ptxt == "" {
			ptxt = kit.Hex(pub)
		}
		var pass bool
		var out string
		if m := kit.NoPanic(func() { pass, out = moac.VerifyAndCombineRawTransaction(tx, stxt, ptxt, test) }); m != "" {
			t.Fatalf("%s %x %x: %s", tx, sig, pub, m)
		}
		if pass || out != "" {
			t.Fatalf("mode %d: %s with %x under %x gives %v %s", mode, tx, sig, pub, pass, out)
		}
		c.Eval(1)
		c.Class("tamper mode %d", mode)
		c.NonTrivial(tx, sig, pub, test)
	})
}

func TestT10_Robust(t *testing.T) {
	kit.Check(t, 400, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		raw := kit.MutBytes(t, q.blank(), "tx")
		if string(raw) == string(q.blank()) {
			t.Skip("unchanged")
		}
		key := []byte{31: 7}
		d := ref.Keccak(raw)
		// validly signed, so that only the transaction's own form can be refused
		sig := external(t, key, d)
		var pass bool
		var out string
		if m := kit.NoPanic(func() {
			pass, out = moac.VerifyAndCombineRawTransaction(kit.Hex(raw), kit.Hex(sig), kit.Hex(ref.PubK1(key)), q.test)
		}); m != "" {
			t.Fatalf("%x %x: %s", raw, sig, m)
		}
		it, ok := items(raw)
		if ok = ok && len(it) == 12 && string(it[9]) == string([]byte{byte(q.chain())}) && len(it[10])+len(it[11]) == 0; pass != ok && pass {
			t.Fatalf("%x is no transaction of this network but combines to %s", raw, out)
		}
		if pass {
			for i := range it {
				it[i] = str(it[i])
			}
			it[9], it[10], it[11] = u(q.chain()*2+35+uint64(sig[64])), num(new(big.Int).SetBytes(sig[:32])), num(new(big.Int).SetBytes(sig[32:64]))
			if w := "0x" + kit.Hex(list(it...)); w != out {
				t.Fatalf("%x combines to %s, want %s", raw, out, w)
			}
		}
		s, pub := kit.MutStr(t, kit.Hex(sig), "sigmut"), kit.MutStr(t, kit.Hex(ref.PubK1(key)), "pubmut")
		h, k := kit.MutStr(t, kit.Hex(d), "hash"), kit.BytesRange(t, 0, 40, "key")
		if m := kit.NoPanic(func() {
			moac.VerifyAndCombineRawTransaction(kit.Hex(raw), s, pub, q.test)
			moac.SignRawTransaction(h, k)
			moac.SignRawTransaction(kit.Hex(d), k)
		}); m != "" {
			t.Fatalf("%x %s %s, %s %x: %s", raw, s, pub, h, k, m)
		}
		c.Eval(4)
		c.Class("robust form=%v", ok)
		c.NonTrivial(raw, s, pub, h, k)
	})
}

// items reads a canonical RLP list of short strings.
func items(b []byte) (o [][]byte, ok bool) {
	switch {
	case len(b) == 0:
		return nil, false
	case b[0] >= 0xc0 && b[0] <= 0xf7 && int(b[0]) == 0xc0+len(b)-1:
		b = b[1:]
	case b[0] == 0xf8 && len(b) > 2 && int(b[1]) == len(b)-2 && b[1] >= 56:
		b = b[2:]
	default:
		return nil, false
	}
	for len(b) > 0 {
		if b[0] < 0x80 {
			o, b = append(o, b[:1]), b[1:]
			continue
		}
		n := int(b[0]) - 0x80
		if n > 55 || len(b) < n+1 || (n == 1 && b[1] < 0x80) {
			return nil, false
		}
		o, b = append(o, b[1:n+1]), b[n+1:]
	}
	return o, true
}
