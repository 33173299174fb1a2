package t14

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"testing"

	ont "github.com/blocktree/go-owcdrivers/ontologyTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

type rq struct {
	v2              bool
	asset           int
	payer, from, to string
	amount          *big.Int
	price, limit    uint64
}

func addr(h []byte) string { return gen.Addr58([]byte{0x17}, h) }

// hashOf is the hash an address stands for, or nil.
func hashOf(a string) []byte {
	b, err := ref.B58CheckDec(a, gen.B58, "doubleSHA256")
	if err != nil || len(b) != 21 || b[0] != 0x17 {
		return nil
	}
	return b[1:]
}

// push is the smallest instruction that puts n >= 0 on the stack.
func push(n *big.Int) []byte {
	if n.Sign() == 0 {
		return []byte{0}
	}
	if n.BitLen() <= 4 {
		return []byte{0x50 + byte(n.Int64())}
	}
	b := ref.Rev(n.Bytes())
	if b[len(b)-1] >= 0x80 {
		b = append(b, 0)
	}
	return ref.Cat([]byte{byte(len(b))}, b)
}

func str(b []byte) []byte { return ref.Cat([]byte{byte(len(b))}, b) }
func contract(n byte) []byte {
	b := make([]byte, 20)
	b[19] = n
	return b
}

func (q *rq) payload() []byte {
	b := ref.Cat([]byte{0, 0xc6, 0x6b, 0x6a}, str(hashOf(q.from)), []byte{0xc8, 0x6a})
	method, pack, at := "transfer", []byte{0x51, 0xc1}, byte(2)
	if q.v2 {
		method = "transferV2"
	}
	switch q.asset {
	case ont.AssetONT:
		at = 1
	case ont.AssetONGWithdraw:
		method, pack = "transferFrom", nil
		b = ref.Cat(b, str(contract(1)), []byte{0xc8, 0x6a})
	}
	return ref.Cat(b, str(hashOf(q.to)), []byte{0xc8, 0x6a}, push(q.amount), []byte{0xc8, 0x6c}, pack, str([]byte(method)), str(contract(at)), []byte{0, 0x68}, str([]byte("Ontology.Native.Invoke")))
}

func (q *rq) pays() string {
	if q.payer == "" {
		return q.from
	}
	return q.payer
}

func (q *rq) build(nonce uint32) []byte {
	return ref.Cat([]byte{0, 0xd1}, ref.LE32(nonce), ref.LE64(q.price), ref.LE64(q.limit), hashOf(q.pays()), str(q.payload()), []byte{0, 0})
}

func digest(raw []byte) []byte { return ref.Sha256(ref.DSha256(raw[:len(raw)-1])) }

func (q *rq) valid() bool {
	return hashOf(q.pays()) != nil && hashOf(q.from) != nil && hashOf(q.to) != nil && q.asset >= 0 && q.asset <= 2 && q.amount != nil && q.amount.Sign() >= 0 && q.amount.BitLen() <= 255
}

func draw(t *rapid.T) *rq {
	q := &rq{v2: rapid.Bool().Draw(t, "v2"), asset: rapid.IntRange(0, 2).Draw(t, "asset"), from: addr(kit.Bytes(t, 20, "from")), to: addr(kit.Bytes(t, 20, "to")), price: kit.U64(t, "price"), limit: kit.U64(t, "limit")}
	switch rapid.IntRange(0, 2).Draw(t, "payer") {
	case 1:
		q.payer = q.from
	case 2:
		q.payer = addr(kit.Bytes(t, 20, "payer2"))
	}
	switch rapid.IntRange(0, 3).Draw(t, "amount") {
	case 0:
		q.amount = big.NewInt(int64(rapid.IntRange(0, 300).Draw(t, "a")))
	case 1:
		q.amount = new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, 63).Draw(t, "bit")))
		q.amount.Sub(q.amount, big.NewInt(int64(rapid.IntRange(0, 1).Draw(t, "off"))))
	case 2:
		q.amount = new(big.Int).SetUint64(kit.U64(t, "a"))
	case 3:
		q.amount = new(big.Int).SetUint64(kit.U64(t, "a"))
		if q.v2 {
			q.amount.SetBytes(kit.BytesRange(t, 0, 31, "big"))
			if rapid.Bool().Draw(t, "top") {
				q.amount.SetBit(q.amount, 254, 1)
			}
		}
	}
	return q
}

func (q *rq) create() (string, *ont.TxHash, error) {
	if q.v2 {
		return ont.CreateRawTransactionAndHashV2(q.price, q.limit, ont.TxStateV2{AssetType: q.asset, Payer: q.payer, From: q.from, To: q.to, Amount: q.amount})
	}
	return ont.CreateRawTransactionAndHash(q.price, q.limit, ont.TxState{AssetType: q.asset, Payer: q.payer, From: q.from, To: q.to, Amount: q.amount.Uint64()})
}

func request(t *rapid.T, q *rq) (string, []byte) {
	kit.SeedRand(rapid.Uint64().Draw(t, "entropy"))
	var before *big.Int
	if q.amount != nil {
		before = new(big.Int).Set(q.amount)
	}
	tx, h, err := q.create()
	if err != nil {
		t.Fatalf("%+v refused: %v", *q, err)
	}
	if before.Cmp(q.amount) != 0 {
		t.Fatalf("the caller's amount %v was changed to %v", before, q.amount)
	}
	raw := kit.UnHex(tx)
	if len(raw) < 6 {
		t.Fatalf("%+v gives %s", *q, tx)
	}
	if w := q.build(binary.LittleEndian.Uint32(raw[2:])); string(raw) != string(w) {
		t.Fatalf("%+v: transaction differs\n got %s\nwant %x", *q, tx, w)
	}
	d := digest(raw)
	if h.Hash != kit.Hex(d) || h.GetTxHashHex() != h.Hash {
		t.Fatalf("digest of %s is %s, want %x", tx, h.Hash, d)
	}
	want := []string{q.pays()}
	if q.pays() != q.from {
		want = append(want, q.from)
	}
	if fmt.Sprint(h.Addresses) != fmt.Sprint(want) {
		t.Fatalf("%+v is to be signed by %v, want %v", *q, h.Addresses, want)
	}
	return tx, d
}

func TestT14_Create(t *testing.T) {
	kit.Check(t, 6000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, _ := request(t, q)
		c.Eval(4)
		c.Class("create v2=%v asset=%d payer=%v", q.v2, q.asset, q.payer != "")
		c.NonTrivial(tx[12:])
		c.Sample("%s", tx)
		// every transaction has its own nonce
		seen := map[string]bool{tx[4:12]: true}
		for i := 0; i < 3; i++ {
			o, _, _ := q.create()
			seen[o[4:12]] = true
		}
		if len(seen) < 2 {
			t.Fatalf("four transactions in a row have the same nonce: %s", tx)
		}
	})
}

func TestT14_Refuse(t *testing.T) {
	kit.Check(t, 8000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		mode := rapid.IntRange(0, 4).Draw(t, "mode")
		switch mode {
		case 0, 1:
			p := []*string{&q.payer, &q.from, &q.to}[rapid.IntRange(0, 2).Draw(t, "which")]
			if mode == 0 {
				if *p == "" {
					*p = addr(kit.Bytes(t, 20, "h"))
				}
				*p = kit.MutAddr(t, *p, "mut")
			} else {
				*p = gen.Addr58(rapid.SampledFrom([][]byte{{}, {0x17}, {0x16}, {0}, {0x17, 0x17}}).Draw(t, "ver"), kit.BytesRange(t, 0, 30, "h"))
			}
		case 2:
			q.asset = rapid.SampledFrom([]int{-1, 3, 4, 255, 256, 1 << 40}).Draw(t, "badasset")
		case 3:
			q.v2 = true
			q.amount = rapid.SampledFrom([]*big.Int{nil, big.NewInt(-1), big.NewInt(-5), new(big.Int).Lsh(big.NewInt(1), 255), new(big.Int).Lsh(big.NewInt(3), 254), new(big.Int).Lsh(big.NewInt(1), 600), new(big.Int).Neg(new(big.Int).SetUint64(kit.U64Range(t, 1, 1<<64-1, "neg")))}).Draw(t, "badamount")
		case 4:
			if rapid.Bool().Draw(t, "which") {
				q.from = ""
			} else {
				q.to = ""
			}
		}
		if q.valid() {
			request(t, q)
		} else {
			var tx string
			var err error
			if m := kit.NoPanic(func() { tx, _, err = q.create() }); m != "" {
				t.Fatalf("%+v: %s", *q, m)
			}
			if err == nil {
				t.Fatalf("%+v cannot be met but gives %s", *q, tx)
			}
			c.NonTrivial(fmt.Sprintf("%+v", *q))
		}
		c.Eval(1)
		c.Class("refuse mode %d valid=%v", mode, q.valid())
	})
}

func sign(t *rapid.T, key, d []byte, real bool) (ont.SigPub, bool) {
	sig, ok := gen.ECDSA(t, ref.R1, key, d, func() ([]byte, error) {
		s, err := ont.SignRawTransactionHash(kit.Hex(d), key)
		if err != nil {
			return nil, err
		}
		if string(s.PublicKey) != string(ref.PubR1(key)) {
			t.Fatalf("the public key of %x is given as %x", key, s.PublicKey)
		}
		return s.Signature, nil
	}, real, "ontology", "sig")
	return ont.SigPub{Signature: sig, PublicKey: ref.PubR1(key)}, ok
}

func signed(tx string, sp []ont.SigPub) string {
	b := ref.Cat(kit.UnHex(tx[:len(tx)-2]), []byte{byte(len(sp))})
	for _, s := range sp {
		b = ref.Cat(b, str(str(s.Signature)), str(ref.Cat(str(s.PublicKey), []byte{0xac})))
	}
	return kit.Hex(b)
}

func sigs(t *rapid.T, d []byte) (sp []ont.SigPub, keys [][]byte) {
	n := rapid.IntRange(1, 3).Draw(t, "sigs")
	if kit.OneIn(t, 40, "many") {
		n = 16
	}
	for i := 0; i < n; i++ {
		key := gen.KeyR1(t, "key")
		s, _ := sign(t, key, d, true)
		sp, keys = append(sp, s), append(keys, key)
	}
	return
}

func TestT14_Combine(t *testing.T) {
	kit.Check(t, 400, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, d := request(t, q)
		sp, _ := sigs(t, d)
		pass, out, err := ont.VerifyAndCombineRawTransaction(tx, sp)
		w := signed(tx, sp)
		if !pass || err != nil || out != w {
			t.Fatalf("%s with %x gives %v, %v\n got %s\nwant %s", tx, sp, pass, err, out, w)
		}
		// reading a transaction gives what was put in, signed or not
		for _, s := range []string{tx, out} {
			r, err := ont.DecodeRawTransaction(kit.UnHex(s))
			if err != nil {
				t.Fatalf("%s cannot be read: %v", s, err)
			}
			b, err := r.ToBytes()
			if err != nil || kit.Hex(b) != s || r.GetPayer() != q.pays() || r.GetGasLimit() != q.limit || r.GetGasPrice() != q.price || r.GetPayLoad() != kit.Hex(q.payload()) || r.GetNonce() != binary.LittleEndian.Uint32(kit.UnHex(s)[2:]) || r.GetTxType() != 0xd1 || r.GetVersion() != 0 {
				t.Fatalf("%s is read as %+v, written back as %x, %v", s, *r, b, err)
			}
		}
		c.Eval(3)
		c.Class("combine %d", len(sp))
		c.NonTrivial(out)
		c.Sample("%s", out)
	})
}

func TestT14_Tamper(t *testing.T) {
	kit.Check(t, 500, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, d := request(t, q)
		sp, keys := sigs(t, d)
		i := kit.Pos(t, 0, len(sp)-1, "which")
		kit.Before(t, func() { ont.VerifyAndCombineRawTransaction(tx, sp) })
		mode := rapid.IntRange(0, 9).Draw(t, "mode")
		switch mode {
		case 9: // text that is not hexadecimal
			tx = gen.Junk(t, tx)
		case 0:
			tx = kit.Hex(gen.Flip(t, kit.UnHex(tx), 0, "tx"))
		case 1:
			sp[i].Signature = gen.Flip(t, sp[i].Signature, 0, "sigflip")
		case 2:
			sp[i].PublicKey = ref.PubR1(gen.OtherScalar(t, ref.NR1, keys[i], "other"))
		case 3:
			if sp[i].PublicKey = kit.BytesRange(t, 0, 66, "publen"); string(sp[i].PublicKey) == string(ref.PubR1(keys[i])) {
				t.Skip("same")
			}
		case 4:
			sp[i].Signature = kit.BytesRange(t, 0, 70, "siglen")
			if len(sp[i].Signature) == 64 && ref.VerifyECDSA(ref.R1, ref.Pub64(ref.R1, keys[i]), d, sp[i].Signature) {
				t.Skip("valid")
			}
		case 5:
			sp = gen.None(t, sp)
		case 6:
			// already signed
			tx = signed(tx, sp)
			if s, ok := sign(t, keys[0], digest(kit.UnHex(tx)), true); ok && rapid.Bool().Draw(t, "again") {
				sp = []ont.SigPub{s}
			}
		case 7:
			b := kit.MutBytes(t, kit.UnHex(tx), "mut")
			if kit.Hex(b) == tx {
				t.Skip("same")
			}
			tx = kit.Hex(b)
		case 8:
			// an x that is not on the curve
			sp[i].PublicKey = ref.Cat([]byte{byte(rapid.IntRange(0, 8).Draw(t, "pre"))}, kit.Bytes(t, 32, "x"))
			if string(sp[i].PublicKey) == string(ref.PubR1(keys[i])) {
				t.Skip("same")
			}
		}
		var pass bool
		var out string
		var err error
		if m := kit.NoPanic(func() { pass, out, err = ont.VerifyAndCombineRawTransaction(tx, sp) }); m != "" {
			t.Fatalf("%s %x: %s", tx, sp, m)
		}
		if pass || out != "" || err == nil {
			t.Fatalf("mode %d: %s with %x gives %v %s %v", mode, tx, sp, pass, out, err)
		}
		c.Eval(1)
		c.Class("tamper mode %d", mode)
		c.NonTrivial(tx, fmt.Sprint(sp))
	})
}

func TestT14_Robust(t *testing.T) {
	kit.Check(t, 150, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, _ := request(t, q)
		raw := kit.MutBytes(t, kit.UnHex(tx), "mut")
		if len(raw) == 0 {
			t.Skip("empty")
		}
		key := []byte{31: 7}
		// validly signed, so that only the transaction's own form can be refused
		d := digest(raw)
		sp := []ont.SigPub{{Signature: ref.LowS(ref.R1, ref.SignWith(ref.R1, key, []byte{31: 9}, d)), PublicKey: ref.PubR1(key)}}
		var pass bool
		var out string
		if m := kit.NoPanic(func() { pass, out, _ = ont.VerifyAndCombineRawTransaction(kit.Hex(raw), sp) }); m != "" {
			t.Fatalf("%x %x: %s", raw, sp, m)
		}
		if w := well(raw); pass != w || pass && out != signed(kit.Hex(raw), sp) || !pass && out != "" {
			t.Fatalf("%x (well-formed %v) with %x gives %v %s", raw, w, sp, pass, out)
		}
		c.Eval(1)
		c.Class("robust well=%v", well(raw))
		c.NonTrivial(raw)
	})
	kit.Check(t, 4000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx := kit.Hex(q.build(kit.U32(t, "nonce")))
		sp := make([]ont.SigPub, rapid.IntRange(0, 4).Draw(t, "n"))
		for i := range sp {
			sp[i] = ont.SigPub{Signature: kit.Bytes(t, 64, "s"), PublicKey: ref.PubR1([]byte{31: 3})}
		}
		raw := kit.MutBytes(t, kit.UnHex(signed(tx, sp)), "mut")
		h, k := kit.MutStr(t, kit.Hex(kit.Bytes(t, 32, "d")), "hash"), kit.BytesRange(t, 0, 40, "key")
		if len(k) == 32 {
			k = k[1:]
		}
		bad := []ont.SigPub{{Signature: kit.BytesRange(t, 0, 66, "bs"), PublicKey: kit.BytesRange(t, 0, 32, "bp")}}
		if m := kit.NoPanic(func() {
			if r, err := ont.DecodeRawTransaction(raw); err == nil {
				b, err := r.ToBytes()
				if err != nil || string(b) != string(raw) {
					panic(fmt.Sprintf("%x is read, but written back as %x, %v", raw, b, err))
				}
			}
			ont.DecodeRawTransaction(nil)
			ont.SignRawTransactionHash(h, k)
			ont.VerifyAndCombineRawTransaction(kit.Hex(raw), bad)
			ont.VerifyAndCombineRawTransaction(tx, bad)
			ont.VerifyAndCombineRawTransaction(h, bad)
		}); m != "" {
			t.Fatalf("%x, %s %x %x: %s", raw, h, k, bad, m)
		}
		c.Eval(5)
		c.Class("robust %d", len(sp))
		c.NonTrivial(raw, h, k)
	})
}

// well says whether raw is an unsigned invocation with a payload of less than 253 bytes.
func well(raw []byte) bool {
	return len(raw) > 44 && raw[0] == 0 && raw[1] == 0xd1 && raw[42] > 0 && raw[42] < 253 && len(raw) == 45+int(raw[42]) && raw[len(raw)-1] == 0 && raw[len(raw)-2] == 0
}
