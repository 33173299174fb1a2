package t11

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	dot "github.com/blocktree/go-owcdrivers/polkadotTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

// compact is SCALE's compact form of n.
func compact(n uint64) []byte {
	switch {
	case n < 1<<6:
		return []byte{byte(n << 2)}
	case n < 1<<14:
		return ref.LE16(uint16(n<<2 | 1))
	case n < 1<<30:
		return ref.LE32(uint32(n<<2 | 2))
	}
	b := ref.Rev(new(big.Int).SetUint64(n).Bytes())
	for len(b) < 4 {
		b = append(b, 0)
	}
	return ref.Cat([]byte{byte(len(b)-4)<<2 | 3}, b)
}

// era is the mortal era of 64 blocks that height lies in.
func era(height uint64) []byte { return ref.LE16(uint16(height%64)<<4 | 5) }

type rq struct {
	code string
	tx   dot.TxStruct
}

func (q *rq) call() []byte {
	return ref.Cat(kit.UnHex(q.code), kit.UnHex(q.tx.RecipientPubkey), compact(q.tx.Amount))
}
func (q *rq) extra() []byte {
	return ref.Cat(era(q.tx.BlockHeight), compact(q.tx.Nonce), compact(q.tx.Fee))
}
func (q *rq) message() []byte {
	return ref.Cat(q.call(), q.extra(), ref.LE32(q.tx.SpecVersion), ref.LE32(q.tx.TxVersion), kit.UnHex(q.tx.GenesisHash), kit.UnHex(q.tx.BlockHash))
}
func (q *rq) signed(sig []byte) string {
	b := ref.Cat([]byte{0x84, 0}, kit.UnHex(q.tx.SenderPubkey), []byte{0}, sig, q.extra(), q.call())
	return "0x" + kit.Hex(compact(uint64(len(b)))) + kit.Hex(b)
}

func hex32(s string) bool { return len(s) == 64 && gen.IsHex(s) }
func (q *rq) valid() bool {
	return q.tx.Amount > 0 && q.tx.BlockHeight > 0 && hex32(q.tx.SenderPubkey) && hex32(q.tx.RecipientPubkey) && hex32(q.tx.BlockHash) && hex32(q.tx.GenesisHash) && q.code != "" && gen.IsHex(q.code)
}

// u64 draws numbers of every compact size and around their limits.
func u64(t *rapid.T, lo uint64, l string) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, l+".mode") {
	case 0:
		if n := uint64(rapid.IntRange(0, 300).Draw(t, l)); n >= lo {
			return n
		}
		return lo
	case 1:
		n := uint64(1)<<uint(rapid.IntRange(0, 63).Draw(t, l+".bit")) + uint64(rapid.IntRange(-2, 2).Draw(t, l+".off"))
		if n >= lo {
			return n
		}
		return lo
	}
	return kit.U64Range(t, lo, 1<<64-1, l)
}

func draw(t *rapid.T, key []byte) *rq {
	q := &rq{code: rapid.SampledFrom([]string{dot.KSM_Balannce_Transfer, dot.DOT_Balannce_Transfer}).Draw(t, "code")}
	if kit.OneIn(t, 6, "other code") {
		q.code = kit.Hex(kit.BytesRange(t, 1, 5, "code2"))
	}
	q.tx = dot.TxStruct{RecipientPubkey: kit.Hex(kit.Bytes(t, 32, "to")),
		Amount: u64(t, 1, "amount"), Nonce: u64(t, 0, "nonce"), Fee: u64(t, 0, "fee"), BlockHeight: u64(t, 1, "height"), BlockHash: kit.Hex(kit.Bytes(t, 32, "block")),
		GenesisHash: kit.Hex(kit.Bytes(t, 32, "genesis")), SpecVersion: kit.U32(t, "spec"), TxVersion: kit.U32(t, "txv")}
	if key != nil {
		q.tx.SenderPubkey = kit.Hex(ref.PubEd(key))
	} else {
		q.tx.SenderPubkey = kit.Hex(kit.Bytes(t, 32, "from"))
	}
	return q
}

func request(t *rapid.T, q *rq) (string, []byte) {
	tx, m, err := q.tx.CreateEmptyTransactionAndMessage(q.code)
	if err != nil {
		t.Fatalf("%+v refused: %v", *q, err)
	}
	w := q.message()
	if m != kit.Hex(w) {
		t.Fatalf("%+v: message differs\n got %s\nwant %x", *q, m, w)
	}
	var back dot.TxStruct
	if err := json.Unmarshal([]byte(tx), &back); err != nil || back != q.tx {
		t.Fatalf("%+v: the empty transaction %s says something else", *q, tx)
	}
	return tx, w
}

func TestT11_Numbers(t *testing.T) {
	kit.Check(t, 150000, func(t *rapid.T, c *kit.Case) {
		n := u64(t, 0, "n")
		var got string
		if m := kit.NoPanic(func() { got = dot.Encode(n) }); m != "" {
			t.Fatalf("encoding %d: %s", n, m)
		}
		if got != kit.Hex(compact(n)) {
			t.Fatalf("the compact form of %d is %s, want %x", n, got, compact(n))
		}
		if e := dot.GetEra(n); string(e) != string(era(n)) {
			t.Fatalf("the era of %d is %x, want %x", n, e, era(n))
		}
		c.Eval(2)
		c.Class("compact of %d bytes", len(got)/2)
		c.NonTrivial(n)
	})
}

func TestT11_Create(t *testing.T) {
	kit.Check(t, 20000, func(t *rapid.T, c *kit.Case) {
		q := draw(t, nil)
		_, m := request(t, q)
		c.Eval(2)
		c.Class("create %d call bytes", len(kit.UnHex(q.code)))
		c.NonTrivial(m)
		c.Sample("%x", m)
	})
}

func TestT11_Refuse(t *testing.T) {
	kit.Check(t, 15000, func(t *rapid.T, c *kit.Case) {
		q := draw(t, nil)
		mode := rapid.IntRange(0, 4).Draw(t, "mode")
		switch mode {
		case 0:
			p := []*string{&q.tx.SenderPubkey, &q.tx.RecipientPubkey, &q.tx.BlockHash, &q.tx.GenesisHash}[rapid.IntRange(0, 3).Draw(t, "which")]
			if rapid.Bool().Draw(t, "len") {
				*p = kit.Hex(kit.BytesRange(t, 0, 40, "bytes"))
			} else {
				*p = kit.MutStr(t, *p, "mut")
			}
		case 1:
			q.tx.Amount = 0
		case 2:
			q.tx.BlockHeight = 0
		case 3:
			q.code = kit.MutStr(t, q.code, "code")
		case 4:
			q.code = ""
		}
		if q.valid() {
			request(t, q)
		} else {
			var m string
			var err error
			if p := kit.NoPanic(func() { _, m, err = q.tx.CreateEmptyTransactionAndMessage(q.code) }); p != "" {
				t.Fatalf("%+v: %s", *q, p)
			}
			if err == nil {
				t.Fatalf("%+v cannot be met but gives %s", *q, m)
			}
			c.NonTrivial(fmt.Sprintf("%+v", *q))
		}
		c.Eval(1)
		c.Class("refuse mode %d valid=%v", mode, q.valid())
	})
}

func sign(t *rapid.T, key, msg []byte) []byte {
	sig, _ := gen.Ed(t, key, msg, func() ([]byte, error) { return dot.SignTransaction(kit.Hex(msg), key) }, true, "polkadot", "sig")
	return sig
}

func TestT11_Combine(t *testing.T) {
	kit.Check(t, 800, func(t *rapid.T, c *kit.Case) {
		key := gen.KeyEd(t, "key")
		q := draw(t, key)
		tx, m := request(t, q)
		sig := sign(t, key, m)
		out, pass := dot.VerifyAndCombineTransaction(q.code, tx, kit.Hex(sig))
		if !pass || out != q.signed(sig) {
			t.Fatalf("%s with %x gives %v\n got %s\nwant %s", tx, sig, pass, out, q.signed(sig))
		}
		c.Eval(1)
		c.Class("combine %d call bytes", len(kit.UnHex(q.code)))
		c.NonTrivial(out)
		c.Sample("%s", out)
	})
}

func TestT11_Tamper(t *testing.T) {
	kit.Check(t, 900, func(t *rapid.T, c *kit.Case) {
		key := gen.KeyEd(t, "key")
		q := draw(t, key)
		tx, m := request(t, q)
		sig := sign(t, key, m)
		want := q.signed(sig)
		code, s := q.code, kit.Hex(sig)
		same := false // the request may still be the same one
		kit.Before(t, func() { dot.VerifyAndCombineTransaction(code, tx, s) })
		mode := rapid.IntRange(0, 6).Draw(t, "mode")
		switch mode {
		case 0:
			o := *q
			p := draw(t, nil).tx
			f := rapid.IntRange(0, 9).Draw(t, "field")
			switch f {
			case 0:
				o.tx.SenderPubkey = p.SenderPubkey
			case 1:
				o.tx.RecipientPubkey = p.RecipientPubkey
			case 2:
				o.tx.Amount = p.Amount
			case 3:
				o.tx.Nonce = p.Nonce
			case 4:
				o.tx.Fee = p.Fee
			case 5:
				// only the place in the era and the block's hash are part of the transaction
				if o.tx.BlockHeight = p.BlockHeight; p.BlockHeight%64 == q.tx.BlockHeight%64 {
					t.Skip("same era")
				}
			case 6:
				o.tx.BlockHash = p.BlockHash
			case 7:
				o.tx.GenesisHash = p.GenesisHash
			case 8:
				o.tx.SpecVersion = p.SpecVersion
			case 9:
				o.tx.TxVersion = p.TxVersion
			}
			if o == *q {
				t.Skip("same")
			}
			b, _ := json.Marshal(o.tx)
			tx = string(b)
		case 1:
			s = kit.Hex(gen.Flip(t, sig, 0, "sigflip"))
		case 2:
			s = kit.Hex(kit.BytesRange(t, 0, 70, "siglen"))
		case 3:
			code = kit.Hex(gen.Flip(t, kit.UnHex(code), 0, "code"))
		case 4:
			tx, same = kit.MutStr(t, tx, "mut"), true
		case 5:
			s = kit.Hex(sign(t, gen.KeyEd(t, "other"), m))
			if s == kit.Hex(sig) || q.tx.SenderPubkey == kit.Hex(ref.PubEd(key)) && ref.VerifyEd(ref.PubEd(key), m, kit.UnHex(s)) {
				t.Skip("valid")
			}
		case 6:
			code, same = kit.MutStr(t, code, "codemut"), true
		}
		var pass bool
		var out string
		if m := kit.NoPanic(func() { out, pass = dot.VerifyAndCombineTransaction(code, tx, s) }); m != "" {
			t.Fatalf("%s %s %s: %s", code, tx, s, m)
		}
		if same && pass && out == want {
			c.Class("tamper mode %d same meaning", mode)
			return
		}
		if pass || out != "" {
			t.Fatalf("mode %d: %s %s with %s gives %v %s", mode, code, tx, s, pass, out)
		}
		c.Eval(1)
		c.Class("tamper mode %d", mode)
		c.NonTrivial(tx, s, code)
	})
}

func TestT11_Robust(t *testing.T) {
	kit.Check(t, 10000, func(t *rapid.T, c *kit.Case) {
		q := draw(t, nil)
		// anything at all in the fields
		for _, p := range []*string{&q.tx.SenderPubkey, &q.tx.RecipientPubkey, &q.tx.BlockHash, &q.tx.GenesisHash, &q.code} {
			if kit.OneIn(t, 3, "mut") {
				*p = kit.MutStr(t, *p, "text")
			}
		}
		for _, p := range []*uint64{&q.tx.Amount, &q.tx.BlockHeight} {
			if kit.OneIn(t, 8, "zero") {
				*p = 0
			}
		}
		b, _ := json.Marshal(q.tx)
		tx, s := string(b), kit.Hex(kit.BytesRange(t, 60, 66, "sig"))
		if rapid.Bool().Draw(t, "text") {
			tx, s = kit.MutStr(t, tx, "json"), kit.MutStr(t, s, "sigmut")
		}
		if b, err := hex.DecodeString(strings.TrimPrefix(s, "0x")); err == nil && len(b) >= 64 && string(b[32:64]) == string(make([]byte, 32)) {
			// S = 0 is a true signature under a key of small order
			t.Skip("S is zero")
		}
		msg, key := kit.MutStr(t, kit.Hex(kit.BytesRange(t, 0, 140, "msg")), "msgmut"), kit.BytesRange(t, 0, 40, "key")
		var out, gst string
		var pass bool
		var err error
		if m := kit.NoPanic(func() {
			out, pass = dot.VerifyAndCombineTransaction(q.code, tx, s)
			gst, err = q.tx.GetSignedTransaction(q.code, s)
			dot.SignTransaction(msg, key)
		}); m != "" {
			t.Fatalf("%s %s %s, %s %x: %s", q.code, tx, s, msg, key, m)
		}
		if pass || out != "" {
			t.Fatalf("%s %s %s gives %s", q.code, tx, s, out)
		}
		if (gst == "") != (err != nil) {
			t.Fatalf("%+v with %s gives %q, %v", *q, s, gst, err)
		}
		c.Eval(3)
		c.Class("robust valid=%v", q.valid())
		c.NonTrivial(tx, s, msg, key)
	})
}
