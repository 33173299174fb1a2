package t08

import (
	"encoding/binary"
	"fmt"
	"strconv"
	"testing"

	bnb "github.com/blocktree/go-owcdrivers/binancechainTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

type rq struct {
	from, to         string
	denom, memo      string
	amount           int64
	acc, seq, source int64
}

func addr(a string) ([]byte, bool) {
	h, g, k, err := ref.Bech32Dec(a)
	if err != nil || h != "bnb" || k != 1 {
		return nil, false
	}
	p, err := ref.Bits5to8(g)
	return p, err == nil && len(p) == 20
}

func (q *rq) valid() bool {
	_, a := addr(q.from)
	_, b := addr(q.to)
	return a && b && q.amount > 0 && q.amount <= 1<<53
}

func (q *rq) text() string {
	coins := `"coins":[{"amount":` + strconv.FormatInt(q.amount, 10) + `,"denom":` + ref.JSONText(q.denom) + `}]`
	return `{"account_number":"` + strconv.FormatInt(q.acc, 10) + `","chain_id":"Binance-Chain-Tigris","data":null,"memo":` + ref.JSONText(q.memo) +
		`,"msgs":[{"inputs":[{"address":"` + q.from + `",` + coins + `}],"outputs":[{"address":"` + q.to + `",` + coins + `}]}],"sequence":"` +
		strconv.FormatInt(q.seq, 10) + `","source":"` + strconv.FormatInt(q.source, 10) + `"}`
}

func uv(n uint64) []byte { return binary.AppendUvarint(nil, n) }

// bf and nf are amino fields of bytes and of a number; empty ones are left out.
func bf(tag byte, b []byte) []byte {
	if len(b) == 0 {
		return nil
	}
	return ref.Cat([]byte{tag<<3 | 2}, uv(uint64(len(b))), b)
}
func nf(tag byte, n int64) []byte {
	if n == 0 {
		return nil
	}
	return ref.Cat([]byte{tag << 3}, uv(uint64(n)))
}

func (q *rq) signed(sig, pub []byte) []byte {
	f, _ := addr(q.from)
	t, _ := addr(q.to)
	coin := bf(2, ref.Cat(bf(1, []byte(q.denom)), nf(2, q.amount)))
	m := ref.Cat(kit.UnHex("2a2c87fa"), bf(1, ref.Cat(bf(1, f), coin)), bf(2, ref.Cat(bf(1, t), coin)))
	s := ref.Cat(bf(1, ref.Cat(kit.UnHex("eb5ae98721"), pub)), bf(2, sig), nf(3, q.acc), nf(4, q.seq))
	tx := ref.Cat(kit.UnHex("f0625dee"), bf(1, m), bf(2, s), bf(3, []byte(q.memo)), nf(4, q.source))
	return ref.Cat(uv(uint64(len(tx))), tx)
}

func text(t *rapid.T, l string) string {
	switch rapid.IntRange(0, 2).Draw(t, l+".mode") {
	case 0:
		return kit.Str(t, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-", 0, 20, l)
	case 1:
		return kit.Str(t, "a \"\\/<>&'\n\t\r{}[]:,\x01\x1f\x7f", 0, 12, l)
	}
	return string(rapid.SliceOfN(rapid.SampledFrom([]rune{'a', 'é', '中', 0x2028, 0x2029, 0x1f600, 0xa0, 0xfffd}), 0, 60).Draw(t, l))
}

func bech(hrp string, p []byte) string { return ref.Bech32Groups(hrp, ref.Bits8to5(p), 1) }

func draw(t *rapid.T) *rq {
	q := &rq{denom: text(t, "denom"), memo: text(t, "memo"), amount: int64(kit.U64Range(t, 1, 1<<53, "amount"))}
	q.acc, q.seq, q.source = int64(kit.U64Range(t, 0, 1<<63-1, "acc")), int64(kit.U64Range(t, 0, 1<<63-1, "seq")), int64(kit.U64Range(t, 0, 1<<63-1, "source"))
	q.from, q.to = bech("bnb", kit.Bytes(t, 20, "from")), bech("bnb", kit.Bytes(t, 20, "to"))
	return q
}

func (q *rq) create() (string, string, error) {
	return bnb.CreateEmptyTransactionAndHash(q.from, q.to, q.denom, q.amount, q.acc, q.seq, q.source, q.memo)
}

func request(t *rapid.T, q *rq) (string, []byte) {
	tx, h, err := q.create()
	if err != nil {
		t.Fatalf("%+v refused: %v", *q, err)
	}
	w := q.text()
	if tx != w {
		t.Fatalf("%+v: the text to sign differs\n got %s\nwant %s", *q, tx, w)
	}
	dig := ref.Sha256([]byte(w))
	if h != kit.Hex(dig) {
		t.Fatalf("digest of %s is %s, want %x", tx, h, dig)
	}
	return tx, dig
}

func TestT08_Create(t *testing.T) {
	kit.Check(t, 5000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, _ := request(t, q)
		c.Eval(2)
		c.Class("create")
		c.NonTrivial(tx)
		c.Sample("%s", tx)
	})
}

func TestT08_Refuse(t *testing.T) {
	kit.Check(t, 6000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		a := &q.from
		if rapid.Bool().Draw(t, "to") {
			a = &q.to
		}
		mode := rapid.IntRange(0, 4).Draw(t, "mode")
		switch mode {
		case 0:
			*a = kit.MutAddr(t, *a, "mut")
		case 1:
			*a = bech(rapid.SampledFrom([]string{"bnb", "tbnb", "bn", "bnbp", "cosmos", "bnb1"}).Draw(t, "hrp"), kit.Bytes(t, 20, "h"))
		case 2:
			*a = bech("bnb", kit.BytesRange(t, 0, 40, "h"))
		case 3:
			*a = kit.Str(t, "bn1qpzry", 0, 12, "s")
		case 4:
			q.amount = int64(kit.U64(t, "any"))
		}
		for _, ch := range *a {
			if ch >= 'A' && ch <= 'Z' {
				t.Skip("capitals")
			}
		}
		if q.valid() {
			request(t, q)
		} else {
			var tx string
			var err error
			if m := kit.NoPanic(func() { tx, _, err = q.create() }); m != "" {
				t.Fatalf("%+v: %s", *q, m)
			}
			if err == nil {
				t.Fatalf("%+v cannot be met but gives %s", *q, tx)
			}
			c.NonTrivial(fmt.Sprintf("%+v", *q))
		}
		c.Eval(1)
		c.Class("refuse mode %d valid=%v", mode, q.valid())
	})
}

func TestT08_Combine(t *testing.T) {
	kit.Check(t, 1200, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, dig := request(t, q)
		key := gen.KeyK1(t, "key")
		own := func() ([]byte, error) { return bnb.SignRawTransaction(kit.Hex(dig), key) }
		sig, ok := gen.ECDSA(t, ref.K1, key, dig, own, false, "binance", "sig")
		pub := ref.PubK1(key)
		want := kit.Hex(q.signed(sig, pub))
		pass, out := bnb.VerifyAndCombineRawTransaction(tx, kit.Hex(sig), kit.Hex(pub))
		if pass != ok || (ok && out != want) || (!ok && out != "") {
			t.Fatalf("%s with %x under %x gives %v\n got %s\nwant %s (%v)", tx, sig, pub, pass, out, want, ok)
		}
		if ok {
			st, err := bnb.DecodeRawTransaction(kit.UnHex(out))
			if err != nil || st.Memo != q.memo || st.Source != q.source || len(st.Msgs) != 1 || len(st.Signatures) != 1 || kit.Hex(st.Signatures[0].Signature) != kit.Hex(sig) ||
				st.Signatures[0].AccountNumber != q.acc || st.Signatures[0].Sequence != q.seq {
				t.Fatalf("%s decodes to %+v, %v", out, st, err)
			}
		}
		c.Eval(2)
		c.Class("combine valid=%v", ok)
		c.NonTrivial(out, sig)
		c.Sample("%s", out)
	})
}

func TestT08_Tamper(t *testing.T) {
	kit.Check(t, 1200, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, dig := request(t, q)
		key := gen.KeyK1(t, "key")
		sig, _ := gen.ECDSA(t, ref.K1, key, dig, func() ([]byte, error) { return bnb.SignRawTransaction(kit.Hex(dig), key) }, true, "binance", "sig")
		pub := ref.PubK1(key)
		want := kit.Hex(q.signed(sig, pub))
		kit.Before(t, func() { bnb.VerifyAndCombineRawTransaction(tx, kit.Hex(sig), kit.Hex(pub)) })
		mode := rapid.IntRange(0, 5).Draw(t, "mode")
		switch mode {
		case 0:
			tx = string(gen.Flip(t, []byte(tx), 0, "tx"))
		case 1:
			sig = gen.Flip(t, sig, 0, "sig")
			want = ""
		case 2:
			pub = ref.PubK1(gen.OtherScalar(t, ref.NK1, key, "other"))
			want = ""
		case 3: // the same signature for another request
			o := draw(t)
			if o.text() == q.text() {
				t.Skip("same")
			}
			tx = o.text()
			want = ""
		case 4:
			sig = kit.BytesRange(t, 0, 70, "len")
			want = ""
		case 5:
			pub = kit.BytesRange(t, 0, 66, "publen")
			want = ""
		}
		var pass bool
		var out string
		if m := kit.NoPanic(func() { pass, out = bnb.VerifyAndCombineRawTransaction(tx, kit.Hex(sig), kit.Hex(pub)) }); m != "" {
			t.Fatalf("%q %x %x: %s", tx, sig, pub, m)
		}
		// a changed text that still means the signed request (a key's letter case) may give that transaction
		if (pass || out != "") && (out != want || want == "") {
			t.Fatalf("mode %d: %q with %x under %x gives %v %s", mode, tx, sig, pub, pass, out)
		}
		c.Eval(1)
		c.Class("tamper mode %d", mode)
		c.NonTrivial(tx, sig, pub)
	})
}

func TestT08_Robust(t *testing.T) {
	kit.Check(t, 6000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		key := []byte{31: 7}
		tx := q.text()
		switch rapid.IntRange(0, 4).Draw(t, "how") {
		case 0:
			tx = kit.MutStr(t, tx, "mut")
		case 1:
			tx = rapid.SampledFrom([]string{"", "{}", "null", "[]", `{"msgs":[]}`, `{"msgs":null}`, `{"msgs":[null]}`, `{"msgs":[{}]}`, `{"msgs":[{"inputs":[{}],"outputs":[{}]}]}`,
				`{"account_number":"1","chain_id":"x","data":null,"memo":"","msgs":[{"inputs":null,"outputs":null}],"sequence":"1","source":"1"}`}).Draw(t, "json")
		case 2: // a signing text of another request: no or other inputs
			tx = `{"account_number":"1","chain_id":"Binance-Chain-Tigris","data":null,"memo":"","msgs":[` + rapid.SampledFrom([]string{`{"inputs":[{"address":"","coins":null}],"outputs":null}`,
				`{"inputs":[{"address":"` + q.from + `","coins":[]}],"outputs":[]}`, `{"inputs":[],"outputs":[]}`, `1`, `"x"`}).Draw(t, "msg") + `],"sequence":"1","source":"1"}`
		case 3:
			tx = text(t, "tx")
		}
		sig := ref.SignWith(ref.K1, key, ref.HalfNonce, ref.Sha256([]byte(tx)))
		raw := kit.MutBytes(t, q.signed(kit.Bytes(t, 64, "s"), ref.PubK1(key)), "raw")
		h, k := kit.MutStr(t, kit.Hex(kit.Bytes(t, 32, "h")), "hash"), kit.BytesRange(t, 0, 40, "key")
		if m := kit.NoPanic(func() {
			bnb.VerifyAndCombineRawTransaction(tx, kit.Hex(sig), kit.Hex(ref.PubK1(key)))
			bnb.DecodeRawTransaction(raw)
			bnb.SignRawTransaction(h, k)
			bnb.SignRawTransaction(kit.Hex(sig[:32]), k)
		}); m != "" {
			t.Fatalf("%q %x %s %x: %s", tx, raw, h, k, m)
		}
		c.Eval(4)
		c.Class("robust")
		c.NonTrivial(tx, raw, h, k)
	})
}
