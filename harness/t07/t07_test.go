package t07

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	cosmos "github.com/blocktree/go-owcdrivers/cosmosTransaction"
	eva "github.com/blocktree/go-owcdrivers/evaioTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

type coin struct {
	denom  string
	amount int64
}
type msg struct {
	typ, from, to string
	coins         []coin
}
type rq struct {
	eva         bool
	chain, memo string
	acc, seq    int
	gas         int64
	fee         []coin
	msgs        []msg
}

func coinsText(c []coin) string {
	var l []string
	for _, x := range c {
		l = append(l, `{"amount":"`+strconv.FormatInt(x.amount, 10)+`","denom":`+ref.JSONText(x.denom)+`}`)
	}
	return "[" + strings.Join(l, ",") + "]"
}

func paid(c []coin) (o []coin) {
	for _, x := range c {
		if x.amount != 0 {
			o = append(o, x)
		}
	}
	return
}

func (q *rq) text() string {
	var l []string
	for _, m := range q.msgs {
		l = append(l, `{"type":`+ref.JSONText(m.typ)+`,"value":{"amount":`+coinsText(m.coins)+`,"from_address":`+ref.JSONText(m.from)+`,"to_address":`+ref.JSONText(m.to)+`}}`)
	}
	return `{"account_number":"` + strconv.Itoa(q.acc) + `","chain_id":` + ref.JSONText(q.chain) + `,"fee":{"amount":` + coinsText(paid(q.fee)) + `,"gas":"` + strconv.FormatInt(q.gas, 10) +
		`"},"memo":` + ref.JSONText(q.memo) + `,"msgs":[` + strings.Join(l, ",") + `],"sequence":"` + strconv.Itoa(q.seq) + `"}`
}

func (q *rq) send(sig, pub []byte, typ, mode string) map[string]interface{} {
	type M = map[string]interface{}
	type L = []interface{}
	cs := func(c []coin) L {
		l := L{}
		for _, x := range c {
			l = append(l, M{"amount": strconv.FormatInt(x.amount, 10), "denom": x.denom})
		}
		return l
	}
	ms := L{}
	for _, m := range q.msgs {
		ms = append(ms, M{"type": m.typ, "value": M{"amount": cs(m.coins), "from_address": m.from, "to_address": m.to}})
	}
	s := M{"signature": base64.StdEncoding.EncodeToString(sig), "pub_key": M{"type": typ, "value": base64.StdEncoding.EncodeToString(pub)}}
	if !q.eva {
		s["account_number"], s["sequence"] = strconv.Itoa(q.acc), strconv.Itoa(q.seq)
	}
	return M{"mode": mode, "tx": M{"msg": ms, "fee": M{"amount": cs(paid(q.fee)), "gas": strconv.FormatInt(q.gas, 10)}, "memo": q.memo, "signatures": L{s}}}
}

// driver is the request as the driver under test holds it.
type driver struct {
	create func() (string, string, error)
	json   func(sig string, pub []byte, typ, mode string) (string, error)
	kept   func() bool // the caller's fee is as it was
}

func (q *rq) driver() driver {
	if q.eva {
		c := func(l []coin) eva.Coins {
			o := eva.Coins{}
			for _, x := range l {
				o = append(o, eva.NewCoin(x.denom, x.amount))
			}
			return o
		}
		fc := c(q.fee)
		if len(fc) == 0 && q.acc%2 == 0 {
			fc = nil // no fee coins may also be said this way
		}
		fee := eva.NewStdFee(q.gas, fc)
		var ms []eva.Message
		for _, m := range q.msgs {
			ms = append(ms, eva.NewMessage(m.typ, eva.NewMsgSend(m.from, m.to, c(m.coins))))
		}
		was := fmt.Sprint(fee)
		tx := eva.NewTxStruct(q.chain, q.memo, q.acc, q.seq, &fee, ms)
		return driver{tx.CreateEmptyTransactionAndHash, func(sig string, pub []byte, typ, mode string) (string, error) {
			r, err := tx.CreateJsonForSend(sig, pub, typ, mode)
			if err != nil {
				return "", err
			}
			return r.Raw, nil
		}, func() bool { return fmt.Sprint(fee) == was }}
	}
	c := func(l []coin) cosmos.Coins {
		o := cosmos.Coins{}
		for _, x := range l {
			o = append(o, cosmos.NewCoin(x.denom, x.amount))
		}
		return o
	}
	fc := c(q.fee)
	if len(fc) == 0 && q.acc%2 == 0 {
		fc = nil // no fee coins may also be said this way
	}
	fee := cosmos.NewStdFee(q.gas, fc)
	var ms []cosmos.Message
	for _, m := range q.msgs {
		ms = append(ms, cosmos.NewMessage(m.typ, cosmos.NewMsgSend(m.from, m.to, c(m.coins))))
	}
	was := fmt.Sprint(fee)
	tx := cosmos.NewTxStruct(q.chain, q.memo, q.acc, q.seq, &fee, ms)
	return driver{tx.CreateEmptyTransactionAndHash, func(sig string, pub []byte, typ, mode string) (string, error) {
		r, err := tx.CreateJsonForSend(sig, pub, typ, mode)
		if err != nil {
			return "", err
		}
		return r.Raw, nil
	}, func() bool { return fmt.Sprint(fee) == was }}
}

func signer(e bool) func(string, []byte) (string, error) {
	if e {
		return eva.SignTransactionHash
	}
	return cosmos.SignTransactionHash
}

func verifier(e bool) func(string, string, []byte) bool {
	if e {
		return eva.VerifyTransactionSig
	}
	return cosmos.VerifyTransactionSig
}

func text(t *rapid.T, l string) string {
	switch rapid.IntRange(0, 2).Draw(t, l+".mode") {
	case 0:
		return kit.Str(t, "abcdefghijklmnopqrstuvwxyz0123456789-_/", 0, 20, l)
	case 1:
		return kit.Str(t, "a \"\\/<>&'\n\t\r{}[]:,\x01\x1f\x7f", 0, 12, l)
	}
	rs := rapid.SliceOfN(rapid.SampledFrom([]rune{'a', 'é', '中', 0x2028, 0x2029, 0x1f600, 0xa0, 0xfffd}), 0, 10).Draw(t, l)
	return string(rs)
}

func coins(t *rapid.T, zero bool, hi int, l string) (o []coin) {
	for i, n := 0, rapid.IntRange(0, hi).Draw(t, l+".n"); i < n; i++ {
		a := int64(kit.U64Range(t, 1, 1<<63-1, l+".amt"))
		if zero && kit.OneIn(t, 3, l+".zero") {
			a = 0
		}
		o = append(o, coin{text(t, l+".denom"), a})
	}
	return
}

func draw(t *rapid.T) *rq {
	q := &rq{eva: rapid.Bool().Draw(t, "evaio"), chain: text(t, "chain"), memo: text(t, "memo")}
	q.acc, q.seq = int(kit.U64Range(t, 0, 1<<63-1, "acc")), int(kit.U64Range(t, 0, 1<<63-1, "seq"))
	q.gas = int64(kit.U64Range(t, 0, 1<<63-1, "gas"))
	q.fee = coins(t, true, 3, "fee")
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "msgs"); i < n; i++ {
		q.msgs = append(q.msgs, msg{text(t, "type"), text(t, "from"), text(t, "to"), coins(t, false, 3, "coins")})
	}
	return q
}

func request(t *rapid.T, q *rq) (driver, string, []byte) {
	var d driver
	if m := kit.NoPanic(func() { d = q.driver() }); m != "" {
		t.Fatalf("%+v: %s", *q, m)
	}
	tx, h, err := d.create()
	if err != nil {
		t.Fatalf("%+v refused: %v", *q, err)
	}
	if w := q.text(); tx != w {
		t.Fatalf("%+v: the text to sign differs\n got %s\nwant %s", *q, tx, w)
	}
	dig := ref.Sha256([]byte(q.text()))
	if h != kit.Hex(dig) {
		t.Fatalf("digest of %s is %s, want %x", tx, h, dig)
	}
	if !d.kept() {
		t.Fatalf("the caller's fee changed")
	}
	return d, tx, dig
}

func TestT07_Create(t *testing.T) {
	kit.Check(t, 8000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		_, tx, _ := request(t, q)
		c.Eval(2)
		c.Class("create evaio=%v fee coins=%d/%d", q.eva, len(paid(q.fee)), len(q.fee))
		c.NonTrivial(tx)
		c.Sample("%s", tx)
	})
}

func TestT07_Sign(t *testing.T) {
	kit.Check(t, 1500, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		d, tx, dig := request(t, q)
		key := gen.KeyK1(t, "key")
		own := func() ([]byte, error) {
			s, err := signer(q.eva)(kit.Hex(dig), key)
			if err != nil {
				return nil, err
			}
			return kit.UnHex(s), nil
		}
		sig, ok := gen.ECDSA(t, ref.K1, key, dig, own, false, "cosmos", "sig")
		pub := ref.Pub64(ref.K1, key)
		what := "plain"
		switch rapid.IntRange(0, 5).Draw(t, "tamper") {
		case 1:
			tx, ok, what = string(gen.Flip(t, []byte(tx), 0, "tx")), false, "text"
		case 2:
			sig, ok, what = gen.Flip(t, sig, 0, "sigflip"), false, "signature"
		case 3:
			pub, ok, what = ref.Pub64(ref.K1, gen.OtherScalar(t, ref.NK1, key, "other")), false, "key"
		case 4:
			sig, ok, what = kit.BytesRange(t, 0, 70, "len"), false, "length"
		}
		var got bool
		if m := kit.NoPanic(func() { got = verifier(q.eva)(tx, kit.Hex(sig), pub) }); m != "" {
			t.Fatalf("verifying %s %x %x: %s", tx, sig, pub, m)
		}
		if got != ok {
			t.Fatalf("%s: verifying %s with %x under %x gives %v, want %v", what, tx, sig, pub, got, ok)
		}
		typ, mode := text(t, "keytype"), text(t, "mode")
		comp := ref.PubK1(key)
		js, err := d.json(kit.Hex(sig), comp, typ, mode)
		if err != nil {
			t.Fatalf("sending %s: %v", tx, err)
		}
		var have map[string]interface{}
		if err := json.Unmarshal([]byte(js), &have); err != nil {
			t.Fatalf("%s is no JSON: %v", js, err)
		}
		if w := q.send(sig, comp, typ, mode); !reflect.DeepEqual(have, w) {
			t.Fatalf("send form differs\n got %v\nwant %v", have, w)
		}
		c.Eval(2)
		c.Class("sign %s valid=%v", what, ok)
		c.NonTrivial(tx, sig, pub)
	})
}

func TestT07_Bech32(t *testing.T) {
	kit.Check(t, 10000, func(t *rapid.T, c *kit.Case) {
		e := rapid.Bool().Draw(t, "evaio")
		enc, dec, alpha := cosmos.Bech32Encode, cosmos.Bech32Decode, cosmos.ATOMBech32Alphabet
		if e {
			enc, dec, alpha = eva.Bech32Encode, eva.Bech32Decode, eva.ATOMBech32Alphabet
		}
		hrp := kit.Str(t, "abcdefghijklmnopqrstuvwxyz", 1, 12, "hrp")
		n := 20
		if rapid.Bool().Draw(t, "any") {
			n = rapid.IntRange(0, 40).Draw(t, "n")
		}
		p := kit.Bytes(t, n, "payload")
		keep := kit.Hex(p)
		w := ref.Bech32Groups(hrp, ref.Bits8to5(p), 1)
		var a string
		var back []byte
		var err error
		if m := kit.NoPanic(func() { a = enc(hrp, alpha, p); back, err = dec(a) }); m != "" {
			t.Fatalf("%s %x: %s", hrp, p, m)
		}
		if a != w || err != nil || kit.Hex(back) != keep || kit.Hex(p) != keep {
			t.Fatalf("%s %s gives %s (want %s), which decodes to %x, %v", hrp, keep, a, w, back, err)
		}
		bad := a
		if rapid.Bool().Draw(t, "swap") {
			bad = kit.MutAddr(t, a, "mut")
		} else if rapid.Bool().Draw(t, "padding") {
			g := kit.Bytes(t, rapid.IntRange(0, 40).Draw(t, "g"), "groups")
			for i := range g {
				g[i] &= 31
			}
			bad = ref.Bech32Groups(hrp, g, 1)
		} else {
			bad = kit.Str(t, alpha+"1aZ", 0, 12, "str")
		}
		if bad == strings.ToLower(bad) {
			_, g, k, err := ref.Bech32Dec(bad)
			var rp []byte
			if err == nil {
				rp, err = ref.Bits5to8(g)
			}
			ok := err == nil && k == 1 && len(bad) <= 90
			var gerr error
			if m := kit.NoPanic(func() { back, gerr = dec(bad) }); m != "" {
				t.Fatalf("decoding %q: %s", bad, m)
			}
			if !ok && gerr == nil && len(bad) <= 90 {
				t.Fatalf("decoding %q gives %x", bad, back)
			}
			letters := true
			for _, ch := range strings.SplitN(bad, "1", 2)[0] {
				letters = letters && ch >= 'a' && ch <= 'z'
			}
			if ok && letters && (gerr != nil || kit.Hex(back) != kit.Hex(rp)) {
				t.Fatalf("decoding %q gives %x, %v, want %x", bad, back, gerr, rp)
			}
			c.Eval(1)
			c.Class("decode valid=%v", ok)
		}
		c.Eval(2)
		c.Class("bech32 n=20:%v", n == 20)
		c.NonTrivial(a, bad)
	})
}

func TestT07_Robust(t *testing.T) {
	kit.Check(t, 5000, func(t *rapid.T, c *kit.Case) {
		e := rapid.Bool().Draw(t, "evaio")
		h, key := kit.Hex(kit.Bytes(t, 32, "h")), kit.Bytes(t, 32, "key")
		if rapid.Bool().Draw(t, "odd") {
			h, key = kit.MutStr(t, h, "h"), kit.BytesRange(t, 0, 40, "key2")
		}
		tx, sig, pub := text(t, "tx"), kit.MutStr(t, kit.Hex(kit.Bytes(t, 64, "sig")), "sigmut"), kit.BytesRange(t, 0, 70, "pub")
		var got bool
		if m := kit.NoPanic(func() {
			signer(e)(h, key)
			got = verifier(e)(tx, sig, pub)
		}); m != "" {
			t.Fatalf("%s %x %q %s %x: %s", h, key, tx, sig, pub, m)
		}
		if got {
			t.Fatalf("%q accepted with %s %x", tx, sig, pub)
		}
		c.Eval(2)
		c.Class("robust")
		c.NonTrivial(h, key, sig, pub)
	})
}
