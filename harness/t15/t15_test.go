package t15

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"testing"
	"time"

	vs "github.com/blocktree/go-owcdrivers/virtualeconomyTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

func sum(b []byte) []byte { return ref.Keccak(ref.Blake2b(b, 32))[:4] }

func addr(version byte, net byte, h []byte) string {
	b := ref.Cat([]byte{version, net}, h)
	return ref.B58Enc(ref.Cat(b, sum(b)), gen.B58)
}

// bytesOf are the 26 bytes of an address, or nil.
func bytesOf(a string) []byte {
	b, err := ref.B58Dec(a, gen.B58)
	if err != nil || len(b) != 26 || b[0] != 5 || string(sum(b[:22])) != string(b[22:]) {
		return nil
	}
	return b
}

func valid(q vs.TxStruct) bool { return q.TxType == 2 && bytesOf(q.To) != nil && q.Attachment == "" }

func build(q vs.TxStruct, at uint64) []byte {
	return ref.Cat([]byte{q.TxType}, ref.BE64(at), ref.BE64(q.Amount), ref.BE64(q.Fee), ref.BE16(q.FeeScale), bytesOf(q.To), []byte{0, 0})
}

func draw(t *rapid.T) vs.TxStruct {
	return vs.TxStruct{TxType: 2, To: addr(5, rapid.SampledFrom([]byte("MT")).Draw(t, "net"), kit.Bytes(t, 20, "to")), Amount: kit.U64(t, "amount"), Fee: kit.U64(t, "fee"), FeeScale: uint16(kit.U64Range(t, 0, 65535, "scale"))}
}

func request(t *rapid.T, q vs.TxStruct) []byte {
	lo := uint64(time.Now().UnixNano()) / 1000 * 1000
	tx, err := vs.CreateEmptyTransaction(q)
	hi := uint64(time.Now().UnixNano())
	if err != nil {
		t.Fatalf("%+v refused: %v", q, err)
	}
	raw := kit.UnHex(tx)
	if len(raw) < 9 {
		t.Fatalf("%+v gives %s", q, tx)
	}
	at := binary.BigEndian.Uint64(raw[1:])
	if at < lo || at > hi {
		t.Fatalf("%+v: the time of %s is %d, not between %d and %d", q, tx, at, lo, hi)
	}
	if w := build(q, at); string(raw) != string(w) {
		t.Fatalf("%+v: transaction differs\n got %s\nwant %x", q, tx, w)
	}
	return raw
}

func read(t *rapid.T, q vs.TxStruct, raw []byte) {
	ts, at, err := vs.TxStructDecode(raw)
	if err != nil || *ts != q || at != binary.BigEndian.Uint64(raw[1:]) {
		t.Fatalf("%x of %+v is read as %+v %d %v", raw, q, ts, at, err)
	}
}

func TestT15_Create(t *testing.T) {
	kit.Check(t, 15000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		raw := request(t, q)
		read(t, q, raw)
		c.Eval(2)
		c.Class("create")
		c.NonTrivial(raw[9:])
		c.Sample("%x", raw)
	})
}

func TestT15_Refuse(t *testing.T) {
	kit.Check(t, 12000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		mode := rapid.IntRange(0, 3).Draw(t, "mode")
		switch mode {
		case 0:
			q.To = kit.MutAddr(t, q.To, "mut")
		case 1:
			b := kit.BytesRange(t, 0, 40, "b")
			if rapid.Bool().Draw(t, "ver") && len(b) > 0 {
				b[0] = 5
			}
			q.To = ref.B58Enc(ref.Cat(b, sum(b)), gen.B58)
		case 2:
			q.TxType = byte(rapid.IntRange(0, 255).Draw(t, "type"))
		case 3:
			q.Attachment = kit.Str(t, gen.B58+" \x00", 1, 40, "att")
		}
		if valid(q) {
			request(t, q)
		} else {
			var tx string
			var err error
			if m := kit.NoPanic(func() { tx, err = vs.CreateEmptyTransaction(q) }); m != "" {
				t.Fatalf("%+v: %s", q, m)
			}
			if err == nil {
				t.Fatalf("%+v cannot be met but gives %s", q, tx)
			}
			c.NonTrivial(fmt.Sprintf("%+v", q))
		}
		c.Eval(1)
		c.Class("refuse mode %d valid=%v", mode, valid(q))
	})
}

func le(b []byte) *big.Int { return new(big.Int).SetBytes(ref.Rev(b)) }

// xpub is the Montgomery form of an Edwards point, edOf the way back for a sign.
func xpub(ed []byte) []byte {
	e := append([]byte{}, ed...)
	e[31] &= 0x7f
	y, one := le(e), big.NewInt(1)
	d := new(big.Int).Sub(one, y)
	d.ModInverse(d.Mod(d, ref.EdP), ref.EdP)
	u := new(big.Int).Add(one, y)
	u.Mul(u, d).Mod(u, ref.EdP)
	return ref.Rev(u.FillBytes(make([]byte, 32)))
}
func edOf(x []byte, sign byte) []byte {
	e := append([]byte{}, x...)
	e[31] &= 0x7f
	u, one := le(e), big.NewInt(1)
	d := new(big.Int).Add(u, one)
	if d.Mod(d, ref.EdP); d.Sign() == 0 {
		return make([]byte, 32)
	}
	y := new(big.Int).Sub(u, one)
	y.Mul(y, d.ModInverse(d, ref.EdP)).Mod(y, ref.EdP)
	b := ref.Rev(y.FillBytes(make([]byte, 32)))
	b[31] |= sign
	return b
}
func verify(x, msg, sig []byte) bool {
	if len(x) != 32 || len(sig) != 64 {
		return false
	}
	s := append([]byte{}, sig...)
	s[63] &= 0x7f
	return ref.VerifyEd(edOf(x, sig[63]&0x80), msg, s)
}

func sign(t *rapid.T, key, raw []byte) *vs.SignaturePubkey {
	ed := ref.PubEd(key)
	if rapid.Bool().Draw(t, "own") {
		kit.SeedRand(rapid.Uint64().Draw(t, "entropy"))
		sp, err := vs.SignTransaction(kit.Hex(raw), key)
		if err != nil {
			t.Fatalf("signing %x with %x: %v", raw, key, err)
		}
		if string(sp.PublicKey) != string(xpub(ed)) || !verify(sp.PublicKey, raw, sp.Signature) {
			t.Fatalf("signing %x with %x gives %+v, which does not verify under %x", raw, key, *sp, xpub(ed))
		}
		return sp
	}
	s := ref.SignEd(key, kit.Bytes(t, 32, "nonce"), raw)
	s[63] |= ed[31] & 0x80
	return &vs.SignaturePubkey{Signature: s, PublicKey: xpub(ed)}
}

type body struct {
	Timestamp       json.Number `json:"timestamp"`
	Amount          json.Number `json:"amount"`
	Fee             json.Number `json:"fee"`
	FeeScale        json.Number `json:"feeScale"`
	Recipient       string      `json:"recipient"`
	SenderPublicKey string      `json:"senderPublicKey"`
	Attachment      string      `json:"attachment"`
	Signature       string      `json:"signature"`
}

func TestT15_Combine(t *testing.T) {
	kit.Check(t, 700, func(t *rapid.T, c *kit.Case) {
		key := gen.KeyEd(t, "key")
		q := draw(t)
		raw := request(t, q)
		sp := sign(t, key, raw)
		if !verify(sp.PublicKey, raw, sp.Signature) {
			t.Fatalf("harness: %x %+v", raw, *sp)
		}
		if !vs.VerifyTransaction(kit.Hex(raw), sp) {
			t.Fatalf("%x with %+v does not verify", raw, *sp)
		}
		r, err := vs.CreateJSONRawForSendTransaction(kit.Hex(raw), sp)
		if err != nil {
			t.Fatalf("%x cannot be sent: %v", raw, err)
		}
		var b body
		d := json.NewDecoder(bytes.NewReader([]byte(r.Raw)))
		d.DisallowUnknownFields()
		if err := d.Decode(&b); err != nil {
			t.Fatalf("%s: %v", r.Raw, err)
		}
		var all map[string]json.RawMessage
		if json.Unmarshal([]byte(r.Raw), &all); len(all) != 8 {
			t.Fatalf("%x is sent as %s, which has %d fields", raw, r.Raw, len(all))
		}
		n := func(v uint64) json.Number { return json.Number(fmt.Sprint(v)) }
		w := body{n(binary.BigEndian.Uint64(raw[1:])), n(q.Amount), n(q.Fee), n(uint64(q.FeeScale)), q.To, ref.B58Enc(sp.PublicKey, gen.B58), "", ref.B58Enc(sp.Signature, gen.B58)}
		if b != w {
			t.Fatalf("%x is sent as\n%+v, want\n%+v", raw, b, w)
		}
		c.Eval(2)
		c.Class("combine")
		c.NonTrivial(raw, sp.Signature)
		c.Sample("%s", r.Raw)
	})
}

func TestT15_Tamper(t *testing.T) {
	kit.Check(t, 1000, func(t *rapid.T, c *kit.Case) {
		key := gen.KeyEd(t, "key")
		q := draw(t)
		raw := request(t, q)
		sp := sign(t, key, raw)
		kit.Before(t, func() { vs.VerifyTransaction(kit.Hex(raw), sp) })
		mode := rapid.IntRange(0, 5).Draw(t, "mode")
		switch mode {
		case 0:
			raw = gen.Flip(t, raw, 0, "tx")
		case 1:
			sp.Signature = gen.Flip(t, sp.Signature, 0, "sigflip")
		case 2:
			sp.Signature = kit.BytesRange(t, 0, 70, "siglen")
		case 3:
			if p := xpub(ref.PubEd(gen.KeyEd(t, "other"))); string(p) != string(sp.PublicKey) {
				sp.PublicKey = p
			} else {
				t.Skip("same key")
			}
		case 4:
			sp.PublicKey = kit.BytesRange(t, 0, 40, "publen")
		case 5:
			if b := kit.MutBytes(t, raw, "mut"); string(b) != string(raw) {
				raw = b
			} else {
				t.Skip("same")
			}
		}
		if verify(sp.PublicKey, raw, sp.Signature) {
			t.Skip("valid")
		}
		var pass bool
		if m := kit.NoPanic(func() { pass = vs.VerifyTransaction(kit.Hex(raw), sp) }); m != "" {
			t.Fatalf("%x %+v: %s", raw, *sp, m)
		}
		if pass {
			t.Fatalf("mode %d: %x verifies with %+v", mode, raw, *sp)
		}
		c.Eval(1)
		c.Class("tamper mode %d", mode)
		c.NonTrivial(raw, sp.Signature, sp.PublicKey)
	})
}

func TestT15_Robust(t *testing.T) {
	kit.Check(t, 8000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		raw := build(q, kit.U64(t, "time"))
		switch rapid.IntRange(0, 4).Draw(t, "mode") {
		case 0:
			raw = kit.MutBytes(t, raw, "mut")
		case 1:
			raw = gen.Flip(t, raw, 0, "flip")
		case 2:
			raw = raw[:kit.Pos(t, 0, len(raw)-1, "cut")]
		case 3:
			raw = ref.Cat(raw[:53], kit.BytesRange(t, 0, 6, "att"))
		}
		sp := &vs.SignaturePubkey{Signature: kit.BytesRange(t, 0, 70, "sig"), PublicKey: kit.BytesRange(t, 0, 40, "pub")}
		txt, key := kit.MutStr(t, kit.Hex(raw), "txt"), kit.BytesRange(t, 0, 40, "key")
		var ts *vs.TxStruct
		var at uint64
		var err, jerr, terr error
		var tok bool
		if m := kit.NoPanic(func() {
			ts, at, err = vs.TxStructDecode(raw)
			_, jerr = vs.CreateJSONRawForSendTransaction(kit.Hex(raw), sp)
			_, terr = vs.CreateJSONRawForSendTransaction(txt, sp)
			tok = vs.VerifyTransaction(txt, sp)
			vs.SignTransaction(txt, key)
		}); m != "" {
			t.Fatalf("%x %s %+v %x: %s", raw, txt, *sp, key, m)
		}
		if _, e := hex.DecodeString(txt); e != nil && (terr == nil || tok) {
			t.Fatalf("%q is sent or verifies", txt)
		}
		ok := false
		if len(raw) == 55 && raw[0] == 2 && string(raw[53:]) == "\x00\x00" {
			a := ref.B58Enc(raw[27:53], gen.B58)
			w := vs.TxStruct{TxType: 2, To: a, Amount: binary.BigEndian.Uint64(raw[9:]), Fee: binary.BigEndian.Uint64(raw[17:]), FeeScale: binary.BigEndian.Uint16(raw[25:])}
			ok = bytesOf(a) != nil
			if err == nil && (*ts != w || at != binary.BigEndian.Uint64(raw[1:])) {
				t.Fatalf("%x is read as %+v", raw, *ts)
			}
		}
		if ok != (err == nil) || ok != (jerr == nil) {
			t.Fatalf("%x (a transaction: %v) is read as %+v, %v, sent with %v", raw, ok, ts, err, jerr)
		}
		c.Eval(5)
		c.Class("robust ok=%v", ok)
		c.NonTrivial(raw, txt, sp.Signature, sp.PublicKey, key)
	})
}
