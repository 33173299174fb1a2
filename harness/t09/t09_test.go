package t09

import (
	"fmt"
	"strings"
	"testing"

	xrp "github.com/blocktree/go-owcdrivers/rippleTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

const alpha = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"

type rq struct {
	from, pub, to     string
	tag               int64
	seq, last         uint32
	amount, fee       uint64
	mtype, mdata, mft string
	key               []byte
}

func account(a string) ([]byte, bool) {
	d, err := ref.B58CheckDec(a, alpha, "doubleSHA256")
	if err != nil || len(d) != 21 || d[0] != 0 {
		return nil, false
	}
	return d[1:], true
}

func (q *rq) valid() bool {
	_, a := account(q.from)
	_, b := account(q.to)
	ok := a && b && q.amount > 0 && q.amount < 1<<62 && q.fee > 0 && q.fee < 1<<62 && q.tag < 1<<32
	return ok && len(q.pub) == 66 && gen.IsHex(q.pub) && (q.pub[:2] == "02" || q.pub[:2] == "03")
}

// vl is a variable length field of the ledger's binary format.
func vl(b []byte) []byte {
	n := len(b)
	switch {
	case n <= 192:
		return ref.Cat([]byte{byte(n)}, b)
	case n <= 12480:
		n -= 193
		return ref.Cat([]byte{byte(193 + n>>8), byte(n)}, b)
	}
	n -= 12481
	return ref.Cat([]byte{byte(241 + n>>16), byte(n >> 8), byte(n)}, b)
}

// parts are the bytes before and after the place of the signature.
func (q *rq) parts() ([]byte, []byte) {
	f, _ := account(q.from)
	t, _ := account(q.to)
	a := ref.Cat([]byte{0x12, 0, 0, 0x22, 0x80, 0, 0, 0, 0x24}, ref.BE32(q.seq))
	if q.tag >= 0 {
		a = ref.Cat(a, []byte{0x2e}, ref.BE32(uint32(q.tag)))
	}
	a = ref.Cat(a, []byte{0x20, 0x1b}, ref.BE32(q.last), []byte{0x61}, ref.BE64(1<<62|q.amount), []byte{0x68}, ref.BE64(1<<62|q.fee), []byte{0x73}, vl(kit.UnHex(q.pub)))
	b := ref.Cat([]byte{0x81}, vl(f), []byte{0x83}, vl(t))
	if q.mdata != "" {
		b = append(b, 0xf9, 0xea)
		if q.mtype != "" {
			b = ref.Cat(b, []byte{0x7c}, vl([]byte(q.mtype)))
		}
		b = ref.Cat(b, []byte{0x7d}, vl([]byte(q.mdata)))
		if q.mft != "" {
			b = ref.Cat(b, []byte{0x7e}, vl([]byte(q.mft)))
		}
		b = append(b, 0xe1, 0xf1)
	}
	return a, b
}

func (q *rq) blank() string {
	a, b := q.parts()
	return kit.Hex(a) + "s" + kit.Hex(b)
}

func (q *rq) digest() []byte {
	a, b := q.parts()
	return ref.Sha512([]byte("STX\x00"), a, b)[:32]
}

func (q *rq) signed(sig []byte) string {
	a, b := q.parts()
	return kit.Hex(ref.Cat(a, []byte{0x74}, vl(ref.DER(sig)), b))
}

func addr(h []byte) string { return ref.B58CheckEnc(ref.Cat([]byte{0}, h), alpha, "doubleSHA256") }

func memo(t *rapid.T, l string) string {
	switch rapid.IntRange(0, 5).Draw(t, l+".mode") {
	case 0:
		return ""
	case 1:
		n := rapid.SampledFrom([]int{127, 128, 191, 192, 193, 194, 254, 255, 256, 257, 448, 449, 1000, 12480, 12481, 20000, 12481 + 65535, 12481 + 65536}).Draw(t, l+".n")
		return string(kit.Uniform(t, n, l))
	case 2:
		return string(kit.BytesRange(t, 0, 300, l))
	}
	return kit.Str(t, "client text/plain s", 0, 24, l)
}

func draw(t *rapid.T) *rq {
	q := &rq{seq: kit.U32(t, "seq"), last: kit.U32(t, "last"), tag: -1, mtype: memo(t, "type"), mdata: memo(t, "data"), mft: memo(t, "format")}
	q.amount, q.fee = kit.U64Range(t, 1, 1<<62-1, "amount"), kit.U64Range(t, 1, 1<<62-1, "fee")
	if rapid.Bool().Draw(t, "tagged") {
		q.tag = int64(kit.U32(t, "tag"))
	}
	q.key = gen.KeyK1(t, "key")
	q.pub = kit.Hex(ref.PubK1(q.key))
	q.from, q.to = addr(kit.Bytes(t, 20, "from")), addr(kit.Bytes(t, 20, "to"))
	return q
}

func (q *rq) create() (string, string, error) {
	return xrp.CreateEmptyRawTransactionAndHash(q.from, q.pub, q.tag, q.seq, q.to, q.amount, q.fee, q.last, q.mtype, q.mdata, q.mft)
}

func request(t *rapid.T, q *rq) (string, []byte) {
	tx, h, err := q.create()
	if err != nil {
		t.Fatalf("%+v refused: %v", *q, err)
	}
	if w := q.blank(); tx != w {
		t.Fatalf("%+v: transaction differs\n got %s\nwant %s", *q, tx, w)
	}
	d := q.digest()
	if h != kit.Hex(d) {
		t.Fatalf("digest of %s is %s, want %x", tx, h, d)
	}
	return tx, d
}

func TestT09_Create(t *testing.T) {
	kit.Check(t, 5000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, _ := request(t, q)
		c.Eval(2)
		c.Class("create tag=%v memo=%v", q.tag >= 0, q.mdata != "")
		if len(q.mdata) > 192 {
			c.Class("long memo")
		}
		c.NonTrivial(tx)
		c.Sample("%s", tx)
	})
}

func TestT09_Refuse(t *testing.T) {
	kit.Check(t, 6000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		a := &q.from
		if rapid.Bool().Draw(t, "to") {
			a = &q.to
		}
		mode := rapid.IntRange(0, 7).Draw(t, "mode")
		switch mode {
		case 0:
			*a = kit.MutAddr(t, *a, "mut")
		case 1:
			*a = ref.B58CheckEnc(ref.Cat(kit.Bytes(t, 1, "ver"), kit.BytesRange(t, 19, 22, "h")), alpha, "doubleSHA256")
		case 2:
			*a = ref.B58CheckEnc(ref.Cat([]byte{0}, kit.BytesRange(t, 0, 40, "h")), alpha, "doubleSHA256")
		case 3:
			q.amount = kit.U64(t, "any")
		case 4:
			q.fee = kit.U64(t, "any")
		case 5:
			q.tag = int64(kit.U64(t, "anytag"))
		case 6:
			q.pub = kit.MutStr(t, q.pub, "mut")
		case 7:
			q.pub = kit.Hex(kit.BytesRange(t, 0, 66, "pub"))
		}
		if q.valid() {
			request(t, q)
		} else {
			var tx string
			var err error
			if m := kit.NoPanic(func() { tx, _, err = q.create() }); m != "" {
				t.Fatalf("%+v: %s", *q, m)
			}
			if err == nil {
				t.Fatalf("%+v cannot be met but gives %s", *q, tx)
			}
			c.NonTrivial(fmt.Sprintf("%+v", *q))
		}
		c.Eval(1)
		c.Class("refuse mode %d valid=%v", mode, q.valid())
	})
}

func own(q *rq, d []byte) func() ([]byte, error) {
	return func() ([]byte, error) {
		s, err := xrp.SignRawTransaction(kit.Hex(d), q.key)
		return kit.UnHex(s), err
	}
}

func TestT09_Combine(t *testing.T) {
	kit.Check(t, 1500, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, d := request(t, q)
		sig, ok := gen.ECDSA(t, ref.K1, q.key, d, own(q, d), false, "ripple", "sig")
		if ok && kit.Rare(t, 6, "high") {
			hs := gen.HighS(ref.K1, sig)
			if pass, out := xrp.VerifyAndCombinRawTransaction(tx, kit.Hex(hs), q.pub); pass != (out != "") || pass && out != q.signed(hs) && out != q.signed(sig) {
				t.Fatalf("%s with %x under %s gives %v\n got %s", tx, hs, q.pub, pass, out)
			}
			c.Class("high s")
		}
		pass, out := xrp.VerifyAndCombinRawTransaction(tx, kit.Hex(sig), q.pub)
		if pass != ok || (ok && out != q.signed(sig)) || (!ok && out != "") {
			t.Fatalf("%s with %x under %s gives %v\n got %s\nwant %s (%v)", tx, sig, q.pub, pass, out, q.signed(sig), ok)
		}
		c.Eval(1)
		c.Class("combine valid=%v", ok)
		c.NonTrivial(tx, sig)
		c.Sample("%s", out)
	})
}

func TestT09_Tamper(t *testing.T) {
	kit.Check(t, 2000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, d := request(t, q)
		sig, _ := gen.ECDSA(t, ref.K1, q.key, d, own(q, d), true, "ripple", "sig")
		pub, stxt := q.pub, kit.Hex(sig)
		kit.Before(t, func() { xrp.VerifyAndCombinRawTransaction(tx, stxt, pub) })
		mode := rapid.IntRange(0, 8).Draw(t, "mode")
		switch mode {
		case 8: // text that is not hexadecimal
			switch rapid.IntRange(0, 2).Draw(t, "what") {
			case 0:
				tx = gen.Junk(t, tx)
			case 1:
				stxt = gen.Junk(t, stxt)
			case 2:
				pub = gen.Junk(t, pub)
			}
		case 0:
			p := strings.Split(tx, "s")
			k := rapid.IntRange(0, 1).Draw(t, "half")
			p[k] = kit.Hex(gen.Flip(t, kit.UnHex(p[k]), 0, "tx"))
			tx = strings.Join(p, "s")
		case 1:
			sig = gen.Flip(t, sig, 0, "sigflip")
		case 2:
			pub = kit.Hex(ref.PubK1(gen.OtherScalar(t, ref.NK1, q.key, "other")))
		case 3:
			o := draw(t)
			if o.blank() == q.blank() {
				t.Skip("same")
			}
			tx, pub = o.blank(), o.pub
		case 4:
			sig = kit.BytesRange(t, 0, 70, "len")
		case 5:
			pub = kit.Hex(kit.BytesRange(t, 0, 66, "publen"))
		case 6: // a signature of someone else than the account's key
			k := gen.OtherScalar(t, ref.NK1, q.key, "thief")
			sig = ref.LowS(ref.K1, ref.SignWith(ref.K1, k, ref.HalfNonce, d))
			pub = kit.Hex(ref.PubK1(k))
		case 7: // no place, a second place, or another place for the signature
			switch rapid.IntRange(0, 2).Draw(t, "place") {
			case 0:
				tx = strings.Replace(tx, "s", "", -1)
			case 1:
				i := kit.Pos(t, 0, len(tx), "at")
				tx = tx[:i] + "s" + tx[i:]
			case 2:
				raw := strings.Replace(tx, "s", "", -1)
				i := kit.Pos(t, 0, len(raw), "at")
				if was := tx; true {
					tx = raw[:i] + "s" + raw[i:]
					if tx == was {
						t.Skip("same")
					}
				}
			}
		}
		if mode != 8 {
			stxt = kit.Hex(sig)
		}
		var pass bool
		var out string
		if m := kit.NoPanic(func() { pass, out = xrp.VerifyAndCombinRawTransaction(tx, stxt, pub) }); m != "" {
			t.Fatalf("%q %q %s: %s", tx, stxt, pub, m)
		}
		if pass || out != "" {
			t.Fatalf("mode %d: %q with %x under %s gives %v %s", mode, tx, sig, pub, pass, out)
		}
		c.Eval(1)
		c.Class("tamper mode %d", mode)
		c.NonTrivial(tx, sig, pub)
	})
}

func TestT09_Robust(t *testing.T) {
	kit.Check(t, 8000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx := kit.MutStr(t, q.blank(), "tx")
		sig, pub := kit.Hex(kit.Bytes(t, 64, "sig")), q.pub
		if rapid.Bool().Draw(t, "text") {
			sig, pub = kit.MutStr(t, sig, "sigmut"), kit.MutStr(t, pub, "pubmut")
		}
		h, k := kit.Hex(kit.Bytes(t, 32, "h")), kit.BytesRange(t, 0, 40, "key")
		if rapid.Bool().Draw(t, "odd") {
			h, k = kit.MutStr(t, h, "hash"), kit.Bytes(t, 32, "key32")
		}
		var pass bool
		if m := kit.NoPanic(func() {
			pass, _ = xrp.VerifyAndCombinRawTransaction(tx, sig, pub)
			xrp.SignRawTransaction(h, k)
		}); m != "" {
			t.Fatalf("%q %s %s, %s %x: %s", tx, sig, pub, h, k, m)
		}
		if pass {
			t.Fatalf("%q accepted with %s under %s", tx, sig, pub)
		}
		c.Eval(2)
		c.Class("robust")
		c.NonTrivial(tx, sig, pub, h, k)
	})
}
