package t16

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"

	wk "github.com/blocktree/go-owcdrivers/waykichainTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

type rq struct {
	typ                 byte
	from, to, app       string
	amount, fee, height int64
}

// num is the chain's number form: base 128, most significant first, each digit but the last less one.
func num(n int64) []byte {
	b := []byte{byte(n & 0x7f)}
	for n > 0x7f {
		n = n>>7 - 1
		b = append(b, byte(n&0x7f)|0x80)
	}
	return ref.Rev(b)
}

// regid is the form of an account number "height-index", or nil.
func regid(s string) []byte {
	p := strings.Split(s, "-")
	if len(p) != 2 {
		return nil
	}
	var b []byte
	for i, x := range p {
		n, err := strconv.ParseUint(x, 10, []int{32, 16}[i])
		if err != nil || x[0] == '+' {
			return nil
		}
		b = ref.Cat(b, num(int64(n)))
	}
	return ref.VarBytes(b)
}

func hashOf(a string) []byte {
	b, err := ref.B58CheckDec(a, gen.B58, "doubleSHA256")
	if err != nil || len(b) != 21 || b[0] != 0x49 && b[0] != 0x87 {
		return nil
	}
	return b[1:]
}

func (q *rq) body() []byte {
	h := num(q.height)
	switch q.typ {
	case 3:
		return ref.Cat(h, regid(q.from), ref.VarBytes(hashOf(q.to)), num(q.fee), num(q.amount), []byte{0})
	case 2:
		return ref.Cat(h, ref.VarBytes(kit.UnHex(q.from)), []byte{0}, num(q.fee))
	case 4:
		return ref.Cat(h, regid(q.from), regid(q.app), num(q.fee), num(q.amount), ref.VarBytes(kit.UnHex(q.to)))
	}
	return ref.Cat(h, regid(q.from), ref.VarBytes([]byte("WICC")), num(q.fee), []byte{1}, ref.VarBytes(hashOf(q.to)), ref.VarBytes([]byte(q.app)), num(q.amount), []byte{0})
}
func (q *rq) tx() []byte { return ref.Cat([]byte{q.typ, 1}, q.body()) }
func digest(raw []byte) []byte {
	return ref.DSha256(ref.Cat([]byte{raw[1], raw[0]}, raw[2:]))
}

func (q *rq) valid() bool {
	if q.height < 0 || q.fee < 0 {
		return false
	}
	switch q.typ {
	case 2:
		return len(q.from) == 66 && gen.IsHex(q.from)
	case 3:
		return q.amount >= 0 && regid(q.from) != nil && hashOf(q.to) != nil
	case 4:
		return q.amount >= 0 && regid(q.from) != nil && regid(q.app) != nil && gen.IsHex(q.to)
	case 11:
		return q.amount >= 0 && regid(q.from) != nil && hashOf(q.to) != nil && q.app != ""
	}
	return false
}

// i64 draws numbers of every size and around the limits of the number form.
func i64(t *rapid.T, l string) int64 {
	switch rapid.IntRange(0, 3).Draw(t, l+".mode") {
	case 0:
		return int64(rapid.IntRange(0, 300).Draw(t, l))
	case 1:
		// the first numbers of each length: 128, 16512, 2113664, ...
		n := uint64(0)
		for i := rapid.IntRange(1, 8).Draw(t, l+".len"); i > 0; i-- {
			n = n<<7 | 0x80
		}
		return int64(n) + int64(rapid.IntRange(-1, 1).Draw(t, l+".off"))
	case 2:
		return int64(kit.U64Range(t, 0, math.MaxInt64, l))
	}
	return int64(uint64(1)<<uint(rapid.IntRange(0, 62).Draw(t, l+".bit"))) - int64(rapid.IntRange(0, 1).Draw(t, l+".o"))
}

func reg(t *rapid.T, l string) string {
	return fmt.Sprintf("%d-%d", uint32(i64(t, l+".height")), uint16(i64(t, l+".index")))
}
func address(t *rapid.T, l string) string {
	return gen.Addr58([]byte{rapid.SampledFrom([]byte{0x49, 0x87}).Draw(t, l+".v")}, kit.Bytes(t, 20, l))
}

func draw(t *rapid.T) *rq {
	q := &rq{typ: rapid.SampledFrom([]byte{2, 3, 4, 11}).Draw(t, "type"), amount: i64(t, "amount"), fee: i64(t, "fee"), height: i64(t, "valid height")}
	switch q.typ {
	case 2:
		q.from = kit.Hex(ref.PubK1(gen.KeyK1(t, "acct")))
	case 3:
		q.from, q.to = reg(t, "from"), address(t, "to")
	case 4:
		q.from, q.app = reg(t, "from"), reg(t, "app")
		n := rapid.IntRange(0, 60).Draw(t, "call")
		if kit.OneIn(t, 4, "long") {
			n = rapid.SampledFrom([]int{127, 128, 251, 252, 253, 254, 255, 256, 257, 300, 4096, 65535, 65536}).Draw(t, "call2")
		}
		q.to = kit.Hex(kit.Bytes(t, n, "data"))
	case 11:
		q.from, q.to, q.app = reg(t, "from"), address(t, "to"), kit.Str(t, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.:@", 1, 12, "coin")
		if kit.OneIn(t, 25, "long name") {
			q.app = strings.Repeat("W", rapid.SampledFrom([]int{127, 128, 252, 253, 255, 256, 300}).Draw(t, "coin length"))
		}
	}
	return q
}

func (q *rq) create() (string, string, error) {
	return wk.CreateEmptyRawTransactionAndHash(q.from, q.to, q.app, q.amount, q.fee, q.height, q.typ)
}

func request(t *rapid.T, q *rq) (string, []byte) {
	tx, h, err := q.create()
	if err != nil {
		t.Fatalf("%+v refused: %v", *q, err)
	}
	w := q.tx()
	if tx != kit.Hex(w) {
		t.Fatalf("%+v: transaction differs\n got %s\nwant %x", *q, tx, w)
	}
	d := digest(w)
	if h != kit.Hex(d) {
		t.Fatalf("digest of %s is %s, want %x", tx, h, d)
	}
	return tx, d
}

func TestT16_Create(t *testing.T) {
	kit.Check(t, 15000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, _ := request(t, q)
		c.Eval(2)
		c.Class("create type %d", q.typ)
		c.NonTrivial(tx)
		if len(tx) < 400 {
			c.Sample("%s", tx)
		}
	})
}

func TestT16_Refuse(t *testing.T) {
	kit.Check(t, 15000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		mode := rapid.IntRange(0, 5).Draw(t, "mode")
		either := false
		switch mode {
		case 0:
			q.from = kit.MutAddr(t, q.from, "from")
		case 1:
			if q.typ != 2 {
				q.from = rapid.SampledFrom([]string{"", "-", "1-", "-1", "1", "1-2-3", "a-b", "0x1-1", "1--1", "4294967296-1", "1-65536", "99999999999999999999-1", "1-99999999999999999999", "+1-1", "1-+1", "1_0-1", "-1-1", "1-1\n2-2", "１-1"}).Draw(t, "reg")
			} else {
				q.from = kit.Hex(kit.BytesRange(t, 0, 66, "pub"))
			}
		case 2:
			switch q.typ {
			case 4:
				if q.to = kit.MutStr(t, q.to, "to"); rapid.Bool().Draw(t, "app") {
					q.to, q.app = "f017", kit.MutStr(t, q.app, "appmut")
				}
			case 11, 3:
				q.to = kit.MutAddr(t, q.to, "to")
				if rapid.Bool().Draw(t, "len") {
					q.to = gen.Addr58([]byte{rapid.SampledFrom([]byte{0x49, 0x87, 0, 0x50}).Draw(t, "v")}, kit.BytesRange(t, 0, 30, "h"))
				}
			}
		case 3:
			p := []*int64{&q.amount, &q.fee, &q.height}[rapid.IntRange(0, 2).Draw(t, "which")]
			*p = -1 - *p
		case 4:
			q.typ = byte(rapid.IntRange(0, 255).Draw(t, "type2"))
		case 5:
			if q.typ == 11 {
				q.app = ""
			} else if q.typ != 2 {
				// blanks around an account number may be refused or left out, never read as another number
				either = true
				b := []string{"", " ", "\t", "  "}
				q.from = rapid.SampledFrom(b).Draw(t, "b") + q.from + rapid.SampledFrom(b).Draw(t, "a")
			}
		}
		ok := q.valid()
		var tx string
		var err error
		if m := kit.NoPanic(func() { tx, _, err = q.create() }); m != "" {
			t.Fatalf("%+v: %s", *q, m)
		}
		switch o := *q; {
		case ok:
			request(t, q)
		case err == nil:
			for _, p := range []*string{&o.from, &o.app} {
				if regid(strings.TrimSpace(*p)) != nil {
					*p = strings.TrimSpace(*p)
				}
			}
			if !o.valid() || tx != kit.Hex(o.tx()) {
				t.Fatalf("%+v cannot be met but gives %s", *q, tx)
			}
		}
		c.Eval(1)
		c.Class("refuse mode %d type %d valid=%v", mode, q.typ, ok || either)
		if !ok {
			c.NonTrivial(fmt.Sprintf("%+v", *q))
		}
	})
}

func sign(t *rapid.T, key, d []byte) []byte {
	sig, _ := gen.ECDSA(t, ref.K1, key, d, func() ([]byte, error) { return wk.SignRawTransaction(kit.Hex(d), key) }, true, "waykichain", "sig")
	return sig
}

func TestT16_Combine(t *testing.T) {
	kit.Check(t, 1500, func(t *rapid.T, c *kit.Case) {
		key := gen.KeyK1(t, "key")
		q := draw(t)
		tx, d := request(t, q)
		sig := sign(t, key, d)
		if kit.Rare(t, 6, "high") {
			hs := gen.HighS(ref.K1, sig)
			pass, out := wk.VerifyAndCombineRawTransaction(tx, wk.SigPub{PublicKey: ref.PubK1(key), Signature: append([]byte{}, hs...)})
			if pass != (out != "") || pass && out != tx+kit.Hex(ref.VarBytes(ref.DER(hs))) && out != tx+kit.Hex(ref.VarBytes(ref.DER(sig))) {
				t.Fatalf("%s with %x gives %v\n got %s", tx, hs, pass, out)
			}
			c.Class("high s")
		}
		pass, out := wk.VerifyAndCombineRawTransaction(tx, wk.SigPub{PublicKey: ref.PubK1(key), Signature: append([]byte{}, sig...)})
		if w := tx + kit.Hex(ref.VarBytes(ref.DER(sig))); !pass || out != w {
			t.Fatalf("%s with %x gives %v\n got %s\nwant %s", tx, sig, pass, out, w)
		}
		c.Eval(1)
		c.Class("combine type %d der %d", q.typ, len(ref.DER(sig)))
		c.NonTrivial(out)
		if len(out) < 500 {
			c.Sample("%s", out)
		}
	})
}

func TestT16_Tamper(t *testing.T) {
	kit.Check(t, 1500, func(t *rapid.T, c *kit.Case) {
		key := gen.KeyK1(t, "key")
		q := draw(t)
		tx, d := request(t, q)
		sig := sign(t, key, d)
		pub := ref.PubK1(key)
		kit.Before(t, func() { wk.VerifyAndCombineRawTransaction(tx, wk.SigPub{PublicKey: pub, Signature: sig}) })
		mode := rapid.IntRange(0, 6).Draw(t, "mode")
		switch mode {
		case 0:
			tx = kit.Hex(gen.Flip(t, kit.UnHex(tx), 0, "tx"))
		case 1:
			sig = gen.Flip(t, sig, 0, "sigflip")
		case 2:
			sig = kit.BytesRange(t, 0, 70, "siglen")
		case 3:
			pub = ref.PubK1(gen.OtherScalar(t, ref.NK1, key, "other"))
		case 4:
			if pub = kit.BytesRange(t, 0, 66, "publen"); string(pub) == string(ref.PubK1(key)) {
				t.Skip("same key")
			}
		case 5:
			if b := kit.MutBytes(t, kit.UnHex(tx), "mut"); kit.Hex(b) != tx {
				tx = kit.Hex(b)
			} else {
				t.Skip("same")
			}
		case 6:
			if m := kit.MutStr(t, tx, "mut"); strings.ToLower(m) != tx {
				tx = m
			} else {
				t.Skip("same")
			}
		}
		var pass bool
		var out string
		if m := kit.NoPanic(func() { pass, out = wk.VerifyAndCombineRawTransaction(tx, wk.SigPub{PublicKey: pub, Signature: sig}) }); m != "" {
			t.Fatalf("%s %x %x: %s", tx, sig, pub, m)
		}
		if pass || out != "" {
			t.Fatalf("mode %d: %s with %x under %x gives %v %s", mode, tx, sig, pub, pass, out)
		}
		h, k := kit.MutStr(t, kit.Hex(d), "hash"), kit.BytesRange(t, 0, 40, "badkey")
		if m := kit.NoPanic(func() {
			wk.SignRawTransaction(h, k)
			wk.SignRawTransaction(kit.Hex(d), k)
			wk.SignRawTransaction(h, key)
		}); m != "" {
			t.Fatalf("signing %s with %x: %s", h, k, m)
		}
		c.Eval(4)
		c.Class("tamper mode %d", mode)
		c.NonTrivial(tx, sig, pub)
	})
}
