package t13

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/bits"
	"sort"
	"testing"
	"time"

	fn "github.com/blocktree/go-owcdrivers/filenetTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

// An address is the base58 form of the hexadecimal text of 20 bytes.
func address(h []byte) string { return ref.B58Enc([]byte(kit.Hex(h)), gen.B58) }
func hashOf(a string) []byte {
	b, err := ref.B58Dec(a, gen.B58)
	if err != nil || len(b) != 40 || !gen.IsHex(string(b)) {
		return nil
	}
	return kit.UnHex(string(b))
}

type rq struct {
	from string
	outs fn.Vouts
}

func (q *rq) sum() (s uint64, ok bool) {
	ok = true
	for _, o := range q.outs {
		var c uint64
		if s, c = bits.Add64(s, o.Amount, 0); c > 0 {
			ok = false
		}
	}
	return
}
func (q *rq) valid() bool {
	for _, o := range q.outs {
		if hashOf(o.Address) == nil || o.Amount == 0 {
			return false
		}
	}
	_, ok := q.sum()
	return len(q.outs) > 0 && hashOf(q.from) != nil && ok
}

func draw(t *rapid.T) *rq {
	q := &rq{from: address(kit.Bytes(t, 20, "from"))}
	n := gen.Count(t, "outs")
	for i := 0; i < n; i++ {
		o := fn.Vout{Address: address(kit.Bytes(t, 20, "to")), Amount: kit.U64Range(t, 1, (1<<64-1)/uint64(n), "amount")}
		if i > 0 && kit.OneIn(t, 8, "dup") {
			o.Address = q.outs[rapid.IntRange(0, i-1).Draw(t, "dupof")].Address
		}
		q.outs = append(q.outs, o)
	}
	return q
}

type pair struct {
	to string
	n  uint64
}

func norm(p []pair) []pair {
	sort.Slice(p, func(i, j int) bool { return p[i].to < p[j].to || p[i].to == p[j].to && p[i].n < p[j].n })
	return p
}

// request checks a created transaction; payments to one address may come in any order.
func request(t *rapid.T, q *rq) (string, []byte) {
	outs := append(fn.Vouts{}, q.outs...)
	lo := uint64(time.Now().Unix())
	tx, h, err := fn.CreateEmptyTransactionAndHash(fn.Vin{Address: q.from}, outs)
	hi := uint64(time.Now().Unix())
	if err != nil {
		t.Fatalf("%+v refused: %v", *q, err)
	}
	if fmt.Sprint(outs) != fmt.Sprint(q.outs) {
		t.Fatalf("the caller's list %v was changed to %v", q.outs, outs)
	}
	raw := kit.UnHex(tx)
	s, _ := q.sum()
	if len(raw) != 44+28*len(q.outs) || string(raw[:36]) != string(ref.Cat(hashOf(q.from), ref.LE64(uint64(len(q.outs))), ref.LE64(s))) {
		t.Fatalf("%+v gives %s", *q, tx)
	}
	if at := binary.LittleEndian.Uint64(raw[36:]); at < lo || at > hi {
		t.Fatalf("%+v: the time of %s is %d, not between %d and %d", *q, tx, at, lo, hi)
	}
	var want []pair
	for _, o := range q.outs {
		want = append(want, pair{o.Address, o.Amount})
	}
	got := outsOf(raw)
	if !sort.SliceIsSorted(got, func(i, j int) bool { return got[i].to < got[j].to }) {
		t.Fatalf("%+v gives %s, not in the order of the addresses", *q, tx)
	}
	if a, b := fmt.Sprint(norm(got)), fmt.Sprint(norm(want)); a != b {
		t.Fatalf("%+v gives %s, which pays %s", *q, tx, a)
	}
	d := ref.Sha256(raw)
	if h != kit.Hex(d) {
		t.Fatalf("digest of %s is %s, want %x", tx, h, d)
	}
	return tx, d
}

func outsOf(raw []byte) (p []pair) {
	for b := raw[44:]; len(b) > 0; b = b[28:] {
		p = append(p, pair{address(b[:20]), binary.LittleEndian.Uint64(b[20:])})
	}
	return
}

// well says whether raw is the form of a transaction.
func well(raw []byte) bool {
	return len(raw) >= 44 && (len(raw)-44)%28 == 0 && binary.LittleEndian.Uint64(raw[20:]) == uint64((len(raw)-44)/28)
}

type detail struct {
	To    string `json:"to"`
	Value uint64 `json:"value"`
}
type transfer struct {
	TxId            string   `json:"txid"`
	From            string   `json:"from"`
	ToCount         uint64   `json:"tocount"`
	Value           uint64   `json:"value"`
	Timestamp       int64    `json:"timestamp"`
	TransferDetails []detail `json:"transferdetails"`
	Sign            string   `json:"sign"`
}

// signed is what the node is sent.
func signed(raw, sig []byte) string {
	v := transfer{kit.Hex(ref.Sha256(raw)), address(raw[:20]), binary.LittleEndian.Uint64(raw[20:]), binary.LittleEndian.Uint64(raw[28:]), int64(binary.LittleEndian.Uint64(raw[36:])), []detail{}, kit.Hex(sig)}
	for _, p := range outsOf(raw) {
		v.TransferDetails = append(v.TransferDetails, detail{p.to, p.n})
	}
	return fmt.Sprintf("%+v", v)
}
func parse(s string) string {
	var v transfer
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		return err.Error()
	}
	return fmt.Sprintf("%+v", v)
}

func TestT13_Create(t *testing.T) {
	kit.Check(t, 4000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, _ := request(t, q)
		c.Eval(4)
		c.Class("create long=%v", len(q.outs) > 5)
		c.NonTrivial(tx[:72], tx[88:])
		if len(tx) < 600 {
			c.Sample("%s", tx)
		}
	})
}

func TestT13_Refuse(t *testing.T) {
	kit.Check(t, 6000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		mode := rapid.IntRange(0, 4).Draw(t, "mode")
		i := kit.Pos(t, 0, len(q.outs)-1, "which")
		switch mode {
		case 0, 1:
			p := &q.from
			if rapid.Bool().Draw(t, "out") {
				p = &q.outs[i].Address
			}
			if mode == 0 {
				*p = kit.MutAddr(t, *p, "mut")
			} else {
				b := []byte(kit.Hex(kit.BytesRange(t, 0, 30, "h")))
				if rapid.Bool().Draw(t, "odd") {
					b = kit.BytesRange(t, 0, 45, "raw")
				}
				*p = ref.B58Enc(b, gen.B58)
			}
			if h := hashOf(*p); h != nil && address(h) != *p {
				t.Skip("upper-case text")
			}
		case 2:
			q.outs[i].Amount = 0
		case 3:
			q.outs = gen.None(t, q.outs)
		case 4:
			// a total of 2^64 and more
			q.outs = append(q.outs, fn.Vout{Address: address(kit.Bytes(t, 20, "to2")), Amount: 1<<64 - 1 - uint64(rapid.IntRange(0, 2).Draw(t, "less"))})
		}
		if q.valid() {
			request(t, q)
		} else {
			var tx string
			var err error
			if m := kit.NoPanic(func() {
				tx, _, err = fn.CreateEmptyTransactionAndHash(fn.Vin{Address: q.from}, append(fn.Vouts{}, q.outs...))
			}); m != "" {
				t.Fatalf("%+v: %s", *q, m)
			}
			if err == nil {
				t.Fatalf("%+v cannot be met but gives %s", *q, tx)
			}
			c.NonTrivial(fmt.Sprintf("%+v", *q))
		}
		c.Eval(1)
		c.Class("refuse mode %d valid=%v", mode, q.valid())
	})
}

func sign(t *rapid.T, key, d []byte) []byte {
	sig, _ := gen.ECDSA(t, ref.K1, key, d, func() ([]byte, error) {
		s, err := fn.SignTransaction(kit.Hex(d), key)
		return kit.UnHex(s), err
	}, true, "filenet", "sig")
	return sig
}

func TestT13_Combine(t *testing.T) {
	kit.Check(t, 1500, func(t *rapid.T, c *kit.Case) {
		key := gen.KeyK1(t, "key")
		q := draw(t)
		tx, d := request(t, q)
		sig := sign(t, key, d)
		out, pass := fn.VerifyAndCombineTransaction(tx, kit.Hex(sig), kit.Hex(ref.PubK1(key)))
		if w := signed(kit.UnHex(tx), sig); !pass || parse(out) != w {
			t.Fatalf("%s with %x gives %v\n got %s\nwant %s", tx, sig, pass, out, w)
		}
		c.Eval(1)
		c.Class("combine long=%v", len(q.outs) > 5)
		c.NonTrivial(tx, sig)
		if len(out) < 800 {
			c.Sample("%s", out)
		}
	})
}

func TestT13_Tamper(t *testing.T) {
	kit.Check(t, 1500, func(t *rapid.T, c *kit.Case) {
		key := gen.KeyK1(t, "key")
		q := draw(t)
		tx, d := request(t, q)
		sig := sign(t, key, d)
		pub := ref.PubK1(key)
		var stxt, ptxt string
		kit.Before(t, func() { fn.VerifyAndCombineTransaction(tx, kit.Hex(sig), kit.Hex(pub)) })
		mode := rapid.IntRange(0, 6).Draw(t, "mode")
		switch mode {
		case 6: // text that is not hexadecimal
			switch rapid.IntRange(0, 2).Draw(t, "what") {
			case 0:
				tx = gen.Junk(t, tx)
			case 1:
				stxt = gen.Junk(t, kit.Hex(sig))
			case 2:
				ptxt = gen.Junk(t, kit.Hex(pub))
			}
		case 0:
			tx = kit.Hex(gen.Flip(t, kit.UnHex(tx), 0, "tx"))
		case 1:
			sig = gen.Flip(t, sig, 0, "sigflip")
		case 2:
			sig = kit.BytesRange(t, 0, 70, "siglen")
		case 3:
			pub = ref.PubK1(gen.OtherScalar(t, ref.NK1, key, "other"))
		case 4:
			if pub = kit.BytesRange(t, 0, 66, "publen"); string(pub) == string(ref.PubK1(key)) {
				t.Skip("same key")
			}
		case 5:
			if b := kit.MutBytes(t, kit.UnHex(tx), "mut"); kit.Hex(b) != tx {
				tx = kit.Hex(b)
			} else {
				t.Skip("same")
			}
		}
		if stxt == "" {
			stxt = kit.Hex(sig)
		}
		if ptxt == "" {
			ptxt = kit.Hex(pub)
		}
		var pass bool
		var out string
		if m := kit.NoPanic(func() { out, pass = fn.VerifyAndCombineTransaction(tx, stxt, ptxt) }); m != "" {
			t.Fatalf("%s %x %x: %s", tx, sig, pub, m)
		}
		if pass || out != "" {
			t.Fatalf("mode %d: %s with %x under %x gives %v %s", mode, tx, sig, pub, pass, out)
		}
		c.Eval(1)
		c.Class("tamper mode %d", mode)
		c.NonTrivial(tx, sig, pub)
	})
}

func TestT13_Robust(t *testing.T) {
	kit.Check(t, 1500, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		if len(q.outs) > 5 {
			q.outs = q.outs[:5]
		}
		tx, _ := request(t, q)
		raw := kit.MutBytes(t, kit.UnHex(tx), "mut")
		if len(raw) > 28 && kit.OneIn(t, 3, "count") {
			copy(raw[20:28], ref.LE64(kit.U64(t, "count2")))
		}
		// validly signed, so that only the transaction's own form can be refused
		key := []byte{31: 7}
		sig := ref.LowS(ref.K1, ref.SignWith(ref.K1, key, []byte{31: 9}, ref.Sha256(raw)))
		var pass bool
		var out string
		if m := kit.NoPanic(func() {
			out, pass = fn.VerifyAndCombineTransaction(kit.Hex(raw), kit.Hex(sig), kit.Hex(ref.PubK1(key)))
		}); m != "" {
			t.Fatalf("%x %x: %s", raw, sig, m)
		}
		if pass && (!well(raw) || parse(out) != signed(raw, sig)) || !pass && out != "" {
			t.Fatalf("%x with %x gives %v %s", raw, sig, pass, out)
		}
		txt, s, pub := kit.MutStr(t, tx, "txt"), kit.MutStr(t, kit.Hex(sig), "sigmut"), kit.MutStr(t, kit.Hex(ref.PubK1(key)), "pubmut")
		h, k := kit.MutStr(t, kit.Hex(ref.Sha256(raw)), "hash"), kit.BytesRange(t, 0, 40, "key")
		if m := kit.NoPanic(func() {
			fn.VerifyAndCombineTransaction(txt, s, pub)
			fn.VerifyAndCombineTransaction(kit.Hex(raw), kit.Hex(sig), pub)
			fn.SignTransaction(h, k)
			fn.SignTransaction(kit.Hex(ref.Sha256(raw)), k)
		}); m != "" {
			t.Fatalf("%s %x %s %s, %s %x: %s", txt, raw, s, pub, h, k, m)
		}
		c.Eval(5)
		c.Class("robust well=%v", well(raw))
		c.NonTrivial(raw, txt, s, pub, h, k)
	})
}
