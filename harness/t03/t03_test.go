package t03

import (
	"fmt"
	"testing"

	ela "github.com/blocktree/go-owcdrivers/elastosTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

type rq struct {
	ins  []ela.Vin
	outs []ela.Vout
}

func prog(a string) ([]byte, bool) {
	b, err := ref.B58CheckDec(a, gen.B58, "doubleSHA256")
	return b, err == nil && len(b) == 21 && b[0] == 0x21
}

func isID(s string) bool { return len(s) == 64 && gen.IsHex(s) }

func (q *rq) valid() bool {
	ok := len(q.ins) > 0 && len(q.outs) > 0
	for _, i := range q.ins {
		ok = ok && isID(i.TxID)
	}
	for _, o := range q.outs {
		_, k := prog(o.Address)
		ok = ok && k && isID(o.AssetID)
	}
	return ok
}

func (q *rq) bytes() []byte {
	o := ref.Cat([]byte{2, 0, 0}, ref.VarInt(uint64(len(q.ins))))
	for _, i := range q.ins {
		o = append(o, ref.Cat(ref.Rev(kit.UnHex(i.TxID)), ref.LE16(i.Vout), []byte{255, 255, 255, 255})...)
	}
	o = append(o, ref.VarInt(uint64(len(q.outs)))...)
	for _, x := range q.outs {
		p, _ := prog(x.Address)
		o = append(o, ref.Cat(ref.Rev(kit.UnHex(x.AssetID)), ref.LE64(x.Amount), make([]byte, 4), p)...)
	}
	return append(o, 0, 0, 0, 0)
}

func draw(t *rapid.T, small bool) *rq {
	q := &rq{}
	var ni, no int
	if small {
		ni, no = gen.Few(t, 3, "ni"), gen.Few(t, 3, "no")
	} else {
		ni, no = gen.Count(t, "ni"), gen.Count(t, "no")
	}
	r := kit.NewPRNG(rapid.Uint64().Draw(t, "seed"))
	var senders []string
	for i := 0; i < 3; i++ {
		senders = append(senders, gen.Addr58([]byte{0x21}, kit.Bytes(t, 20, "sender")))
	}
	for i := 0; i < ni; i++ {
		id := make([]byte, 32)
		r.Read(id)
		v, who := uint16(r.Next()), r.Intn(3)
		if i < 4 {
			id, v, who = kit.Bytes(t, 32, "txid"), uint16(kit.U64Range(t, 0, 65535, "vout")), rapid.IntRange(0, 2).Draw(t, "who")
		}
		q.ins = append(q.ins, ela.Vin{TxID: kit.Hex(id), Vout: v, Address: senders[who]})
	}
	for i := 0; i < no; i++ {
		h := make([]byte, 20)
		r.Read(h)
		am, as := r.Next()>>1, ela.AssetID_ELA
		if i < 4 {
			h, am = kit.Bytes(t, 20, "hash"), kit.U64Range(t, 0, 1<<63-1, "amount")
			if rapid.Bool().Draw(t, "other asset") {
				as = kit.Hex(kit.Bytes(t, 32, "asset"))
			}
		}
		q.outs = append(q.outs, ela.Vout{AssetID: as, Amount: am, Address: gen.Addr58([]byte{0x21}, h)})
	}
	return q
}

func request(t *rapid.T, q *rq) (string, []ela.TxHash) {
	tx, hashes, err := ela.CreateEmptyRawTransactionAndHash(q.ins, q.outs)
	if err != nil {
		t.Fatalf("%+v refused: %v", *q, err)
	}
	b := q.bytes()
	if tx != kit.Hex(b) {
		t.Fatalf("transaction differs\n got %s\nwant %x", tx, b)
	}
	want := map[string]bool{}
	for _, i := range q.ins {
		want[i.Address] = true
	}
	for _, h := range hashes {
		if !want[h.Address] || h.Hash != kit.Hex(ref.Sha256(b)) {
			t.Fatalf("%+v: digests %+v, want one of %x per sender", *q, hashes, ref.Sha256(b))
		}
		delete(want, h.Address)
	}
	if len(want) != 0 {
		t.Fatalf("%+v: digests %+v lack %v", *q, hashes, want)
	}
	return tx, hashes
}

func TestT03_Create(t *testing.T) {
	kit.Check(t, 4000, func(t *rapid.T, c *kit.Case) {
		q := draw(t, false)
		tx, h := request(t, q)
		c.Eval(1 + len(h))
		c.Class("create senders=%d", len(h))
		if len(q.ins) > 127 || len(q.outs) > 127 {
			c.Class("long lists")
		}
		c.NonTrivial(fmt.Sprintf("%+v", *q))
		c.Sample("%s", tx)
	})
}

func TestT03_Refuse(t *testing.T) {
	kit.Check(t, 8000, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true)
		k, j := kit.Pos(t, 0, len(q.outs)-1, "out"), kit.Pos(t, 0, len(q.ins)-1, "in")
		mode := rapid.IntRange(0, 7).Draw(t, "mode")
		id := func() string {
			if rapid.Bool().Draw(t, "txt") {
				return kit.MutStr(t, kit.Hex(kit.Bytes(t, 32, "id")), "mut")
			}
			return kit.Hex(kit.BytesRange(t, 0, 64, "id"))
		}
		switch mode {
		case 0:
			q.outs[k].Address = kit.MutAddr(t, q.outs[k].Address, "mut")
		case 1:
			q.outs[k].Address = gen.Addr58(kit.BytesRange(t, 0, 3, "ver"), kit.BytesRange(t, 0, 40, "hash"))
		case 2:
			q.outs[k].Address = gen.Addr58([]byte{0x21}, kit.BytesRange(t, 0, 40, "hash"))
		case 3:
			q.outs[k].Address = kit.Str(t, gen.B58+"0OIl", 0, 10, "str")
		case 4:
			q.ins[j].TxID = id()
		case 5:
			q.outs[k].AssetID = id()
		case 6:
			q.ins = gen.None(t, q.ins)
		case 7:
			q.outs = gen.None(t, q.outs)
		}
		if q.valid() {
			request(t, q)
		} else {
			var tx string
			var err error
			if m := kit.NoPanic(func() { tx, _, err = ela.CreateEmptyRawTransactionAndHash(q.ins, q.outs) }); m != "" {
				t.Fatalf("%+v: %s", *q, m)
			}
			if err == nil {
				t.Fatalf("%+v cannot be met but gives %s", *q, tx)
			}
			c.NonTrivial(fmt.Sprintf("%+v", *q))
		}
		c.Eval(1)
		c.Class("refuse mode %d valid=%v", mode, q.valid())
	})
}

func sig(t *rapid.T, k []byte, d []byte) []byte {
	s := ref.SignWith(ref.R1, k, kit.Scalar(t, ref.NR1, "nonce"), d)
	if s == nil {
		t.Skip("nonce")
	}
	return s
}

func TestT03_Combine(t *testing.T) {
	kit.Check(t, 200, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true)
		tx, hashes := request(t, q)
		n := len(hashes)
		if kit.OneIn(t, 50, "many") {
			n = rapid.IntRange(120, 260).Draw(t, "n")
		}
		var sps []ela.SigPub
		good := true
		want := ref.Cat(q.bytes(), ref.VarInt(uint64(n)))
		for i := 0; i < n; i++ {
			if i >= 3 {
				sps = append(sps, sps[2])
				want = ref.Cat(want, want[len(want)-102:])
				continue
			}
			key := gen.KeyR1(t, "key")
			s, ok := gen.ECDSA(t, ref.R1, key, ref.Sha256(q.bytes()), func() ([]byte, error) { return ela.SignRawTransaction(hashes[0].Hash, key) }, !kit.OneIn(t, 5, "arb"), "elastos", "sig")
			good = good && ok
			p := ref.PubR1(key)
			sps = append(sps, ela.SigPub{PublicKey: p, Signature: s})
			want = ref.Cat(want, []byte{0x41, 0x40}, s, []byte{0x23, 0x21}, p, []byte{0xac})
		}
		pass, out := ela.VerifyAndCombineRawTransaction(tx, sps)
		if good {
			if !pass || out != kit.Hex(want) {
				t.Fatalf("%s %x: %v\n got %s\nwant %x", tx, sps, pass, out, want)
			}
		} else if pass || out != "" {
			t.Fatalf("%s with invalid signatures %x combined to %s", tx, sps, out)
		}
		c.Eval(1)
		c.Class("combine good=%v", good)
		c.NonTrivial(out, tx)
		c.Sample("%s", out)
	})
}

func TestT03_Tamper(t *testing.T) {
	kit.Check(t, 400, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true)
		tx, hashes := request(t, q)
		var sps []ela.SigPub
		var keys [][]byte
		for range hashes {
			k := gen.KeyR1(t, "key")
			keys = append(keys, k)
			sps = append(sps, ela.SigPub{PublicKey: ref.PubR1(k), Signature: sig(t, k, ref.Sha256(q.bytes()))})
		}
		k := kit.Pos(t, 0, len(sps)-1, "which")
		kit.Before(t, func() { ela.VerifyAndCombineRawTransaction(tx, sps) })
		mode := rapid.IntRange(0, 6).Draw(t, "mode")
		switch mode {
		case 6: // text that is not hexadecimal
			tx = gen.Junk(t, tx)
		case 0:
			tx = kit.Hex(gen.Flip(t, kit.UnHex(tx), 0, "tx"))
		case 1:
			sps[k].Signature = gen.Flip(t, sps[k].Signature, 0, "sig")
		case 2:
			sps[k].PublicKey = gen.Flip(t, sps[k].PublicKey, 0, "pub")
		case 3:
			sps = gen.None(t, sps)
		case 4:
			sps[k].PublicKey = ref.PubR1(gen.OtherScalar(t, ref.NR1, keys[k], "thief"))
		case 5:
			if rapid.Bool().Draw(t, "pub") {
				sps[k].PublicKey = gen.None(t, sps[k].PublicKey)
			} else {
				sps[k].Signature = gen.None(t, sps[k].Signature)
			}
		}
		var pass bool
		var out string
		if m := kit.NoPanic(func() { pass, out = ela.VerifyAndCombineRawTransaction(tx, sps) }); m != "" {
			t.Fatalf("mode %d: %s %x: %s", mode, tx, sps, m)
		}
		if pass || out != "" {
			t.Fatalf("mode %d: tampered %s %x accepted: %v %s", mode, tx, sps, pass, out)
		}
		c.Eval(1)
		c.Class("tamper mode %d", mode)
		c.NonTrivial(tx, fmt.Sprint(sps))
	})
}

func TestT03_Robust(t *testing.T) {
	kit.Check(t, 6000, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true)
		tx, hashes, err := ela.CreateEmptyRawTransactionAndHash(q.ins, q.outs)
		if err != nil {
			t.Fatalf("%v", err)
		}
		var sps []ela.SigPub
		for i := rapid.IntRange(0, 2).Draw(t, "n"); i > 0; i-- {
			sps = append(sps, ela.SigPub{Signature: kit.MutBytes(t, kit.Bytes(t, 64, "sig"), "smut"), PublicKey: kit.MutBytes(t, kit.Bytes(t, 33, "pub"), "pmut")})
		}
		in := kit.MutStr(t, tx, "txt")
		if m := kit.NoPanic(func() { ela.VerifyAndCombineRawTransaction(in, sps) }); m != "" {
			t.Fatalf("%s %x: %s", in, sps, m)
		}
		h, key := kit.MutStr(t, hashes[0].Hash, "hash"), kit.BytesRange(t, 0, 40, "key")
		if m := kit.NoPanic(func() { ela.SignRawTransaction(h, key) }); m != "" {
			t.Fatalf("sign %q %x: %s", h, key, m)
		}
		a := kit.Str(t, gen.B58+"0", 0, 40, "addr")
		if m := kit.NoPanic(func() { ela.DecodeCheck(a); ela.GetProgramHashFromAddress(a) }); m != "" {
			t.Fatalf("address %q: %s", a, m)
		}
		c.Eval(3)
		c.Class("robust")
		c.NonTrivial(in, h, a)
	})
}

// Lists so long that their count takes more than two bytes.
func TestT03_Large(t *testing.T) {
	if kit.Brief() {
		t.Skip("large")
	}
	kit.Check(t, 4, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true)
		n, in := gen.Long(t, "n"), rapid.Bool().Draw(t, "inputs")
		few := *q
		for i := 0; i < n; i++ {
			if in {
				v := few.ins[i%len(few.ins)]
				v.Vout = uint16(i)
				if i == 0 {
					q.ins = nil
				}
				q.ins = append(q.ins, v)
			} else {
				v := few.outs[i%len(few.outs)]
				v.Amount ^= uint64(i)
				if i == 0 {
					q.outs = nil
				}
				q.outs = append(q.outs, v)
			}
		}
		tx, hashes, err := ela.CreateEmptyRawTransactionAndHash(q.ins, q.outs)
		if err != nil {
			t.Fatalf("%d like %+v (inputs: %v) refused: %v", n, few, in, err)
		}
		b := q.bytes()
		if tx != kit.Hex(b) {
			t.Fatalf("%d like %+v (inputs: %v): %s", n, few, in, gen.Diff(tx, kit.Hex(b)))
		}
		for _, h := range hashes {
			if h.Hash != kit.Hex(ref.Sha256(b)) {
				t.Fatalf("%d like %+v (inputs: %v): digest %s, want %x", n, few, in, h.Hash, ref.Sha256(b))
			}
		}
		c.Eval(2)
		c.Class("%d entries, inputs: %v", n, in)
		c.NonTrivial(n, in, fmt.Sprint(few))
	})
}
