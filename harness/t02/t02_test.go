package t02

import (
	"fmt"
	"strings"
	"testing"

	hc "github.com/blocktree/go-owcdrivers/hypercashTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

type rq struct {
	ins    []hc.Vin
	outs   []hc.Vout
	omni   bool // outs[0] receives the token, outs[1], if any, the change
	amount uint64
	prop   uint32
	lock   uint32
	expiry uint32
	keys   [][]byte
}

func (q *rq) create() (string, []string, error) {
	if !q.omni {
		return hc.CreateEmptyTransactionAndHash(q.ins, q.outs, q.lock, q.expiry)
	}
	var to, change *hc.Vout
	if len(q.outs) > 0 {
		to = &q.outs[0]
	}
	if len(q.outs) > 1 {
		change = &q.outs[1]
	}
	return hc.CreateOmniEmptyTransactionAndHash(q.ins, to, change, q.amount, q.prop, q.lock, q.expiry)
}

var prefix = []byte{0x09, 0x7f}

func addr(v, h []byte) string { return ref.B58CheckEnc(ref.Cat(v, h), gen.B58, "doubleBlake256") }

func script(a string) ([]byte, bool) {
	b, err := ref.B58CheckDec(a, gen.B58, "doubleBlake256")
	if err != nil || len(b) != 22 || b[0] != 9 || b[1] != 0x7f {
		return nil, false
	}
	return ref.P2PKH(b[2:]), true
}

func (q *rq) valid() bool {
	ok := len(q.ins) > 0 && len(q.outs) > 0
	for _, i := range q.ins {
		ok = ok && len(i.TxID) == 64 && gen.IsHex(i.TxID) && gen.IsHex(i.LockScript)
	}
	for _, o := range q.outs {
		_, k := script(o.Address)
		ok = ok && k
	}
	return ok
}

func (q *rq) prefixBytes(ser byte) []byte {
	o := ref.Cat([]byte{1, 0, ser, 0}, ref.VarInt(uint64(len(q.ins))))
	for _, i := range q.ins {
		o = ref.Cat(o, ref.Rev(kit.UnHex(i.TxID)), ref.LE32(i.Vout), []byte{i.Tree, 255, 255, 255, 255})
	}
	var outs [][]byte
	for k, x := range q.outs {
		s, _ := script(x.Address)
		outs = append(outs, ref.Cat(ref.LE64(x.Amount), []byte{0, 0}, ref.VarBytes(s)))
		if q.omni && k == 0 {
			p := ref.Cat([]byte("omni"), make([]byte, 4), ref.BE32(q.prop), ref.BE64(q.amount))
			outs = append(outs, ref.Cat(ref.LE64(0), []byte{0, 0}, ref.VarBytes(ref.Cat([]byte{0x6a, byte(len(p))}, p))))
		}
	}
	o = append(o, ref.VarInt(uint64(len(outs)))...)
	for _, x := range outs {
		o = append(o, x...)
	}
	return ref.Cat(o, ref.LE32(q.lock), ref.LE32(q.expiry))
}

func (q *rq) digest(k int) []byte {
	w := ref.Cat([]byte{1, 0, 3, 0}, ref.VarInt(uint64(len(q.ins))))
	for i, in := range q.ins {
		var s []byte
		if i == k {
			s = kit.UnHex(in.LockScript)
		}
		w = append(w, ref.VarBytes(s)...)
	}
	return ref.Blake256(ref.Cat(ref.LE32(1), ref.Blake256(q.prefixBytes(1)), ref.Blake256(w)))
}

func witness(i hc.Vin) []byte {
	return ref.Cat(ref.LE64(i.Amount), ref.LE32(i.BlockHeight), ref.LE32(i.BlockIndex))
}

func draw(t *rapid.T, small bool) *rq {
	q := &rq{omni: rapid.Bool().Draw(t, "omni")}
	var ni, no int
	if small {
		ni, no = gen.Few(t, 3, "ni"), gen.Few(t, 3, "no")
	} else {
		ni, no = gen.Count(t, "ni"), gen.Count(t, "no")
	}
	if q.omni {
		no = rapid.IntRange(1, 2).Draw(t, "change")
	}
	r := kit.NewPRNG(rapid.Uint64().Draw(t, "seed"))
	for i := 0; i < ni; i++ {
		id := make([]byte, 32)
		r.Read(id)
		v := hc.Vin{Vout: uint32(r.Next()), Amount: r.Next(), BlockHeight: uint32(r.Next()), BlockIndex: uint32(r.Next())}
		key := ref.Cat(make([]byte, 31), []byte{1})
		if i < 4 {
			id, key = kit.Bytes(t, 32, "txid"), gen.KeyK1(t, "key")
			v = hc.Vin{Vout: kit.U32(t, "vout"), Amount: kit.U64(t, "value"), BlockHeight: kit.U32(t, "height"), BlockIndex: kit.U32(t, "index"), Tree: byte(rapid.IntRange(0, 1).Draw(t, "tree"))}
		}
		s := ref.P2PKH(ref.H160(ref.PubK1(key)))
		if !small && kit.OneIn(t, 10, "odd lock") {
			s = kit.Bytes(t, rapid.SampledFrom([]int{0, 1, 23, 252, 253, 255, 256, 300}).Draw(t, "locklen"), "lock")
		}
		v.TxID, v.LockScript = kit.Hex(id), kit.Hex(s)
		q.ins = append(q.ins, v)
		q.keys = append(q.keys, key)
	}
	for i := 0; i < no; i++ {
		h := make([]byte, 20)
		r.Read(h)
		am := r.Next()
		if i < 4 {
			h, am = kit.Bytes(t, 20, "hash"), kit.U64(t, "amount")
		}
		q.outs = append(q.outs, hc.Vout{Amount: am, Address: addr(prefix, h)})
	}
	q.lock, q.expiry = kit.U32(t, "lockTime"), kit.U32(t, "expiry")
	q.amount, q.prop = kit.U64(t, "tokens"), kit.U32(t, "property")
	return q
}

func request(t *rapid.T, q *rq) (string, []string) {
	tx, hashes, err := q.create()
	if err != nil {
		t.Fatalf("%+v refused: %v", *q, err)
	}
	want := kit.Hex(q.prefixBytes(0))
	for _, i := range q.ins {
		s := kit.UnHex(i.LockScript)
		want += ":" + kit.Hex(ref.VarBytes(s)) + "/" + kit.Hex(witness(i))
	}
	if tx != want {
		t.Fatalf("transaction differs\n got %s\nwant %s", tx, want)
	}
	if len(hashes) != len(q.ins) {
		t.Fatalf("%d digests for %d inputs", len(hashes), len(q.ins))
	}
	for i, h := range hashes {
		if h != kit.Hex(q.digest(i)) {
			t.Fatalf("digest %d of %s is %s, want %x", i, tx, h, q.digest(i))
		}
	}
	return tx, hashes
}

func TestT02_Create(t *testing.T) {
	kit.Check(t, 1200, func(t *rapid.T, c *kit.Case) {
		q := draw(t, false)
		tx, _ := request(t, q)
		got, err := hc.GetVinList(tx)
		if err != nil || len(got) != len(q.ins) {
			t.Fatalf("listing the inputs of %s: %v %v", tx, got, err)
		}
		for i, v := range got {
			if v.TxID != q.ins[i].TxID || v.Vout != q.ins[i].Vout {
				t.Fatalf("input %d of %s is listed as %+v", i, tx, v)
			}
		}
		c.Eval(2 + len(q.ins))
		c.Class("create omni=%v", q.omni)
		if len(q.ins) > 252 || len(q.outs) > 252 {
			c.Class("long lists")
		}
		c.NonTrivial(fmt.Sprintf("%+v", *q))
		c.Sample("%s", tx)
	})
}

func TestT02_Refuse(t *testing.T) {
	kit.Check(t, 6000, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true)
		k, j := kit.Pos(t, 0, len(q.outs)-1, "out"), kit.Pos(t, 0, len(q.ins)-1, "in")
		mode := rapid.IntRange(0, 7).Draw(t, "mode")
		switch mode {
		case 0:
			q.outs[k].Address = kit.MutAddr(t, q.outs[k].Address, "mut")
		case 1:
			q.outs[k].Address = addr(kit.BytesRange(t, 0, 3, "ver"), kit.BytesRange(t, 0, 40, "hash"))
		case 2:
			q.outs[k].Address = addr(prefix, kit.BytesRange(t, 0, 40, "hash"))
		case 3:
			q.outs[k].Address = kit.Str(t, gen.B58+"0OIl", 0, 10, "str")
		case 4:
			q.ins[j].TxID = kit.Hex(kit.BytesRange(t, 0, 64, "txid2"))
			if rapid.Bool().Draw(t, "txt") {
				q.ins[j].TxID = kit.MutStr(t, q.ins[j].TxID, "tx")
			}
		case 5:
			q.ins[j].LockScript = kit.MutStr(t, q.ins[j].LockScript, "lockmut")
		case 6:
			q.ins = gen.None(t, q.ins)
		case 7:
			q.outs = gen.None(t, q.outs)
		}
		if q.valid() {
			if strings.ToLower(q.ins[j].TxID+q.ins[j].LockScript) != q.ins[j].TxID+q.ins[j].LockScript {
				t.Skip("case of hexadecimal digits")
			}
			request(t, q)
		} else {
			var tx string
			var err error
			if m := kit.NoPanic(func() { tx, _, err = q.create() }); m != "" {
				t.Fatalf("%+v: %s", *q, m)
			}
			if err == nil {
				t.Fatalf("%+v cannot be met but gives %s", *q, tx)
			}
			c.NonTrivial(fmt.Sprintf("%+v", *q))
		}
		c.Eval(1)
		c.Class("refuse mode %d valid=%v", mode, q.valid())
	})
}

func TestT02_Combine(t *testing.T) {
	kit.Check(t, 600, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true)
		tx, hashes := request(t, q)
		var sps []*hc.SigPub
		good := true
		want := ref.Cat(q.prefixBytes(0), ref.VarInt(uint64(len(q.ins))))
		low := want
		high := kit.Rare(t, 6, "high")
		for i := range q.ins {
			i := i
			s, ok := gen.ECDSA(t, ref.K1, q.keys[i], q.digest(i), func() ([]byte, error) { return hc.SignTransaction(hashes[i], q.keys[i]) }, !kit.OneIn(t, 5, "arb"), "hypercash", "sig")
			good = good && ok
			low = ref.Cat(low, witness(q.ins[i]), ref.VarBytes(ref.Cat(ref.Push(append(ref.DER(s), 1)), ref.Push(ref.PubK1(q.keys[i])))))
			if high && ok {
				s = gen.HighS(ref.K1, s)
			}
			sps = append(sps, &hc.SigPub{Signature: s, PublicKey: ref.PubK1(q.keys[i])})
			want = ref.Cat(want, witness(q.ins[i]), ref.VarBytes(ref.Cat(ref.Push(append(ref.DER(s), 1)), ref.Push(sps[i].PublicKey))))
		}
		pass, out := hc.VerifyAndCombineTransaction(tx, sps)
		if good && high {
			if pass != (out != "") || pass && out != kit.Hex(want) && out != kit.Hex(low) {
				t.Fatalf("%s: %v\n got %s\nwant %x", tx, pass, out, want)
			}
		} else if good {
			if !pass || out != kit.Hex(want) {
				t.Fatalf("%s: %v\n got %s\nwant %x", tx, pass, out, want)
			}
		} else if pass || out != "" {
			t.Fatalf("%s with invalid signatures combined to %s", tx, out)
		}
		c.Eval(1)
		c.Class("combine good=%v omni=%v high=%v", good, q.omni, high)
		c.NonTrivial(out, tx)
		c.Sample("%s", out)
	})
}

func TestT02_Tamper(t *testing.T) {
	kit.Check(t, 800, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true)
		tx, _ := request(t, q)
		var sps []*hc.SigPub
		for i := range q.ins {
			s := ref.SignWith(ref.K1, q.keys[i], kit.Scalar(t, ref.NK1, "nonce"), q.digest(i))
			if s == nil {
				t.Skip("nonce")
			}
			sps = append(sps, &hc.SigPub{Signature: ref.LowS(ref.K1, s), PublicKey: ref.PubK1(q.keys[i])})
		}
		k := kit.Pos(t, 0, len(q.ins)-1, "which")
		parts := strings.Split(tx, ":")
		kit.Before(t, func() { hc.VerifyAndCombineTransaction(tx, sps) })
		mode := rapid.IntRange(0, 11).Draw(t, "mode")
		switch mode {
		case 11: // text that is not hexadecimal
			i := kit.Pos(t, 0, len(parts)-1, "part")
			if p := strings.Split(parts[i], "/"); i > 0 {
				j := rapid.IntRange(0, 1).Draw(t, "half")
				p[j] = gen.Junk(t, p[j])
				parts[i] = strings.Join(p, "/")
			} else {
				parts[i] = gen.Junk(t, parts[i])
			}
		case 8: // every signature is valid, but the text is not what was created
			parts[1+k] = strings.Split(parts[1+k], "/")[0]
		case 9:
			parts[1+k] += "/" + kit.Hex(kit.BytesRange(t, 0, 3, "more"))
		case 10:
			p := strings.Split(parts[1+k], "/")
			b := []byte(p[1])
			b[kit.Pos(t, 0, len(b)-1, "at")] = rapid.SampledFrom([]byte("gz xX-")).Draw(t, "nothex")
			parts[1+k] = p[0] + "/" + string(b)
		case 0:
			parts[0] = kit.Hex(gen.Flip(t, kit.UnHex(parts[0]), 0, "tx"))
		case 1:
			p := strings.Split(parts[1+k], "/")
			p[0] = kit.Hex(gen.Flip(t, kit.UnHex(p[0]), 0, "lock"))
			parts[1+k] = strings.Join(p, "/")
		case 2:
			sps[k].Signature = gen.Flip(t, sps[k].Signature, 0, "sig")
		case 3:
			sps[k].PublicKey = gen.Flip(t, sps[k].PublicKey, 0, "pub")
		case 4:
			sps = sps[:len(sps)-1]
		case 5:
			sps = append(sps, sps[0])
		case 6:
			sps[k].PublicKey = ref.PubK1(gen.OtherScalar(t, ref.NK1, q.keys[k], "thief"))
		case 7:
			sps[k] = nil
		}
		in := strings.Join(parts, ":")
		var pass bool
		var out string
		if m := kit.NoPanic(func() { pass, out = hc.VerifyAndCombineTransaction(in, sps) }); m != "" {
			t.Fatalf("mode %d: %s: %s", mode, in, m)
		}
		if mode == 4 || mode == 5 { // as many lock scripts as inputs, or the list is not one
			if mode == 4 {
				in = strings.Join(parts[:len(parts)-1], ":")
			} else {
				in += ":" + parts[1]
			}
			if got, err := hc.GetVinList(in); err == nil {
				t.Fatalf("inputs of %s listed as %+v", in, got)
			}
		}
		if pass || out != "" {
			t.Fatalf("mode %d: tampered %s accepted: %v %s", mode, in, pass, out)
		}
		c.Eval(1)
		c.Class("tamper mode %d", mode)
		c.NonTrivial(in, fmt.Sprint(mode, k))
	})
}

func TestT02_Robust(t *testing.T) {
	kit.Check(t, 6000, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true)
		tx, hashes, err := q.create()
		if err != nil {
			t.Fatalf("%v", err)
		}
		var sps []*hc.SigPub
		for i := range q.ins {
			sps = append(sps, &hc.SigPub{Signature: kit.MutBytes(t, kit.Bytes(t, 64, "sig"), "smut"), PublicKey: kit.MutBytes(t, ref.PubK1(q.keys[i]), "pmut")})
		}
		if kit.OneIn(t, 4, "nosig") {
			sps = gen.None(t, sps)
		}
		in := tx
		for n := rapid.IntRange(0, 2).Draw(t, "n"); n > 0; n-- {
			if rapid.Bool().Draw(t, "hex") {
				p := strings.SplitN(in, ":", 2)
				p[0] = kit.MutHex(t, p[0], "hexmut")
				in = strings.Join(p, ":")
			} else {
				in = kit.MutStr(t, in, "txt")
			}
		}
		if kit.OneIn(t, 6, "short") {
			in = in[kit.Pos(t, 0, len(in), "cut"):]
			if i := strings.IndexByte(in, ':'); i > 8 {
				in = in[i-rapid.IntRange(0, 8).Draw(t, "keep"):]
			}
		}
		if m := kit.NoPanic(func() { hc.VerifyAndCombineTransaction(in, sps); hc.GetVinList(in) }); m != "" {
			t.Fatalf("%s: %s", in, m)
		}
		h := kit.MutStr(t, hashes[0], "hash")
		key := kit.BytesRange(t, 0, 40, "key")
		if m := kit.NoPanic(func() { hc.SignTransaction(h, key) }); m != "" {
			t.Fatalf("sign %q %x: %s", h, key, m)
		}
		c.Eval(3)
		c.Class("robust")
		c.NonTrivial(in, h)
	})
}

// Lists so long that their count takes more than two bytes.
func TestT02_Large(t *testing.T) {
	if kit.Brief() {
		t.Skip("large")
	}
	kit.Check(t, 4, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true)
		q.omni = false
		q.ins, q.keys = q.ins[:1], q.keys[:1]
		few, n := q.outs, gen.Long(t, "outs")
		q.outs = nil
		for i := 0; i < n; i++ {
			o := few[i%len(few)]
			o.Amount += uint64(i)
			q.outs = append(q.outs, o)
		}
		tx, hashes, err := q.create()
		if err != nil {
			t.Fatalf("%d outputs like %v refused: %v", n, few, err)
		}
		pre := q.prefixBytes(0)
		if want := kit.Hex(pre) + ":" + kit.Hex(ref.VarBytes(kit.UnHex(q.ins[0].LockScript))) + "/" + kit.Hex(witness(q.ins[0])); tx != want {
			t.Fatalf("%d outputs like %v: %s", n, few, gen.Diff(tx, want))
		}
		dig := q.digest(0)
		if len(hashes) != 1 || hashes[0] != kit.Hex(dig) {
			t.Fatalf("%d outputs like %v: digest %v, want %x", n, few, hashes, dig)
		}
		s := ref.LowS(ref.K1, ref.SignWith(ref.K1, q.keys[0], ref.HalfNonce, dig))
		pub := ref.PubK1(q.keys[0])
		want := kit.Hex(ref.Cat(pre, []byte{1}, witness(q.ins[0]), ref.VarBytes(ref.Cat(ref.Push(append(ref.DER(s), 1)), ref.Push(pub)))))
		if pass, out := hc.VerifyAndCombineTransaction(tx, []*hc.SigPub{{Signature: s, PublicKey: pub}}); !pass || out != want {
			t.Fatalf("%d outputs like %v: combined %v: %s", n, few, pass, gen.Diff(out, want))
		}
		c.Eval(3)
		c.Class("%d outputs", n)
		c.NonTrivial(n, fmt.Sprint(few))
	})
}
