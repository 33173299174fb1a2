package t05

import (
	"fmt"
	"testing"

	mvs "github.com/blocktree/go-owcdrivers/mateverseTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

type in struct {
	id   []byte // as displayed
	vout uint32
	seq  uint32
	key  []byte
	text string // lock script as given to the driver
	lock []byte // lock script in bytes
}

type rtx struct {
	ins  []in
	rest []byte
}

func (x *rtx) bytes(script func(i int) []byte) []byte {
	o := ref.Cat(ref.LE32(4), ref.VarInt(uint64(len(x.ins))))
	for i, v := range x.ins {
		o = ref.Cat(o, ref.Rev(v.id), ref.LE32(v.vout), ref.VarBytes(script(i)), ref.LE32(v.seq))
	}
	return append(o, x.rest...)
}
func (x *rtx) empty() string { return kit.Hex(x.bytes(func(int) []byte { return nil })) }
func (x *rtx) digest(k int) []byte {
	return ref.DSha256(x.bytes(func(i int) []byte {
		if i == k {
			return x.ins[i].lock
		}
		return nil
	}), ref.LE32(1))
}

func sp(t *rapid.T) string { return rapid.SampledFrom([]string{" ", "", "  "}).Draw(t, "sp") }

func draw(t *rapid.T, small bool) *rtx {
	x := &rtx{}
	ni := gen.Few(t, 3, "ni")
	if !small {
		ni = gen.Count(t, "ni")
	}
	r := kit.NewPRNG(rapid.Uint64().Draw(t, "seed"))
	for i := 0; i < ni; i++ {
		v := in{id: make([]byte, 32), vout: uint32(r.Next()), seq: uint32(r.Next()), key: ref.Cat(make([]byte, 31), []byte{1})}
		r.Read(v.id)
		form := 0
		if i < 4 {
			v = in{id: kit.Bytes(t, 32, "txid"), vout: kit.U32(t, "vout"), seq: kit.U32(t, "sequence"), key: gen.KeyK1(t, "key")}
			form = rapid.IntRange(0, 2).Draw(t, "form")
		}
		h := ref.H160(ref.PubK1(v.key))
		switch form {
		case 0:
			v.text, v.lock = "dup hash160 [ "+kit.Hex(h)+" ] equalverify checksig", ref.P2PKH(h)
		case 1:
			n := rapid.SampledFrom([]int{0, 1, 38, 75, 76, 150, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 255, 256, 300}).Draw(t, "datalen")
			a, b := kit.Bytes(t, n, "data"), kit.Bytes(t, 36, "outpoint")
			s := sp(t)
			v.text = "[" + s + kit.Hex(a) + s + "] [ " + kit.Hex(b) + " ]" + s + "checkattenuationverify" + s + "dup hash160 [ " + kit.Hex(h) + " ] equalverify checksig"
			v.lock = ref.Cat([]byte{0x4d}, ref.LE16(uint16(n)), a, []byte{36}, b, []byte{0xb2}, ref.P2PKH(h))
		case 2:
			v.lock = kit.Bytes(t, rapid.SampledFrom([]int{25, 26, 100, 252, 253, 255, 256, 300}).Draw(t, "locklen"), "lock")
			v.text = kit.Hex(v.lock)
		}
		x.ins = append(x.ins, v)
	}
	x.rest = kit.BytesRange(t, 1, 80, "rest")
	return x
}

// open reads the inputs of the transaction, checks them and sets the lock scripts.
func open(t *rapid.T, x *rtx) []*mvs.TxInput {
	got, err := mvs.GetInputsFromEmptyRawTransaction(x.empty())
	if err != nil || len(got) != len(x.ins) {
		t.Fatalf("inputs of %s: %v, %v", x.empty(), got, err)
	}
	for i, g := range got {
		if g.GetTxID() != kit.Hex(x.ins[i].id) || g.GetVout() != x.ins[i].vout {
			t.Fatalf("input %d of %s read as %s %d", i, x.empty(), g.GetTxID(), g.GetVout())
		}
		g.SetLockScript(x.ins[i].text)
	}
	return got
}

func digests(t *rapid.T, x *rtx, g []*mvs.TxInput) {
	if err := mvs.GetSigHash(x.empty(), &g); err != nil {
		t.Fatalf("%s: %v", x.empty(), err)
	}
	for i, v := range g {
		if v.GetHash() != kit.Hex(x.digest(i)) {
			t.Fatalf("digest %d of %s with %q is %s, want %x", i, x.empty(), x.ins[i].text, v.GetHash(), x.digest(i))
		}
	}
}

func TestT05_Create(t *testing.T) {
	kit.Check(t, 2000, func(t *rapid.T, c *kit.Case) {
		x := draw(t, false)
		digests(t, x, open(t, x))
		c.Eval(1 + len(x.ins))
		c.Class("digests")
		if len(x.ins) > 252 {
			c.Class("long list")
		}
		c.NonTrivial(x.empty(), x.ins[0].text)
		c.Sample("%s %q", x.empty(), x.ins[0].text)
	})
}

func TestT05_Refuse(t *testing.T) {
	kit.Check(t, 4000, func(t *rapid.T, c *kit.Case) {
		x := draw(t, true)
		mode := rapid.IntRange(0, 7).Draw(t, "mode")
		k := kit.Pos(t, 0, len(x.ins)-1, "which")
		b := kit.UnHex(x.empty())
		raw := ""
		switch mode {
		case 0: // cut inside the inputs or right behind them
			raw = kit.Hex(b[:kit.Pos(t, 0, len(b)-len(x.rest), "cut")])
		case 1: // version
			v := kit.U32(t, "version")
			if v == 4 {
				t.Skip("version")
			}
			raw = kit.Hex(ref.Cat(ref.LE32(v), b[4:]))
		case 2: // already signed
			raw = kit.Hex(x.bytes(func(i int) []byte {
				if i == k {
					return kit.Bytes(t, 5, "script")
				}
				return nil
			}))
		case 3: // no inputs
			raw = kit.Hex(ref.Cat(ref.LE32(4), rapid.SampledFrom([][]byte{{0}, {0xfd, 0, 0}}).Draw(t, "none"), x.rest))
		}
		if mode == 7 { // a count of a wider form than these numbers are written in
			n := uint32(len(x.ins))
			head := 5
			if n >= 0xfd {
				head = 7
			}
			raw = kit.Hex(ref.Cat(ref.LE32(4), rapid.SampledFrom([][]byte{
				ref.Cat([]byte{0xfe}, ref.LE32(n)), ref.Cat([]byte{0xff}, ref.LE32(n), ref.LE32(0)),
				ref.Cat([]byte{0xfe}, ref.LE32(n)[:2]), ref.Cat([]byte{0xff}, ref.LE32(n)[:2]), ref.Cat([]byte{0xfe}), ref.Cat([]byte{0xff}),
			}).Draw(t, "wide"), b[head:]))
		}
		if mode < 4 || mode == 7 {
			var g []*mvs.TxInput
			var err error
			if m := kit.NoPanic(func() { g, err = mvs.GetInputsFromEmptyRawTransaction(raw) }); m != "" {
				t.Fatalf("%s: %s", raw, m)
			}
			if err == nil {
				t.Fatalf("%s read as a transaction with %d inputs", raw, len(g))
			}
			c.NonTrivial(raw)
		} else {
			g := open(t, x)
			switch mode {
			case 4: // lock script
				bad := ""
				switch rapid.IntRange(0, 4).Draw(t, "bad") {
				case 1:
					bad = kit.Hex(kit.BytesRange(t, 0, 24, "short"))
				case 2:
					bad = "dup hash256 [ " + kit.Hex(kit.Bytes(t, 20, "h")) + " ] equalverify checksig"
				case 3:
					bad = "[ " + kit.Hex(kit.Bytes(t, 20, "h")) + " ] dup hash160 [ " + kit.Hex(kit.Bytes(t, 20, "h")) + " ] equalverify checksig"
				case 4:
					s := []byte(kit.Hex(kit.Bytes(t, 30, "h")))
					s[kit.Pos(t, 0, len(s)-1, "pos")] = 'x'
					bad = string(s)
				}
				g[k].SetLockScript(bad)
			case 5: // inputs missing
				g = g[:len(g)-1]
			case 6: // inputs of another transaction
				y := draw(t, true)
				h := open(t, y)
				g = append(append([]*mvs.TxInput{}, g[:k]...), h...)
				same := len(g) == len(x.ins)
				for i := range g {
					same = same && g[i].GetTxID() == kit.Hex(x.ins[i].id) && g[i].GetVout() == x.ins[i].vout
				}
				if same {
					t.Skip("same")
				}
			}
			var err error
			if m := kit.NoPanic(func() { err = mvs.GetSigHash(x.empty(), &g) }); m != "" {
				t.Fatalf("mode %d %s: %s", mode, x.empty(), m)
			}
			if err == nil {
				t.Fatalf("mode %d: digests for %s with the wrong inputs or scripts", mode, x.empty())
			}
			c.NonTrivial(x.empty(), mode, k)
		}
		c.Eval(1)
		c.Class("refuse mode %d", mode)
	})
}

func TestT05_Combine(t *testing.T) {
	kit.Check(t, 600, func(t *rapid.T, c *kit.Case) {
		x := draw(t, true)
		if kit.Rare(t, 100, "many") {
			key := ref.Cat(make([]byte, 31), []byte{1})
			h := ref.H160(ref.PubK1(key))
			for n := rapid.SampledFrom([]int{252, 253, 256}).Draw(t, "n"); len(x.ins) < n; {
				x.ins = append(x.ins, in{id: ref.Sha256(ref.LE32(uint32(len(x.ins)))), vout: 7, seq: 9, key: key, text: "dup hash160 [ " + kit.Hex(h) + " ] equalverify checksig", lock: ref.P2PKH(h)})
			}
			c.Class("many inputs")
		}
		g := open(t, x)
		digests(t, x, g)
		good := true
		var sc, lo [][]byte
		high := kit.Rare(t, 6, "high")
		for i := range g {
			i := i
			s, ok := ref.LowS(ref.K1, ref.SignWith(ref.K1, x.ins[i].key, ref.HalfNonce, x.digest(i))), true
			if i < 4 {
				s, ok = gen.ECDSA(t, ref.K1, x.ins[i].key, x.digest(i), func() ([]byte, error) {
					h, err := mvs.SignTransaction(g[i].GetHash(), x.ins[i].key)
					return kit.UnHex(h), err
				}, !kit.OneIn(t, 5, "arb"), "mateverse", "sig")
			}
			good = good && ok
			p := ref.PubK1(x.ins[i].key)
			lo = append(lo, ref.Cat(ref.Push(append(ref.DER(s), 1)), ref.Push(p)))
			if high && ok {
				s = gen.HighS(ref.K1, s)
			}
			g[i].SetSignature(kit.Hex(s))
			g[i].SetPubKey(kit.Hex(p))
			sc = append(sc, ref.Cat(ref.Push(append(ref.DER(s), 1)), ref.Push(p)))
		}
		pass, out := mvs.VerifyAndCombineTransaction(x.empty(), g)
		if good && high {
			if pass != (out != "") || pass && out != kit.Hex(x.bytes(func(i int) []byte { return sc[i] })) && out != kit.Hex(x.bytes(func(i int) []byte { return lo[i] })) {
				t.Fatalf("%s: high s %v\n got %s", x.empty(), pass, out)
			}
		} else if good {
			if w := kit.Hex(x.bytes(func(i int) []byte { return sc[i] })); !pass || out != w {
				t.Fatalf("%s: %v\n got %s\nwant %s", x.empty(), pass, out, w)
			}
		} else if pass || out != "" {
			t.Fatalf("%s with invalid signatures combined to %s", x.empty(), out)
		}
		c.Eval(1)
		c.Class("combine good=%v high=%v", good, high)
		c.NonTrivial(out, x.empty())
		c.Sample("%s", out)
	})
}

func TestT05_Tamper(t *testing.T) {
	kit.Check(t, 1200, func(t *rapid.T, c *kit.Case) {
		x := draw(t, true)
		g := open(t, x)
		digests(t, x, g)
		sigs := make([][]byte, len(g))
		for i := range g {
			s := ref.SignWith(ref.K1, x.ins[i].key, kit.Scalar(t, ref.NK1, "nonce"), x.digest(i))
			if s == nil {
				t.Skip("nonce")
			}
			sigs[i] = ref.LowS(ref.K1, s)
			g[i].SetSignature(kit.Hex(ref.LowS(ref.K1, s)))
			g[i].SetPubKey(kit.Hex(ref.PubK1(x.ins[i].key)))
			x.ins[i].id = append([]byte{}, x.ins[i].id...)
		}
		k := kit.Pos(t, 0, len(g)-1, "which")
		kit.Before(t, func() { mvs.VerifyAndCombineTransaction(x.empty(), g) })
		mode := rapid.IntRange(0, 9).Draw(t, "mode")
		tx := x.empty()
		switch mode {
		case 9: // text that is not hexadecimal
			switch rapid.IntRange(0, 2).Draw(t, "what") {
			case 0:
				tx = gen.Junk(t, tx)
			case 1:
				g[k].SetSignature(gen.Junk(t, kit.Hex(sigs[k])))
			case 2:
				g[k].SetPubKey(gen.Junk(t, kit.Hex(ref.PubK1(x.ins[k].key))))
			}
		case 0:
			tx = kit.Hex(gen.Flip(t, kit.UnHex(tx), 0, "tx"))
		case 1:
			g[k].SetSignature(kit.Hex(gen.Flip(t, sigs[k], 0, "sig")))
		case 2:
			g[k].SetPubKey(kit.Hex(gen.Flip(t, ref.PubK1(x.ins[k].key), 0, "pub")))
		case 3:
			g = g[:len(g)-1]
		case 4:
			g = append(g, g[0])
		case 5:
			g[k].SetPubKey(kit.Hex(ref.PubK1(gen.OtherScalar(t, ref.NK1, x.ins[k].key, "thief"))))
		case 6:
			g[k].SetLockScript(kit.Hex(gen.Flip(t, x.ins[k].lock, 0, "lock")))
		case 7:
			g[k] = nil
		case 8:
			if len(g) < 2 {
				t.Skip("one input")
			}
			j := (k + 1) % len(g)
			if string(x.ins[j].id) == string(x.ins[k].id) && x.ins[j].vout == x.ins[k].vout && x.ins[j].seq == x.ins[k].seq {
				t.Skip("equal inputs")
			}
			g[j], g[k] = g[k], g[j]
		}
		var pass bool
		var out string
		if m := kit.NoPanic(func() { pass, out = mvs.VerifyAndCombineTransaction(tx, g) }); m != "" {
			t.Fatalf("mode %d: %s: %s", mode, tx, m)
		}
		if pass || out != "" {
			t.Fatalf("mode %d: tampered %s accepted: %v %s", mode, tx, pass, out)
		}
		c.Eval(1)
		c.Class("tamper mode %d", mode)
		c.NonTrivial(tx, fmt.Sprint(mode, k))
	})
}

func TestT05_Robust(t *testing.T) {
	kit.Check(t, 6000, func(t *rapid.T, c *kit.Case) {
		x := draw(t, true)
		raw := kit.MutHex(t, x.empty(), "hexmut")
		if rapid.Bool().Draw(t, "text") {
			raw = kit.MutStr(t, raw, "txt")
		}
		g := open(t, x)
		script := kit.MutStr(t, x.ins[0].text, "script")
		sig, pub := kit.MutStr(t, kit.Hex(kit.Bytes(t, 64, "sig")), "smut"), kit.MutStr(t, kit.Hex(ref.PubK1(x.ins[0].key)), "pmut")
		h, key := kit.MutStr(t, kit.Hex(kit.Bytes(t, 32, "h")), "hash"), kit.BytesRange(t, 0, 40, "key")
		if m := kit.NoPanic(func() {
			if r, err := mvs.GetInputsFromEmptyRawTransaction(raw); err == nil {
				for _, v := range r {
					v.SetLockScript(script)
				}
				mvs.GetSigHash(raw, &r)
				for _, v := range r {
					v.SetSignature(sig)
					v.SetPubKey(pub)
				}
				mvs.VerifyAndCombineTransaction(raw, r)
			}
			g[0].SetLockScript(script)
			mvs.GetSigHash(raw, &g)
			mvs.GetSigHash(x.empty(), &g)
			g[0].SetSignature(sig)
			g[0].SetPubKey(pub)
			mvs.VerifyAndCombineTransaction(raw, g)
			mvs.VerifyAndCombineTransaction(x.empty(), g)
			mvs.VerifyAndCombineTransaction(raw, nil)
			mvs.SignTransaction(h, key)
		}); m != "" {
			t.Fatalf("%s %q %s %s: %s", raw, script, sig, pub, m)
		}
		c.Eval(6)
		c.Class("robust")
		c.NonTrivial(raw, script, sig, pub)
	})
}
