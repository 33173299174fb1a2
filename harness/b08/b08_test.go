package b08

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"testing"

	drv "github.com/blocktree/go-owcdrivers/btcLikeTxDriver"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

const (
	pkh = 0x6f
	sh  = 0xc4
	hrp = "tb"
	ht  = 1
)

func addr(v byte, h []byte) string { return gen.Addr58([]byte{v}, h) }

// script is the reference mapping from an address to the lock script it stands for.
func script(a string) ([]byte, bool) {
	if h, g, k, err := ref.Bech32Dec(a); err == nil {
		if h != hrp || k != 1 || len(g) == 0 || g[0] != 0 {
			return nil, false
		}
		p, err := ref.Bits5to8(g[1:])
		if err != nil || len(p) != 20 && len(p) != 32 {
			return nil, false
		}
		return ref.Cat([]byte{0, byte(len(p))}, p), true
	}
	b, err := ref.B58CheckDec(a, gen.B58, "doubleSHA256")
	if err != nil || len(b) != 21 {
		return nil, false
	}
	switch b[0] {
	case pkh:
		return ref.P2PKH(b[1:]), true
	case sh:
		return ref.P2SH(b[1:]), true
	}
	return nil, false
}

func drawAddr(t *rapid.T) string {
	h := kit.Bytes(t, 20, "hash")
	switch rapid.IntRange(0, 3).Draw(t, "addrkind") {
	case 1:
		return addr(sh, h)
	case 2:
		return ref.SegwitAddr(hrp, 0, h)
	case 3:
		return ref.SegwitAddr(hrp, 0, kit.Bytes(t, 32, "prog"))
	}
	return addr(pkh, h)
}

func count(t *rapid.T, l string) int {
	if kit.OneIn(t, 30, l+".big") {
		if kit.OneIn(t, 3, l+".mid") {
			return kit.Pos(t, 6, 130, l+".n")
		}
		return rapid.SampledFrom([]int{127, 128, 252, 253, 254, 255, 256, 257, 300}).Draw(t, l+".n")
	}
	return rapid.IntRange(1, 5).Draw(t, l+".n")
}

func drawVins(t *rapid.T, n int) []drv.Vin {
	o := make([]drv.Vin, n)
	p := kit.NewPRNG(rapid.Uint64().Draw(t, "vins.seed"))
	for i := range o {
		if i < 6 {
			o[i] = drv.Vin{TxID: kit.Hex(kit.Bytes(t, 32, "txid")), Vout: kit.U32(t, "vout")}
		} else {
			b := make([]byte, 32)
			p.Read(b)
			o[i] = drv.Vin{TxID: kit.Hex(b), Vout: uint32(p.Next())}
		}
	}
	return o
}

func drawVouts(t *rapid.T, n int) []drv.Vout {
	o := make([]drv.Vout, n)
	p := kit.NewPRNG(rapid.Uint64().Draw(t, "vouts.seed"))
	for i := range o {
		if i < 6 {
			o[i] = drv.Vout{Address: drawAddr(t), Amount: kit.U64(t, "amount")}
		} else {
			b := make([]byte, 20)
			p.Read(b)
			o[i] = drv.Vout{Address: addr(pkh, b), Amount: p.Next()}
		}
	}
	return o
}

func refTx(ins []drv.Vin, outs []drv.Vout, lock uint32, rbf bool) (*ref.BTx, bool) {
	t := &ref.BTx{Version: 2, Lock: lock}
	seq := uint32(0xffffffff)
	if rbf {
		seq = 0xfffffffd
	} else if lock != 0 {
		seq = 0xfffffffe
	}
	if len(ins) == 0 || len(outs) == 0 {
		return nil, false
	}
	for _, i := range ins {
		if len(i.TxID) != 64 || !gen.IsHex(i.TxID) {
			return nil, false
		}
		t.Ins = append(t.Ins, ref.BIn{Txid: ref.Rev(kit.UnHex(i.TxID)), Vout: i.Vout, Seq: seq})
	}
	for _, o := range outs {
		s, ok := script(o.Address)
		if !ok {
			return nil, false
		}
		t.Outs = append(t.Outs, ref.BOut{Amount: o.Amount, Script: s})
	}
	return t, true
}

func TestB08_Create(t *testing.T) {
	kit.Check(t, 1500, func(t *rapid.T, c *kit.Case) {
		ins, outs := drawVins(t, count(t, "nin")), drawVouts(t, count(t, "nout"))
		lock, rbf := uint32(0), rapid.Bool().Draw(t, "rbf")
		if rapid.Bool().Draw(t, "locked") {
			lock = kit.U32(t, "lock")
		}
		want, ok := refTx(ins, outs, lock, rbf)
		if !ok {
			t.Fatalf("harness: own request refused")
		}
		got, err := drv.CreateEmptyRawTransaction(ins, outs, lock, rbf)
		if err != nil || got != kit.Hex(want.Bytes(false)) {
			t.Fatalf("request %v -> %v lock %d replaceable %v: %v\n got %s\nwant %x", ins, outs, lock, rbf, err, got, want.Bytes(false))
		}
		// what is written can be read back, as often as one likes, and leaves the bytes alone
		raw := kit.UnHex(got)
		d, err := drv.DecodeRawTransaction(raw)
		if err != nil || len(d.Vins) != len(ins) || len(d.Vouts) != len(outs) || d.Witness != nil {
			t.Fatalf("own transaction %s decoded as %+v %v", got, d, err)
		}
		for k := 0; k < 2; k++ {
			for i, v := range d.Vins {
				if v.GetTxID() != ins[i].TxID || v.GetVout() != ins[i].Vout || v.GetSequence() != want.Ins[i].Seq || v.GetScriptPubkey() != "" {
					t.Fatalf("reading %d: input %d of %s is %s:%d", k, i, got, v.GetTxID(), v.GetVout())
				}
			}
		}
		if kit.Hex(raw) != got {
			t.Fatalf("decoding changed the caller's bytes\n%s\n%x", got, raw)
		}
		c.Eval(2)
		if len(ins) > 252 || len(outs) > 252 {
			c.Class("more than 252 inputs or outputs")
		}
		c.Class("lock=%v rbf=%v", lock != 0, rbf)
		c.NonTrivial(got)
		c.Sample("%s", got)
	})
}

func TestB08_Refuse(t *testing.T) {
	kit.Check(t, 2500, func(t *rapid.T, c *kit.Case) {
		ins, outs := drawVins(t, rapid.IntRange(1, 3).Draw(t, "nin")), drawVouts(t, rapid.IntRange(1, 3).Draw(t, "nout"))
		k := kit.Pos(t, 0, len(outs)-1, "which")
		mode := rapid.IntRange(0, 8).Draw(t, "mode")
		h := kit.Bytes(t, 20, "h")
		switch mode {
		case 0:
			outs[k].Address = kit.MutAddr(t, outs[k].Address, "mut")
		case 1:
			outs[k].Address = gen.Addr58(kit.BytesRange(t, 0, 3, "ver"), h)
		case 2:
			outs[k].Address = gen.Addr58([]byte{rapid.SampledFrom([]byte{pkh, sh}).Draw(t, "v")}, kit.BytesRange(t, 0, 40, "h2"))
		case 3:
			outs[k].Address = addr(rapid.SampledFrom([]byte{0, 5, 0x30, 0x32, 0x3a}).Draw(t, "fv"), h)
			if rapid.Bool().Draw(t, "fb") {
				outs[k].Address = ref.SegwitAddr(rapid.SampledFrom([]string{"bc", "tb", "ltc", "tltc", "tb1", "bcrt"}).Draw(t, "hrp"), 0, h)
			}
		case 4:
			ver := byte(rapid.IntRange(0, 16).Draw(t, "wv"))
			g := append([]byte{ver}, ref.Bits8to5(kit.BytesRange(t, 0, 41, "prog"))...)
			if rapid.Bool().Draw(t, "pad") {
				g[len(g)-1] |= 1
			}
			if kit.OneIn(t, 4, "extra") {
				g = append(g, byte(rapid.IntRange(0, 31).Draw(t, "g")))
			}
			outs[k].Address = ref.Bech32Groups(hrp, g, rapid.SampledFrom([]uint32{1, 1, 0x2bc830a3}).Draw(t, "const"))
		case 5:
			outs[k].Address = kit.Str(t, gen.B58+"0OIl -", 0, 12, "str")
		case 6:
			i := kit.Pos(t, 0, len(ins)-1, "in")
			ins[i].TxID = kit.Hex(kit.BytesRange(t, 0, 64, "txid2"))
			if rapid.Bool().Draw(t, "odd") {
				ins[i].TxID = kit.MutStr(t, ins[i].TxID, "txmut")
			}
		case 7:
			ins = gen.None(t, ins)
		case 8:
			outs = gen.None(t, outs)
		}
		for _, o := range outs {
			if len(o.Address) > 0 && o.Address[0] >= 'A' && o.Address[0] <= 'Z' {
				if _, _, _, err := ref.Bech32Dec(o.Address); err == nil {
					return // upper case segwit addresses may be refused or not
				}
			}
		}
		want, valid := refTx(ins, outs, 0, false)
		var got string
		var err error
		if m := kit.NoPanic(func() { got, err = drv.CreateEmptyRawTransaction(ins, outs, 0, false) }); m != "" {
			t.Fatalf("%v %v: %s", ins, outs, m)
		}
		if valid {
			if err != nil || got != kit.Hex(want.Bytes(false)) {
				t.Fatalf("valid request %v %v gives %q %v", ins, outs, got, err)
			}
		} else if err == nil {
			t.Fatalf("request that cannot be met (mode %d) %v -> %v was turned into %s", mode, ins, outs, got)
		}
		c.Eval(1)
		c.Class("mode %d valid=%v", mode, valid)
		if !valid {
			c.NonTrivial(fmt.Sprint(ins, outs))
			c.Sample("%v %v", ins, outs)
		}
	})
}

// ---------------------------------------------------------------- spends

type spend struct {
	ref.BSpend
	keys, pubs [][]byte
	req        int
}

func mkSpend(t *rapid.T, k, l string) spend {
	s := spend{}
	s.Kind = k
	s.Amount = kit.U64(t, l+".amount")
	if k == "wmulti" {
		n := rapid.IntRange(1, 4).Draw(t, l+".n")
		if kit.OneIn(t, 6, l+".many") {
			n = rapid.IntRange(5, 15).Draw(t, l+".n2")
		}
		s.req = rapid.IntRange(1, n).Draw(t, l+".req")
		for i := 0; i < n; i++ {
			s.keys = append(s.keys, kit.Scalar(t, ref.NK1, l+".key"))
			s.pubs = append(s.pubs, ref.PubK1(s.keys[i]))
		}
		s.Redeem = ref.MultiRedeem(s.req, s.pubs)
		s.Lock = ref.P2SH(ref.H160(ref.Cat([]byte{0, 32}, ref.Sha256(s.Redeem))))
		return s
	}
	key := kit.Scalar(t, ref.NK1, l+".key")
	pub := ref.PubK1(key)
	s.keys, s.pubs = [][]byte{key}, [][]byte{pub}
	h := ref.H160(pub)
	switch k {
	case "p2pkh":
		s.Lock = ref.P2PKH(h)
	case "p2sh-p2wpkh":
		s.Redeem = ref.Cat([]byte{0, 20}, h)
		s.Lock = ref.P2SH(ref.H160(s.Redeem))
	case "p2wpkh":
		s.Lock = ref.Cat([]byte{0, 20}, h)
	}
	return s
}

func (s *spend) unl() drv.TxUnlock {
	return drv.TxUnlock{PrivateKey: append([]byte{}, s.keys[0]...), LockScript: kit.Hex(s.Lock), RedeemScript: kit.Hex(s.Redeem), Amount: s.Amount}
}

type world struct {
	tx     *ref.BTx
	hex    string
	spends []spend
	unl    []drv.TxUnlock
	wit    bool
	digs   [][]byte
}

var single = []string{"p2pkh", "p2sh-p2wpkh", "p2wpkh"}

func drawWorld(t *rapid.T, n int, kinds []string) *world {
	w := &world{}
	ins, outs := drawVins(t, n), drawVouts(t, gen.Few(t, 3, "nout"))
	if kit.OneIn(t, 60, "manyouts") {
		outs = drawVouts(t, 253+rapid.IntRange(0, 4).Draw(t, "nout2"))
	}
	for i := 0; i < n; i++ {
		s := mkSpend(t, rapid.SampledFrom(kinds).Draw(t, "kind"), "spend")
		w.wit = w.wit || s.Kind != "p2pkh"
		w.spends = append(w.spends, s)
		w.unl = append(w.unl, s.unl())
	}
	lock := uint32(0)
	if rapid.Bool().Draw(t, "locked") {
		lock = kit.U32(t, "lock")
	}
	w.tx, _ = refTx(ins, outs, lock, rapid.Bool().Draw(t, "rbf"))
	w.hex = kit.Hex(w.tx.Bytes(false))
	for i := range w.spends {
		w.digs = append(w.digs, w.tx.InputHash(i, w.spends[i].BSpend, ht, false))
	}
	return w
}

func cloneU(u []drv.TxUnlock) []drv.TxUnlock {
	o := append([]drv.TxUnlock{}, u...)
	for i := range o {
		o[i].PrivateKey = append([]byte{}, o[i].PrivateKey...)
	}
	return o
}

func TestB08_Digest(t *testing.T) {
	kit.Check(t, 700, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, gen.Few(t, 5, "n"), []string{"p2pkh", "p2sh-p2wpkh", "p2wpkh", "wmulti"})
		u := cloneU(w.unl)
		hs, err := drv.CreateRawTransactionHashForSig(w.hex, u)
		if err != nil || len(hs) != len(w.digs) {
			t.Fatalf("%s with %v: %v %v", w.hex, w.unl, hs, err)
		}
		for i, h := range hs {
			if h != kit.Hex(w.digs[i]) {
				t.Fatalf("input %d (%s) of %s\nunlock %+v\ndigest %s\nwant   %x", i, w.spends[i].Kind, w.hex, w.unl[i], h, w.digs[i])
			}
			c.Class("%s", w.spends[i].Kind)
		}
		if !reflect.DeepEqual(u, w.unl) {
			t.Fatalf("unlock data changed: %+v", u)
		}
		c.Eval(len(hs))
		c.NonTrivial(w.hex, fmt.Sprint(w.unl))
		c.Sample("%s", w.hex)
	})
}

func junk(t *rapid.T, tx *string, u *drv.TxUnlock) {
	if rapid.Bool().Draw(t, "tx") {
		*tx = gen.Junk(t, *tx)
	} else if u.RedeemScript != "" && rapid.Bool().Draw(t, "redeem") {
		u.RedeemScript = gen.Junk(t, u.RedeemScript)
	} else {
		u.LockScript = gen.Junk(t, u.LockScript)
	}
}

func TestB08_DigestRefuse(t *testing.T) {
	kit.Check(t, 600, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, gen.Few(t, 3, "n"), []string{"p2pkh", "p2sh-p2wpkh", "p2wpkh", "wmulti"})
		k := kit.Pos(t, 0, len(w.unl)-1, "which")
		mode := rapid.IntRange(0, 6).Draw(t, "mode")
		tx, u := w.hex, w.unl
		switch mode {
		case 0:
			u = u[1:]
		case 1:
			u = append(u, u[0])
		case 2:
			b := kit.UnHex(u[k].LockScript)
			i := rapid.SampledFrom([]int{0, 1, 2, 22, 23, 24}).Draw(t, "pos")
			if i >= len(b) {
				i = len(b) - 1
			}
			b[i] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
			if known(b) {
				return
			}
			u[k].LockScript = kit.Hex(b)
		case 3:
			u[k].LockScript = u[k].LockScript[:len(u[k].LockScript)-rapid.IntRange(1, 9).Draw(t, "cut")]
		case 4:
			b := kit.UnHex(tx)
			if rapid.Bool().Draw(t, "ext") {
				b = append(b, kit.BytesRange(t, 1, 5, "tail")...)
			} else {
				b = b[:kit.Pos(t, 0, len(b)-1, "tcut")]
			}
			tx = kit.Hex(b)
		case 6: // text that is not hexadecimal
			junk(t, &tx, &u[k])
		case 5: // a redeem script of no supported kind
			s := w.spends[k]
			if s.Redeem == nil {
				return
			}
			b := append([]byte{}, s.Redeem...)
			i := rapid.SampledFrom([]int{0, 1, len(b) - 2, len(b) - 1}).Draw(t, "rpos")
			if s.req == 0 {
				i = rapid.IntRange(0, 1).Draw(t, "rpos2")
			}
			b[i] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
			if s.req > 0 {
				n := len(s.pubs)
				if req := int(b[0]) - 0x50; req >= 1 && req <= n && b[1] == 33 && int(b[len(b)-2])-0x50 == n && b[len(b)-1] == 0xae {
					return
				}
			}
			if rapid.Bool().Draw(t, "rcut") {
				b = b[:rapid.IntRange(0, 21).Draw(t, "rn")]
			}
			u[k].RedeemScript = kit.Hex(b)
		}
		var hs []string
		var err error
		if m := kit.NoPanic(func() { hs, err = drv.CreateRawTransactionHashForSig(tx, u) }); m != "" {
			t.Fatalf("%s %v: %s", tx, u, m)
		}
		if err == nil {
			t.Fatalf("mode %d: digests %v for %s with %+v", mode, hs, tx, u)
		}
		c.Eval(1)
		c.Class("mode %d", mode)
		c.NonTrivial(tx, fmt.Sprint(u))
	})
}

func known(b []byte) bool {
	return len(b) == 22 && b[0] == 0 && b[1] == 20 || len(b) == 23 && b[0] == 0xa9 && b[1] == 20 && b[22] == 0x87 ||
		len(b) == 25 && b[0] == 0x76 && b[1] == 0xa9 && b[2] == 20 && b[23] == 0x88 && b[24] == 0xac
}

// ---------------------------------------------------------------- signing

func sign(t *rapid.T, key, dig []byte, real bool) ([]byte, bool) {
	return gen.ECDSA(t, ref.K1, key, dig, func() ([]byte, error) {
		s, err := drv.SignRawTransactionHash([]string{kit.Hex(dig)}, []drv.TxUnlock{{PrivateKey: append([]byte{}, key...)}})
		if err != nil {
			return nil, err
		}
		if len(s) != 1 || !bytes.Equal(s[0].Pubkey, ref.PubK1(key)) {
			return nil, fmt.Errorf("signing gives %+v", s)
		}
		return s[0].Signature, nil
	}, real, "btc like", "sig")
}

func signWorld(t *rapid.T, w *world, real bool) (sp []drv.SignaturePubkey, want *ref.BTx, good bool) {
	want = &ref.BTx{Version: w.tx.Version, Lock: w.tx.Lock, Outs: w.tx.Outs}
	good = true
	for i, s := range w.spends {
		sig, ok := sign(t, s.keys[0], w.digs[i], real)
		good = good && ok
		sp = append(sp, drv.SignaturePubkey{Signature: append([]byte{}, sig...), Pubkey: append([]byte{}, s.pubs[0]...)})
		want.Ins = append(want.Ins, put(w.tx.Ins[i], s, append(ref.DER(sig), ht), s.pubs[0]))
	}
	return
}

func put(in ref.BIn, s spend, e, pub []byte) ref.BIn {
	switch s.Kind {
	case "p2pkh":
		in.Script = ref.Cat(ref.Push(e), ref.Push(pub))
	case "p2sh-p2wpkh":
		in.Script = ref.Push(s.Redeem)
		in.Witness = [][]byte{e, pub}
	default:
		in.Witness = [][]byte{e, pub}
	}
	return in
}

func valid(raw []byte, w *world, u []drv.TxUnlock) bool {
	tx, _, err := ref.ParseBTx(raw)
	if err != nil || len(tx.Ins) != len(u) {
		return false
	}
	for i := range tx.Ins {
		s := w.spends[i].BSpend
		s.Amount, s.Lock, s.Redeem = u[i].Amount, kit.UnHex(u[i].LockScript), kit.UnHex(u[i].RedeemScript)
		if !tx.ValidInput(i, s, ht, false) {
			return false
		}
	}
	return true
}

func TestB08_Sign(t *testing.T) {
	kit.Check(t, 220, func(t *rapid.T, c *kit.Case) {
		n := gen.Few(t, 4, "n")
		if kit.OneIn(t, 60, "manyins") {
			n = 253
		}
		w := drawWorld(t, n, single)
		var sp []drv.SignaturePubkey
		var want *ref.BTx
		good := true
		if n < 10 {
			sp, want, good = signWorld(t, w, false)
		} else {
			want = &ref.BTx{Version: w.tx.Version, Lock: w.tx.Lock, Outs: w.tx.Outs}
			p := kit.NewPRNG(rapid.Uint64().Draw(t, "sigs.seed"))
			for i, s := range w.spends {
				sig := make([]byte, 64)
				p.Read(sig)
				sp = append(sp, drv.SignaturePubkey{Signature: append([]byte{}, sig...), Pubkey: s.pubs[0]})
				want.Ins = append(want.Ins, put(w.tx.Ins[i], s, append(ref.DER(sig), ht), s.pubs[0]))
			}
			good = false
		}
		u := cloneU(w.unl)
		got, err := drv.InsertSignatureIntoEmptyTransaction(w.hex, sp, u)
		if err != nil {
			t.Fatalf("inserting %+v into %s: %v", sp, w.hex, err)
		}
		if x := kit.Hex(want.Bytes(w.wit)); got != x {
			t.Fatalf("signed transaction differs\n got %s\nwant %s", got, x)
		}
		ok := valid(kit.UnHex(got), w, w.unl)
		if good && !ok {
			t.Fatalf("harness: reference rejects %s", got)
		}
		for k := 0; k < 2; k++ { // verification may be asked again
			if v := drv.VerifyRawTransaction(got, u); v != ok {
				t.Fatalf("verification %d of %s says %v, consensus %v", k, got, v, ok)
			}
		}
		if !reflect.DeepEqual(u, w.unl) {
			t.Fatalf("unlock data changed:\n%+v\n%+v", u, w.unl)
		}
		hs, err := drv.CreateRawTransactionHashForSig(got, u) // a signed transaction has the digests of the empty one
		if err != nil || hs[n-1] != kit.Hex(w.digs[n-1]) {
			t.Fatalf("digests of signed transaction %s: %v %v, want %x", got, hs, err, w.digs)
		}
		c.Eval(3)
		for _, s := range w.spends {
			c.Class("%s real=%v", s.Kind, good)
		}
		c.NonTrivial(got)
		c.Sample("%s", got)
	})
}

// Digests, signatures and insertion in one call.
func TestB08_SignEmpty(t *testing.T) {
	kit.Check(t, 70, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, gen.Few(t, 4, "n"), single)
		u := cloneU(w.unl)
		kit.SeedRand(rapid.Uint64().Draw(t, "ent"))
		got, err := drv.SignEmptyRawTransaction(w.hex, u)
		if err != nil {
			t.Fatalf("%s %+v: %v", w.hex, u, err)
		}
		tx, _, err := ref.ParseBTx(kit.UnHex(got))
		if err != nil || !valid(kit.UnHex(got), w, w.unl) {
			t.Fatalf("signing %s with %+v gives %s, which is not valid (%v)", w.hex, w.unl, got, err)
		}
		for i := range tx.Ins {
			tx.Ins[i].Script, tx.Ins[i].Witness = nil, nil
		}
		if kit.Hex(tx.Bytes(false)) != w.hex {
			t.Fatalf("signing changed the transaction\n%s\n%s", w.hex, got)
		}
		if !drv.VerifyRawTransaction(got, u) || !reflect.DeepEqual(u, w.unl) {
			t.Fatalf("signed transaction %s not accepted, or unlock data changed: %+v", got, u)
		}
		c.Eval(1)
		c.Class("%d inputs", len(w.spends))
		c.NonTrivial(got)
		c.Sample("%s", got)
	})
}

func goodKey(k []byte) bool {
	n := new(big.Int).SetBytes(k)
	return len(k) == 32 && n.Sign() > 0 && n.Cmp(ref.NK1) < 0
}

func TestB08_SignHashes(t *testing.T) {
	kit.Check(t, 300, func(t *rapid.T, c *kit.Case) {
		n := rapid.IntRange(1, 3).Draw(t, "n")
		var hs []string
		var u []drv.TxUnlock
		for i := 0; i < n; i++ {
			hs = append(hs, kit.Hex(kit.Bytes(t, 32, "h")))
			u = append(u, drv.TxUnlock{PrivateKey: kit.Scalar(t, ref.NK1, "key")})
		}
		bad := rapid.IntRange(0, 5).Draw(t, "bad")
		k := rapid.IntRange(0, n-1).Draw(t, "which")
		switch bad {
		case 1:
			hs = hs[1:]
		case 2:
			hs[k] = kit.Hex(kit.BytesRange(t, 0, 40, "h2"))
		case 3:
			hs[k] = kit.MutStr(t, hs[k], "hm")
		case 4:
			u[k].PrivateKey = kit.BytesRange(t, 0, 40, "key2")
		case 5:
			u[k].PrivateKey = rapid.SampledFrom([][]byte{make([]byte, 32), ref.NK1.Bytes(), bytes.Repeat([]byte{255}, 32)}).Draw(t, "badkey")
		}
		ok := len(hs) == len(u)
		for _, h := range hs {
			ok = ok && len(h) == 64 && gen.IsHex(h)
		}
		for _, x := range u {
			ok = ok && goodKey(x.PrivateKey)
		}
		cp := cloneU(u)
		var sp []drv.SignaturePubkey
		var err error
		kit.SeedRand(rapid.Uint64().Draw(t, "ent"))
		if m := kit.NoPanic(func() { sp, err = drv.SignRawTransactionHash(hs, u) }); m != "" {
			t.Fatalf("%v %v: %s", hs, u, m)
		}
		if ok != (err == nil) {
			t.Fatalf("signing %v with %+v: %+v %v", hs, cp, sp, err)
		}
		if ok {
			for i, s := range sp {
				gen.CheckSig(t, ref.K1, cp[i].PrivateKey, kit.UnHex(hs[i]), s.Signature, "btc like")
				if !bytes.Equal(s.Pubkey, ref.PubK1(cp[i].PrivateKey)) {
					t.Fatalf("public key %x of %x", s.Pubkey, cp[i].PrivateKey)
				}
			}
			if !reflect.DeepEqual(u, cp) || len(sp) != n {
				t.Fatalf("signing changed the keys, or gives %d signatures for %d digests", len(sp), n)
			}
			c.NonTrivial(fmt.Sprint(hs, cp))
		}
		c.Eval(1)
		c.Class("bad=%d ok=%v", bad, ok)
	})
}

func TestB08_Incomplete(t *testing.T) {
	kit.Check(t, 300, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, gen.Few(t, 3, "n"), single)
		sp, _, _ := signWorld(t, w, false)
		k := kit.Pos(t, 0, len(sp)-1, "which")
		mode := rapid.IntRange(0, 9).Draw(t, "mode")
		u, tx := w.unl, w.hex
		switch mode {
		case 9: // text that is not hexadecimal
			junk(t, &tx, &u[k])
		case 0:
			sp = sp[:len(sp)-1]
		case 1:
			sp[k].Signature = kit.BytesRange(t, 0, 80, "sig2")
			if len(sp[k].Signature) == 64 {
				return
			}
		case 2:
			sp[k].Pubkey = kit.BytesRange(t, 0, 70, "pub2")
			if len(sp[k].Pubkey) == 33 {
				return
			}
		case 3:
			u = u[:len(u)-1]
		case 4:
			u[k].LockScript = u[k].LockScript[:len(u[k].LockScript)-2]
		case 5:
			tx = tx[:2*kit.Pos(t, 0, len(tx)/2-1, "cut")]
		case 6:
			sp = append(sp, sp[0])
		case 7: // multisig next to other inputs cannot be finished
			u = append(u, func() drv.TxUnlock { s := mkSpend(t, "wmulti", "m"); return s.unl() }())
			u[0], u[len(u)-1] = u[len(u)-1], u[0]
			tx2 := *w.tx
			tx2.Ins = append(append([]ref.BIn{}, tx2.Ins...), tx2.Ins[0])
			tx = kit.Hex(tx2.Bytes(false))
			sp = append(sp, sp[0])
		case 8:
			b := kit.UnHex(u[k].LockScript)
			b[rapid.SampledFrom([]int{0, 1, len(b) - 1}).Draw(t, "pos")] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
			if known(b) {
				return
			}
			u[k].LockScript = kit.Hex(b)
		}
		var got string
		var err error
		if m := kit.NoPanic(func() { got, err = drv.InsertSignatureIntoEmptyTransaction(tx, sp, u) }); m != "" {
			t.Fatalf("mode %d: %s", mode, m)
		}
		if err == nil {
			t.Fatalf("mode %d: incomplete data gives transaction %q", mode, got)
		}
		c.Eval(1)
		c.Class("mode %d", mode)
		c.NonTrivial(tx, fmt.Sprint(sp, u))
	})
}

// ---------------------------------------------------------------- multisig

func TestB08_Multisig(t *testing.T) {
	kit.Check(t, 400, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, 1, []string{"wmulti"})
		s := w.spends[0]
		a, r, err := drv.CreateMultiSig(byte(s.req), s.pubs)
		if err != nil || r != kit.Hex(s.Redeem) || a != addr(sh, s.Lock[2:22]) {
			t.Fatalf("%d of %x: %s %s %v", s.req, s.pubs, a, r, err)
		}
		// any sufficient set of key holders, in the order of the keys
		perm := rapid.Permutation(seq(len(s.keys))).Draw(t, "signers")[:s.req]
		use := map[int]bool{}
		for _, i := range perm {
			use[i] = true
		}
		var sp []drv.SignaturePubkey
		items := [][]byte{{}}
		good := true
		for i := range s.keys {
			if !use[i] {
				continue
			}
			sig, ok := sign(t, s.keys[i], w.digs[0], false)
			good = good && ok
			sp = append(sp, drv.SignaturePubkey{Signature: append([]byte{}, sig...), Pubkey: append([]byte{}, s.pubs[i]...)})
			items = append(items, append(ref.DER(sig), ht))
		}
		want := &ref.BTx{Version: w.tx.Version, Lock: w.tx.Lock, Outs: w.tx.Outs, Ins: []ref.BIn{w.tx.Ins[0]}}
		want.Ins[0].Script = ref.Push(ref.Cat([]byte{0, 32}, ref.Sha256(s.Redeem)))
		want.Ins[0].Witness = append(items, s.Redeem)
		u := cloneU(w.unl)
		got, err := drv.InsertSignatureIntoEmptyTransaction(w.hex, sp, u)
		if err != nil || got != kit.Hex(want.Bytes(true)) {
			t.Fatalf("%d of %d: %v\n got %s\nwant %x", s.req, len(s.keys), err, got, want.Bytes(true))
		}
		if ok := valid(kit.UnHex(got), w, w.unl); good && !ok {
			t.Fatalf("harness: reference rejects %s", got)
		}
		if !reflect.DeepEqual(u, w.unl) {
			t.Fatalf("unlock data changed: %+v", u)
		}
		// fewer signatures do not make a transaction
		var g2 string
		if m := kit.NoPanic(func() { g2, err = drv.InsertSignatureIntoEmptyTransaction(w.hex, sp[:len(sp)-1], u) }); m != "" || err == nil {
			t.Fatalf("%d of %d with one signature less gives %q %s", s.req, len(s.keys), g2, m)
		}
		c.Eval(3)
		c.Class("%d signatures real=%v", s.req, good)
		c.NonTrivial(got)
		c.Sample("%s", got)
	})
}

func TestB08_MultisigCreate(t *testing.T) {
	kit.Check(t, 1500, func(t *rapid.T, c *kit.Case) {
		n := rapid.IntRange(0, 18).Draw(t, "n")
		if kit.OneIn(t, 20, "huge") {
			n = rapid.IntRange(250, 275).Draw(t, "n2")
		}
		req := rapid.IntRange(0, 18).Draw(t, "req")
		if kit.OneIn(t, 20, "hugereq") {
			req = rapid.IntRange(19, 255).Draw(t, "req2")
		}
		if n > 0 && n < 17 && kit.OneIn(t, 2, "fit") {
			req = rapid.IntRange(1, n).Draw(t, "req3")
		}
		var pubs [][]byte
		ok := req >= 1 && req <= n && n <= 16
		total := 3
		wrong := kit.OneIn(t, 6, "wrong")
		for i := 0; i < n; i++ {
			l := 33
			if kit.OneIn(t, 12, "uncompressed") {
				l = 65
			} else if wrong && kit.OneIn(t, 4, "badlen") {
				l = rapid.SampledFrom([]int{0, 1, 20, 32, 34, 64, 66, 128, 256 + 33}).Draw(t, "len")
				ok = false
			}
			k := kit.Bytes(t, l, "pub")
			if l == 33 {
				k[0] = 2 + k[0]%2
			} else if l == 65 {
				k[0] = 4
			}
			pubs = append(pubs, k)
			total += l + 1
		}
		ok = ok && total <= 520
		var a, r string
		var err error
		if m := kit.NoPanic(func() { a, r, err = drv.CreateMultiSig(byte(req), pubs) }); m != "" {
			t.Fatalf("%d of %d: %s", req, n, m)
		}
		if !ok {
			if err == nil {
				t.Fatalf("%d of %d keys %x: impossible multisig gives %s %s", req, n, pubs, a, r)
			}
		} else {
			redeem := ref.MultiRedeem(req, pubs)
			x := addr(sh, ref.H160(ref.Cat([]byte{0, 32}, ref.Sha256(redeem))))
			if err != nil || r != kit.Hex(redeem) || a != x {
				t.Fatalf("%d of %x: got %s %s %v, want %s %x", req, pubs, a, r, err, x, redeem)
			}
			c.NonTrivial(req, r)
			c.Sample("%d of %d %s", req, n, a)
		}
		c.Eval(1)
		c.Class("valid=%v", ok)
	})
}

func seq(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

// ---------------------------------------------------------------- verification is sound

func looseDER(t *rapid.T, sig []byte) []byte {
	d := ref.DER(sig)
	rl := int(d[3])
	out := append([]byte{}, d...)
	switch rapid.IntRange(0, 5).Draw(t, "loose") {
	case 0:
		out = ref.Cat([]byte{0x30, d[1] + 1, 2, d[3] + 1, 0}, d[4:])
	case 1:
		out = ref.Cat([]byte{0x30, d[1] + 1}, d[2:4+rl], []byte{2, d[5+rl] + 1, 0}, d[6+rl:])
	case 2:
		out[1] += byte(rapid.IntRange(1, 255).Draw(t, "d"))
	case 3:
		if d[4] == 0 {
			out = ref.Cat([]byte{0x30, d[1] - 1, 2, d[3] - 1}, d[5:])
		} else {
			out[0] = 0x31
		}
	case 4:
		out = append(out, 0)
	case 5:
		i := rapid.SampledFrom([]int{0, 1, 2, 3, 4 + rl, 5 + rl}).Draw(t, "pos")
		out[i] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
	}
	return out
}

func els(in *ref.BIn, s *spend) ([][]byte, func([][]byte)) {
	if s.Kind == "p2pkh" {
		ps, _ := ref.Pushes(in.Script)
		return ps, func(n [][]byte) {
			in.Script = nil
			for _, p := range n {
				in.Script = append(in.Script, ref.Push(p)...)
			}
		}
	}
	return append([][]byte{}, in.Witness...), func(n [][]byte) { in.Witness = n }
}

func TestB08_Tamper(t *testing.T) {
	kit.Check(t, 450, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, gen.Few(t, 3, "n"), single)
		_, tx, _ := signWorld(t, w, true)
		u := cloneU(w.unl)
		k := kit.Pos(t, 0, len(tx.Ins)-1, "which")
		in, s := &tx.Ins[k], &w.spends[k]
		kit.Before(t, func() { drv.VerifyRawTransaction(kit.Hex(tx.Bytes(w.wit)), u) })
		mode := rapid.IntRange(0, 12).Draw(t, "mode")
		var raw []byte
		name, text := "", ""
		bit := func(n int) uint { return uint(rapid.IntRange(0, n).Draw(t, "bit")) }
		switch mode {
		case 12:
			name = "text not hexadecimal"
			if rapid.Bool().Draw(t, "tx") {
				text = gen.Junk(t, kit.Hex(tx.Bytes(w.wit)))
			} else {
				u[k].LockScript = gen.Junk(t, u[k].LockScript)
			}
		case 0:
			name = "bytes changed"
			raw = kit.MutBytes(t, tx.Bytes(w.wit), "mut")
		case 1:
			name = "field changed"
			o := kit.Pos(t, 0, len(tx.Outs)-1, "out")
			tx.Outs = append([]ref.BOut{}, tx.Outs...)
			switch rapid.IntRange(0, 7).Draw(t, "field") {
			case 0:
				tx.Outs[o].Amount ^= 1 << bit(63)
			case 1:
				tx.Outs[o].Script = kit.MutBytes(t, tx.Outs[o].Script, "script")
			case 2:
				in.Seq ^= 1 << bit(31)
			case 3:
				tx.Version ^= 1 << bit(31)
			case 4:
				tx.Lock ^= 1 << bit(31)
			case 5:
				in.Vout ^= 1 << bit(31)
			case 6:
				in.Txid = append([]byte{}, in.Txid...)
				in.Txid[rapid.IntRange(0, 31).Draw(t, "pos")] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
			case 7:
				in.Script = kit.MutBytes(t, in.Script, "iscript")
			}
		case 2:
			name = "output added, dropped or moved"
			o := append([]ref.BOut{}, tx.Outs...)
			if len(o) > 1 && rapid.Bool().Draw(t, "swap") {
				o[0], o[1] = o[1], o[0]
			} else if len(o) > 1 && rapid.Bool().Draw(t, "drop") {
				o = o[1:]
			} else {
				o = append(o, o[0])
			}
			tx.Outs = o
		case 3:
			name = "hash type changed"
			e, put := els(in, s)
			e[0] = append([]byte{}, e[0]...)
			e[0][len(e[0])-1] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
			put(e)
		case 4:
			name = "another key"
			key := kit.Scalar(t, ref.NK1, "thief")
			sig := ref.SignWith(ref.K1, key, kit.Scalar(t, ref.NK1, "n"), w.digs[k])
			if sig == nil {
				return
			}
			_, put := els(in, s)
			put([][]byte{append(ref.DER(ref.LowS(ref.K1, sig)), ht), ref.PubK1(key)})
		case 5:
			name = "another key with its own redeem script"
			q := mkSpend(t, s.Kind, "thief")
			tx2 := *w.tx
			dig := tx2.InputHash(k, func() ref.BSpend { b := q.BSpend; b.Amount = s.Amount; return b }(), ht, false)
			sig := ref.SignWith(ref.K1, q.keys[0], kit.Scalar(t, ref.NK1, "n"), dig)
			if sig == nil {
				return
			}
			*in = put(w.tx.Ins[k], q, append(ref.DER(ref.LowS(ref.K1, sig)), ht), q.pubs[0])
			if rapid.Bool().Draw(t, "redeem") {
				u[k].RedeemScript = kit.Hex(q.Redeem)
			}
		case 6:
			name = "signature over something else"
			e, put := els(in, s)
			sig := ref.SignWith(ref.K1, s.keys[0], kit.Scalar(t, ref.NK1, "n"), kit.Bytes(t, 32, "other"))
			if sig == nil {
				return
			}
			e[0] = append(ref.DER(ref.LowS(ref.K1, sig)), ht)
			put(e)
		case 7:
			name = "spent amount differs"
			u[k].Amount ^= 1 << bit(63)
		case 8:
			name = "spent output differs"
			q := mkSpend(t, rapid.SampledFrom([]string{s.Kind, s.Kind, "p2pkh", "p2wpkh", "p2sh-p2wpkh", "wmulti"}).Draw(t, "otherkind"), "otherspend")
			u[k].LockScript = kit.Hex(q.Lock)
			if rapid.Bool().Draw(t, "redeem") {
				u[k].RedeemScript = kit.Hex(q.Redeem)
			}
		case 9:
			name = "loose DER"
			e, put := els(in, s)
			sig, err := ref.ParseDER(e[0][:len(e[0])-1])
			if err != nil {
				t.Fatalf("harness: %v", err)
			}
			e[0] = append(looseDER(t, sig), ht)
			put(e)
		case 10:
			name = "inputs exchanged"
			if len(tx.Ins) < 2 {
				return
			}
			j := (k + 1) % len(tx.Ins)
			a, b := &tx.Ins[k], &tx.Ins[j]
			a.Script, b.Script, a.Witness, b.Witness = b.Script, a.Script, b.Witness, a.Witness
		case 11:
			name = "unlock data missing or extra"
			if rapid.Bool().Draw(t, "extra") {
				u = append(u, u[0])
			} else {
				u = u[1:]
			}
		}
		if raw == nil {
			raw = tx.Bytes(w.wit)
		}
		want := false
		if mode != 12 && len(u) == len(w.spends) {
			want = refValid(raw, u)
		}
		if text == "" {
			text = kit.Hex(raw)
		}
		got := false
		if m := kit.NoPanic(func() { got = drv.VerifyRawTransaction(text, u) }); m != "" {
			t.Fatalf("%s: verifying %x: %s", name, raw, m)
		}
		if got && !want {
			t.Fatalf("%s (input %d, %s): invalid transaction accepted\n%x\n%+v", name, k, s.Kind, raw, u)
		}
		c.Eval(1)
		c.Class("%s: %s", s.Kind, name)
		if !want {
			c.NonTrivial(raw, fmt.Sprint(u))
			c.Sample("%s %x", name, raw)
		}
	})
}

// refValid decides by the lock scripts alone, as the network does.
func refValid(raw []byte, u []drv.TxUnlock) bool {
	tx, _, err := ref.ParseBTx(raw)
	if err != nil || len(tx.Ins) != len(u) {
		return false
	}
	for i, in := range tx.Ins {
		lock := kit.UnHex(u[i].LockScript)
		s := ref.BSpend{Lock: lock, Amount: u[i].Amount}
		switch {
		case len(lock) == 25:
			s.Kind = "p2pkh"
		case len(lock) == 22:
			s.Kind = "p2wpkh"
		default:
			s.Kind = "p2sh-p2wpkh"
			ps, ok := ref.Pushes(in.Script)
			if !ok || len(ps) != 1 || len(ps[0]) != 22 {
				return false
			}
			s.Redeem = ps[0]
		}
		if !tx.ValidInput(i, s, ht, false) {
			return false
		}
	}
	return true
}

// Arbitrary data never crashes any entry point and is never accepted.
func TestB08_Robust(t *testing.T) {
	kit.Check(t, 700, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, rapid.IntRange(1, 2).Draw(t, "n"), []string{"p2pkh", "p2sh-p2wpkh", "p2wpkh", "wmulti"})
		tx := w.hex
		u := w.unl
		var sp []drv.SignaturePubkey
		for _, s := range w.spends {
			sp = append(sp, drv.SignaturePubkey{Signature: kit.Uniform(t, 64, "sig"), Pubkey: s.pubs[0]})
		}
		if rapid.Bool().Draw(t, "signed") {
			if g, err := drv.InsertSignatureIntoEmptyTransaction(tx, sp, u); err == nil {
				tx = g
			}
		}
		switch rapid.IntRange(0, 3).Draw(t, "txmode") {
		case 0, 1:
			tx = kit.Hex(kit.MutBytes(t, kit.UnHex(tx), "mut"))
		case 2:
			tx = kit.MutStr(t, tx, "smut")
		}
		k := kit.Pos(t, 0, len(u)-1, "which")
		switch rapid.IntRange(0, 5).Draw(t, "umode") {
		case 0:
			u[k].LockScript = kit.MutHex(t, u[k].LockScript, "lmut")
		case 1:
			u[k].RedeemScript = kit.MutHex(t, u[k].RedeemScript, "rmut")
		case 2:
			u = gen.None(t, u)
		case 3:
			u[k].PrivateKey = kit.BytesRange(t, 0, 40, "pmut")
		}
		switch rapid.IntRange(0, 4).Draw(t, "smode") {
		case 0:
			sp[0].Signature = kit.BytesRange(t, 0, 70, "s2")
		case 1:
			sp[0].Pubkey = kit.BytesRange(t, 0, 70, "p2")
		case 2:
			sp = gen.None(t, sp)
		}
		var ok bool
		if m := kit.NoPanic(func() {
			if raw, err := hex.DecodeString(tx); err == nil {
				drv.DecodeRawTransaction(raw)
			}
			drv.CreateRawTransactionHashForSig(tx, u)
			drv.InsertSignatureIntoEmptyTransaction(tx, sp, u)
			ok = drv.VerifyRawTransaction(tx, u)
			drv.SignEmptyRawTransaction(tx, u)
		}); m != "" {
			t.Fatalf("%s\n%+v\n%+v: %s", tx, u, sp, m)
		}
		if ok {
			t.Fatalf("accepted %s with %+v", tx, u)
		}
		c.Eval(5)
		c.Class("%d inputs", len(w.spends))
		c.NonTrivial(tx, fmt.Sprint(u, sp))
	})
}

// Lists so long that their count takes more than two bytes: created, decoded, digested.
func TestB08_Large(t *testing.T) {
	if kit.Brief() {
		t.Skip("large")
	}
	kit.Check(t, 6, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, 1, []string{"p2pkh", "p2sh-p2wpkh", "p2wpkh", "wmulti"})
		ins, few := drawVins(t, 1), drawVouts(t, 3)
		n, in := gen.Long(t, "n"), rapid.Bool().Draw(t, "inputs")
		outs := few
		if in {
			ins = drawVins(t, n)
		} else {
			outs = nil
			for i := 0; i < n; i++ {
				o := few[i%3]
				o.Amount ^= uint64(i)
				outs = append(outs, o)
			}
		}
		want, ok := refTx(ins, few, 0, false)
		if !ok {
			t.Fatalf("harness: %v", few)
		}
		if !in {
			o := want.Outs
			want.Outs = nil
			for i := range outs {
				want.Outs = append(want.Outs, ref.BOut{Amount: outs[i].Amount, Script: o[i%3].Script})
			}
		}
		raw := want.Bytes(false)
		got, err := drv.CreateEmptyRawTransaction(ins, outs, 0, false)
		if err != nil || got != kit.Hex(raw) {
			t.Fatalf("%d like %v %v (inputs: %v): %v %s", n, ins[:1], few, in, err, gen.Diff(got, kit.Hex(raw)))
		}
		d, err := drv.DecodeRawTransaction(raw)
		if err != nil || len(d.Vins) != len(ins) || len(d.Vouts) != len(outs) {
			t.Fatalf("%d like %v %v (inputs: %v): decoded with %v", n, ins[:1], few, in, err)
		}
		if !in {
			hs, err := drv.CreateRawTransactionHashForSig(got, w.unl)
			if dig := want.InputHash(0, w.spends[0].BSpend, ht, false); err != nil || len(hs) != 1 || hs[0] != kit.Hex(dig) {
				t.Fatalf("%d like %v %v: digests %v %v, want %x", n, ins, few, hs, err, dig)
			}
		}
		c.Eval(3)
		c.Class("%d entries, inputs: %v", n, in)
		c.NonTrivial(n, in, fmt.Sprint(few))
	})
}
