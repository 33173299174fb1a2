package btcfam

import (
	"bytes"
	"fmt"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- B01 unsigned transactions

func TestB01_Create(t *testing.T) {
	kit.Check(t, 2500, func(t *rapid.T, c *kit.Case) {
		d := drawDriver(t)
		p := drawPfx(t, d)
		x := drawExtra(t, d)
		ins, outs := drawVins(t, count(t, "nin")), drawVouts(t, d, p, count(t, "nout"))
		lock, rbf := uint32(0), rapid.Bool().Draw(t, "rbf")
		if rapid.Bool().Draw(t, "locked") {
			lock = kit.U32(t, "lock")
		}
		want, ok := refTx(d, p, ins, outs, lock, rbf, x)
		if !ok {
			t.Fatalf("harness: generated address not accepted by the reference")
		}
		got, err := d.create(ins, outs, lock, rbf, p, x)
		if err != nil {
			t.Fatalf("%s: valid request %v -> %v refused: %v", d.name, ins, outs, err)
		}
		if w := kit.Hex(want.Bytes(false)); got != w {
			t.Fatalf("%s: transaction differs\n got %s\nwant %s", d.name, got, w)
		}
		got2, _ := d.create(ins, outs, lock, rbf, p, x)
		if got2 != got {
			t.Fatalf("%s: same request gives two transactions", d.name)
		}
		c.Eval(1)
		c.Class("%s", d.name)
		if len(ins) > 252 || len(outs) > 252 {
			c.Class("more than 252 inputs or outputs")
		}
		c.NonTrivial(d.name, got)
		c.Sample("%s %s", d.name, got)
	})
}

// Requests that cannot be honoured as written are refused, never turned into something else.
func TestB01_Refuse(t *testing.T) {
	kit.Check(t, 4000, func(t *rapid.T, c *kit.Case) {
		d := drawDriver(t)
		p := drawPfx(t, d)
		x := drawExtra(t, d)
		ins, outs := drawVins(t, rapid.IntRange(1, 3).Draw(t, "nin")), drawVouts(t, d, p, rapid.IntRange(1, 3).Draw(t, "nout"))
		k := kit.Pos(t, 0, len(outs)-1, "which")
		mode := rapid.IntRange(0, 9).Draw(t, "mode")
		h := kit.Bytes(t, 20, "h")
		switch mode {
		case 0: // corrupted address
			outs[k].Addr = kit.MutAddr(t, outs[k].Addr, "mut")
		case 1: // another version
			outs[k].Addr = addr58(kit.BytesRange(t, 0, 3, "ver"), h)
		case 2: // payload of another length
			outs[k].Addr = addr58(p.pkh, kit.BytesRange(t, 0, 40, "h2"))
		case 3: // another network's prefix
			q := rapid.SampledFrom(allPfx2).Draw(t, "foreign")
			v := rapid.SampledFrom([][]byte{q.pkh, q.sh, {0x32}, {0x3a}}).Draw(t, "fv")
			outs[k].Addr = addr58(v, h)
			if q.hrp != "" && rapid.Bool().Draw(t, "fb") {
				outs[k].Addr = ref.SegwitAddr(q.hrp, 0, h)
			}
		case 4: // segwit: other witness version, checksum, length or padding
			hrp := rapid.SampledFrom([]string{p.hrp, "bc", "tb", "ltc", "bcrt"}).Draw(t, "hrp")
			if hrp == "" {
				hrp = "bc"
			}
			ver := byte(rapid.IntRange(0, 16).Draw(t, "wv"))
			g := append([]byte{ver}, ref.Bits8to5(kit.BytesRange(t, 0, 41, "prog"))...)
			if rapid.Bool().Draw(t, "pad") {
				g[len(g)-1] |= 1
			}
			if kit.OneIn(t, 4, "extra") {
				g = append(g, byte(rapid.IntRange(0, 31).Draw(t, "g")))
			}
			kk := rapid.SampledFrom([]uint32{1, 1, 0x2bc830a3}).Draw(t, "const")
			outs[k].Addr = ref.Bech32Groups(hrp, g, kk)
		case 5: // short or arbitrary strings
			outs[k].Addr = kit.Str(t, b58+"0OIl -", 0, 12, "str")
		case 6: // transaction id
			i := kit.Pos(t, 0, len(ins)-1, "in")
			ins[i].Txid = kit.Hex(kit.BytesRange(t, 0, 64, "txid2"))
			if rapid.Bool().Draw(t, "odd") {
				ins[i].Txid = kit.MutStr(t, ins[i].Txid, "txmut")
			}
		case 7:
			ins = gen.None(t, ins)
		case 8:
			outs = gen.None(t, outs)
		case 9:
			if d.zen {
				x.blockHash = kit.Hex(kit.BytesRange(t, 0, 64, "bh"))
			} else if d.omni {
				x.omni.Type = rapid.IntRange(-1, 200).Draw(t, "ot")
				if rapid.Bool().Draw(t, "om") {
					x.omni.Address = kit.MutAddr(t, x.omni.Address, "oa")
				}
			}
		}
		valid := len(ins) > 0 && len(outs) > 0
		for _, i := range ins {
			if len(i.Txid) != 64 || !isHex(i.Txid) {
				valid = false
			}
		}
		if d.zen && len(x.blockHash) != 64 {
			valid = false
		}
		for _, o := range outs {
			if len(o.Addr) > 0 && o.Addr[0] >= 'A' && o.Addr[0] <= 'Z' {
				if _, _, _, err := ref.Bech32Dec(o.Addr); err == nil {
					return // upper case segwit addresses may be refused or not
				}
			}
			if d.zen && len(o.Addr) > 2 && o.Addr[:3] == "bc1" {
				return // the network has no segwit addresses
			}
		}
		var want *ref.BTx
		if valid {
			if d.omni && omniScript(x.omni) == nil {
				valid = false
			} else if d.omni && x.omni.Type >= 185 {
				if b, _ := ref.B58CheckDec(x.omni.Address, b58, "doubleSHA256"); len(b) != 21 {
					return
				}
			}
		}
		if valid {
			want, valid = refTx(d, p, ins, outs, 0, false, x)
		}
		var got string
		var err error
		if m := kit.NoPanic(func() { got, err = d.create(ins, outs, 0, false, p, x) }); m != "" {
			t.Fatalf("%s: %v %v: %s", d.name, ins, outs, m)
		}
		if valid {
			if err != nil || got != kit.Hex(want.Bytes(false)) {
				t.Fatalf("%s: valid request %v %v gives %q %v", d.name, ins, outs, got, err)
			}
		} else if err == nil {
			t.Fatalf("%s: request that cannot be met (mode %d) %v -> %v (net %v) was turned into %s", d.name, mode, ins, outs, p, got)
		}
		c.Eval(1)
		c.Class("mode %d valid=%v", mode, valid)
		if !valid {
			c.NonTrivial(d.name, fmt.Sprint(ins, outs, x))
			c.Sample("%s %v %v", d.name, ins, outs)
		}
	})
}

func isHex(s string) bool {
	for _, c := range s {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- spends

type spend struct {
	ref.BSpend
	keys [][]byte // private keys
	pubs [][]byte
	req  int
	addr string // expected report
}

func drawKey(t *rapid.T, l string) []byte { return kit.Scalar(t, ref.NK1, l) }

func drawSpend(t *rapid.T, d *driver, p pfx, l string) spend {
	kinds := []string{"p2pkh"}
	if d.segwit && p.hrp != "" {
		kinds = append(kinds, "p2sh-p2wpkh", "p2wpkh", "wmulti")
	}
	k := rapid.SampledFrom(kinds).Draw(t, l+".kind")
	if d.multi && kit.OneIn(t, 4, l+".multi") {
		k = "multi"
	}
	return mkSpend(t, d, p, k, l)
}

func mkSpend(t *rapid.T, d *driver, p pfx, k, l string) spend {
	s := spend{}
	s.Kind = k
	s.Amount = kit.U64Range(t, 1, 1<<64-1, l+".amount")
	if k == "multi" || k == "wmulti" {
		n := rapid.IntRange(1, 4).Draw(t, l+".n")
		if kit.OneIn(t, 6, l+".many") {
			n = rapid.IntRange(5, 15).Draw(t, l+".n2")
		}
		s.req = rapid.IntRange(1, n).Draw(t, l+".req")
		for i := 0; i < n; i++ {
			key := drawKey(t, l+".key")
			s.keys = append(s.keys, key)
			s.pubs = append(s.pubs, ref.PubK1(key))
		}
		s.Redeem = ref.MultiRedeem(s.req, s.pubs)
		if k == "multi" {
			s.Lock = ref.P2SH(ref.H160(s.Redeem))
		} else {
			s.Lock = ref.P2SH(ref.H160(ref.Cat([]byte{0, 32}, ref.Sha256(s.Redeem))))
		}
		return s
	}
	key := drawKey(t, l+".key")
	pub := ref.PubK1(key)
	s.keys, s.pubs = [][]byte{key}, [][]byte{pub}
	h := ref.H160(pub)
	switch k {
	case "p2pkh":
		s.Lock = ref.P2PKH(h)
		s.addr = addr58(p.pkh, h)
		if d.cash {
			s.addr = ref.CashAddr("bitcoincash", 0, h)
		}
		if d.zen && rapid.Bool().Draw(t, l+".zen") {
			s.Lock = append(s.Lock, zenSuffix(extra{kit.Hex(kit.Bytes(t, 32, l+".bh")), kit.U64Range(t, 17, 1<<32-1, l+".ht"), omni{}})...)
		}
		if d.name == "cxc" && rapid.Bool().Draw(t, l+".asset") {
			s.Lock = append(s.Lock, cxcSuffix(kit.Bytes(t, 16, l+".ref"), kit.U64(t, l+".qty"))...)
		}
	case "p2sh-p2wpkh":
		s.Redeem = ref.Cat([]byte{0, 20}, h)
		s.Lock = ref.P2SH(ref.H160(s.Redeem))
		s.addr = addr58(p.sh, ref.H160(s.Redeem))
	case "p2wpkh":
		s.Lock = ref.Cat([]byte{0, 20}, h)
		s.addr = ref.SegwitAddr(p.hrp, 0, h)
	}
	return s
}

func cxcSuffix(refBytes []byte, qty uint64) []byte {
	return ref.Cat([]byte{28}, []byte("spkq"), refBytes, ref.LE64(qty), []byte{0x75})
}

func (s *spend) unl(ht byte) unl {
	return unl{kit.Hex(s.Lock), kit.Hex(s.Redeem), s.Amount, ht}
}

type world struct {
	d      *driver
	p      pfx
	x      extra
	tx     *ref.BTx
	txHex  string
	spends []spend
	unl    []unl
	seg    bool
	wit    bool
	digs   [][]byte
}

// drawWorld builds a request and its reference; the unsigned transaction is the reference's, which
// B01 shows to be the driver's.
func drawWorld(t *rapid.T, nmax int, only *driver) *world {
	w := &world{d: only}
	if w.d == nil {
		w.d = drawDriver(t)
	}
	d := w.d
	w.p = drawPfx(t, d)
	w.x = drawExtra(t, d)
	n, no := rapid.IntRange(1, nmax).Draw(t, "nin"), rapid.IntRange(1, 3).Draw(t, "nout")
	if nmax > 2 {
		n, no = gen.Few(t, nmax, "nin3"), gen.Few(t, 3, "nout3")
	}
	if nmax > 2 && kit.Rare(t, 60, "many outputs") {
		no = rapid.SampledFrom([]int{252, 253, 254, 255, 256, 257, 300}).Draw(t, "nout2")
	}
	if nmax > 4 && kit.Rare(t, 150, "many inputs") {
		n = rapid.SampledFrom([]int{252, 253, 254, 255, 256, 257}).Draw(t, "nin2")
	}
	ins, outs := drawVins(t, n), drawVouts(t, d, w.p, no)
	w.seg = d.segwit && rapid.Bool().Draw(t, "segwitON")
	for i := 0; i < n; i++ {
		if i > 5 {
			w.spends = append(w.spends, w.spends[i%6])
			w.unl = append(w.unl, w.unl[i%6])
			continue
		}
		s := drawSpend(t, d, w.p, "spend")
		// with the segwit switch on every multisig input is a witness script, with it off none is
		for (s.Kind == "multi" && w.seg) || (s.Kind != "multi" && s.Kind != "p2pkh" && !w.seg) {
			k := "p2pkh"
			if s.Kind == "multi" && w.p.hrp != "" {
				k = "wmulti"
			} else if s.Kind == "wmulti" {
				k = "multi"
			}
			s = mkSpend(t, d, w.p, k, "respend")
		}
		if s.Kind != "p2pkh" && s.Kind != "multi" {
			w.wit = true
		}
		w.spends = append(w.spends, s)
		w.unl = append(w.unl, s.unl(d.ht))
	}
	var ok bool
	lock := uint32(0)
	if rapid.Bool().Draw(t, "locked") {
		lock = kit.U32(t, "lock")
	}
	w.tx, ok = refTx(d, w.p, ins, outs, lock, rapid.Bool().Draw(t, "rbf"), w.x)
	if !ok {
		t.Fatalf("harness: reference rejects its own address")
	}
	w.txHex = kit.Hex(w.tx.Bytes(false))
	for i := range w.spends {
		w.digs = append(w.digs, w.tx.InputHash(i, w.spends[i].BSpend, d.ht, d.fork))
	}
	return w
}

func (w *world) kinds() string {
	m := map[string]int{}
	s := ""
	for _, x := range w.spends {
		if m[x.Kind] == 0 {
			s += x.Kind + " "
		}
		m[x.Kind]++
	}
	return s
}

// ---------------------------------------------------------------- B02 digests

func TestB02_Digest(t *testing.T) {
	kit.Check(t, 2000, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, 5, nil)
		d := w.d
		hs, err := d.hashes(w.txHex, w.unl, w.seg, w.p)
		if err != nil {
			t.Fatalf("%s: %s with %v refused: %v", d.name, w.txHex, w.unl, err)
		}
		if len(hs) != len(w.spends) {
			t.Fatalf("%s: %d digests for %d inputs", d.name, len(hs), len(w.spends))
		}
		for i, h := range hs {
			s := w.spends[i]
			if h.Hash != kit.Hex(w.digs[i]) {
				t.Fatalf("%s: input %d (%s) of %s\nunlock %+v\ndigest %s\nwant   %x", d.name, i, s.Kind, w.txHex, w.unl[i], h.Hash, w.digs[i])
			}
			if s.req == 0 {
				if h.NReq != 0 || h.Normal == nil || h.Addr != s.addr || h.Normal.SigType != d.ht || len(h.Multi) != 0 {
					t.Fatalf("%s: input %d (%s) reported as %+v, want address %s", d.name, i, s.Kind, h, s.addr)
				}
			} else {
				if int(h.NReq) != s.req || h.Normal != nil || len(h.Pubkeys) != len(s.pubs) {
					t.Fatalf("%s: multisig input %d reported as %+v", d.name, i, h)
				}
				for j, pk := range h.Pubkeys {
					if pk != kit.Hex(s.pubs[j]) {
						t.Fatalf("%s: multisig input %d key %d is %s, want %x", d.name, i, j, pk, s.pubs[j])
					}
				}
			}
			c.Class("%s %s", d.name, s.Kind)
		}
		c.Eval(len(hs))
		c.NonTrivial(d.name, w.txHex, fmt.Sprint(w.unl))
		c.Sample("%s %s %s", d.name, w.kinds(), w.txHex)
	})
}

func TestB02_Refuse(t *testing.T) {
	kit.Check(t, 1200, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, 3, nil)
		d := w.d
		k := kit.Pos(t, 0, len(w.unl)-1, "which")
		mode := rapid.IntRange(0, 6).Draw(t, "mode")
		tx := w.txHex
		switch mode {
		case 6: // text that is not hexadecimal
			if rapid.Bool().Draw(t, "tx") {
				tx = gen.Junk(t, tx)
			} else if w.unl[k].Redeem != "" && rapid.Bool().Draw(t, "redeem") {
				w.unl[k].Redeem = gen.Junk(t, w.unl[k].Redeem)
			} else {
				w.unl[k].Lock = gen.Junk(t, w.unl[k].Lock)
			}
		case 0:
			w.unl = w.unl[1:]
		case 1:
			w.unl = append(w.unl, w.unl[0])
		case 2: // another signature type
			ht := byte(rapid.IntRange(0, 255).Draw(t, "ht"))
			if ht == d.ht {
				return
			}
			w.unl[k].SigType = ht
		case 3: // a lock script of no supported kind
			b := kit.UnHex(w.unl[k].Lock)
			i := rapid.SampledFrom([]int{0, 1, 2, 22, 23, 24}).Draw(t, "pos")
			if i >= len(b) {
				i = len(b) - 1
			}
			b[i] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
			switch {
			case len(b) == 22 && b[0] == 0 && b[1] == 20, len(b) == 23 && b[0] == 0xa9 && b[1] == 20 && b[22] == 0x87, len(b) >= 25 && b[0] == 0x76 && b[1] == 0xa9 && b[2] == 20 && b[23] == 0x88 && b[24] == 0xac:
				return // still a known kind
			}
			w.unl[k].Lock = kit.Hex(b)
		case 4: // damaged text
			w.unl[k].Lock = w.unl[k].Lock[:len(w.unl[k].Lock)-rapid.IntRange(1, 9).Draw(t, "cut")]
			if b := w.unl[k].Lock; len(b)%2 == 0 && d.zen && len(b) >= 50 {
				return
			}
		case 5: // truncated or extended transaction
			b := kit.UnHex(tx)
			if rapid.Bool().Draw(t, "ext") {
				b = append(b, kit.BytesRange(t, 1, 5, "tail")...)
			} else {
				b = b[:kit.Pos(t, 0, len(b)-1, "tcut")]
			}
			tx = kit.Hex(b)
		}
		var hs []hsh
		var err error
		if m := kit.NoPanic(func() { hs, err = d.hashes(tx, w.unl, w.seg, w.p) }); m != "" {
			t.Fatalf("%s: %s %v: %s", d.name, tx, w.unl, m)
		}
		if err == nil {
			t.Fatalf("%s: mode %d: digests %v for %s with %+v", d.name, mode, hs, tx, w.unl)
		}
		c.Eval(1)
		c.Class("%s mode %d", d.name, mode)
		c.NonTrivial(d.name, tx, fmt.Sprint(w.unl))
	})
}

// ---------------------------------------------------------------- signing

// drawSig gives a signature as an external signer might: driver's own, or the reference's with any
// nonce (short r included), or arbitrary r and s.
func drawSig(t *rapid.T, d *driver, key, dig []byte, l string) ([]byte, bool) {
	switch rapid.IntRange(0, 3).Draw(t, l+".how") {
	case 0, 1:
		kit.SeedRand(rapid.Uint64().Draw(t, l+".ent"))
		s, pub, err := d.sign(kit.Hex(dig), key)
		if err != nil {
			t.Fatalf("%s: signing %x with %x failed: %v", d.name, dig, key, err)
		}
		if !bytes.Equal(pub, ref.PubK1(key)) || len(s) != 64 || !ref.IsLowS(ref.K1, s) || !ref.VerifyECDSA(ref.K1, ref.Pub64(ref.K1, key), dig, s) {
			t.Fatalf("%s: bad signature %x with %x over %x", d.name, s, pub, dig)
		}
		return s, true
	case 2:
		if kit.Rare(t, 15, l+".shorts") {
			return ref.ShortS(ref.K1, key, dig), true
		}
		k := kit.Scalar(t, ref.NK1, l+".nonce")
		if rapid.Bool().Draw(t, l+".short") { // (n+1)/2 has an x coordinate of 166 bits
			k = ref.HalfNonce
		}
		s := ref.SignWith(ref.K1, key, k, dig)
		if s == nil {
			t.Skip("no signature for this nonce")
		}
		return ref.LowS(ref.K1, s), true
	}
	s := ref.Cat(kit.Bytes(t, 32, l+".r"), kit.Bytes(t, 32, l+".s"))
	return s, false
}

// subset of required keys in order
func drawSubset(t *rapid.T, n, k int, l string) []int {
	p := rapid.Permutation(seqInts(n)).Draw(t, l)
	use := map[int]bool{}
	for _, i := range p[:k] {
		use[i] = true
	}
	var o []int
	for i := 0; i < n; i++ {
		if use[i] {
			o = append(o, i)
		}
	}
	return o
}
func seqInts(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

// signWorld fills the digests the driver reports and the reference transaction.
func signWorld(t *rapid.T, w *world, real bool) (hs []hsh, want *ref.BTx, good bool) {
	d := w.d
	hs, err := d.hashes(w.txHex, w.unl, w.seg, w.p)
	if err != nil || len(hs) != len(w.spends) {
		t.Fatalf("%s: %s with %v refused: %v", d.name, w.txHex, w.unl, err)
	}
	want = &ref.BTx{Version: w.tx.Version, Lock: w.tx.Lock, Outs: w.tx.Outs}
	good = true
	for i, s := range w.spends {
		in := w.tx.Ins[i]
		el := func(key []byte, l string) ([]byte, []byte) {
			sig, ok := drawSig(t, d, key, w.digs[i], l)
			for !ok && real {
				sig, ok = drawSig(t, d, key, w.digs[i], l+"'")
			}
			good = good && ok
			return sig, append(ref.DER(sig), d.ht)
		}
		if s.req == 0 {
			sig, e := el(s.keys[0], "sig")
			hs[i].Normal.Sig, hs[i].Normal.Pub = append([]byte{}, sig...), s.pubs[0]
			switch s.Kind {
			case "p2pkh":
				in.Script = ref.Cat(ref.Push(e), ref.Push(s.pubs[0]))
			case "p2sh-p2wpkh":
				in.Script = ref.Push(s.Redeem)
				in.Witness = [][]byte{e, s.pubs[0]}
			default:
				in.Witness = [][]byte{e, s.pubs[0]}
			}
		} else {
			more := kit.Pos(t, 0, len(s.keys)-s.req, "more")
			items := [][]byte{{}}
			for _, j := range drawSubset(t, len(s.keys), s.req+more, "signers") {
				sig, e := el(s.keys[j], "msig")
				hs[i].Multi[j].Sig, hs[i].Multi[j].Pub = append([]byte{}, sig...), s.pubs[j]
				if len(items) <= s.req {
					items = append(items, e)
				}
			}
			items = append(items, s.Redeem)
			if s.Kind == "wmulti" {
				in.Script = ref.Push(ref.Cat([]byte{0, 32}, ref.Sha256(s.Redeem)))
				in.Witness = items
			} else {
				for _, it := range items {
					in.Script = append(in.Script, ref.Push(it)...)
				}
			}
		}
		want.Ins = append(want.Ins, in)
	}
	return
}

func TestB03_Sign(t *testing.T) {
	kit.Check(t, 500, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, 4, nil)
		d := w.d
		hs, want, good := signWorld(t, w, false)
		got, err := d.insert(w.txHex, hs, w.unl, w.seg)
		if err != nil {
			t.Fatalf("%s: inserting %+v into %s: %v", d.name, hs, w.txHex, err)
		}
		if x := kit.Hex(want.Bytes(w.wit)); got != x {
			t.Fatalf("%s: %s signed transaction differs\n got %s\nwant %s", d.name, w.kinds(), got, x)
		}
		pt, _, err := ref.ParseBTx(kit.UnHex(got))
		if err != nil {
			t.Fatalf("%s: unparseable %s", d.name, got)
		}
		valid := true
		for i := range pt.Ins {
			valid = valid && pt.ValidInput(i, w.spends[i].BSpend, d.ht, d.fork)
		}
		if good && !valid {
			t.Fatalf("harness: reference rejects %s", got)
		}
		if v := d.verify(got, w.unl, w.seg, w.p); v != valid {
			t.Fatalf("%s: %s verification of %s says %v, consensus %v", d.name, w.kinds(), got, v, valid)
		}
		c.Eval(2)
		c.Class("%s seg=%v real=%v", d.name, w.seg, good)
		for _, s := range w.spends {
			c.Class("%s %s", d.name, s.Kind)
		}
		c.NonTrivial(d.name, got)
		c.Sample("%s %s %s", d.name, w.kinds(), got)
	})
}

// Incomplete signature sets give an error, not a transaction.
func TestB03_Incomplete(t *testing.T) {
	kit.Check(t, 400, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, 3, nil)
		d := w.d
		hs, _, _ := signWorld(t, w, false)
		k := kit.Pos(t, 0, len(hs)-1, "which")
		mode := rapid.IntRange(0, 6).Draw(t, "mode")
		u, tx := w.unl, w.txHex
		switch mode {
		case 6: // text that is not hexadecimal
			if u = append([]unl{}, u...); d.zen || rapid.Bool().Draw(t, "tx") { // zencash reads no unlock data here
				tx = gen.Junk(t, tx)
			} else if u[k].Redeem != "" && rapid.Bool().Draw(t, "redeem") {
				u[k].Redeem = gen.Junk(t, u[k].Redeem)
			} else {
				u[k].Lock = gen.Junk(t, u[k].Lock)
			}
		case 0:
			hs = hs[:len(hs)-1]
		case 1: // a missing or misshapen signature
			cut := func(x *sp) {
				switch rapid.IntRange(0, 3).Draw(t, "cut") {
				case 0:
					x.Sig = gen.None(t, x.Sig)
				case 1:
					x.Sig = x.Sig[:rapid.IntRange(0, 63).Draw(t, "n")]
				case 2:
					x.Pub = gen.None(t, x.Pub)
				default:
					x.Pub = x.Pub[:rapid.IntRange(0, 32).Draw(t, "n")]
				}
			}
			if hs[k].Normal != nil {
				cut(hs[k].Normal)
			} else {
				n := 0
				for j := range hs[k].Multi {
					if hs[k].Multi[j].Sig != nil {
						n++
						if n >= int(hs[k].NReq) {
							hs[k].Multi[j].Sig, hs[k].Multi[j].Pub = nil, nil
						}
					}
				}
			}
		case 2:
			hs[k].Normal = nil
			hs[k].NReq = 0
			hs[k].Multi = gen.None(t, hs[k].Multi)
		case 3:
			u = u[:len(u)-1]
		case 4:
			if d.zen {
				return
			}
			u = append([]unl{}, u...)
			u[k].Lock = u[k].Lock[:len(u[k].Lock)-2]
		case 5:
			tx = tx[:2*kit.Pos(t, 0, len(tx)/2-1, "cut")]
		}
		var got string
		var err error
		if m := kit.NoPanic(func() { got, err = d.insert(tx, hs, u, w.seg) }); m != "" {
			t.Fatalf("%s: mode %d: %s", d.name, mode, m)
		}
		if err == nil {
			t.Fatalf("%s: mode %d: incomplete data gives transaction %q", d.name, mode, got)
		}
		c.Eval(1)
		c.Class("%s mode %d", d.name, mode)
		c.NonTrivial(d.name, tx, fmt.Sprint(hs))
	})
}

// Segwit inputs while the segwit switch is off, or in a driver that cannot finish them: refused, or the
// digest the network asks for.
func TestB02_SegwitOff(t *testing.T) {
	kit.Check(t, 1500, func(t *rapid.T, c *kit.Case) {
		d := drawDriver(t)
		for d.zen || d.fork {
			d = drawDriver(t)
		}
		w := drawWorld(t, 3, d)
		if w.seg || w.p.hrp == "" {
			return
		}
		k := kit.Pos(t, 0, len(w.spends)-1, "which")
		w.spends[k] = mkSpend(t, d, w.p, rapid.SampledFrom([]string{"p2sh-p2wpkh", "p2wpkh"}).Draw(t, "kind"), "seg")
		w.unl[k] = w.spends[k].unl(d.ht)
		var hs []hsh
		var err error
		if m := kit.NoPanic(func() { hs, err = d.hashes(w.txHex, w.unl, false, w.p) }); m != "" {
			t.Fatalf("%s: %s with %+v: %s", d.name, w.txHex, w.unl, m)
		}
		if err == nil {
			if len(hs) != len(w.spends) {
				t.Fatalf("%s: %d digests for %d inputs", d.name, len(hs), len(w.spends))
			}
			for i, h := range hs {
				s := w.spends[i]
				dig := w.tx.InputHash(i, s.BSpend, d.ht, d.fork)
				if h.Hash != kit.Hex(dig) || (s.req == 0 && h.Addr != s.addr) {
					t.Fatalf("%s: input %d (%s) of %s\nunlock %+v\ndigest %s (%s)\nwant   %x (%s)", d.name, i, s.Kind, w.txHex, w.unl[i], h.Hash, h.Addr, dig, s.addr)
				}
			}
		}
		c.Eval(1)
		c.Class("%s %s segwit off: refused=%v", d.name, w.spends[k].Kind, err != nil)
		c.NonTrivial(d.name, w.txHex, fmt.Sprint(w.unl))
	})
}

// Lists so long that their count takes more than two bytes: created, digested, decoded.
func TestB02_Large(t *testing.T) {
	if kit.Brief() {
		t.Skip("large")
	}
	kit.Check(t, 24, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, 1, nil)
		d, n := w.d, gen.Long(t, "outs")
		few := w.tx.Outs
		tx := *w.tx
		tx.Outs = nil
		for i := 0; i < n; i++ {
			o := few[i%len(few)]
			o.Amount ^= uint64(i)
			tx.Outs = append(tx.Outs, o)
		}
		raw := tx.Bytes(false)
		v, err := d.decode(raw, w.seg)
		if err != nil || v.NOuts != n || len(v.Ins) != 1 || kit.Hex(v.Lock) != kit.Hex(ref.LE32(tx.Lock)) {
			t.Fatalf("%s: %d outputs like %v decoded as %v, %v", d.name, n, few, v, err)
		}
		hs, err := d.hashes(kit.Hex(raw), w.unl, w.seg, w.p)
		if want := tx.InputHash(0, w.spends[0].BSpend, d.ht, d.fork); err != nil || len(hs) != 1 || hs[0].Hash != kit.Hex(want) {
			t.Fatalf("%s: %d outputs like %v, digests %v %v, want %x", d.name, n, few, hs, err, want)
		}
		c.Eval(2)
		c.Class("%s %d outputs", d.name, n)
		c.NonTrivial(d.name, n, w.txHex)
	})
}

func TestB01_Large(t *testing.T) {
	if kit.Brief() {
		t.Skip("large")
	}
	kit.Check(t, 24, func(t *rapid.T, c *kit.Case) {
		d := drawDriver(t)
		p, x := drawPfx(t, d), drawExtra(t, d)
		ins, few := drawVins(t, 2), drawVouts(t, d, p, 3)
		n, in := gen.Long(t, "n"), rapid.Bool().Draw(t, "inputs")
		outs := few
		if in {
			ins = drawVins(t, n)
		} else {
			outs = nil
			for i := 0; i < n; i++ {
				o := few[i%3]
				o.Amount ^= uint64(i)
				outs = append(outs, o)
			}
		}
		want, ok := refTx(d, p, ins, few, 7, false, x)
		if !ok {
			t.Fatalf("harness: %v", few)
		}
		if !in {
			o := want.Outs
			want.Outs = nil
			for i := range outs {
				want.Outs = append(want.Outs, ref.BOut{Amount: outs[i].Amount, Script: o[i%3].Script})
			}
			want.Outs = append(want.Outs, o[3:]...)
		}
		got, err := d.create(ins, outs, 7, false, p, x)
		if err != nil {
			t.Fatalf("%s: %d like %v %v refused: %v", d.name, n, ins[:2], few, err)
		}
		if w := kit.Hex(want.Bytes(false)); got != w {
			t.Fatalf("%s: %d like %v %v (inputs: %v): %s", d.name, n, ins[:2], few, in, gen.Diff(got, w))
		}
		c.Eval(1)
		c.Class("%s %d entries, inputs: %v", d.name, n, in)
		c.NonTrivial(d.name, n, in, fmt.Sprint(few))
	})
}
