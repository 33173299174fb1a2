package btcfam

import (
	"fmt"
	"testing"

	"github.com/blocktree/go-owcdrivers/bitcoincashTransaction"
	"github.com/blocktree/go-owcdrivers/bitcoinsvTransaction"
	"github.com/blocktree/go-owcdrivers/cxcTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- B04 verification is sound

func refValid(tx *ref.BTx, w *world, u []unl) bool {
	if len(tx.Ins) != len(u) {
		return false
	}
	for i := range tx.Ins {
		s := w.spends[i].BSpend
		s.Amount, s.Lock, s.Redeem = u[i].Amount, kit.UnHex(u[i].Lock), kit.UnHex(u[i].Redeem)
		if u[i].SigType != w.d.ht || !tx.ValidInput(i, s, w.d.ht, w.d.fork) {
			return false
		}
	}
	return true
}

// els returns the signature elements of an input and a function that puts new ones in.
func els(in *ref.BIn, s *spend) ([][]byte, func([][]byte)) {
	if s.Kind == "p2pkh" || s.Kind == "multi" {
		ps, _ := ref.Pushes(in.Script)
		return ps, func(n [][]byte) {
			in.Script = nil
			for _, p := range n {
				in.Script = append(in.Script, ref.Push(p)...)
			}
		}
	}
	return append([][]byte{}, in.Witness...), func(n [][]byte) { in.Witness = n }
}

// looseDER encodes a signature with one of the deviations BIP66 forbids.
func looseDER(t *rapid.T, sig []byte) []byte {
	d := ref.DER(sig)
	rl := int(d[3])
	out := append([]byte{}, d...)
	switch rapid.IntRange(0, 5).Draw(t, "loose") {
	case 0: // padded r
		out = ref.Cat([]byte{0x30, d[1] + 1, 2, d[3] + 1, 0}, d[4:])
	case 1: // padded s
		out = ref.Cat([]byte{0x30, d[1] + 1}, d[2:4+rl], []byte{2, d[5+rl] + 1, 0}, d[6+rl:])
	case 2: // wrong total length
		out[1] += byte(rapid.IntRange(1, 255).Draw(t, "d"))
	case 3: // stripped sign byte (negative number)
		if d[4] == 0 {
			out = ref.Cat([]byte{0x30, d[1] - 1, 2, d[3] - 1}, d[5:])
		} else {
			out[0] = 0x31
		}
	case 4: // trailing bytes
		out = append(out, 0)
	case 5:
		i := rapid.SampledFrom([]int{0, 1, 2, 3, 4 + rl, 5 + rl}).Draw(t, "pos")
		out[i] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
	}
	return out
}

func TestB04_Tamper(t *testing.T) {
	kit.Check(t, 700, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, 3, nil)
		d := w.d
		_, tx, _ := signWorld(t, w, true)
		u := append([]unl{}, w.unl...)
		k := kit.Pos(t, 0, len(tx.Ins)-1, "which")
		in, s := &tx.Ins[k], &w.spends[k]
		kit.Before(t, func() { d.verify(kit.Hex(tx.Bytes(w.wit)), u, w.seg, w.p) })
		mode := rapid.IntRange(0, 12).Draw(t, "mode")
		var raw []byte
		name, text := "", ""
		switch mode {
		case 12:
			name = "text not hexadecimal"
			if what := rapid.IntRange(0, 2).Draw(t, "what"); what == 0 || u[k].Lock == "" {
				text = gen.Junk(t, kit.Hex(tx.Bytes(w.wit)))
			} else if u[k].Redeem == "" || what == 1 {
				u[k].Lock = gen.Junk(t, u[k].Lock)
			} else {
				u[k].Redeem = gen.Junk(t, u[k].Redeem)
			}
		case 0:
			name = "bytes changed"
			raw = kit.MutBytes(t, tx.Bytes(w.wit), "mut")
		case 1:
			name = "field changed"
			switch rapid.IntRange(0, 7).Draw(t, "field") {
			case 0:
				o := kit.Pos(t, 0, len(tx.Outs)-1, "out")
				tx.Outs = append([]ref.BOut{}, tx.Outs...)
				tx.Outs[o].Amount ^= 1 << uint(rapid.IntRange(0, 63).Draw(t, "bit"))
			case 1:
				o := kit.Pos(t, 0, len(tx.Outs)-1, "out")
				tx.Outs = append([]ref.BOut{}, tx.Outs...)
				tx.Outs[o].Script = kit.MutBytes(t, tx.Outs[o].Script, "script")
			case 2:
				in.Seq ^= 1 << uint(rapid.IntRange(0, 31).Draw(t, "bit"))
			case 3:
				tx.Version ^= 1 << uint(rapid.IntRange(0, 31).Draw(t, "bit"))
			case 4:
				tx.Lock ^= 1 << uint(rapid.IntRange(0, 31).Draw(t, "bit"))
			case 5:
				in.Vout ^= 1 << uint(rapid.IntRange(0, 31).Draw(t, "bit"))
			case 6:
				in.Txid = append([]byte{}, in.Txid...)
				in.Txid[rapid.IntRange(0, 31).Draw(t, "pos")] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
			case 7:
				in.Script = kit.MutBytes(t, in.Script, "iscript")
			}
		case 2:
			name = "output added, dropped or moved"
			o := append([]ref.BOut{}, tx.Outs...)
			if len(o) > 1 && rapid.Bool().Draw(t, "swap") {
				o[0], o[1] = o[1], o[0]
			} else if len(o) > 1 && rapid.Bool().Draw(t, "drop") {
				o = o[1:]
			} else {
				o = append(o, o[0])
			}
			tx.Outs = o
		case 3:
			name = "hash type changed"
			e, put := els(in, s)
			j := 0
			if s.req > 0 {
				j = rapid.IntRange(1, s.req).Draw(t, "j")
			}
			e[j] = append([]byte{}, e[j]...)
			e[j][len(e[j])-1] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
			put(e)
		case 4:
			name = "another key"
			if d.zen || s.req > 0 {
				return // zencash: known finding, see TestB04_Findings
			}
			key := drawKey(t, "thief")
			sig := ref.LowS(ref.K1, ref.SignWith(ref.K1, key, kit.Scalar(t, ref.NK1, "n"), w.digs[k]))
			_, put := els(in, s)
			put([][]byte{append(ref.DER(sig), d.ht), ref.PubK1(key)})
		case 5:
			name = "multisig signatures repeated, reordered, missing or by strangers"
			if s.req == 0 {
				return
			}
			e, put := els(in, s)
			sigs := e[1 : len(e)-1]
			switch rapid.IntRange(0, 4).Draw(t, "how") {
			case 0:
				for j := range sigs {
					sigs[j] = sigs[0]
				}
			case 1:
				for a, b := 0, len(sigs)-1; a < b; a, b = a+1, b-1 {
					sigs[a], sigs[b] = sigs[b], sigs[a]
				}
			case 2:
				e = append(append([][]byte{}, e[:len(e)-2]...), e[len(e)-1])
			case 3:
				sig := ref.LowS(ref.K1, ref.SignWith(ref.K1, drawKey(t, "stranger"), kit.Scalar(t, ref.NK1, "n"), w.digs[k]))
				sigs[kit.Pos(t, 0, len(sigs)-1, "j")] = append(ref.DER(sig), d.ht)
			case 4: // own keys, other redeem script
				if s.Kind == "multi" {
					return
				}
				e[len(e)-1] = ref.MultiRedeem(1, [][]byte{ref.PubK1(drawKey(t, "own"))})
			}
			put(e)
		case 6:
			name = "signature over something else"
			e, put := els(in, s)
			j, key := 0, s.keys[0]
			if s.req > 0 {
				j = 1
			}
			dig := kit.Bytes(t, 32, "other")
			sig := ref.SignWith(ref.K1, key, kit.Scalar(t, ref.NK1, "n"), dig)
			if sig == nil {
				return
			}
			e[j] = append(ref.DER(ref.LowS(ref.K1, sig)), d.ht)
			put(e)
		case 7:
			name = "spent amount differs"
			u[k].Amount ^= 1 << uint(rapid.IntRange(0, 63).Draw(t, "bit"))
			if u[k].Amount == 0 {
				return
			}
		case 8:
			name = "spent output differs"
			if s.req > 0 {
				return // known finding, see TestB04_Findings
			}
			q := mkSpend(t, d, w.p, s.Kind, "otherspend")
			if rapid.Bool().Draw(t, "lockonly") || s.Kind != "p2sh-p2wpkh" {
				u[k].Lock = kit.Hex(q.Lock)
			} else {
				u[k].Redeem, u[k].Lock = kit.Hex(q.Redeem), kit.Hex(q.Lock)
			}
		case 9:
			name = "loose DER"
			e, put := els(in, s)
			j := 0
			if s.req > 0 {
				j = 1
			}
			sig, err := ref.ParseDER(e[j][:len(e[j])-1])
			if err != nil {
				t.Fatalf("harness: %v", err)
			}
			e[j] = append(looseDER(t, sig), d.ht)
			put(e)
		case 10:
			name = "inputs exchanged"
			if len(tx.Ins) < 2 {
				return
			}
			j := (k + 1) % len(tx.Ins)
			a, b := &tx.Ins[k], &tx.Ins[j]
			a.Script, b.Script, a.Witness, b.Witness = b.Script, a.Script, b.Witness, a.Witness
		case 11:
			name = "unlock data missing or extra"
			if rapid.Bool().Draw(t, "extra") {
				u = append(u, u[0])
			} else {
				u = u[1:]
			}
		}
		if raw == nil {
			raw = tx.Bytes(w.wit)
		}
		want := false
		if pt, _, err := ref.ParseBTx(raw); err == nil {
			want = mode != 12 && refValid(pt, w, u)
		}
		if text == "" {
			text = kit.Hex(raw)
		}
		got := false
		if m := kit.NoPanic(func() { got = d.verify(text, u, w.seg, w.p) }); m != "" {
			t.Fatalf("%s: %s: verifying %x: %s", d.name, name, raw, m)
		}
		if got && !want {
			t.Fatalf("%s: %s (input %d of %s): invalid transaction accepted\n%x\n%+v", d.name, name, k, w.kinds(), raw, u)
		}
		c.Eval(1)
		c.Class("%s: %s", d.name, name)
		if !want {
			c.NonTrivial(d.name, raw, fmt.Sprint(u))
			c.Sample("%s %s %x", d.name, name, raw)
		}
	})
}

// The two acceptances the existing tests pin down.
func TestB04_Findings(t *testing.T) {
	kit.Once(t, func(c *kit.Case) {
		key, own := ref.Cat(make([]byte, 31), []byte{7}), ref.Cat(make([]byte, 31), []byte{9})
		mk := func(d *driver) *ref.BTx {
			return &ref.BTx{Version: d.version, Ins: []ref.BIn{{Txid: make([]byte, 32), Seq: 0xffffffff}}, Outs: []ref.BOut{{Amount: 1, Script: ref.P2PKH(make([]byte, 20))}}}
		}
		sign := func(dig []byte) []byte {
			return ref.LowS(ref.K1, ref.SignWith(ref.K1, own, ref.HalfNonce, dig))
		}
		for i := range drivers {
			d := &drivers[i]
			tx := mk(d)
			if d.multi && !d.fork {
				redeem := ref.MultiRedeem(1, [][]byte{ref.PubK1(own)})
				s := ref.BSpend{Kind: "multi", Lock: ref.P2SH(ref.H160([]byte("somebody else's script"))), Redeem: redeem, Amount: 1}
				e := append(ref.DER(sign(tx.InputHash(0, s, d.ht, d.fork))), d.ht)
				tx.Ins[0].Script = ref.Cat([]byte{0}, ref.Push(e), ref.Push(redeem))
				if d.verify(kit.Hex(tx.Bytes(false)), []unl{{kit.Hex(s.Lock), kit.Hex(redeem), 1, d.ht}}, false, d.pfxs[0]) {
					kit.Finding("multisig-lock")
				}
				c.Eval(1)
			}
			if d.zen {
				s := ref.BSpend{Kind: "p2pkh", Lock: ref.P2PKH(ref.H160(ref.PubK1(key))), Amount: 1}
				e := append(ref.DER(sign(tx.InputHash(0, s, d.ht, d.fork))), d.ht)
				tx.Ins[0].Script = ref.Cat(ref.Push(e), ref.Push(ref.PubK1(own)))
				if d.verify(kit.Hex(tx.Bytes(false)), []unl{{kit.Hex(s.Lock), "", 1, d.ht}}, false, d.pfxs[0]) {
					kit.Finding("zencash-key")
				}
				c.Eval(1)
			}
		}
	})
}

// ---------------------------------------------------------------- B05 multisig addresses

func TestB05_Create(t *testing.T) {
	kit.Check(t, 8000, func(t *rapid.T, c *kit.Case) {
		d := drawDriver(t)
		p := drawPfx(t, d)
		seg := rapid.Bool().Draw(t, "seg")
		if !d.segwit {
			seg = false
		}
		n := rapid.IntRange(0, 18).Draw(t, "n")
		if kit.OneIn(t, 20, "huge") {
			n = rapid.IntRange(250, 275).Draw(t, "n2")
		}
		req := rapid.IntRange(0, 18).Draw(t, "req")
		if kit.OneIn(t, 20, "hugereq") {
			req = rapid.IntRange(19, 255).Draw(t, "req2")
		}
		if n > 0 && n < 17 && kit.OneIn(t, 2, "fit") {
			req = rapid.IntRange(1, n).Draw(t, "req3")
		}
		var pubs [][]byte
		valid := req >= 1 && req <= n && n <= 16
		total := 3
		wrongLen := kit.OneIn(t, 6, "wrong")
		for i := 0; i < n; i++ {
			l := 33
			if kit.OneIn(t, 12, "uncompressed") {
				l = 65
			} else if wrongLen && kit.OneIn(t, 4, "bad") {
				l = rapid.SampledFrom([]int{0, 1, 20, 32, 34, 64, 66, 128, 256 + 33}).Draw(t, "len")
				valid = false
			}
			k := kit.Bytes(t, l, "pub")
			if l == 33 || l == 65 {
				k[0] = byte(2 + int(k[0])%2)
				if l == 65 {
					k[0] = 4
				}
			}
			pubs = append(pubs, k)
			total += l + 1
		}
		if total > 520 {
			valid = false
		}
		cp := make([][]byte, n)
		for i := range pubs {
			cp[i] = append([]byte{}, pubs[i]...)
		}
		var a, r string
		var err error
		if m := kit.NoPanic(func() { a, r, err = d.multisig(byte(req), pubs, seg, p) }); m != "" {
			t.Fatalf("%s: %d of %d: %s", d.name, req, n, m)
		}
		if !valid {
			if err == nil {
				t.Fatalf("%s: %d of %d keys %x: impossible multisig gives %s %s", d.name, req, n, pubs, a, r)
			}
		} else {
			redeem := ref.MultiRedeem(req, cp)
			h := ref.H160(redeem)
			if seg {
				h = ref.H160(ref.Cat([]byte{0, 32}, ref.Sha256(redeem)))
			}
			if err != nil || r != kit.Hex(redeem) || a != addr58(p.sh, h) {
				t.Fatalf("%s: %d of %d keys %x (segwit %v): got %s %s %v, want %s %x", d.name, req, n, pubs, seg, a, r, err, addr58(p.sh, h), redeem)
			}
			// the address pays to exactly that script
			if s, ok := scriptFor(d, p, a, extra{blockHash: kit.Hex(make([]byte, 32))}); !ok || kit.Hex(s[:23]) != kit.Hex(ref.P2SH(h)) {
				t.Fatalf("%s: address %s is not one of the network", d.name, a)
			}
			c.NonTrivial(d.name, req, seg, r)
			c.Sample("%s %d of %d %s", d.name, req, n, a)
		}
		c.Eval(1)
		c.Class("%s valid=%v seg=%v", d.name, valid, seg)
	})
}

// Life of a multisig: address, payment to it, spend by any sufficient set of key holders.
func TestB05_Life(t *testing.T) {
	kit.Check(t, 150, func(t *rapid.T, c *kit.Case) {
		d := drawDriver(t)
		for !d.multi {
			d = drawDriver(t)
		}
		p := drawPfx(t, d)
		seg := d.segwit && p.hrp != "" && rapid.Bool().Draw(t, "seg")
		n := rapid.IntRange(1, 15).Draw(t, "n")
		req := rapid.IntRange(1, n).Draw(t, "req")
		var s spend
		for i := 0; i < n; i++ {
			s.keys = append(s.keys, drawKey(t, "key"))
			s.pubs = append(s.pubs, ref.PubK1(s.keys[i]))
		}
		a, r, err := d.multisig(byte(req), s.pubs, seg, p)
		if err != nil {
			t.Fatalf("%s: %v", d.name, err)
		}
		x := drawExtra(t, d)
		fund, err := d.create([]vin{{kit.Hex(kit.Bytes(t, 32, "txid")), 0}}, []vout{{a, kit.U64Range(t, 1, 1<<63, "amount")}}, 0, false, p, x)
		if err != nil {
			t.Fatalf("%s: paying to its own multisig address %s refused: %v", d.name, a, err)
		}
		ft, _, err := ref.ParseBTx(kit.UnHex(fund))
		if err != nil {
			t.Fatalf("%s: %v", d.name, err)
		}
		s.Kind, s.req, s.Lock, s.Redeem, s.Amount = "multi", req, ft.Outs[0].Script, kit.UnHex(r), ft.Outs[0].Amount
		if seg {
			s.Kind = "wmulti"
		}
		w := &world{d: d, p: p, x: x, seg: seg, wit: seg, spends: []spend{s}}
		w.unl = []unl{s.unl(d.ht)}
		var ok bool
		w.tx, ok = refTx(d, p, []vin{{kit.Hex(ref.Rev(ref.DSha256(kit.UnHex(fund)))), 0}}, drawVouts(t, d, p, 1), 0, false, x)
		if !ok {
			t.Fatalf("harness")
		}
		w.txHex = kit.Hex(w.tx.Bytes(false))
		w.digs = [][]byte{w.tx.InputHash(0, s.BSpend, d.ht, d.fork)}
		hs, want, _ := signWorld(t, w, true)
		got, err := d.insert(w.txHex, hs, w.unl, seg)
		if err != nil || got != kit.Hex(want.Bytes(seg)) {
			t.Fatalf("%s: %d of %d: %v\n got %s\nwant %x", d.name, req, n, err, got, want.Bytes(seg))
		}
		if !want.ValidInput(0, s.BSpend, d.ht, d.fork) || !d.verify(got, w.unl, seg, p) {
			t.Fatalf("%s: %d of %d (segwit %v): spend %s not valid", d.name, req, n, seg, got)
		}
		c.Eval(1)
		c.Class("%s seg=%v", d.name, seg)
		c.NonTrivial(d.name, got)
		c.Sample("%s %d of %d %s", d.name, req, n, got)
	})
}

// ---------------------------------------------------------------- B06 payload transactions

func TestB06_Payload(t *testing.T) {
	kit.Check(t, 10000, func(t *rapid.T, c *kit.Case) {
		dd := drivers[rapid.SampledFrom([]int{2, 5, 6}).Draw(t, "driver")]
		dd.omni, dd.sh2 = true, false // the second script hash version is not offered here
		d := &dd
		p := drawPfx(t, d)
		x := extra{omni: drawOmni(t)}
		switch rapid.IntRange(0, 7).Draw(t, "odd") {
		case 0:
			x.omni.Type = rapid.IntRange(-1, 200).Draw(t, "type")
		case 1:
			x.omni.Address = kit.MutAddr(t, x.omni.Address, "addr")
		case 2:
			x.omni.Address = kit.Str(t, b58, 0, 10, "short")
		case 3:
			x.omni.Address = addr58(kit.BytesRange(t, 0, 3, "v"), kit.BytesRange(t, 0, 30, "h"))
		}
		ins, outs := drawVins(t, count(t, "nin")), drawVouts(t, d, p, count(t, "nout"))
		rbf, lock := rapid.Bool().Draw(t, "rbf"), kit.U32(t, "lock")
		script := omniScript(x.omni)
		if x.omni.Type >= 185 && script != nil {
			if b, _ := ref.B58CheckDec(x.omni.Address, b58, "doubleSHA256"); len(b) != 21 {
				return // versions of other lengths are not part of the payload format
			}
		}
		want, ok := refTx(d, p, ins, outs, lock, rbf, x)
		if !ok {
			t.Fatalf("harness: own address rejected")
		}
		var got string
		var err error
		o := x.omni
		if m := kit.NoPanic(func() {
			switch d.name {
			case "omni":
				got, err = d.create(ins, outs, lock, rbf, p, x)
			case "bitcoincash":
				a := bitcoincashA{}
				got, err = bitcoincashTransaction.CreateEmptyOmniRawTransaction(a.ins(ins), a.outs(outs), bitcoincashTransaction.OmniStruct{TxType: o.Type, PropertyId: o.Prop, Amount: o.Amount, Ecosystem: o.Ecosystem, Memo: o.Memo, Address: o.Address}, lock, rbf, a.pfx(p))
			case "bitcoinsv":
				a := bitcoinsvA{}
				got, err = bitcoinsvTransaction.CreateEmptyOmniRawTransaction(a.ins(ins), a.outs(outs), bitcoinsvTransaction.OmniStruct{TxType: o.Type, PropertyId: o.Prop, Amount: o.Amount, Ecosystem: o.Ecosystem, Memo: o.Memo, Address: o.Address}, lock, rbf, a.pfx(p))
			}
		}); m != "" {
			t.Fatalf("%s: %+v: %s", d.name, o, m)
		}
		if script == nil {
			if err == nil {
				t.Fatalf("%s: payload %+v that does not exist gives %s", d.name, o, got)
			}
		} else if err != nil || got != kit.Hex(want.Bytes(false)) {
			t.Fatalf("%s: payload %+v: %v\n got %s\nwant %x", d.name, o, err, got, want.Bytes(false))
		}
		c.Eval(1)
		c.Class("%s payload %d valid=%v", d.name, o.Type, script != nil)
		if len(script) > 77 {
			c.Class("payload longer than 75 bytes")
		}
		c.NonTrivial(d.name, fmt.Sprintf("%+v", o), fmt.Sprint(ins, outs))
		c.Sample("%s %+v -> %s", d.name, o, got)
	})
}

func TestB06_Asset(t *testing.T) {
	kit.Check(t, 10000, func(t *rapid.T, c *kit.Case) {
		d := &drivers[3]
		p := drawPfx(t, d)
		ins, outs := drawVins(t, count(t, "nin")), drawVouts(t, d, p, rapid.IntRange(1, 4).Draw(t, "nout"))
		change := vout{drawAddr(t, d, p, "change"), kit.U64(t, "change.amount")}
		rbf, lock := rapid.Bool().Draw(t, "rbf"), kit.U32(t, "lock")
		var to []cxcTransaction.AssetTransfer
		valid := true
		var scripts [][]byte
		bad := rapid.IntRange(0, 5).Draw(t, "bad")
		if bad == 1 {
			outs[0].Addr = kit.MutAddr(t, outs[0].Addr, "mut")
		}
		if bad == 2 {
			outs[0].Addr = addr58(kit.BytesRange(t, 0, 3, "v"), kit.BytesRange(t, 0, 40, "h"))
		}
		if bad == 3 {
			g := append([]byte{byte(rapid.IntRange(0, 16).Draw(t, "wv"))}, ref.Bits8to5(kit.BytesRange(t, 0, 41, "prog"))...)
			hrp := rapid.SampledFrom([]string{"bc", "tb", "ltc", "bcrt"}).Draw(t, "hrp")
			outs[0].Addr = ref.Bech32Groups(hrp, g, rapid.SampledFrom([]uint32{1, 1, 0x2bc830a3}).Draw(t, "const"))
		}
		for i, o := range outs {
			r := kit.Bytes(t, 16, "ref")
			if bad == 4 && i == 0 {
				r = kit.BytesRange(t, 0, 40, "badref")
			}
			rs := kit.Hex(r)
			if bad == 5 && i == 0 {
				rs = kit.MutStr(t, rs, "refmut")
			}
			to = append(to, cxcTransaction.AssetTransfer{FirstSellTxID: rs, Address: o.Addr, Amount: o.Amount})
			if len(rs) != 32 || !isHex(rs) {
				valid = false
				continue
			}
			s, ok := scriptFor(d, p, o.Addr, extra{})
			if !ok {
				valid = false
				continue
			}
			if len(o.Addr) > 0 && o.Addr[0] >= 'A' && o.Addr[0] <= 'Z' {
				if _, _, _, err := ref.Bech32Dec(o.Addr); err == nil {
					return
				}
			}
			scripts = append(scripts, ref.Cat(s, cxcSuffix(ref.Rev(kit.UnHex(rs)), o.Amount)))
		}
		a := cxcA{}
		var got string
		var err error
		if m := kit.NoPanic(func() {
			got, err = cxcTransaction.CreateEmptyAssetRawTransaction(a.ins(ins), to, cxcTransaction.Vout{Address: change.Addr, Amount: change.Amount}, lock, rbf, a.pfx(p))
		}); m != "" {
			t.Fatalf("%+v: %s", to, m)
		}
		if valid {
			want, _ := refTx(d, p, ins, []vout{change}, lock, rbf, extra{})
			var os []ref.BOut
			for _, s := range scripts {
				os = append(os, ref.BOut{Amount: 0, Script: s})
			}
			want.Outs = append(os, want.Outs...)
			if err != nil || got != kit.Hex(want.Bytes(false)) {
				t.Fatalf("%+v change %+v: %v\n got %s\nwant %x", to, change, err, got, want.Bytes(false))
			}
		} else if err == nil {
			t.Fatalf("asset transfer %+v that cannot be met gives %s", to, got)
		}
		c.Eval(1)
		c.Class("asset bad=%d valid=%v", bad, valid)
		c.NonTrivial(fmt.Sprint(ins, to, change))
		c.Sample("%+v -> %s", to, got)
	})
}

// ---------------------------------------------------------------- B07 decoding

func TestB07_View(t *testing.T) {
	kit.Check(t, 800, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, 4, nil)
		d := w.d
		tx, wit := w.tx, false
		signed := rapid.Bool().Draw(t, "signed")
		if signed {
			_, tx, _ = signWorld(t, w, true)
			wit = w.wit
		}
		raw := tx.Bytes(wit)
		in := append([]byte{}, raw...)
		v, err := d.decode(in, w.seg)
		if err != nil {
			t.Fatalf("%s: %x refused: %v", d.name, raw, err)
		}
		check := func() {
			if kit.Hex(in) != kit.Hex(raw) {
				t.Fatalf("%s: decoding changed the caller's bytes", d.name)
			}
			if kit.Hex(v.Version) != kit.Hex(ref.LE32(tx.Version)) || kit.Hex(v.Lock) != kit.Hex(ref.LE32(tx.Lock)) || v.Witness != wit || v.NOuts != len(tx.Outs) || len(v.Ins) != len(tx.Ins) {
				t.Fatalf("%s: %x decoded as %+v", d.name, raw, v)
			}
			for i, x := range v.Ins {
				typ := map[string]int{"p2pkh": 1, "p2sh-p2wpkh": 2, "p2wpkh": 3, "multi": 4, "wmulti": 4}[w.spends[i].Kind]
				if !signed {
					typ = 0
				}
				if x.Txid != kit.Hex(ref.Rev(tx.Ins[i].Txid)) || x.Vout != tx.Ins[i].Vout || x.Type != typ {
					t.Fatalf("%s: input %d (%s) of %x decoded as %+v", d.name, i, w.spends[i].Kind, raw, x)
				}
			}
		}
		check()
		v2, err := d.decode(in, w.seg)
		if err != nil || fmt.Sprint(v2) != fmt.Sprint(v) {
			t.Fatalf("%s: second decoding differs", d.name)
		}
		check()
		// every truncation is refused
		cut := kit.Pos(t, 0, len(raw)-1, "cut")
		var err3 error
		if m := kit.NoPanic(func() { _, err3 = d.decode(raw[:cut], w.seg) }); m != "" || err3 == nil {
			t.Fatalf("%s: %x cut to %d bytes: %v %s", d.name, raw, cut, err3, m)
		}
		if m := kit.NoPanic(func() {
			_, err3 = d.decode(append(append([]byte{}, raw...), kit.BytesRange(t, 1, 4, "tail")...), w.seg)
		}); m != "" || err3 == nil {
			t.Fatalf("%s: %x with bytes appended: %v %s", d.name, raw, err3, m)
		}
		c.Eval(4)
		c.Class("%s signed=%v wit=%v", d.name, signed, wit)
		c.NonTrivial(d.name, raw, cut)
		c.Sample("%s %x", d.name, raw)
	})
}

// No input makes any entry point panic.
func TestB07_Robust(t *testing.T) {
	kit.Check(t, 1500, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, 2, nil)
		d := w.d
		hs, tx, _ := signWorld(t, w, true)
		raw := tx.Bytes(w.wit)
		if rapid.Bool().Draw(t, "empty") {
			raw = kit.UnHex(w.txHex)
		}
		u := append([]unl{}, w.unl...)
		seg := w.seg
		n := rapid.IntRange(1, 3).Draw(t, "nmut")
		for i := 0; i < n; i++ {
			k := kit.Pos(t, 0, len(u)-1, "k")
			switch rapid.IntRange(0, 7).Draw(t, "what") {
			case 0, 1, 2:
				raw = kit.MutBytes(t, raw, "raw")
			case 3:
				u[k].Lock = kit.MutHex(t, u[k].Lock, "lock")
			case 4:
				u[k].Redeem = kit.MutHex(t, u[k].Redeem, "redeem")
			case 5:
				if x := hs[k].Normal; x != nil {
					x.Sig, x.Pub = kit.MutBytes(t, x.Sig, "sig"), kit.MutBytes(t, x.Pub, "pub")
				} else if len(hs[k].Multi) > 0 {
					j := kit.Pos(t, 0, len(hs[k].Multi)-1, "j")
					hs[k].Multi[j].Sig = kit.MutBytes(t, hs[k].Multi[j].Sig, "msig")
				}
			case 6:
				hs[k].Hash = kit.MutHex(t, hs[k].Hash, "hash")
				hs[k].NReq = byte(rapid.IntRange(0, 255).Draw(t, "nreq"))
			case 7:
				seg = d.segwit && !seg
			}
		}
		h := kit.Hex(raw)
		key := kit.BytesRange(t, 0, 40, "key")
		hash := kit.MutHex(t, kit.Hex(w.digs[0]), "dig")
		for name, f := range map[string]func(){
			"decode": func() { d.decode(raw, seg) },
			"digest": func() { d.hashes(h, u, seg, w.p) },
			"insert": func() { d.insert(h, hs, u, seg) },
			"verify": func() { d.verify(h, u, seg, w.p) },
			"sign":   func() { d.sign(hash, key) },
			"other":  func() { d.verify(kit.MutStr(t, h, "txt"), u, seg, w.p) },
		} {
			if m := kit.NoPanic(f); m != "" {
				t.Fatalf("%s %s: tx %s unlock %+v hashes %+v: %s", d.name, name, h, u, hs, m)
			}
		}
		c.Eval(6)
		c.Class("%s", d.name)
		c.NonTrivial(d.name, h, fmt.Sprint(u, hs))
		c.Sample("%s %s", d.name, h)
	})
}

// Every prefix of a transaction, and every single-byte change of one, is handled without a crash, and
// none that breaks the transaction verifies.
func TestB04_EveryByte(t *testing.T) {
	kit.Check(t, 5, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, 2, nil)
		d := w.d
		_, tx, _ := signWorld(t, w, true)
		raw := tx.Bytes(w.wit)
		if !d.verify(kit.Hex(raw), w.unl, w.seg, w.p) {
			t.Fatalf("%s: valid transaction %x refused", d.name, raw)
		}
		r := kit.NewPRNG(rapid.Uint64().Draw(t, "changes"))
		try := func(b []byte, what string, at int) {
			got, want := false, false
			if pt, _, err := ref.ParseBTx(b); err == nil {
				want = refValid(pt, w, w.unl)
			}
			if m := kit.NoPanic(func() { got = d.verify(kit.Hex(b), w.unl, w.seg, w.p) }); m != "" {
				t.Fatalf("%s: %s at %d of %x: %s", d.name, what, at, raw, m)
			}
			if got && !want {
				t.Fatalf("%s: %s at %d of %x: invalid %x accepted", d.name, what, at, raw, b)
			}
			c.Eval(1)
		}
		for i := range raw {
			try(raw[:i], "cut", i)
			b := append([]byte{}, raw...)
			switch r.Intn(4) {
			case 0:
				b[i]++
			case 1:
				b[i]--
			case 2:
				b[i] ^= 1 << uint(r.Intn(8))
			case 3:
				b[i] ^= byte(1 + r.Intn(255))
			}
			try(b, "change", i)
		}
		c.Class("%s every byte %s", d.name, w.kinds())
		c.NonTrivial(d.name, raw)
		c.Sample("%s every byte of %x", d.name, raw)
	})
}

func TestB07_EveryByte(t *testing.T) {
	kit.Check(t, 250, func(t *rapid.T, c *kit.Case) {
		w := drawWorld(t, 2, nil)
		d := w.d
		_, tx, _ := signWorld(t, w, true)
		raw := tx.Bytes(w.wit)
		if rapid.Bool().Draw(t, "empty") {
			raw = kit.UnHex(w.txHex)
		}
		try := func(b []byte, what string, at int) {
			if m := kit.NoPanic(func() { d.decode(append([]byte{}, b...), w.seg) }); m != "" {
				t.Fatalf("%s: %s at %d of %x: %s", d.name, what, at, raw, m)
			}
			c.Eval(1)
		}
		for i := range raw {
			try(raw[:i], "cut", i)
			for _, v := range []byte{0, 1, 0x51, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff, raw[i] + 1, raw[i] - 1} {
				b := append([]byte{}, raw...)
				b[i] = v
				try(b, "change", i)
				if w.seg != d.segwit {
					continue
				}
				if m := kit.NoPanic(func() { d.decode(append([]byte{}, b...), !w.seg) }); m != "" {
					t.Fatalf("%s: other segwit setting, change at %d of %x: %s", d.name, i, raw, m)
				}
			}
		}
		c.Class("%s every byte %s", d.name, w.kinds())
		c.NonTrivial(d.name, raw)
		c.Sample("%s every byte of %x", d.name, raw)
	})
}
