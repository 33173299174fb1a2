package t06

import (
	"encoding/binary"
	"fmt"
	"testing"

	btm "github.com/blocktree/go-owcdrivers/bytomTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

func uv(n uint64) []byte { return binary.AppendUvarint(nil, n) }
func ub(b []byte) []byte { return ref.Cat(uv(uint64(len(b))), b) }

const btmAsset = "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"

type rq struct {
	ins   []btm.Vin
	outs  []btm.Vout
	time  uint64
	test  bool
	key   [][]byte   // single signer of input i
	multi [][][]byte // signers of input i, nil for a single one
	req   []int
}

func (q *rq) hrp() string {
	if q.test {
		return "tm"
	}
	return "bm"
}

func program(a, hrp string) ([]byte, bool) {
	h, g, k, err := ref.Bech32Dec(a)
	if err != nil || h != hrp || k != 1 || len(g) == 0 || g[0] != 0 {
		return nil, false
	}
	p, err := ref.Bits5to8(g[1:])
	if err != nil || (len(p) != 20 && len(p) != 32) {
		return nil, false
	}
	return ref.Cat([]byte{0, byte(len(p))}, p), true
}

func isID(s string) bool { return len(s) == 64 && gen.IsHex(s) }

func okProg(s string) bool {
	if !gen.IsHex(s) {
		return false
	}
	b := kit.UnHex(s)
	return (len(b) == 22 || len(b) == 34) && b[0] == 0 && int(b[1]) == len(b)-2
}

func (q *rq) valid() bool {
	ok := len(q.ins) > 0 && len(q.outs) > 0
	for _, i := range q.ins {
		ok = ok && isID(i.SourceID) && isID(i.AssetID) && okProg(i.ControlProgram)
	}
	for _, o := range q.outs {
		_, k := program(o.Address, q.hrp())
		ok = ok && k
	}
	return ok
}

func (q *rq) bytes(wit [][]byte) []byte {
	o := ref.Cat([]byte{7, 1}, uv(q.time), uv(uint64(len(q.ins))))
	for i, in := range q.ins {
		sc := ref.Cat(kit.UnHex(in.SourceID), kit.UnHex(in.AssetID), uv(in.Amount), uv(in.SourcePosition), []byte{1}, ub(kit.UnHex(in.ControlProgram)))
		w := []byte{0}
		if wit != nil {
			w = wit[i]
		}
		o = ref.Cat(o, []byte{1}, ub(ref.Cat([]byte{1}, ub(sc))), ub(w))
	}
	o = append(o, uv(uint64(len(q.outs)))...)
	for _, x := range q.outs {
		p, _ := program(x.Address, q.hrp())
		o = append(o, ref.Cat([]byte{1}, ub(ref.Cat(kit.UnHex(btmAsset), uv(x.Amount), []byte{1}, ub(p))), []byte{0})...)
	}
	return o
}

func entry(kind string, body []byte) []byte {
	return ref.Sha3(ref.Cat([]byte("entryid:"+kind+":"), ref.Sha3(body)))
}

func (q *rq) spend(i int) []byte {
	in := q.ins[i]
	prev := entry("output1", ref.Cat(kit.UnHex(in.SourceID), kit.UnHex(in.AssetID), ref.LE64(in.Amount), ref.LE64(in.SourcePosition), ref.LE64(1), ub(kit.UnHex(in.ControlProgram))))
	return entry("spend1", prev)
}

func (q *rq) digests() [][]byte {
	m := uv(uint64(len(q.ins)))
	for i, in := range q.ins {
		m = ref.Cat(m, q.spend(i), kit.UnHex(in.AssetID), ref.LE64(in.Amount), ref.LE64(0))
	}
	mux := entry("mux1", ref.Cat(m, ref.LE64(1), []byte{1, 0x51}))
	h := ref.Cat(ref.LE64(1), ref.LE64(q.time), uv(uint64(len(q.outs))))
	for i, x := range q.outs {
		p, _ := program(x.Address, q.hrp())
		h = append(h, entry("output1", ref.Cat(mux, kit.UnHex(btmAsset), ref.LE64(x.Amount), ref.LE64(uint64(i)), ref.LE64(1), ub(p)))...)
	}
	id := entry("txheader", h)
	var ret [][]byte
	for i := range q.ins {
		ret = append(ret, ref.Sha3(ref.Cat(q.spend(i), id)))
	}
	return ret
}

func msScript(req int, pubs [][]byte) []byte {
	s := []byte{0xae}
	for _, p := range pubs {
		s = append(s, ub(p)...)
	}
	return append(s, byte(0x50+req), byte(0x50+len(pubs)), 0xad)
}

func draw(t *rapid.T, small, keys bool) *rq {
	q := &rq{test: rapid.Bool().Draw(t, "testnet"), time: kit.U64Range(t, 0, 1<<63-1, "time range")}
	ni, no := gen.Few(t, 3, "ni"), gen.Few(t, 3, "no")
	if ni > 6 {
		ni = 6
	}
	if !small && kit.OneIn(t, 40, "long") { // the digests take time cubic in these
		if rapid.Bool().Draw(t, "long in") {
			ni, no = rapid.IntRange(126, 130).Draw(t, "ni2"), 1
		} else {
			ni, no = 1, rapid.SampledFrom([]int{126, 127, 128, 129, 255, 256, 257, 300}).Draw(t, "no2")
		}
	}
	r := kit.NewPRNG(rapid.Uint64().Draw(t, "seed"))
	for i := 0; i < ni; i++ {
		id, as, h := make([]byte, 32), make([]byte, 32), make([]byte, 20)
		r.Read(id)
		r.Read(as)
		r.Read(h)
		v := btm.Vin{Amount: r.Next() >> 1, SourcePosition: r.Next() >> 40}
		var ms [][]byte
		key, req := []byte(nil), 0
		if i < 4 || keys {
			id, h = kit.Bytes(t, 32, "source"), kit.Bytes(t, 20, "hash")
			v = btm.Vin{Amount: kit.U64Range(t, 0, 1<<63-1, "value"), SourcePosition: kit.U64Range(t, 0, 1<<63-1, "pos")}
			if rapid.Bool().Draw(t, "small pos") {
				v.SourcePosition = uint64(rapid.IntRange(0, 300).Draw(t, "pos2"))
			}
			if rapid.Bool().Draw(t, "btm") {
				as = kit.UnHex(btmAsset)
			}
			if rapid.Bool().Draw(t, "wsh") {
				h = ref.Cat(h, kit.Bytes(t, 12, "hash2"))
			}
			if keys {
				key = gen.KeyEd(t, "key")
				h = ref.Ripemd(ref.PubEd(key))
				if rapid.Bool().Draw(t, "multi") {
					n := rapid.IntRange(1, 4).Draw(t, "n")
					if kit.OneIn(t, 20, "manykeys") {
						n = rapid.IntRange(5, 16).Draw(t, "n2")
					}
					var pubs [][]byte
					for j := 0; j < n; j++ {
						k := gen.KeyEd(t, "mkey")
						ms = append(ms, k)
						pubs = append(pubs, ref.PubEd(k))
					}
					req = rapid.IntRange(1, n).Draw(t, "req")
					h = ref.Sha3(msScript(req, pubs))
				}
			}
		}
		v.SourceID, v.AssetID = kit.Hex(id), kit.Hex(as)
		v.ControlProgram = kit.Hex(ref.Cat([]byte{0, byte(len(h))}, h))
		q.ins = append(q.ins, v)
		q.key = append(q.key, key)
		q.multi = append(q.multi, ms)
		q.req = append(q.req, req)
	}
	for i := 0; i < no; i++ {
		h := make([]byte, 20)
		r.Read(h)
		am := r.Next() >> 1
		if i < 4 {
			h, am = kit.Bytes(t, rapid.SampledFrom([]int{20, 32}).Draw(t, "outlen"), "outhash"), kit.U64Range(t, 0, 1<<63-1, "amount")
		}
		q.outs = append(q.outs, btm.Vout{Address: ref.SegwitAddr(q.hrp(), 0, h), Amount: am})
	}
	return q
}

func (q *rq) create() (string, error) {
	return btm.CreateEmptyRawTransaction(q.ins, q.outs, q.time, q.test)
}

func request(t *rapid.T, q *rq) (string, []btm.TxHash, [][]byte) {
	tx, err := q.create()
	if err != nil {
		t.Fatalf("%+v refused: %v", *q, err)
	}
	if w := kit.Hex(q.bytes(nil)); tx != w {
		t.Fatalf("transaction differs\n got %s\nwant %s", tx, w)
	}
	hs, err := btm.CreateRawTransactionHashForSig(tx, q.test)
	if err != nil || len(hs) != len(q.ins) {
		t.Fatalf("%s: %d digests for %d inputs: %v", tx, len(hs), len(q.ins), err)
	}
	d := q.digests()
	for i, h := range hs {
		if h.Hash != kit.Hex(d[i]) {
			t.Fatalf("digest %d of %s is %s, want %x", i, tx, h.Hash, d[i])
		}
		p := kit.UnHex(q.ins[i].ControlProgram)
		if h.IsMultiSig() != (len(p) == 34) {
			t.Fatalf("%s: input %d with program %x is multisig: %v", tx, i, p, h.IsMultiSig())
		}
		if len(p) == 22 && (h.Normal == nil || h.Normal.Address != ref.SegwitAddr(q.hrp(), 0, p[2:])) {
			t.Fatalf("%s: input %d with program %x has signer %+v", tx, i, p, h.Normal)
		}
	}
	return tx, hs, d
}

func TestT06_Create(t *testing.T) {
	kit.Check(t, 2500, func(t *rapid.T, c *kit.Case) {
		q := draw(t, false, false)
		tx, _, _ := request(t, q)
		c.Eval(1 + len(q.ins))
		c.Class("create testnet=%v", q.test)
		if len(q.ins) > 127 || len(q.outs) > 127 {
			c.Class("long lists")
		}
		c.NonTrivial(tx)
		c.Sample("%s", tx)
	})
}

func TestT06_Refuse(t *testing.T) {
	kit.Check(t, 6000, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true, false)
		k, j := kit.Pos(t, 0, len(q.outs)-1, "out"), kit.Pos(t, 0, len(q.ins)-1, "in")
		mode := rapid.IntRange(0, 9).Draw(t, "mode")
		id := func() string {
			if rapid.Bool().Draw(t, "txt") {
				return kit.MutStr(t, kit.Hex(kit.Bytes(t, 32, "id")), "mut")
			}
			return kit.Hex(kit.BytesRange(t, 0, 64, "id"))
		}
		o := &q.outs[k]
		switch mode {
		case 0:
			o.Address = kit.MutAddr(t, o.Address, "mut")
		case 1:
			o.Address = ref.SegwitAddr(rapid.SampledFrom([]string{"bm", "tm", "bn", "bmm", "tm1", "b", "bc", "sm"}).Draw(t, "hrp"), 0, kit.Bytes(t, 20, "h"))
		case 2:
			o.Address = ref.SegwitAddr(q.hrp(), byte(rapid.IntRange(0, 16).Draw(t, "ver")), kit.BytesRange(t, 0, 40, "h"))
		case 3:
			o.Address = kit.Str(t, "bm1tqzry", 0, 10, "str")
		case 4:
			q.ins[j].SourceID = id()
		case 5:
			q.ins[j].AssetID = id()
		case 6:
			q.ins = gen.None(t, q.ins)
		case 7:
			q.outs = gen.None(t, q.outs)
		case 8:
			q.ins[j].ControlProgram = kit.Hex(kit.BytesRange(t, 0, 40, "prog"))
		case 9:
			q.ins[j].ControlProgram = kit.MutStr(t, q.ins[j].ControlProgram, "progmut")
		}
		for _, o := range q.outs {
			for _, ch := range o.Address {
				if ch >= 'A' && ch <= 'Z' {
					t.Skip("capitals")
				}
			}
		}
		if q.valid() {
			request(t, q)
		} else {
			var tx string
			var err error
			if m := kit.NoPanic(func() { tx, err = q.create() }); m != "" {
				t.Fatalf("%+v: %s", *q, m)
			}
			if err == nil {
				t.Fatalf("%+v cannot be met but gives %s", *q, tx)
			}
			c.NonTrivial(fmt.Sprintf("%+v", *q))
		}
		c.Eval(1)
		c.Class("refuse mode %d valid=%v", mode, q.valid())
	})
}

// sign fills in the signatures; extra multisig signers sign too when more is set.
func sign(t *rapid.T, q *rq, hs []btm.TxHash, d [][]byte, arb bool) (good bool, wit [][]byte) {
	good = true
	for i := range q.ins {
		own := func(key []byte) func() ([]byte, error) {
			return func() ([]byte, error) {
				sp, err := btm.SignRawTransactionHash(hs[i].Hash, key)
				if err != nil {
					return nil, err
				}
				if kit.Hex(sp.Pubkey) != kit.Hex(ref.PubEd(key)) {
					t.Fatalf("signing with %x names the key %x", key, sp.Pubkey)
				}
				return sp.Signature, nil
			}
		}
		if q.multi[i] == nil {
			s, ok := gen.Ed(t, q.key[i], d[i], own(q.key[i]), !arb || !kit.OneIn(t, 5, "arb"), "bytom", "sig")
			good = good && ok
			p := ref.PubEd(q.key[i])
			hs[i].Normal.SigPub = btm.SigPub{Signature: s, Pubkey: p}
			wit = append(wit, ref.Cat([]byte{2}, ub(s), ub(p)))
			continue
		}
		var pubs [][]byte
		for _, k := range q.multi[i] {
			pubs = append(pubs, ref.PubEd(k))
		}
		script := msScript(q.req[i], pubs)
		if err := hs[i].PadMultiSig(kit.Hex(script)); err != nil || int(hs[i].NRequired) != q.req[i] || len(hs[i].Multi) != len(pubs) {
			t.Fatalf("script %x padded to %+v: %v", script, hs[i], err)
		}
		who := rapid.Permutation(seq(len(pubs))).Draw(t, "signers")[:q.req[i]]
		in := map[int]bool{}
		for _, w := range who {
			in[w] = true
		}
		w := uv(uint64(q.req[i] + 1))
		fill := rapid.Bool().Draw(t, "fill keys")
		for j := range pubs {
			if hs[i].Multi[j].Pubkey != kit.Hex(pubs[j]) {
				t.Fatalf("script %x padded to %+v", script, hs[i])
			}
			if fill {
				hs[i].Multi[j].SigPub.Pubkey = pubs[j]
			}
			if in[j] {
				s, ok := gen.Ed(t, q.multi[i][j], d[i], own(q.multi[i][j]), !arb || !kit.OneIn(t, 10, "arb"), "bytom", "msig")
				good = good && ok
				hs[i].Multi[j].SigPub = btm.SigPub{Signature: s, Pubkey: pubs[j]}
				w = append(w, ub(s)...)
			}
		}
		wit = append(wit, append(w, ub(script)...))
	}
	return
}

// thief is a key that is none of input k's.
func thief(t *rapid.T, q *rq, k int) []byte {
	key := gen.KeyEd(t, "thief")
	for _, o := range append(q.multi[k], q.key[k]) {
		if string(o) == string(key) {
			t.Skip("same")
		}
	}
	return key
}

func seq(n int) []int {
	var s []int
	for i := 0; i < n; i++ {
		s = append(s, i)
	}
	return s
}

func TestT06_Combine(t *testing.T) {
	kit.Check(t, 250, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true, true)
		tx, hs, d := request(t, q)
		good, wit := sign(t, q, hs, d, true)
		out, err := btm.InsertSignatureIntoEmptyTransaction(tx, hs)
		if err != nil || out != kit.Hex(q.bytes(wit)) {
			t.Fatalf("%s with %+v: %v\n got %s\nwant %x", tx, hs, err, out, q.bytes(wit))
		}
		if pass := btm.VerifyRawTransaction(out); pass != good {
			t.Fatalf("verifying %s gives %v, want %v", out, pass, good)
		}
		c.Eval(2)
		for i := range q.multi {
			if q.multi[i] != nil {
				c.Class("multisig %d of %d", q.req[i], len(q.multi[i]))
			}
		}
		c.Class("combine good=%v", good)
		c.NonTrivial(out)
		c.Sample("%s", out)
	})
}

func TestT06_Tamper(t *testing.T) {
	kit.Check(t, 250, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true, true)
		tx, hs, d := request(t, q)
		_, wit := sign(t, q, hs, d, false)
		k := kit.Pos(t, 0, len(q.ins)-1, "which")
		kit.Before(t, func() { btm.VerifyRawTransaction(kit.Hex(q.bytes(wit))) })
		mode := rapid.IntRange(0, 8).Draw(t, "mode")
		w := wit[k]
		bad := ""
		switch mode {
		case 8: // text that is not hexadecimal
			bad = gen.Junk(t, kit.Hex(q.bytes(wit)))
			j := gen.Junk(t, tx)
			if h, err := btm.CreateRawTransactionHashForSig(j, q.test); err == nil {
				t.Fatalf("digests of %q: %+v", j, h)
			}
			if out, err := btm.InsertSignatureIntoEmptyTransaction(j, hs); err == nil {
				t.Fatalf("signatures inserted into %q: %s", j, out)
			}
		case 0: // anything in the signed transaction
			bad = kit.Hex(gen.Flip(t, q.bytes(wit), 0, "tx"))
		case 1: // an unsigned input
			wit[k] = []byte{0}
		case 2: // an input signed for another input
			wit[k] = wit[(k+1)%len(wit)]
			if len(wit) == 1 {
				t.Skip("one input")
			}
		case 3: // someone else's signature
			key := thief(t, q, k)
			if q.multi[k] != nil {
				wit[k] = ref.Cat(w[:2], ref.SignEd(key, kit.Bytes(t, 32, "nonce"), d[k]), w[66:])
			} else {
				wit[k] = ref.Cat([]byte{2}, ub(ref.SignEd(key, kit.Bytes(t, 32, "nonce"), d[k])), w[66:])
			}
		case 4: // one signer twice
			if q.multi[k] == nil || q.req[k] < 2 {
				t.Skip("single")
			}
			j := kit.Pos(t, 0, len(q.multi[k])-1, "twice")
			x := uv(uint64(q.req[k] + 1))
			var pubs [][]byte
			for i, m := range q.multi[k] {
				if i != j && string(m) == string(q.multi[k][j]) {
					t.Skip("same key")
				}
				pubs = append(pubs, ref.PubEd(m))
			}
			for i := 0; i < q.req[k]; i++ {
				x = append(x, ub(ref.SignEd(q.multi[k][j], kit.Bytes(t, 32, "nonce"), d[k]))...)
			}
			wit[k] = append(x, ub(msScript(q.req[k], pubs))...)
		case 5: // too few or too many signatures
			if q.multi[k] == nil {
				t.Skip("single")
			}
			if rapid.Bool().Draw(t, "less") {
				wit[k] = ref.Cat([]byte{w[0] - 1}, w[66:])
			} else {
				wit[k] = ref.Cat([]byte{w[0] + 1}, w[1:66], w[1:])
			}
		case 6: // another script
			if q.multi[k] == nil {
				t.Skip("single")
			}
			key := thief(t, q, k)
			wit[k] = ref.Cat([]byte{2}, ub(ref.SignEd(key, kit.Bytes(t, 32, "nonce"), d[k])), ub(msScript(1, [][]byte{ref.PubEd(key)})))
		case 7: // inserting for the wrong number of inputs, or with a signature missing
			if rapid.Bool().Draw(t, "short") {
				hs = hs[:len(hs)-1]
			} else {
				hs = append(hs, hs[0])
			}
			var out string
			var err error
			if m := kit.NoPanic(func() { out, err = btm.InsertSignatureIntoEmptyTransaction(tx, hs) }); m != "" {
				t.Fatalf("%s with %+v: %s", tx, hs, m)
			}
			if err == nil && out != "" {
				t.Fatalf("%s with %d signatures gives %s", tx, len(hs), out)
			}
		}
		if bad == "" {
			bad = kit.Hex(q.bytes(wit))
		}
		if mode != 7 {
			var pass bool
			if m := kit.NoPanic(func() { pass = btm.VerifyRawTransaction(bad) }); m != "" {
				t.Fatalf("mode %d: %s: %s", mode, bad, m)
			}
			if pass {
				t.Fatalf("mode %d: tampered %s accepted", mode, bad)
			}
		}
		c.Eval(1)
		c.Class("tamper mode %d", mode)
		c.NonTrivial(bad, mode)
	})
}

func TestT06_Multisig(t *testing.T) {
	kit.Check(t, 2000, func(t *rapid.T, c *kit.Case) {
		n := rapid.IntRange(0, 18).Draw(t, "n")
		var pubs [][]byte
		ok := true
		for i := 0; i < n; i++ {
			l := 32
			if kit.OneIn(t, 40, "badkey") {
				l = rapid.IntRange(0, 40).Draw(t, "len")
			}
			ok = ok && l == 32
			pubs = append(pubs, kit.Bytes(t, l, "pub"))
		}
		req := rapid.IntRange(0, n+1).Draw(t, "req")
		test := rapid.Bool().Draw(t, "testnet")
		ok = ok && req > 0 && req <= n && n <= 16
		a, s, err := btm.CreateMultiSig(byte(req), pubs, test)
		if ok {
			w := msScript(req, pubs)
			hrp := "bm"
			if test {
				hrp = "tm"
			}
			if err != nil || s != kit.Hex(w) || a != ref.SegwitAddr(hrp, 0, ref.Sha3(w)) {
				t.Fatalf("%d of %x: %s %s %v, want %s %x", req, pubs, a, s, err, ref.SegwitAddr(hrp, 0, ref.Sha3(w)), w)
			}
			c.NonTrivial(s)
		} else if err == nil {
			t.Fatalf("%d of %x cannot be met but gives %s", req, pubs, s)
		}
		c.Eval(1)
		c.Class("multisig script ok=%v", ok)
	})
}

func TestT06_Robust(t *testing.T) {
	kit.Check(t, 6000, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true, false)
		var wit [][]byte
		for range q.ins {
			w := []byte{0}
			if rapid.Bool().Draw(t, "signed") {
				w = ref.Cat([]byte{2}, ub(kit.Bytes(t, 64, "sig")), ub(kit.Bytes(t, 32, "pub")))
			} else if rapid.Bool().Draw(t, "ms") {
				w = ref.Cat([]byte{3}, ub(kit.Bytes(t, 64, "sig")), ub(kit.Bytes(t, 64, "sig")), ub(msScript(2, [][]byte{kit.Bytes(t, 32, "p"), kit.Bytes(t, 32, "p")})))
			}
			wit = append(wit, w)
		}
		raw := kit.MutHex(t, kit.Hex(q.bytes(wit)), "hexmut")
		if kit.OneIn(t, 5, "text") {
			raw = kit.MutStr(t, raw, "txt")
		}
		script := kit.MutHex(t, kit.Hex(msScript(2, [][]byte{kit.Bytes(t, 32, "p"), kit.Bytes(t, 32, "p")})), "scriptmut")
		h, key := kit.MutStr(t, kit.Hex(kit.Bytes(t, 32, "h")), "hash"), kit.BytesRange(t, 0, 40, "key")
		tx, _ := q.create()
		if m := kit.NoPanic(func() {
			btm.VerifyRawTransaction(raw)
			hs, err := btm.CreateRawTransactionHashForSig(raw, q.test)
			if err == nil {
				btm.InsertSignatureIntoEmptyTransaction(raw, hs)
				btm.InsertSignatureIntoEmptyTransaction(tx, hs)
				for i := range hs {
					hs[i].PadMultiSig(script)
				}
				btm.InsertSignatureIntoEmptyTransaction(raw, hs)
			}
			btm.InsertSignatureIntoEmptyTransaction(tx, []btm.TxHash{{}})
			btm.SignRawTransactionHash(h, key)
		}); m != "" {
			t.Fatalf("%s %s: %s", raw, script, m)
		}
		c.Eval(4)
		c.Class("robust")
		c.NonTrivial(raw, script)
	})
}

// A list so long that its count takes three bytes.
func TestT06_Large(t *testing.T) {
	if kit.Brief() {
		t.Skip("large")
	}
	kit.Check(t, 2, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true, false)
		q.ins, q.key, q.multi, q.req = q.ins[:1], q.key[:1], q.multi[:1], q.req[:1]
		few, n := q.outs, rapid.SampledFrom([]int{16383, 16384, 16385}).Draw(t, "outs")
		q.outs = nil
		for i := 0; i < n; i++ {
			o := few[i%len(few)]
			o.Amount ^= uint64(i)
			q.outs = append(q.outs, o)
		}
		tx, err := q.create()
		if err != nil {
			t.Fatalf("%d outputs like %+v refused: %v", n, few, err)
		}
		if w := kit.Hex(q.bytes(nil)); tx != w {
			t.Fatalf("%d outputs like %+v: %s", n, few, gen.Diff(tx, w))
		}
		hs, err := btm.CreateRawTransactionHashForSig(tx, q.test)
		if err != nil || len(hs) != 1 || hs[0].Hash != kit.Hex(q.digests()[0]) {
			t.Fatalf("%d outputs like %+v: digests %v %v, want %x", n, few, hs, err, q.digests())
		}
		c.Eval(2)
		c.Class("%d outputs", n)
		c.NonTrivial(n, fmt.Sprint(few))
	})
}
