package t01

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/blocktree/go-owcdrivers/aliencoinTransaction"
	"github.com/blocktree/go-owcdrivers/vergeTransaction"
	"github.com/blocktree/go-owcdrivers/vollarTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

type vin struct {
	Txid string
	Vout uint32
	Lock string
}
type vout struct {
	Addr   string
	Amount uint64
}
type sigpub struct{ Sig, Pub []byte }

type driver struct {
	name     string
	pkh, sh  []byte
	create   func(i []vin, o []vout, lock, interval uint32) (string, []string, error)
	sign     func(h string, k []byte) ([]byte, error)
	combine  func(tx string, s []sigpub) (bool, string, error)
	hasTime  bool
	noLock   bool
	coverage int // first transaction byte the digests cover
}

var drivers = []driver{
	{"vollar", []byte{0x10, 0x1c}, []byte{0x10, 0x41}, func(i []vin, o []vout, _, _ uint32) (string, []string, error) {
		var a []vollarTransaction.Vin
		var b []vollarTransaction.Vout
		for _, x := range i {
			a = append(a, vollarTransaction.Vin{TxID: x.Txid, Vout: x.Vout, LockScript: x.Lock})
		}
		for _, x := range o {
			b = append(b, vollarTransaction.Vout{Address: x.Addr, Amount: x.Amount})
		}
		return vollarTransaction.CreateEmptyRawTransactionAndHash(a, b)
	}, vollarTransaction.SignRawTransaction, func(tx string, s []sigpub) (bool, string, error) {
		var a []vollarTransaction.SigPub
		for _, x := range s {
			a = append(a, vollarTransaction.SigPub{Pubkey: x.Pub, Signature: x.Sig})
		}
		return vollarTransaction.VerifyAndCombineRawTransaction(tx, a)
	}, false, true, 6},
	{"verge", []byte{0x1e}, []byte{0x21}, func(i []vin, o []vout, l, iv uint32) (string, []string, error) {
		var a []vergeTransaction.Vin
		var b []vergeTransaction.Vout
		for _, x := range i {
			a = append(a, vergeTransaction.Vin{TxID: x.Txid, Vout: x.Vout, LockScript: x.Lock})
		}
		for _, x := range o {
			b = append(b, vergeTransaction.Vout{Address: x.Addr, Amount: x.Amount})
		}
		return vergeTransaction.CreateEmptyTransactionAndHash(a, b, l, iv)
	}, vergeTransaction.SignTransaction, func(tx string, s []sigpub) (bool, string, error) {
		var a []vergeTransaction.SigPub
		for _, x := range s {
			a = append(a, vergeTransaction.SigPub{Pubkey: x.Pub, Signature: x.Sig})
		}
		return vergeTransaction.VerifyAndCombineTransaction(tx, a)
	}, true, false, 0},
	{"aliencoin", []byte{0x17}, []byte{0x30}, func(i []vin, o []vout, l, _ uint32) (string, []string, error) {
		var a []aliencoinTransaction.Vin
		var b []aliencoinTransaction.Vout
		for _, x := range i {
			a = append(a, aliencoinTransaction.Vin{TxID: x.Txid, Vout: x.Vout, LockScript: x.Lock})
		}
		for _, x := range o {
			b = append(b, aliencoinTransaction.Vout{Address: x.Addr, Amount: x.Amount})
		}
		return aliencoinTransaction.CreateEmptyTransactionAndHash(a, b, l)
	}, aliencoinTransaction.SignTransaction, func(tx string, s []sigpub) (bool, string, error) {
		var a []aliencoinTransaction.SigPub
		for _, x := range s {
			a = append(a, aliencoinTransaction.SigPub{Pubkey: x.Pub, Signature: x.Sig})
		}
		return aliencoinTransaction.VerifyAndCombineTransaction(tx, a)
	}, false, false, 0},
}

type rtx struct {
	d    *driver
	time uint32
	ins  []vin
	outs []ref.BOut
	lock uint32
	unl  [][]byte // unlock scripts, nil when unsigned
}

func (x *rtx) bytes() []byte {
	o := ref.LE32(1)
	if x.d.noLock {
		o = append(o, 0)
	}
	if x.d.hasTime {
		o = append(o, ref.LE32(x.time)...)
	}
	o = append(o, ref.VarInt(uint64(len(x.ins)))...)
	for i, in := range x.ins {
		var u []byte
		if x.unl != nil {
			u = x.unl[i]
		}
		o = append(o, ref.Cat(ref.Rev(kit.UnHex(in.Txid)), ref.LE32(in.Vout), ref.VarBytes(u), []byte{255, 255, 255, 255})...)
	}
	o = append(o, ref.VarInt(uint64(len(x.outs)))...)
	for _, out := range x.outs {
		o = append(o, x.out(out)...)
	}
	if x.d.noLock {
		if x.unl != nil {
			o = append(o, make([]byte, 82+len(x.ins))...)
		}
		return o
	}
	return append(o, ref.LE32(x.lock)...)
}

func (x *rtx) out(o ref.BOut) []byte {
	if x.d.noLock {
		return ref.Cat(ref.LE64(o.Amount), []byte{0}, ref.VarBytes(o.Script), make([]byte, 32))
	}
	return ref.Cat(ref.LE64(o.Amount), ref.VarBytes(o.Script))
}

func (x *rtx) digest(i int) []byte {
	if x.d.noLock {
		var pre, seq, outs []byte
		for _, in := range x.ins {
			pre = ref.Cat(pre, ref.Rev(kit.UnHex(in.Txid)), ref.LE32(in.Vout))
			seq = append(seq, 255, 255, 255, 255)
		}
		for _, o := range x.outs {
			outs = append(outs, x.out(o)...)
		}
		in := x.ins[i]
		return ref.DSha256(ref.DSha256(pre), ref.DSha256(seq), ref.DSha256(outs), make([]byte, 64+4+4+8), ref.LE32(1), ref.Rev(kit.UnHex(in.Txid)), ref.LE32(in.Vout), ref.VarBytes(kit.UnHex(in.Lock)), []byte{255, 255, 255, 255})
	}
	c := *x
	c.unl = make([][]byte, len(x.ins))
	c.unl[i] = kit.UnHex(x.ins[i].Lock)
	return ref.DSha256(c.bytes(), ref.LE32(1))
}

func scriptFor(d *driver, a string) ([]byte, bool) {
	b, err := ref.B58CheckDec(a, gen.B58, "doubleSHA256")
	if err != nil || len(b) < 20 {
		return nil, false
	}
	v, h := string(b[:len(b)-20]), b[len(b)-20:]
	switch v {
	case string(d.pkh):
		return ref.P2PKH(h), true
	case string(d.sh):
		return ref.P2SH(h), true
	}
	return nil, false
}

func draw(t *rapid.T, small bool) (d *driver, ins []vin, outs []vout, keys [][]byte, lock, iv uint32) {
	d = &drivers[rapid.IntRange(0, 2).Draw(t, "driver")]
	ni, no := 2, 2
	if small {
		ni, no = gen.Few(t, 3, "ni"), gen.Few(t, 3, "no")
		if kit.Rare(t, 40, "many outputs") {
			no = rapid.SampledFrom([]int{252, 253, 254, 255, 256, 257, 300}).Draw(t, "no")
		} else if kit.Rare(t, 200, "many inputs") {
			ni = rapid.SampledFrom([]int{252, 253, 256}).Draw(t, "ni")
		}
	} else {
		ni, no = gen.Count(t, "ni"), gen.Count(t, "no")
	}
	r := kit.NewPRNG(rapid.Uint64().Draw(t, "seed"))
	for i := 0; i < ni; i++ {
		id := make([]byte, 32)
		r.Read(id)
		v := uint32(r.Next())
		key := ref.Cat(make([]byte, 31), []byte{1})
		if i < 4 {
			id, v, key = kit.Bytes(t, 32, "txid"), kit.U32(t, "vout"), gen.KeyK1(t, "key")
		}
		script := ref.P2PKH(ref.H160(ref.PubK1(key)))
		if !small && kit.OneIn(t, 10, "odd lock") {
			script = kit.Bytes(t, rapid.SampledFrom([]int{0, 1, 23, 252, 253, 255, 256, 300}).Draw(t, "locklen"), "lock")
		}
		ins = append(ins, vin{kit.Hex(id), v, kit.Hex(script)})
		keys = append(keys, key)
	}
	for i := 0; i < no; i++ {
		h := make([]byte, 20)
		r.Read(h)
		am := r.Next()
		v := d.pkh
		if i < 4 {
			h, am = kit.Bytes(t, 20, "hash"), kit.U64(t, "amount")
			if rapid.Bool().Draw(t, "script") {
				v = d.sh
			}
		}
		outs = append(outs, vout{gen.Addr58(v, h), am})
	}
	lock = kit.U32(t, "lockTime")
	iv = uint32(rapid.IntRange(0, 1<<30).Draw(t, "interval"))
	return
}

// request creates the transaction and compares it with the reference.
func request(t *rapid.T, d *driver, ins []vin, outs []vout, lock, iv uint32) (*rtx, string, []string) {
	x := &rtx{d: d, ins: ins, lock: lock}
	for _, o := range outs {
		s, ok := scriptFor(d, o.Addr)
		if !ok {
			t.Fatalf("harness: %s", o.Addr)
		}
		x.outs = append(x.outs, ref.BOut{Amount: o.Amount, Script: s})
	}
	t0 := time.Now().Unix()
	tx, hashes, err := d.create(ins, outs, lock, iv)
	t1 := time.Now().Unix()
	if err != nil {
		t.Fatalf("%s: %v %v refused: %v", d.name, ins, outs, err)
	}
	if d.hasTime && len(tx) > 16 {
		x.time = (&ref.Reader{B: kit.UnHex(tx[8:16])}).U32()
		if int64(x.time) < t0+int64(iv) || int64(x.time) > t1+int64(iv) {
			t.Fatalf("%s: time stamp %d is not now (%d) plus %d", d.name, x.time, t0, iv)
		}
	}
	want := kit.Hex(x.bytes())
	for _, i := range ins {
		want += ":" + i.Lock
	}
	if tx != want {
		t.Fatalf("%s: transaction differs\n got %s\nwant %s", d.name, tx, want)
	}
	if len(hashes) != len(ins) {
		t.Fatalf("%s: %d digests for %d inputs", d.name, len(hashes), len(ins))
	}
	for i, h := range hashes {
		if h != kit.Hex(x.digest(i)) {
			t.Fatalf("%s: digest %d of %s is %s, want %x", d.name, i, tx, h, x.digest(i))
		}
	}
	return x, tx, hashes
}

func TestT01_Create(t *testing.T) {
	kit.Check(t, 3000, func(t *rapid.T, c *kit.Case) {
		d, ins, outs, _, lock, iv := draw(t, false)
		_, tx, _ := request(t, d, ins, outs, lock, iv)
		c.Eval(1 + len(ins))
		c.Class("%s create", d.name)
		if len(ins) > 252 || len(outs) > 252 {
			c.Class("long lists")
		}
		c.NonTrivial(d.name, fmt.Sprint(ins, outs, lock))
		c.Sample("%s %s", d.name, tx)
	})
}

func TestT01_Refuse(t *testing.T) {
	kit.Check(t, 6000, func(t *rapid.T, c *kit.Case) {
		d, ins, outs, _, lock, iv := draw(t, true)
		k, j := kit.Pos(t, 0, len(outs)-1, "out"), kit.Pos(t, 0, len(ins)-1, "in")
		mode := rapid.IntRange(0, 7).Draw(t, "mode")
		switch mode {
		case 0:
			outs[k].Addr = kit.MutAddr(t, outs[k].Addr, "mut")
		case 1:
			outs[k].Addr = gen.Addr58(kit.BytesRange(t, 0, 3, "ver"), kit.BytesRange(t, 0, 40, "hash"))
		case 2:
			outs[k].Addr = gen.Addr58(d.pkh, kit.BytesRange(t, 0, 40, "hash"))
		case 3:
			outs[k].Addr = kit.Str(t, gen.B58+"0OIl", 0, 10, "str")
		case 4:
			ins[j].Txid = kit.Hex(kit.BytesRange(t, 0, 64, "txid2"))
			if rapid.Bool().Draw(t, "txt") {
				ins[j].Txid = kit.MutStr(t, ins[j].Txid, "tx")
			}
		case 5:
			ins[j].Lock = kit.MutStr(t, ins[j].Lock, "lockmut")
		case 6:
			ins = gen.None(t, ins)
		case 7:
			outs = gen.None(t, outs)
		}
		valid := len(ins) > 0 && len(outs) > 0
		for _, i := range ins {
			valid = valid && len(i.Txid) == 64 && gen.IsHex(i.Txid) && gen.IsHex(i.Lock)
		}
		for _, o := range outs {
			_, ok := scriptFor(d, o.Addr)
			valid = valid && ok
		}
		if valid {
			request(t, d, ins, outs, lock, iv)
		} else {
			var tx string
			var err error
			if m := kit.NoPanic(func() { tx, _, err = d.create(ins, outs, lock, iv) }); m != "" {
				t.Fatalf("%s: %v %v: %s", d.name, ins, outs, m)
			}
			if err == nil {
				t.Fatalf("%s: %v %v cannot be met but gives %s", d.name, ins, outs, tx)
			}
			c.NonTrivial(d.name, fmt.Sprint(ins, outs))
		}
		c.Eval(1)
		c.Class("%s refuse mode %d valid=%v", d.name, mode, valid)
	})
}

func TestT01_Combine(t *testing.T) {
	kit.Check(t, 500, func(t *rapid.T, c *kit.Case) {
		d, ins, outs, keys, lock, iv := draw(t, true)
		x, tx, hashes := request(t, d, ins, outs, lock, iv)
		var sps []sigpub
		good := true
		high, low := kit.Rare(t, 6, "high"), *x
		for i := range ins {
			i := i
			s, ok := ref.LowS(ref.K1, ref.SignWith(ref.K1, keys[i], ref.HalfNonce, x.digest(i))), true
			if i < 4 {
				s, ok = gen.ECDSA(t, ref.K1, keys[i], x.digest(i), func() ([]byte, error) { return d.sign(hashes[i], keys[i]) }, !kit.OneIn(t, 5, "arb"), d.name, "sig")
			}
			good = good && ok
			low.unl = append(low.unl, ref.Cat(ref.Push(append(ref.DER(s), 1)), ref.Push(ref.PubK1(keys[i]))))
			if high && ok {
				s = gen.HighS(ref.K1, s)
			}
			sps = append(sps, sigpub{s, ref.PubK1(keys[i])})
			x.unl = append(x.unl, ref.Cat(ref.Push(append(ref.DER(s), 1)), ref.Push(sps[i].Pub)))
		}
		pass, out, err := d.combine(tx, sps)
		if good && high {
			if pass && out != kit.Hex(x.bytes()) && out != kit.Hex(low.bytes()) || !pass && err == nil && out != "" {
				t.Fatalf("%s: %s with %x: %v %v\n got %s\nwant %x", d.name, tx, sps, pass, err, out, x.bytes())
			}
		} else if good {
			if err != nil || !pass || out != kit.Hex(x.bytes()) {
				t.Fatalf("%s: %s with %x: %v %v\n got %s\nwant %x", d.name, tx, sps, pass, err, out, x.bytes())
			}
		} else if pass || (err == nil && out != "") {
			t.Fatalf("%s: %s with invalid signatures %x combined to %s", d.name, tx, sps, out)
		}
		c.Eval(1)
		c.Class("%s combine good=%v high=%v", d.name, good, high)
		c.NonTrivial(d.name, out, tx)
		c.Sample("%s %s", d.name, out)
	})
}

// A change to the unsigned transaction, a signature or a key is noticed.
func TestT01_Tamper(t *testing.T) {
	kit.Check(t, 700, func(t *rapid.T, c *kit.Case) {
		d, ins, outs, keys, lock, iv := draw(t, true)
		x, tx, _ := request(t, d, ins, outs, lock, iv)
		var sps []sigpub
		for i := range ins {
			s := ref.SignWith(ref.K1, keys[i], kit.Scalar(t, ref.NK1, "nonce"), x.digest(i))
			if s == nil {
				t.Skip("nonce")
			}
			sps = append(sps, sigpub{ref.LowS(ref.K1, s), ref.PubK1(keys[i])})
		}
		k := kit.Pos(t, 0, len(ins)-1, "which")
		parts := strings.Split(tx, ":")
		kit.Before(t, func() { d.combine(tx, sps) })
		mode := rapid.IntRange(0, 7).Draw(t, "mode")
		switch mode {
		case 7: // text that is not hexadecimal
			i := kit.Pos(t, 0, len(parts)-1, "part")
			parts[i] = gen.Junk(t, parts[i])
		case 0:
			parts[0] = kit.Hex(gen.Flip(t, kit.UnHex(parts[0]), d.coverage, "tx"))
		case 1:
			parts[1+k] = kit.Hex(gen.Flip(t, kit.UnHex(parts[1+k]), 0, "lock"))
		case 2:
			sps[k].Sig = gen.Flip(t, sps[k].Sig, 0, "sig")
		case 3:
			sps[k].Pub = gen.Flip(t, sps[k].Pub, 0, "pub")
		case 4:
			sps = sps[:len(sps)-1]
		case 5:
			sps = append(sps, sps[0])
		case 6:
			k2 := gen.OtherScalar(t, ref.NK1, keys[k], "thief")
			sps[k].Pub = ref.PubK1(k2)
		}
		in := strings.Join(parts, ":")
		var pass bool
		var out string
		var err error
		if m := kit.NoPanic(func() { pass, out, err = d.combine(in, sps) }); m != "" {
			t.Fatalf("%s mode %d: %s %x: %s", d.name, mode, in, sps, m)
		}
		if pass || (err == nil && out != "") {
			t.Fatalf("%s mode %d: tampered %s %x accepted: %v %s", d.name, mode, in, sps, pass, out)
		}
		c.Eval(1)
		c.Class("%s tamper mode %d", d.name, mode)
		c.NonTrivial(d.name, in, fmt.Sprint(sps))
	})
}

func TestT01_Robust(t *testing.T) {
	kit.Check(t, 4000, func(t *rapid.T, c *kit.Case) {
		d, ins, outs, keys, lock, iv := draw(t, true)
		tx, hashes, err := d.create(ins, outs, lock, iv)
		if err != nil {
			t.Fatalf("%s: %v", d.name, err)
		}
		var sps []sigpub
		for i := range ins {
			sps = append(sps, sigpub{kit.MutBytes(t, kit.Bytes(t, 64, "sig"), "smut"), kit.MutBytes(t, ref.PubK1(keys[i]), "pmut")})
		}
		if kit.OneIn(t, 4, "nosig") {
			sps = gen.None(t, sps)
		}
		in := tx
		for n := rapid.IntRange(0, 2).Draw(t, "n"); n > 0; n-- {
			if rapid.Bool().Draw(t, "hex") {
				p := strings.SplitN(in, ":", 2)
				p[0] = kit.MutHex(t, p[0], "hexmut")
				in = strings.Join(p, ":")
			} else {
				in = kit.MutStr(t, in, "txt")
			}
		}
		if m := kit.NoPanic(func() { d.combine(in, sps) }); m != "" {
			t.Fatalf("%s: %s %x: %s", d.name, in, sps, m)
		}
		h := kit.MutStr(t, hashes[0], "hash")
		key := kit.BytesRange(t, 0, 40, "key")
		if m := kit.NoPanic(func() { d.sign(h, key) }); m != "" {
			t.Fatalf("%s: sign %q %x: %s", d.name, h, key, m)
		}
		c.Eval(2)
		c.Class("%s robust", d.name)
		c.NonTrivial(d.name, in, fmt.Sprint(sps))
	})
}

// Lists so long that their count takes more than two bytes.
func TestT01_Large(t *testing.T) {
	if kit.Brief() {
		t.Skip("large")
	}
	kit.Check(t, 5, func(t *rapid.T, c *kit.Case) {
		d, ins, outs, keys, lock, iv := draw(t, true)
		ins, keys = ins[:1], keys[:1]
		n := gen.Long(t, "outs")
		var all []vout
		x := &rtx{d: d, ins: ins, lock: lock}
		for i := 0; i < n; i++ {
			o := outs[i%len(outs)]
			o.Amount += uint64(i)
			all = append(all, o)
			if i < len(outs) {
				s, _ := scriptFor(d, o.Addr)
				x.outs = append(x.outs, ref.BOut{Amount: o.Amount, Script: s})
			} else {
				x.outs = append(x.outs, ref.BOut{Amount: o.Amount, Script: x.outs[i%len(outs)].Script})
			}
		}
		tx, hashes, err := d.create(ins, all, lock, iv)
		if err != nil {
			t.Fatalf("%s: %d outputs like %v refused: %v", d.name, n, outs, err)
		}
		if d.hasTime && len(tx) > 16 {
			x.time = (&ref.Reader{B: kit.UnHex(tx[8:16])}).U32()
		}
		if want := kit.Hex(x.bytes()) + ":" + ins[0].Lock; tx != want {
			t.Fatalf("%s: %d outputs like %v: %s", d.name, n, outs, gen.Diff(tx, want))
		}
		if len(hashes) != 1 || hashes[0] != kit.Hex(x.digest(0)) {
			t.Fatalf("%s: %d outputs like %v: digest %v, want %x", d.name, n, outs, hashes, x.digest(0))
		}
		s := ref.LowS(ref.K1, ref.SignWith(ref.K1, keys[0], ref.HalfNonce, x.digest(0)))
		x.unl = [][]byte{ref.Cat(ref.Push(append(ref.DER(s), 1)), ref.Push(ref.PubK1(keys[0])))}
		pass, out, err := d.combine(tx, []sigpub{{s, ref.PubK1(keys[0])}})
		if want := kit.Hex(x.bytes()); err != nil || !pass || out != want {
			t.Fatalf("%s: %d outputs like %v: combined %v %v: %s", d.name, n, outs, pass, err, gen.Diff(out, want))
		}
		c.Eval(3)
		c.Class("%s %d outputs", d.name, n)
		c.NonTrivial(d.name, n, fmt.Sprint(outs))
	})
}
