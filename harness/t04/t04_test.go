package t04

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	fiii "github.com/blocktree/go-owcdrivers/fiiiTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

type jin struct {
	OutputTransactionHash string
	OutputIndex           int64
	Size                  int64
	UnlockScript          string
}
type jout struct {
	Index, Amount, Size int64
	LockScript          string
}
type jtx struct {
	Version                 int64
	Hash                    string
	Timestamp, Locktime     int64
	ExpiredTime             int64
	InputCount, OutputCount int64
	Inputs                  []jin
	Outputs                 []jout
	Size                    int64
}

func parse(s string) (*jtx, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.DisallowUnknownFields()
	x := &jtx{}
	if err := d.Decode(x); err != nil {
		return nil, err
	}
	return x, nil
}

type rq struct {
	ins               []fiii.Vin
	outs              []fiii.Vout
	version           int
	locktime, expired int64
	keys              [][]byte
}

func hash(a string, prefix []byte) ([]byte, bool) {
	b, err := ref.B58CheckDec(a, gen.B58, "doubleSHA256")
	if err != nil || len(b) != 20+len(prefix) || string(b[:len(prefix)]) != string(prefix) {
		return nil, false
	}
	return b[len(prefix):], true
}

func (q *rq) valid() bool {
	ok := len(q.ins) > 0 && len(q.outs) > 0
	for _, i := range q.ins {
		ok = ok && len(i.TxID) == 64 && gen.IsHex(i.TxID) && i.Vout >= 0 && i.Vout < 1<<32
	}
	for _, o := range q.outs {
		_, k := hash(o.Address, o.AddressPrefix)
		ok = ok && k && o.Amount > 0
	}
	return ok
}

func (q *rq) message(i int) []byte {
	return ref.Cat(kit.UnHex(q.ins[i].TxID), ref.BE32(uint32(q.ins[i].Vout)))
}

// want is the transaction the request describes, with the unlock scripts when signed.
func (q *rq) want(stamp int64, unlock []string) *jtx {
	x := &jtx{Version: int64(q.version), Timestamp: stamp, Locktime: q.locktime, ExpiredTime: q.expired, InputCount: int64(len(q.ins)), OutputCount: int64(len(q.outs))}
	b := ref.Cat(ref.BE64(uint64(stamp)), ref.BE64(uint64(q.locktime)), ref.BE64(uint64(q.expired)), ref.BE32(uint32(len(q.ins))))
	for i, in := range q.ins {
		j := jin{OutputTransactionHash: in.TxID, OutputIndex: int64(in.Vout)}
		if unlock != nil {
			j.UnlockScript, j.Size = unlock[i], int64(len(unlock[i]))
		}
		x.Inputs = append(x.Inputs, j)
		b = ref.Cat(b, kit.UnHex(in.TxID), ref.BE32(uint32(in.Vout)), ref.BE32(uint32(j.Size)), []byte(j.UnlockScript))
	}
	b = append(b, ref.BE32(uint32(len(q.outs)))...)
	for i, o := range q.outs {
		h, _ := hash(o.Address, o.AddressPrefix)
		s := "OP_DUP OP_HASH160 " + strings.ToUpper(kit.Hex(h)) + " OP_EQUALVERIFY OP_CHECKSIG"
		x.Outputs = append(x.Outputs, jout{int64(i), o.Amount, int64(len(s)), s})
		b = ref.Cat(b, ref.BE32(uint32(i)), ref.BE64(uint64(o.Amount)), ref.BE32(uint32(len(s))), []byte(s))
	}
	if unlock != nil {
		x.Hash = strings.ToUpper(kit.Hex(ref.Sha256(b)))
		x.Size = int64(len(b) + 36)
	}
	return x
}

func draw(t *rapid.T, small bool) *rq {
	q := &rq{version: rapid.IntRange(0, 5).Draw(t, "version"), locktime: int64(kit.U64Range(t, 0, 1<<63-1, "locktime")), expired: int64(kit.U64Range(t, 0, 1<<63-1, "expired"))}
	var ni, no int
	if small {
		ni, no = gen.Few(t, 3, "ni"), gen.Few(t, 3, "no")
	} else {
		ni, no = gen.Count(t, "ni"), gen.Count(t, "no")
	}
	prefix := rapid.SampledFrom([][]byte{{0x40, 0xe7, 0xe9, 0x15}, {0x40, 0xe7, 0xe8, 0x15}, {0x40, 0xe7, 0xe9, 0xaa}, {0}, {}}).Draw(t, "prefix")
	r := kit.NewPRNG(rapid.Uint64().Draw(t, "seed"))
	for i := 0; i < ni; i++ {
		id := make([]byte, 32)
		r.Read(id)
		v := int(uint32(r.Next()))
		key := ref.Cat(make([]byte, 31), []byte{64})
		if i < 4 {
			id, v, key = kit.Bytes(t, 32, "txid"), int(kit.U32(t, "vout")), gen.KeyEd(t, "key")
		}
		s := kit.Hex(id)
		if rapid.Bool().Draw(t, "upper") {
			s = strings.ToUpper(s)
		}
		q.ins = append(q.ins, fiii.Vin{TxID: s, Vout: v})
		q.keys = append(q.keys, key)
	}
	for i := 0; i < no; i++ {
		h := make([]byte, 20)
		r.Read(h)
		am := int64(r.Next()>>1) | 1
		if i < 4 {
			h, am = kit.Bytes(t, 20, "hash"), int64(kit.U64Range(t, 1, 1<<63-1, "amount"))
		}
		q.outs = append(q.outs, fiii.Vout{AddressPrefix: prefix, Amount: am, Address: gen.Addr58(prefix, h)})
	}
	return q
}

func (q *rq) create() (string, []string, error) {
	return fiii.CreateEmptyTransactionAndMessage(q.ins, q.outs, q.version, q.locktime, q.expired)
}

func request(t *rapid.T, q *rq) (string, []string, int64) {
	t0 := time.Now().UnixNano() / 1e6
	tx, msgs, err := q.create()
	t1 := time.Now().UnixNano() / 1e6
	if err != nil {
		t.Fatalf("%+v refused: %v", *q, err)
	}
	x, err := parse(tx)
	if err != nil {
		t.Fatalf("%+v gives unreadable %s: %v", *q, tx, err)
	}
	if x.Timestamp < t0 || x.Timestamp > t1 {
		t.Fatalf("time stamp %d is not now (%d)", x.Timestamp, t0)
	}
	if w := q.want(x.Timestamp, nil); fmt.Sprint(*x) != fmt.Sprint(*w) {
		t.Fatalf("transaction differs\n got %+v\nwant %+v", *x, *w)
	}
	if len(msgs) != len(q.ins) {
		t.Fatalf("%d messages for %d inputs", len(msgs), len(q.ins))
	}
	for i, m := range msgs {
		if strings.ToLower(m) != kit.Hex(q.message(i)) {
			t.Fatalf("message %d of %s is %s, want %x", i, tx, m, q.message(i))
		}
	}
	return tx, msgs, x.Timestamp
}

func TestT04_Create(t *testing.T) {
	kit.Check(t, 4000, func(t *rapid.T, c *kit.Case) {
		q := draw(t, false)
		tx, _, _ := request(t, q)
		c.Eval(1 + len(q.ins))
		c.Class("create")
		c.NonTrivial(fmt.Sprintf("%+v", *q))
		c.Sample("%s", tx)
	})
}

func TestT04_Refuse(t *testing.T) {
	kit.Check(t, 5000, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true)
		k, j := kit.Pos(t, 0, len(q.outs)-1, "out"), kit.Pos(t, 0, len(q.ins)-1, "in")
		mode := rapid.IntRange(0, 9).Draw(t, "mode")
		o := &q.outs[k]
		switch mode {
		case 0:
			o.Address = kit.MutAddr(t, o.Address, "mut")
		case 1:
			o.Address = gen.Addr58(kit.BytesRange(t, 0, 5, "ver"), kit.BytesRange(t, 0, 40, "hash"))
		case 2:
			o.Address = gen.Addr58(o.AddressPrefix, kit.BytesRange(t, 0, 40, "hash"))
		case 3:
			o.Address = kit.Str(t, gen.B58+"0OIl", 0, 10, "str")
		case 4:
			q.ins[j].TxID = kit.Hex(kit.BytesRange(t, 0, 64, "txid2"))
			if rapid.Bool().Draw(t, "txt") {
				q.ins[j].TxID = kit.MutStr(t, kit.Hex(kit.Bytes(t, 32, "id")), "tx")
			}
		case 5:
			o.Amount = -int64(kit.U64Range(t, 0, 1<<63, "neg"))
		case 6:
			q.ins = gen.None(t, q.ins)
		case 7:
			q.outs = gen.None(t, q.outs)
		case 8:
			o.AddressPrefix = kit.BytesRange(t, 0, 5, "prefix2")
		case 9:
			q.ins[j].Vout = int(kit.U64(t, "index"))
		}
		if q.valid() {
			request(t, q)
		} else {
			var tx string
			var err error
			if m := kit.NoPanic(func() { tx, _, err = q.create() }); m != "" {
				t.Fatalf("%+v: %s", *q, m)
			}
			if err == nil {
				t.Fatalf("%+v cannot be met but gives %s", *q, tx)
			}
			c.NonTrivial(fmt.Sprintf("%+v", *q))
		}
		c.Eval(1)
		c.Class("refuse mode %d valid=%v", mode, q.valid())
	})
}

func TestT04_Combine(t *testing.T) {
	kit.Check(t, 600, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true)
		tx, msgs, stamp := request(t, q)
		var sps []fiii.SigPub
		var unlock []string
		good := true
		for i := range q.ins {
			i := i
			s, ok := gen.Ed(t, q.keys[i], q.message(i), func() ([]byte, error) { return fiii.SignTransactionMessage(msgs[i], q.keys[i]) }, !kit.OneIn(t, 5, "arb"), "fiii", "sig")
			good = good && ok
			p := ref.PubEd(q.keys[i])
			sps = append(sps, fiii.SigPub{Signature: s, Pubkey: p})
			unlock = append(unlock, strings.ToUpper(kit.Hex(s))+"[ALL] 302A300506032B6570032100"+strings.ToUpper(kit.Hex(p)))
		}
		pass, out, err := fiii.VerifyAndCombineTransaction(tx, sps)
		if good {
			if err != nil || !pass {
				t.Fatalf("%s %x refused: %v", tx, sps, err)
			}
			x, err := parse(out)
			if err != nil {
				t.Fatalf("%s: %v", out, err)
			}
			if w := q.want(stamp, unlock); fmt.Sprint(*x) != fmt.Sprint(*w) {
				t.Fatalf("signed transaction differs\n got %+v\nwant %+v", *x, *w)
			}
		} else if pass || out != "" {
			t.Fatalf("%s with invalid signatures %x combined to %s", tx, sps, out)
		}
		c.Eval(1)
		c.Class("combine good=%v", good)
		c.NonTrivial(out, tx)
		c.Sample("%s", out)
	})
}

func TestT04_Tamper(t *testing.T) {
	kit.Check(t, 500, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true)
		tx, _, _ := request(t, q)
		var sps []fiii.SigPub
		for i := range q.ins {
			sps = append(sps, fiii.SigPub{Signature: ref.SignEd(q.keys[i], kit.Bytes(t, 32, "nonce"), q.message(i)), Pubkey: ref.PubEd(q.keys[i])})
		}
		k := kit.Pos(t, 0, len(sps)-1, "which")
		kit.Before(t, func() { fiii.VerifyAndCombineTransaction(tx, sps) })
		mode := rapid.IntRange(0, 7).Draw(t, "mode")
		x, _ := parse(tx)
		switch mode {
		case 0:
			x.Inputs[k].OutputTransactionHash = kit.Hex(gen.Flip(t, kit.UnHex(x.Inputs[k].OutputTransactionHash), 0, "tx"))
		case 1:
			x.Inputs[k].OutputIndex ^= 1 << uint(rapid.IntRange(0, 31).Draw(t, "bit"))
		case 2:
			sps[k].Signature = gen.Flip(t, sps[k].Signature, 0, "sig")
		case 3:
			sps[k].Pubkey = gen.Flip(t, sps[k].Pubkey, 0, "pub")
		case 4:
			sps = sps[:len(sps)-1]
		case 5:
			sps = append(sps, sps[0])
		case 6:
			sps[k].Pubkey = ref.PubEd(gen.KeyEd(t, "thief"))
			if string(sps[k].Pubkey) == string(ref.PubEd(q.keys[k])) {
				t.Skip("same key")
			}
		case 7:
			if rapid.Bool().Draw(t, "pub") {
				sps[k].Pubkey = gen.None(t, sps[k].Pubkey)
			} else {
				sps[k].Signature = gen.None(t, sps[k].Signature)
			}
		}
		b, _ := json.Marshal(x)
		in := string(b)
		var pass bool
		var out string
		if m := kit.NoPanic(func() { pass, out, _ = fiii.VerifyAndCombineTransaction(in, sps) }); m != "" {
			t.Fatalf("mode %d: %s %x: %s", mode, in, sps, m)
		}
		if pass || out != "" {
			t.Fatalf("mode %d: tampered %s %x accepted: %v %s", mode, in, sps, pass, out)
		}
		c.Eval(1)
		c.Class("tamper mode %d", mode)
		c.NonTrivial(in, fmt.Sprint(sps))
	})
}

func TestT04_Robust(t *testing.T) {
	kit.Check(t, 5000, func(t *rapid.T, c *kit.Case) {
		q := draw(t, true)
		tx, msgs, err := q.create()
		if err != nil {
			t.Fatalf("%v", err)
		}
		var sps []fiii.SigPub
		for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
			sps = append(sps, fiii.SigPub{Signature: kit.MutBytes(t, kit.Bytes(t, 64, "sig"), "smut"), Pubkey: kit.MutBytes(t, kit.Bytes(t, 32, "pub"), "pmut")})
		}
		in := kit.MutStr(t, tx, "txt")
		if m := kit.NoPanic(func() { fiii.VerifyAndCombineTransaction(in, sps) }); m != "" {
			t.Fatalf("%s %x: %s", in, sps, m)
		}
		h, key := kit.MutStr(t, msgs[0], "hash"), kit.BytesRange(t, 0, 40, "key")
		if m := kit.NoPanic(func() { fiii.SignTransactionMessage(h, key) }); m != "" {
			t.Fatalf("sign %q %x: %s", h, key, m)
		}
		c.Eval(2)
		c.Class("robust")
		c.NonTrivial(in, h)
	})
}
