package t12

import (
	"encoding/binary"
	"fmt"
	"strings"
	"testing"
	"time"

	bbc "github.com/blocktree/go-owcdrivers/bigbangTransaction"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

const b32 = "0123456789abcdefghjkmnpqrstvwxyz"

// crc is CRC-24Q, bit by bit.
func crc(b []byte) []byte {
	c := uint32(0)
	for _, x := range b {
		c ^= uint32(x) << 16
		for i := 0; i < 8; i++ {
			if c <<= 1; c&0x1000000 != 0 {
				c ^= 0x1864cfb
			}
		}
	}
	return []byte{byte(c >> 16), byte(c >> 8), byte(c)}
}

func address(pub []byte) string {
	var s strings.Builder
	s.WriteByte('1')
	for _, g := range ref.Bits8to5(ref.Cat(pub, crc(pub))) {
		s.WriteByte(b32[g])
	}
	return s.String()
}

// pubOf is the key an address stands for, or nil.
func pubOf(a string) []byte {
	if len(a) != 57 || a[0] != '1' {
		return nil
	}
	var g []byte
	for _, c := range []byte(a[1:]) {
		i := strings.IndexByte(b32, c)
		if i < 0 {
			return nil
		}
		g = append(g, byte(i))
	}
	b, err := ref.Bits5to8(g)
	if err != nil || len(b) != 35 || string(crc(b[:32])) != string(b[32:]) {
		return nil
	}
	return b[:32]
}

type rq struct {
	lock        uint32
	anchor      string
	in          []bbc.Vin
	to          string
	amount, fee uint64
	data        string
}

func (q *rq) build(at uint32) []byte {
	b := ref.Cat(ref.LE16(1), ref.LE16(0), ref.LE32(at), ref.LE32(q.lock), ref.Rev(kit.UnHex(q.anchor)), ref.VarInt(uint64(len(q.in))))
	for _, i := range q.in {
		b = ref.Cat(b, ref.Rev(kit.UnHex(i.TxID)), []byte{i.Vout})
	}
	return ref.Cat(b, []byte{1}, pubOf(q.to), ref.LE64(q.amount), ref.LE64(q.fee), ref.VarBytes([]byte(q.data)))
}

func hex32(s string) bool { return len(s) == 64 && gen.IsHex(s) }
func (q *rq) valid() bool {
	for _, i := range q.in {
		if !hex32(i.TxID) {
			return false
		}
	}
	return len(q.in) > 0 && hex32(q.anchor) && pubOf(q.to) != nil && q.amount > 0 && q.fee > 0
}

func draw(t *rapid.T) *rq {
	q := &rq{lock: kit.U32(t, "lock"), anchor: kit.Hex(kit.Bytes(t, 32, "anchor")), to: address(kit.Bytes(t, 32, "to")), amount: kit.U64Range(t, 1, 1<<64-1, "amount"), fee: kit.U64Range(t, 1, 1<<64-1, "fee")}
	for i := gen.Count(t, "in"); i > 0; i-- {
		q.in = append(q.in, bbc.Vin{TxID: kit.Hex(kit.Bytes(t, 32, "txid")), Vout: byte(rapid.IntRange(0, 255).Draw(t, "vout"))})
	}
	switch rapid.IntRange(0, 3).Draw(t, "data") {
	case 0:
		q.data = string(kit.BytesRange(t, 1, 30, "d"))
	case 1:
		q.data = string(kit.Bytes(t, rapid.SampledFrom([]int{127, 128, 251, 252, 253, 254, 255, 256, 257, 300, 4096, 65535, 65536}).Draw(t, "dl"), "d"))
	}
	return q
}

func (q *rq) create() (string, string, error) {
	return bbc.CreateEmptyTransactionAndHash(q.lock, q.anchor, append([]bbc.Vin{}, q.in...), q.to, q.amount, q.fee, q.data)
}

func request(t *rapid.T, q *rq) (string, []byte) {
	lo := uint32(time.Now().Unix())
	tx, h, err := q.create()
	hi := uint32(time.Now().Unix())
	if err != nil {
		t.Fatalf("%+v refused: %v", *q, err)
	}
	raw := kit.UnHex(tx)
	at := lo
	if len(raw) >= 8 {
		if at = binary.LittleEndian.Uint32(raw[4:]); at < lo || at > hi {
			t.Fatalf("%+v: the time of %s is %d, not between %d and %d", *q, tx, at, lo, hi)
		}
	}
	if w := q.build(at); tx != kit.Hex(w) {
		t.Fatalf("%+v: transaction differs\n got %s\nwant %x", *q, tx, w)
	}
	d := ref.Blake2b(raw, 32)
	if h != kit.Hex(d) {
		t.Fatalf("digest of %s is %s, want %x", tx, h, d)
	}
	return tx, d
}

func TestT12_Create(t *testing.T) {
	kit.Check(t, 4000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		tx, _ := request(t, q)
		c.Eval(2)
		c.Class("create long list=%v data=%v", len(q.in) > 252, len(ref.VarInt(uint64(len(q.data)))))
		c.NonTrivial(tx[16:])
		if len(tx) < 600 {
			c.Sample("%s", tx)
		}
	})
}

func TestT12_Refuse(t *testing.T) {
	kit.Check(t, 10000, func(t *rapid.T, c *kit.Case) {
		q := draw(t)
		mode := rapid.IntRange(0, 7).Draw(t, "mode")
		switch mode {
		case 0:
			q.to = kit.MutAddr(t, q.to, "to")
		case 1:
			q.to = string(rapid.SampledFrom([]byte("0123a")).Draw(t, "pre")) + q.to[1:]
		case 7: // one byte of the checksum
			b := kit.Bytes(t, 32, "key")
			sum := crc(b)
			sum[rapid.IntRange(0, len(sum)-1).Draw(t, "sum")] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
			q.to = "1"
			for _, g := range ref.Bits8to5(ref.Cat(b, sum)) {
				q.to += string(b32[g])
			}
		case 2:
			// a checksum of its own over another number of bytes
			b := kit.BytesRange(t, 25, 45, "b")
			q.to = "1"
			for _, g := range ref.Bits8to5(ref.Cat(b, crc(b))) {
				q.to += string(b32[g])
			}
		case 3, 4:
			p := &q.anchor
			if mode == 4 {
				p = &q.in[kit.Pos(t, 0, len(q.in)-1, "which")].TxID
			}
			if rapid.Bool().Draw(t, "len") {
				*p = kit.Hex(kit.BytesRange(t, 0, 40, "bytes"))
			} else {
				*p = kit.MutStr(t, *p, "mut")
			}
		case 5:
			q.in = gen.None(t, q.in)
		case 6:
			if rapid.Bool().Draw(t, "fee") {
				q.fee = 0
			} else {
				q.amount = 0
			}
		}
		if q.valid() {
			request(t, q)
		} else {
			var tx string
			var err error
			if m := kit.NoPanic(func() { tx, _, err = q.create() }); m != "" {
				t.Fatalf("%+v: %s", *q, m)
			}
			if err == nil {
				t.Fatalf("%+v cannot be met but gives %s", *q, tx)
			}
			c.NonTrivial(fmt.Sprintf("%+v", *q))
		}
		c.Eval(1)
		c.Class("refuse mode %d valid=%v", mode, q.valid())
	})
}

func sign(t *rapid.T, key, d []byte) []byte {
	sig, _ := gen.Ed(t, key, d, func() ([]byte, error) {
		s, err := bbc.SignTransactionHash(kit.Hex(d), key)
		return kit.UnHex(s), err
	}, true, "bigbang", "sig")
	return sig
}

func TestT12_Combine(t *testing.T) {
	kit.Check(t, 700, func(t *rapid.T, c *kit.Case) {
		key := gen.KeyEd(t, "key")
		q := draw(t)
		tx, d := request(t, q)
		sig := sign(t, key, d)
		pass, out := bbc.VerifyAndCombineTransaction(tx, kit.Hex(sig), ref.PubEd(key))
		if w := tx + "40" + kit.Hex(sig); !pass || out != w {
			t.Fatalf("%s with %x gives %v\n got %s\nwant %s", tx, sig, pass, out, w)
		}
		c.Eval(1)
		c.Class("combine inputs=%v", len(q.in) > 5)
		c.NonTrivial(out[16:])
		if len(out) < 600 {
			c.Sample("%s", out)
		}
	})
}

func TestT12_Tamper(t *testing.T) {
	kit.Check(t, 900, func(t *rapid.T, c *kit.Case) {
		key := gen.KeyEd(t, "key")
		q := draw(t)
		tx, d := request(t, q)
		sig := sign(t, key, d)
		pub := ref.PubEd(key)
		s := kit.Hex(sig)
		kit.Before(t, func() { bbc.VerifyAndCombineTransaction(tx, s, pub) })
		mode := rapid.IntRange(0, 7).Draw(t, "mode")
		switch mode {
		case 0:
			tx = kit.Hex(gen.Flip(t, kit.UnHex(tx), 0, "tx"))
		case 1:
			s = kit.Hex(gen.Flip(t, sig, 0, "sigflip"))
		case 2:
			s = kit.Hex(kit.BytesRange(t, 0, 70, "siglen"))
		case 3:
			if pub = ref.PubEd(gen.KeyEd(t, "other")); string(pub) == string(ref.PubEd(key)) {
				t.Skip("same key")
			}
		case 4:
			pub = kit.BytesRange(t, 0, 40, "publen")
			if string(pub) == string(ref.PubEd(key)) {
				t.Skip("same key")
			}
		case 5:
			b := kit.MutBytes(t, kit.UnHex(tx), "mut")
			if kit.Hex(b) == tx {
				t.Skip("same")
			}
			tx = kit.Hex(b)
		case 6:
			if m := kit.MutStr(t, tx, "mut"); strings.ToLower(m) != tx {
				tx = m
			} else {
				t.Skip("same")
			}
		case 7:
			if m := kit.MutStr(t, s, "mut"); strings.ToLower(m) != s {
				s = m
			} else {
				t.Skip("same")
			}
		}
		var pass bool
		var out string
		if m := kit.NoPanic(func() { pass, out = bbc.VerifyAndCombineTransaction(tx, s, pub) }); m != "" {
			t.Fatalf("%s %s %x: %s", tx, s, pub, m)
		}
		if pass || out != "" {
			t.Fatalf("mode %d: %s with %s under %x gives %v %s", mode, tx, s, pub, pass, out)
		}
		h, k := kit.MutStr(t, kit.Hex(d), "hash"), kit.BytesRange(t, 0, 40, "badkey")
		if m := kit.NoPanic(func() {
			bbc.SignTransactionHash(h, k)
			bbc.SignTransactionHash(kit.Hex(d), k)
			bbc.SignTransactionHash(h, key)
		}); m != "" {
			t.Fatalf("signing %s with %x: %s", h, k, m)
		}
		c.Eval(4)
		c.Class("tamper mode %d", mode)
		c.NonTrivial(tx, s, pub)
	})
}
