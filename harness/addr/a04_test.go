package addr

import (
	"bytes"
	"encoding/base64"
	"hash/crc32"
	"strings"
	"testing"

	ae "github.com/blocktree/go-owcdrivers/addressEncoder"
	"github.com/blocktree/go-owcdrivers/addressEncoder/base32PolyMod"
	"github.com/blocktree/go-owcdrivers/addressEncoder/bech32"
	"github.com/blocktree/go-owcdrivers/addressEncoder/bech32m"
	"github.com/blocktree/go-owcdrivers/addressEncoder/blake256"
	"github.com/blocktree/go-owcdrivers/addressEncoder/eip55"
	"pgregory.net/rapid"
	"verif/harness/kit"
	"verif/harness/ref"
)

func anyString(t *rapid.T) string {
	switch rapid.IntRange(0, 6).Draw(t, "strkind") {
	case 0:
		return rapid.String().Draw(t, "s")
	case 1:
		return string(kit.BytesRange(t, 0, 60, "raw"))
	case 2:
		return kit.Str(t, ref.B58BTC, 0, 110, "b58")
	case 3:
		pre := rapid.SampledFrom([]string{"bc1", "tb1", "1", "bitcoincash:", "BITCOINCASH:", ":", "xch1", "cosmos1", "0x", "0", "hx", "h", "ak_", "EOS", "PUB_K1_", "PUB_R1_", "ltc1", "t1", "bc", "a1", ""}).Draw(t, "pre")
		return pre + kit.Str(t, ref.B32, 0, 70, "b32")
	case 4: // correct checksum over an arbitrary (often very short) payload
		d := kit.BytesRange(t, 0, 12, "pl")
		k := rapid.SampledFrom([]string{d2, bl, "keccak256", "sha3_256", bk, "ripemd160"}).Draw(t, "sum")
		pre := rapid.SampledFrom([]string{"", "EOS", "ak_", "PUB_K1_"}).Draw(t, "pre")
		return pre + ref.B58CheckEnc(d, ref.B58BTC, k)
	case 5:
		hrp := rapid.SampledFrom([]string{"bc", "tb", "xch", "cosmos", "bm"}).Draw(t, "hrp")
		k := rapid.SampledFrom([]uint32{ref.ConstBech32, ref.ConstBech32m}).Draw(t, "k")
		g := kit.BytesRange(t, 0, 60, "g")
		for i := range g {
			g[i] &= 31
		}
		if kit.OneIn(t, 2, "cash") {
			return ref.CashGroups("bitcoincash", g)
		}
		return ref.Bech32Groups(hrp, g, k)
	default:
		r := drawRow(t)
		a, _ := r.enc(r.payload(t))
		if rapid.Bool().Draw(t, "cut") {
			return a[:kit.Pos(t, 0, len(a), "n")]
		}
		return kit.MutStr(t, a, "mut")
	}
}

// A04: decoders and validators return on every string; they never crash.
func TestA04_NoCrash(t *testing.T) {
	syms := []string{"BTC", "ZEC", "LTC", "BCH", "XTZ", "HC", "ETH", "QTUM", "DCRD", "NAS", "TRX", "ICX", "VSYS", "NOPE", ""}
	kit.Check(t, 3000, func(t *rapid.T, c *kit.Case) {
		s := anyString(t)
		c.Class("len<13=%v", len(s) < 13)
		c.NonTrivial(s)
		c.Sample("%q", s)
		for _, r := range rows {
			if m := kit.NoPanic(func() { ae.AddressDecode(s, r.at) }); m != "" {
				t.Fatalf("AddressDecode(%q, %s): %s", s, r.name, m)
			}
		}
		for _, y := range syms {
			if m := kit.NoPanic(func() { ae.AddressCheck(s, y) }); m != "" {
				t.Fatalf("AddressCheck(%q, %s): %s", s, y, m)
			}
		}
		for n, f := range map[string]func(){
			"bech32.Decode":        func() { bech32.Decode(s, ref.B32) },
			"bech32m.Decode":       func() { bech32m.Decode(s, ref.B32) },
			"bech32m.Bech32Decode": func() { bech32m.Bech32mDecode(s, "xch", ref.B32) },
			"base32PolyMod.Decode": func() { base32PolyMod.Decode(s, ref.B32) },
			"eip55.Decode":         func() { eip55.Eip55_decode(s) },
			"Base58Decode":         func() { ae.Base58Decode(s, ae.NewBase58Alphabet(ref.B58BTC)) },
			"VerifyChecksum":       func() { ae.VerifyChecksum([]byte(s), "doubleSHA256"); ae.VerifyChecksum([]byte(s), "?") },
			"DecodeData": func() {
				ae.DecodeData(s, "base58", ref.B58BTC, "doubleSHA256", []byte{1, 2, 3}, []byte{1})
				ae.DecodeData(s, "other", ref.B58BTC, "doubleSHA256", nil, nil)
				ae.DecodeData(s, "base58", ref.B58BTC, "other", nil, nil)
			},
		} {
			if m := kit.NoPanic(f); m != "" {
				t.Fatalf("%s(%q): %s", n, s, m)
			}
		}
		c.Eval(len(rows) + len(syms) + 8)
	})
}

func TestA04_EncodeNoCrash(t *testing.T) {
	kit.Check(t, 1500, func(t *rapid.T, c *kit.Case) {
		r := drawRow(t)
		b := kit.BytesRange(t, 0, 100, "data")
		c.Eval(1)
		c.Class("enc:%s", r.kind)
		c.NonTrivial(r.name, b)
		if m := kit.NoPanic(func() { ae.AddressEncode(b, r.at) }); m != "" {
			t.Fatalf("AddressEncode(%x,%s): %s", b, r.name, m)
		}
	})
}

// H01: embedded primitives agree with the standards for every length and write schedule.
func TestH01_Blake256(t *testing.T) {
	kit.Check(t, 2500, func(t *rapid.T, c *kit.Case) {
		n := rapid.IntRange(0, 300).Draw(t, "n")
		if rapid.Bool().Draw(t, "edge") {
			n = rapid.SampledFrom([]int{0, 1, 54, 55, 56, 63, 64, 65, 111, 119, 120, 127, 128, 183, 184, 247, 256}).Draw(t, "en")
		}
		b := kit.Bytes(t, n, "data")
		want := ref.Blake256(b)
		h := blake256.New()
		rest := b
		chunks := 0
		for len(rest) > 0 {
			k := kit.Pos(t, 1, len(rest), "chunk")
			if w, err := h.Write(rest[:k]); w != k || err != nil {
				t.Fatalf("Write = %d,%v", w, err)
			}
			rest = rest[k:]
			chunks++
			if kit.OneIn(t, 4, "mid") { // Sum does not disturb the state
				if got := h.Sum(nil); !bytes.Equal(got, ref.Blake256(b[:len(b)-len(rest)])) {
					t.Fatalf("intermediate Sum(%x) = %x", b[:len(b)-len(rest)], got)
				}
			}
		}
		c.Eval(3)
		c.Class("chunks=%d", min(chunks, 5))
		c.NonTrivial(b, chunks)
		pre := kit.BytesRange(t, 0, 3, "pre")
		if got := h.Sum(append([]byte{}, pre...)); !bytes.Equal(got, ref.Cat(pre, want)) {
			t.Fatalf("blake256(%x) in %d writes = %x want %x", b, chunks, got, want)
		}
		h.Reset()
		h.Write(b)
		if got := h.Sum(nil); !bytes.Equal(got, want) {
			t.Fatalf("blake256(%x) after Reset = %x want %x", b, got, want)
		}
		if got := blake256.DoubleBlake256(b); !bytes.Equal(got, ref.Blake256(want)) {
			t.Fatalf("DoubleBlake256(%x) = %x", b, got)
		}
		if got := blake256.New224(); got.Size() != 28 || got.BlockSize() != 64 {
			t.Fatalf("sizes %d %d", got.Size(), got.BlockSize())
		}
		g := blake256.New224()
		g.Write(b)
		if got := g.Sum(nil); !bytes.Equal(got, ref.Blake224(b)) {
			t.Fatalf("blake224(%x) = %x want %x", b, got, ref.Blake224(b))
		}
		salt := kit.Bytes(t, 16, "salt")
		for _, bits := range []int{224, 256} {
			g = blake256.NewSalt(salt)
			if bits == 224 {
				g = blake256.New224Salt(salt)
			}
			g.Write(b)
			if got := g.Sum(nil); !bytes.Equal(got, ref.Blake1(b, bits, salt)) {
				t.Fatalf("blake%d(%x, salt %x) = %x want %x", bits, b, salt, got, ref.Blake1(b, bits, salt))
			}
		}
	})
}

func TestH01_Blake256RefSelf(t *testing.T) { // two independent references agree
	kit.Check(t, 300, func(t *rapid.T, c *kit.Case) {
		b := kit.BytesRange(t, 0, 200, "data")
		c.Eval(1)
		if !bytes.Equal(ref.Blake1(b, 256, nil), ref.Blake256(b)) {
			t.Fatalf("reference disagreement on %x", b)
		}
	})
}

func TestH01_CRC32Base64(t *testing.T) {
	std := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	url := strings.Replace(strings.Replace(std, "+", "-", 1), "/", "_", 1)
	kit.Check(t, 2500, func(t *rapid.T, c *kit.Case) {
		b := kit.BytesRange(t, 0, 100, "data")
		c.Eval(3)
		c.NonTrivial(b)
		if got := ae.CRC32(b); !bytes.Equal(got, ref.BE32(crc32.ChecksumIEEE(b))) {
			t.Fatalf("CRC32(%x) = %x want %x", b, got, ref.BE32(crc32.ChecksumIEEE(b)))
		}
		al := rapid.SampledFrom([]string{std, url}).Draw(t, "alpha")
		e := ae.NewEncoding(al)
		want := base64.NewEncoding(al).EncodeToString(b)
		if got := e.Base64Encode(b); got != want {
			t.Fatalf("Base64Encode(%x) = %q want %q", b, got, want)
		}
		back, err := e.Base64Decode(want)
		if err != nil || !bytes.Equal(back, b) {
			t.Fatalf("Base64Decode(%q) = %x,%v", want, back, err)
		}
		bad := kit.MutStr(t, want, "mut")
		wb, werr := base64.NewEncoding(al).DecodeString(bad)
		gb, gerr := e.Base64Decode(bad)
		c.Class("b64 ref err=%v", werr != nil)
		if (werr == nil) != (gerr == nil) || werr == nil && !bytes.Equal(wb, gb) {
			t.Fatalf("Base64Decode(%q) = %x,%v want %x,%v", bad, gb, gerr, wb, werr)
		}
	})
}
