package addr

import (
	"bytes"
	"strings"
	"testing"

	ae "github.com/blocktree/go-owcdrivers/addressEncoder"
	"pgregory.net/rapid"
	"verif/harness/kit"
	"verif/harness/ref"
)

// A01: encode agrees with the published format; decode inverts it.
func TestA01_EncodeDecode(t *testing.T) {
	kit.Check(t, 6000, func(t *rapid.T, c *kit.Case) {
		r := drawRow(t)
		p := r.payload(t)
		keep := append([]byte{}, p...)
		want, dec := r.enc(p)
		got := ae.AddressEncode(p, r.at)
		c.Eval(3)
		c.Class("type:%s", r.name)
		c.NonTrivial(r.name, p)
		c.Sample("%s(%x) = %s", r.name, p, want)
		if got != want {
			t.Fatalf("%s: AddressEncode(%x) = %q, published format gives %q", r.name, p, got, want)
		}
		if !bytes.Equal(p, keep) {
			t.Fatalf("%s: AddressEncode modified its input: %x -> %x", r.name, keep, p)
		}
		back, err := ae.AddressDecode(want, r.at)
		if err != nil || !bytes.Equal(back, dec) {
			t.Fatalf("%s: AddressDecode(%q) = %x, %v; want %x", r.name, want, back, err, dec)
		}
		if again := ae.AddressEncode(p, r.at); again != want {
			t.Fatalf("%s: second AddressEncode differs: %q", r.name, again)
		}
		if r.kind == "hex32" {
			back, err = ae.AddressDecode("0x"+want, r.at)
			if err != nil || !bytes.Equal(back, dec) {
				t.Fatalf("%s: AddressDecode(0x%q) = %x, %v; want %x", r.name, want, back, err, dec)
			}
		}
	})
}

// A01: public keys are hashed with the network's key hash before encoding.
func TestA01_PublicKey(t *testing.T) {
	var hashed []row
	for _, r := range rows {
		if r.hash != "" {
			hashed = append(hashed, r)
		}
	}
	kit.Check(t, 3000, func(t *rapid.T, c *kit.Case) {
		r := hashed[kit.Pos(t, 0, len(hashed)-1, "type")]
		n := rapid.SampledFrom([]int{33, 65, 64, 32}).Draw(t, "keylen")
		if n == r.n || (r.kind == "segwit" || r.kind == "bech") && n != 33 && n != 65 {
			n = 33
		}
		pub := kit.Bytes(t, n, "pub")
		h := hashOf(r.hash, pub)
		if r.kind == "cash" {
			h = append([]byte{0}, h...)
		}
		want, _ := r.enc(h)
		got := ae.AddressEncode(append([]byte{}, pub...), r.at)
		c.Eval(1)
		c.Class("pub:%s/%d", r.name, n)
		c.NonTrivial(r.name, pub)
		c.Sample("%s(pub %x) = %s", r.name, pub, want)
		if got != want {
			t.Fatalf("%s: AddressEncode(pub %x) = %q, want %q", r.name, pub, got, want)
		}
	})
}

// A01: raw base-58 conversion is a bijection on byte strings (every alphabet in use).
func TestA01_Base58(t *testing.T) {
	kit.Check(t, 2500, func(t *rapid.T, c *kit.Case) {
		alpha := rapid.SampledFrom([]string{ref.B58BTC, ref.B58XRP}).Draw(t, "alpha")
		b := kit.BytesRange(t, 0, 120, "data")
		al := ae.NewBase58Alphabet(alpha)
		want := ref.B58Enc(b, alpha)
		got := ae.Base58Encode(b, al)
		c.Eval(2)
		c.NonTrivial(alpha, b)
		c.Class("b58:zeros=%v", len(b) > 0 && b[0] == 0)
		if got != want {
			t.Fatalf("Base58Encode(%x) = %q want %q", b, got, want)
		}
		back, err := ae.Base58Decode(want, al)
		if err != nil || !bytes.Equal(back, b) {
			t.Fatalf("Base58Decode(%q) = %x,%v want %x", want, back, err, b)
		}
		// checksum helpers
		for _, k := range []string{d2, bl, "keccak256", "sha3_256", bk, "ripemd160"} {
			s := ref.Sum4(k, b)
			if !bytes.Equal(ae.CalcChecksum(b, k), s) {
				t.Fatalf("CalcChecksum(%x,%s) = %x want %x", b, k, ae.CalcChecksum(b, k), s)
			}
			full := ref.Cat(b, s)
			if !ae.VerifyChecksum(full, k) {
				t.Fatalf("VerifyChecksum rejects the correct checksum %s of %x", k, b)
			}
			full[len(full)-1-rapid.IntRange(0, 3).Draw(t, "pos")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
			if ae.VerifyChecksum(full, k) {
				t.Fatalf("VerifyChecksum accepts a corrupted checksum %s: %x", k, full)
			}
			c.Eval(3)
		}
	})
}

// corrupt derives a (usually) invalid string from a valid address.
func corrupt(t *rapid.T, r row, addr string) string {
	alpha := r.alpha
	if alpha == "" {
		alpha = "0123456789abcdef"
	}
	b := []byte(addr)
	ops := rapid.IntRange(1, 2).Draw(t, "ops")
	for i := 0; i < ops; i++ {
		if len(b) == 0 {
			break
		}
		p := kit.Pos(t, 0, len(b)-1, "pos")
		ch := alpha[kit.Pos(t, 0, len(alpha)-1, "ch")]
		switch rapid.IntRange(0, 8).Draw(t, "op") {
		case 0, 1, 2:
			b[p] = ch
		case 3:
			if p+1 < len(b) {
				b[p], b[p+1] = b[p+1], b[p]
			}
		case 4:
			b = append(b[:p:p], b[p+1:]...)
		case 5:
			b = append(b[:p:p], append([]byte{ch}, b[p:]...)...)
		case 6:
			if b[p] >= 'a' && b[p] <= 'z' {
				b[p] -= 32
			} else if b[p] >= 'A' && b[p] <= 'Z' {
				b[p] += 32
			} else {
				b[p] = ch
			}
		case 7:
			b[p] = rapid.SampledFrom([]byte("0OIl1bio:-_ +/\x00\x7f\x80\xff")).Draw(t, "bad")
		case 8:
			b = append(b, ch)
		}
	}
	return string(b)
}

// forge builds a string with a correct checksum that violates the type in another way.
func forge(t *rapid.T, r row) string {
	other := drawRow(t)
	switch r.kind {
	case "b58", "xmr", "eos", "ae":
		switch rapid.IntRange(0, 4).Draw(t, "forge") {
		case 4: // right length, one bit of the version or suffix bytes off, valid checksum
			pr, su := unhex(r.prefix), unhex(r.suffix)
			d := ref.Cat(pr, kit.Bytes(t, r.n, "pl"), su)
			if len(pr)+len(su) > 0 {
				p := kit.Pos(t, 0, len(pr)+len(su)-1, "vpos")
				if p >= len(pr) {
					p += r.n
				}
				d[p] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "vbit"))
			}
			if r.kind == "xmr" {
				return ref.XMRBase58(ref.Cat(d, ref.Keccak(d)[:4]))
			}
			return map[string]string{"eos": "EOS", "ae": "ak_"}[r.kind] + ref.B58CheckEnc(d, r.alpha, r.sum)
		case 0: // other network
			s, _ := other.enc(other.payload(t))
			return s
		case 1: // wrong length, right prefix and checksum
			d := ref.Cat(unhex(r.prefix), kit.BytesRange(t, 0, r.n+6, "pl"), unhex(r.suffix))
			pre := map[string]string{"eos": "EOS", "ae": "ak_"}[r.kind]
			if r.kind == "xmr" {
				return ref.XMRBase58(ref.Cat(d, ref.Keccak(d)[:4]))
			}
			return pre + ref.B58CheckEnc(d, r.alpha, r.sum)
		case 2: // right length, wrong version bytes
			pl := kit.Bytes(t, len(unhex(r.prefix))+r.n+len(unhex(r.suffix)), "pl")
			if r.kind == "xmr" {
				return ref.XMRBase58(ref.Cat(pl, ref.Keccak(pl)[:4]))
			}
			pre := map[string]string{"eos": "EOX", "ae": "ok_"}[r.kind]
			if kit.OneIn(t, 2, "nopre") {
				pre = ""
			}
			return pre + ref.B58CheckEnc(pl, r.alpha, r.sum)
		default: // other checksum algorithm
			k := rapid.SampledFrom([]string{d2, bl, "keccak256", "sha3_256", bk, "ripemd160"}).Draw(t, "sum")
			return ref.B58CheckEnc(ref.Cat(unhex(r.prefix), kit.Bytes(t, r.n, "pl"), unhex(r.suffix)), r.alpha, k)
		}
	case "segwit", "bech", "bechm":
		hrp := r.sum
		k := uint32(ref.ConstBech32)
		if r.kind == "bechm" {
			k = ref.ConstBech32m
		}
		n := r.n
		var g []byte
		if r.kind == "segwit" {
			g = []byte{0}
		}
		pad := byte(0)
		switch rapid.IntRange(0, 5).Draw(t, "forge") {
		case 0:
			hrp = rapid.SampledFrom([]string{"bc", "tb", "ltc", "tltc", "bm", "tm", "cosmos", "bnb", "eva", "xch", "txch", "a", "cosmosvaloper"}).Draw(t, "hrp")
		case 1:
			if r.kind == "segwit" {
				g = []byte{byte(rapid.IntRange(0, 31).Draw(t, "wver"))}
			}
		case 2:
			n = rapid.IntRange(0, 45).Draw(t, "plen")
		case 3:
			pad = byte(rapid.IntRange(1, 15).Draw(t, "pad"))
			if r.kind == "segwit" || r.kind == "bechm" {
				n = 32
			}
		case 4:
			k = ref.ConstBech32 ^ ref.ConstBech32m ^ k
		case 5:
			s, _ := r.enc(r.payload(t))
			return kit.MixCase(t, s, "case")
		}
		d := ref.Bits8to5(kit.Bytes(t, n, "pl"))
		if len(d) > 0 && n*8%5 != 0 {
			d[len(d)-1] |= pad & (1<<uint(5-n*8%5) - 1)
		}
		return ref.Bech32Groups(hrp, append(g, d...), k)
	case "cash":
		switch rapid.IntRange(0, 4).Draw(t, "forge") {
		case 0:
			pre := rapid.SampledFrom([]string{"bchtest", "bchreg", "pref", "bitcoincasa"}).Draw(t, "pre")
			return ref.CashAddr(pre, 0, kit.Bytes(t, 20, "pl"))
		case 1:
			return ref.CashGroups("bitcoincash", ref.Bits8to5(kit.BytesRange(t, 0, 40, "pl")))
		case 2: // upper case, corrupted or not
			s, _ := r.enc(r.payload(t))
			s = strings.ToUpper(s)
			if kit.OneIn(t, 2, "cor") {
				b := []byte(s)
				p := rapid.IntRange(12, len(b)-1).Draw(t, "pos")
				b[p] = strings.ToUpper(ref.B32)[rapid.IntRange(0, 31).Draw(t, "ch")]
				s = string(b)
			}
			return s
		case 3:
			s, _ := r.enc(r.payload(t))
			return s[strings.Index(s, ":")+1:]
		default:
			g := ref.Bits8to5(kit.Bytes(t, 21, "pl"))
			g[len(g)-1] |= byte(rapid.IntRange(0, 3).Draw(t, "pad"))
			return ref.CashGroups("bitcoincash", g)
		}
	case "hex32", "icx":
		pre := rapid.SampledFrom([]string{"", "0x", "0X", "hx", "cx", "0x0x", "Hx"}).Draw(t, "pre")
		return pre + kit.Str(t, "0123456789abcdefABCDEFg", 36, 44, "hex")
	}
	return ""
}

// A02: the decoder accepts a string exactly when the published format does, with that payload.
func TestA02_Reject(t *testing.T) {
	kit.Check(t, 9000, func(t *rapid.T, c *kit.Case) {
		r := drawRow(t)
		var s string
		switch rapid.IntRange(0, 2).Draw(t, "how") {
		case 0, 1:
			a, _ := r.enc(r.payload(t))
			if s = a; kit.Rare(t, 12, "letter case") {
				s = kit.MixCase(t, a, "case")
			} else {
				s = corrupt(t, r, a)
			}
		default:
			s = forge(t, r)
		}
		v, want := r.dec(s)
		got, err := ae.AddressDecode(s, r.at)
		c.Eval(1)
		c.Class("%s:ref=%v", r.kind, v)
		if v == no {
			c.NonTrivial(r.name, s)
			c.Sample("%s rejects %q", r.name, s)
			if err == nil {
				t.Fatalf("%s: AddressDecode accepted invalid address %q as %x", r.name, s, got)
			}
			return
		}
		if v == yes && err != nil {
			t.Fatalf("%s: AddressDecode rejected valid address %q: %v", r.name, s, err)
		}
		if err == nil && want != nil && !bytes.Equal(got, want) {
			t.Fatalf("%s: AddressDecode(%q) = %x want %x", r.name, s, got, want)
		}
	})
}

// A02: every single-character substitution of an address is detected.
func TestA02_SingleSubstitution(t *testing.T) {
	kit.Check(t, 60, func(t *rapid.T, c *kit.Case) {
		r := drawRow(t)
		if r.alpha == "" {
			return // hexadecimal formats carry no checksum
		}
		a, _ := r.enc(r.payload(t))
		c.NonTrivial(r.name, a)
		for p := 0; p < len(a); p++ {
			ch := r.alpha[kit.Pos(t, 0, len(r.alpha)-1, "ch")]
			if ch == a[p] {
				continue
			}
			s := a[:p] + string(ch) + a[p+1:]
			c.Eval(1)
			if v, _ := r.dec(s); v != no {
				continue
			}
			if got, err := ae.AddressDecode(s, r.at); err == nil {
				t.Fatalf("%s: %q (one character changed from %q) accepted as %x", r.name, s, a, got)
			}
		}
	})
}

var symbols = map[string][]string{
	"BTC":  {"BTC", "BTC-sh", "BTC-bech32", "tBTC", "tBTC-sh", "tBTC-bech32"},
	"ZEC":  {"ZEC-t1", "ZEC-t3", "ZEC-tm", "ZEC-t2"},
	"LTC":  {"LTC", "LTC-sh", "LTC-sh2", "LTC-bech32", "tLTC", "tLTC-sh", "tLTC-bech32"},
	"BCH":  {"BCH-legacy", "BCH-cash"},
	"XTZ":  {"XTZ-tz1", "XTZ-tz2", "XTZ-tz3"},
	"HC":   {"HC"},
	"ETH":  {"ETH"},
	"QTUM": {"QTUM", "QTUM-sh", "tQTUM", "tQTUM-sh"},
	"DCRD": {"DCRD-Ds", "DCRD-P2PK", "DCRD-De", "DCRD-DS", "DCRD-Dc", "DCRD-Pm", "DCRD-Ts", "DCRD-Tk", "DCRD-Te", "DCRD-TS", "DCRD-Tc", "DCRD-Pt", "DCRD-Ss", "DCRD-Sk", "DCRD-Se", "DCRD-SS", "DCRD-Sc"},
	"NAS":  {"NAS-acct", "NAS-contract"},
	"TRX":  {"TRX"},
	"ICX":  {"ICX"},
	"VSYS": {"VSYS"},
}

// A03: the validity check says yes exactly for the addresses its coin's formats accept.
func TestA03_AddressCheck(t *testing.T) {
	var names []string
	for _, s := range []string{"BTC", "ZEC", "LTC", "BCH", "XTZ", "HC", "ETH", "QTUM", "DCRD", "NAS", "TRX", "ICX", "VSYS"} {
		names = append(names, s)
	}
	kit.Check(t, 9000, func(t *rapid.T, c *kit.Case) {
		sym := rapid.SampledFrom(names).Draw(t, "symbol")
		ts := symbols[sym]
		var r row
		if kit.OneIn(t, 4, "foreign") {
			r = drawRow(t)
		} else {
			r = find(rapid.SampledFrom(ts).Draw(t, "row"))
		}
		var s string
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0, 1:
			s, _ = r.enc(r.payload(t))
		case 2:
			s, _ = r.enc(r.payload(t))
			s = corrupt(t, r, s)
		default:
			s = forge(t, r)
		}
		best := no
		for _, n := range ts {
			v, _ := find(n).dec(s)
			if v == yes {
				best = yes
				break
			}
			if v == either {
				best = either
			}
		}
		ok, err := ae.AddressCheck(s, sym)
		c.Eval(1)
		c.Class("%s:%v", sym, best)
		c.NonTrivial(sym, s)
		c.Sample("%s %q -> %v", sym, s, best)
		switch {
		case best == yes && !ok:
			t.Fatalf("AddressCheck(%q,%s) = false (%v) for a valid address", s, sym, err)
		case best == no && ok:
			t.Fatalf("AddressCheck(%q,%s) = true for an invalid address", s, sym)
		case ok && err != nil, !ok && err == nil:
			t.Fatalf("AddressCheck(%q,%s) = %v with error %v", s, sym, ok, err)
		}
	})
}

func TestA03_ShortStrings(t *testing.T) {
	var names []string
	for _, s := range []string{"BTC", "ZEC", "LTC", "BCH", "XTZ", "HC", "ETH", "QTUM", "DCRD", "NAS", "TRX", "ICX", "VSYS"} {
		names = append(names, s)
	}
	kit.Check(t, 1500, func(t *rapid.T, c *kit.Case) {
		sym := rapid.SampledFrom(names).Draw(t, "symbol")
		a, _ := find(rapid.SampledFrom(symbols[sym]).Draw(t, "row")).enc(make([]byte, 32)[:find(symbols[sym][0]).n])
		s := a[:rapid.IntRange(0, min(len(a)-1, 14)).Draw(t, "cut")]
		c.Eval(1)
		c.NonTrivial(sym, s)
		c.Class("len=%d", len(s))
		if ok, err := ae.AddressCheck(s, sym); ok || err == nil {
			t.Fatalf("AddressCheck(%q,%s) = %v,%v", s, sym, ok, err)
		}
	})
}
