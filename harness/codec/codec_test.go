package codec

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/blocktree/go-owcdrivers/addressEncoder/bech32m"
	alien "github.com/blocktree/go-owcdrivers/aliencoinTransaction"
	bch "github.com/blocktree/go-owcdrivers/bitcoincashTransaction"
	bsv "github.com/blocktree/go-owcdrivers/bitcoinsvTransaction"
	like "github.com/blocktree/go-owcdrivers/btcLikeTxDriver"
	btc "github.com/blocktree/go-owcdrivers/btcTransaction"
	bytom "github.com/blocktree/go-owcdrivers/bytomTransaction"
	cosmos "github.com/blocktree/go-owcdrivers/cosmosTransaction"
	cxc "github.com/blocktree/go-owcdrivers/cxcTransaction"
	elastos "github.com/blocktree/go-owcdrivers/elastosTransaction"
	evaio "github.com/blocktree/go-owcdrivers/evaioTransaction"
	fiii "github.com/blocktree/go-owcdrivers/fiiiTransaction"
	filenet "github.com/blocktree/go-owcdrivers/filenetTransaction"
	hc "github.com/blocktree/go-owcdrivers/hcTransaction"
	hypercash "github.com/blocktree/go-owcdrivers/hypercashTransaction"
	omni "github.com/blocktree/go-owcdrivers/omniTransaction"
	ontology "github.com/blocktree/go-owcdrivers/ontologyTransaction"
	"github.com/blocktree/go-owcdrivers/owkeychain"
	polkadot "github.com/blocktree/go-owcdrivers/polkadotTransaction"
	ripple "github.com/blocktree/go-owcdrivers/rippleTransaction"
	verge "github.com/blocktree/go-owcdrivers/vergeTransaction"
	vsys "github.com/blocktree/go-owcdrivers/virtualeconomyTransaction"
	vollar "github.com/blocktree/go-owcdrivers/vollarTransaction"
	wayki "github.com/blocktree/go-owcdrivers/waykichainTransaction"
	zencash "github.com/blocktree/go-owcdrivers/zencashTransaction"
	"pgregory.net/rapid"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

type c58 struct {
	name   string
	enc    func(b []byte, alpha string) string
	dec    func(s, alpha string) ([]byte, error)
	own    func(b []byte) string // with the package's own alphabet
	alpha  string
	sum    string
	encChk func(prefix, h []byte) string
	decChk func(s string) ([]byte, []byte, error) // version and hash
	one    bool                                   // versions are a single byte
}

func mk[A any](name string, newA func(string) *A, own *A, alpha string, enc func([]byte, *A) string, dec func(string, *A) ([]byte, error)) c58 {
	return c58{name: name, alpha: alpha, sum: "doubleSHA256",
		enc: func(b []byte, a string) string { return enc(b, newA(a)) },
		dec: func(s, a string) ([]byte, error) { return dec(s, newA(a)) },
		own: func(b []byte) string { return enc(b, own) }}
}
func (c c58) chk(e func(p, h []byte) string, d func(string) ([]byte, []byte, error)) c58 {
	c.encChk = e
	c.decChk = d
	return c
}
func (c c58) chk1(e func(p byte, h []byte) string, d func(string) (byte, []byte, error)) c58 {
	c.one = true
	c.encChk = func(p, h []byte) string { return e(p[0], h) }
	c.decChk = func(s string) ([]byte, []byte, error) {
		p, h, err := d(s)
		return []byte{p}, h, err
	}
	return c
}
func (c c58) with(sum string) c58 { c.sum = sum; return c }

const xrp = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
const flickr = "123456789abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ"

var all58 = []c58{
	mk("aliencoin", alien.NewAlphabet, alien.BitcoinAlphabet, ref.B58BTC, alien.Encode, alien.Decode).chk1(alien.EncodeCheck, alien.DecodeCheck),
	mk("bitcoincash", bch.NewAlphabet, bch.BitcoinAlphabet, ref.B58BTC, bch.Encode, bch.Decode).chk(bch.EncodeCheck, bch.DecodeCheck),
	mk("bitcoinsv", bsv.NewAlphabet, bsv.BitcoinAlphabet, ref.B58BTC, bsv.Encode, bsv.Decode).chk(bsv.EncodeCheck, bsv.DecodeCheck),
	mk("btcLike", like.NewAlphabet, like.BitcoinAlphabet, ref.B58BTC, like.Encode, like.Decode).chk1(like.EncodeCheck, like.DecodeCheck),
	mk("btc", btc.NewAlphabet, btc.BitcoinAlphabet, ref.B58BTC, btc.Encode, btc.Decode).chk(btc.EncodeCheck, btc.DecodeCheck),
	mk("cxc", cxc.NewAlphabet, cxc.BitcoinAlphabet, ref.B58BTC, cxc.Encode, cxc.Decode).chk(cxc.EncodeCheck, cxc.DecodeCheck),
	mk("elastos", elastos.NewAlphabet, elastos.BitcoinAlphabet, ref.B58BTC, elastos.Encode, elastos.Decode).chk(elastos.EncodeCheck, elastos.DecodeCheck),
	mk("fiii", fiii.NewAlphabet, fiii.BitcoinAlphabet, ref.B58BTC, fiii.Encode, fiii.Decode).chk(fiii.EncodeCheck, nil),
	mk("filenet", filenet.NewAlphabet, filenet.BitcoinAlphabet, ref.B58BTC, filenet.Encode, filenet.Decode),
	mk("hc", hc.NewAlphabet, hc.BitcoinAlphabet, ref.B58BTC, hc.Encode, hc.Decode).chk(hc.EncodeCheck, hc.DecodeCheck),
	mk("hypercash", hypercash.NewAlphabet, hypercash.BitcoinAlphabet, ref.B58BTC, hypercash.Encode, hypercash.Decode).chk(hypercash.EncodeCheck, hypercash.DecodeCheck).with("doubleBlake256"),
	mk("omni", omni.NewAlphabet, omni.BitcoinAlphabet, ref.B58BTC, omni.Encode, omni.Decode).chk(omni.EncodeCheck, omni.DecodeCheck),
	mk("ontology", ontology.NewAlphabet, ontology.BitcoinAlphabet, ref.B58BTC, ontology.Encode, ontology.Decode).chk1(ontology.EncodeCheck, ontology.DecodeCheck),
	mk("owkeychain", owkeychain.NewAlphabet, owkeychain.BitcoinAlphabet, ref.B58BTC, owkeychain.Encode, owkeychain.Decode),
	mk("owkeychain-flickr", owkeychain.NewAlphabet, owkeychain.FlickrAlphabet, flickr, owkeychain.Encode, owkeychain.Decode),
	mk("owkeychain-ipfs", owkeychain.NewAlphabet, owkeychain.IPFSAlphabet, ref.B58BTC, owkeychain.Encode, owkeychain.Decode),
	mk("owkeychain-ripple", owkeychain.NewAlphabet, owkeychain.RippleAlphabet, xrp, owkeychain.Encode, owkeychain.Decode),
	mk("ripple", ripple.NewAlphabet, ripple.RippleAlphabet, xrp, ripple.Encode, ripple.Decode),
	mk("verge", verge.NewAlphabet, verge.BitcoinAlphabet, ref.B58BTC, verge.Encode, verge.Decode).chk1(verge.EncodeCheck, verge.DecodeCheck),
	mk("virtualeconomy", vsys.NewAlphabet, vsys.BitcoinAlphabet, ref.B58BTC, vsys.Encode, vsys.Decode).chk1(vsys.EncodeCheck, nil).with("blake2b_and_keccak256_first_twenty"),
	mk("vollar", vollar.NewAlphabet, vollar.BitcoinAlphabet, ref.B58BTC, vollar.Encode, vollar.Decode).chk(vollar.EncodeCheck, vollar.DecodeCheck),
	mk("waykichain", wayki.NewAlphabet, wayki.BitcoinAlphabet, ref.B58BTC, wayki.Encode, wayki.Decode).chk(wayki.EncodeCheck, wayki.DecodeCheck),
	mk("zencash", zencash.NewAlphabet, zencash.BitcoinAlphabet, ref.B58BTC, zencash.Encode, zencash.Decode).chk(zencash.EncodeCheck, zencash.DecodeCheck),
}

func init() {
	for i := range all58 {
		switch all58[i].name {
		case "fiii": // takes the expected version
			all58[i].decChk = nil
		case "virtualeconomy": // gives the whole decoded string
			all58[i].decChk = func(s string) ([]byte, []byte, error) {
				b, err := vsys.DecodeCheck(s)
				if err == nil && len(b) >= 5 {
					return b[:1], b[1 : len(b)-4], err
				}
				return nil, b, err
			}
		}
	}
}

func drawC(t *rapid.T) *c58 { return &all58[kit.Pos(t, 0, len(all58)-1, "codec")] }

// drawAlpha gives the codec's own alphabet, another known one, or a shuffled one.
func drawAlpha(t *rapid.T, c *c58) string {
	switch rapid.IntRange(0, 4).Draw(t, "alphabet") {
	case 3:
		return rapid.SampledFrom([]string{ref.B58BTC, xrp, flickr}).Draw(t, "known")
	case 4:
		b := []byte("!\"#$%&()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~")
		r := kit.NewPRNG(rapid.Uint64().Draw(t, "shuffle"))
		for i := len(b) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			b[i], b[j] = b[j], b[i]
		}
		return string(b[:58])
	}
	return c.alpha
}

func drawData(t *rapid.T, l string) []byte {
	n := rapid.IntRange(0, 80).Draw(t, l+".len")
	if kit.Rare(t, 20, l+".long") {
		n = rapid.IntRange(81, 400).Draw(t, l+".longlen")
	}
	b := kit.Bytes(t, n, l)
	if rapid.Bool().Draw(t, l+".zeros") {
		for i := 0; i < kit.Pos(t, 0, len(b), l+".nz") && i < len(b); i++ {
			b[i] = 0
		}
	}
	return b
}

func TestC01_RoundTrip(t *testing.T) {
	kit.Check(t, 90000, func(t *rapid.T, c *kit.Case) {
		d := drawC(t)
		a := drawAlpha(t, d)
		b := drawData(t, "data")
		in := append([]byte{}, b...)
		want := ref.B58Enc(b, a)
		got := d.enc(in, a)
		if got != want || !bytes.Equal(in, b) {
			t.Fatalf("%s: %x with alphabet %s encodes to %s (input now %x), want %s", d.name, b, a, got, in, want)
		}
		back, err := d.dec(want, a)
		if err != nil || !bytes.Equal(back, b) {
			t.Fatalf("%s: %s with alphabet %s decodes to %x %v, want %x", d.name, want, a, back, err, b)
		}
		if got := d.own(b); got != ref.B58Enc(b, d.alpha) {
			t.Fatalf("%s: %x encodes to %s with the built-in alphabet, want %s", d.name, b, got, ref.B58Enc(b, d.alpha))
		}
		c.Eval(3)
		c.Class("%s round trip", d.name)
		c.NonTrivial(d.name, b, a)
		c.Sample("%s %x %s", d.name, b, want)
	})
}

// Alphabets of characters beyond one byte.
func TestC01_Unicode(t *testing.T) {
	kit.Check(t, 9000, func(t *rapid.T, c *kit.Case) {
		d := drawC(t)
		b := drawData(t, "data")
		at := rapid.IntRange(0, 57).Draw(t, "from")
		base := []rune(ref.B58BTC)
		for i := at; i < 58; i++ {
			base[i] = rune(0x4e00 + i*7)
		}
		var w strings.Builder
		for _, ch := range ref.B58Enc(b, ref.B58BTC) {
			w.WriteRune(base[strings.IndexRune(ref.B58BTC, ch)])
		}
		got := d.enc(b, string(base))
		back, err := d.dec(w.String(), string(base))
		if got != w.String() || err != nil || !bytes.Equal(back, b) {
			t.Fatalf("%s: %x in %s: %s (want %s), back %x %v", d.name, b, string(base), got, w.String(), back, err)
		}
		c.Eval(2)
		c.Class("%s unicode", d.name)
		c.NonTrivial(d.name, b, at)
	})
}

// Any text: refused exactly when a character is outside the alphabet, else its one value.
func TestC01_Text(t *testing.T) {
	kit.Check(t, 90000, func(t *rapid.T, c *kit.Case) {
		d := drawC(t)
		a := drawAlpha(t, d)
		s := kit.Str(t, a, 0, 60, "text")
		if rapid.Bool().Draw(t, "lead") {
			s = strings.Repeat(a[:1], rapid.IntRange(1, 12).Draw(t, "nlead")) + s
		}
		if rapid.Bool().Draw(t, "damage") && len(s) > 0 {
			r := []rune(s)
			p := kit.Pos(t, 0, len(r)-1, "pos")
			r[p] = rune(rapid.SampledFrom([]int{'0', 'O', 'I', 'l', ' ', 0, '\n', 0x7f, 0x80, 0xff, 0x100, 0x131, 0x141, 0x4e00, 0x10ffff}).Draw(t, "char"))
			if rapid.Bool().Draw(t, "beyond") { // same low byte as a character of the alphabet
				r[p] = rune(a[rapid.IntRange(0, 57).Draw(t, "alias")]) + rune(256*rapid.IntRange(1, 20).Draw(t, "page"))
			}
			s = string(r)
		}
		want, rerr := ref.B58Dec(s, a)
		var got []byte
		var err error
		if m := kit.NoPanic(func() { got, err = d.dec(s, a) }); m != "" {
			t.Fatalf("%s: decoding %q with %s: %s", d.name, s, a, m)
		}
		if (err == nil) != (rerr == nil) || (err == nil && !bytes.Equal(got, want)) {
			t.Fatalf("%s: %q with alphabet %s decodes to %x %v, want %x %v", d.name, s, a, got, err, want, rerr)
		}
		c.Eval(1)
		c.Class("%s text ok=%v", d.name, rerr == nil)
		c.NonTrivial(d.name, s, a)
	})
}

func TestC01_Check(t *testing.T) {
	kit.Check(t, 90000, func(t *rapid.T, c *kit.Case) {
		d := drawC(t)
		for d.encChk == nil {
			d = drawC(t)
		}
		n := 1
		if !d.one && kit.OneIn(t, 3, "longer") {
			n = rapid.IntRange(2, 4).Draw(t, "n")
		}
		p, h := kit.Bytes(t, n, "version"), kit.Bytes(t, 20, "hash")
		buf := append(append([]byte{}, p...), kit.Uniform(t, 60, "caller's")...)
		keep, hh := append([]byte{}, buf...), append([]byte{}, h...)
		want := ref.B58CheckEnc(ref.Cat(p, h), ref.B58BTC, d.sum)
		if got := d.encChk(buf[:n], h); got != want {
			t.Fatalf("%s: version %x hash %x encodes to %s, want %s", d.name, p, h, got, want)
		}
		if !bytes.Equal(buf, keep) || !bytes.Equal(h, hh) {
			t.Fatalf("%s: encoding version %x hash %x changed the caller's memory", d.name, p, h)
		}
		dec := d.decChk
		if d.name == "fiii" {
			dec = func(s string) ([]byte, []byte, error) {
				b, err := fiii.DecodeCheck(s, p)
				return p, b, err
			}
		}
		if gp, gh, err := dec(want); err != nil || !bytes.Equal(gp, p) || !bytes.Equal(gh, h) {
			t.Fatalf("%s: %s decodes to %x %x %v, want %x %x", d.name, want, gp, gh, err, p, h)
		}
		// damaged text, or a right checksum over another length
		s := want
		mode := rapid.IntRange(0, 3).Draw(t, "mode")
		switch mode {
		case 0:
			s = kit.MutStr(t, s, "mut")
		case 1:
			s = ref.B58CheckEnc(drawData(t, "other"), ref.B58BTC, d.sum)
		case 2:
			s = ref.B58Enc(drawData(t, "raw"), ref.B58BTC)
		case 3:
			s = ref.B58CheckEnc(ref.Cat(p, h), ref.B58BTC, rapid.SampledFrom([]string{"doubleSHA256", "doubleBlake256", "keccak256", "sha3_256", "ripemd160", "blake2b_and_keccak256_first_twenty"}).Draw(t, "sum"))
		}
		var got []byte
		var err error
		if m := kit.NoPanic(func() {
			var gp, gh []byte
			gp, gh, err = dec(s)
			got = ref.Cat(gp, gh)
		}); m != "" {
			t.Fatalf("%s: decoding %q: %s", d.name, s, m)
		}
		if x, rerr := ref.B58CheckDec(s, ref.B58BTC, d.sum); err == nil && (rerr != nil || !bytes.Equal(got, x)) {
			t.Fatalf("%s: %q accepted as %x; it holds %x %v", d.name, s, got, x, rerr)
		}
		c.Eval(3)
		c.Class("%s check mode %d accepted=%v", d.name, mode, err == nil)
		c.NonTrivial(d.name, p, h, s)
		c.Sample("%s %s", d.name, want)
	})
}

// The key package's checked form: any prefix, any data.
func TestC01_KeyCheck(t *testing.T) {
	kit.Check(t, 20000, func(t *rapid.T, c *kit.Case) {
		p, b := kit.BytesRange(t, 0, 6, "prefix"), drawData(t, "data")
		buf := append(append([]byte{}, p...), kit.Uniform(t, 500, "caller's")...)
		keep, in := append([]byte{}, buf...), append([]byte{}, b...)
		want := ref.B58CheckEnc(ref.Cat(p, b), ref.B58BTC, "doubleSHA256")
		if got := owkeychain.Base58checkEncode(in, buf[:len(p)]); got != want {
			t.Fatalf("prefix %x data %x encodes to %s, want %s", p, b, got, want)
		}
		if !bytes.Equal(buf, keep) || !bytes.Equal(in, b) {
			t.Fatalf("encoding prefix %x data %x changed the caller's memory", p, b)
		}
		if got, err := owkeychain.Base58checkDecode(want, p); err != nil || !bytes.Equal(got, b) {
			t.Fatalf("%s decodes to %x %v, want %x", want, got, err, b)
		}
		s, q := want, p
		switch rapid.IntRange(0, 3).Draw(t, "mode") {
		case 0:
			s = kit.MutStr(t, s, "mut")
		case 1:
			q = kit.BytesRange(t, 0, 8, "other")
		case 2:
			s = ref.B58CheckEnc(drawData(t, "short"), ref.B58BTC, "doubleSHA256")
		case 3:
			s = ref.B58Enc(drawData(t, "raw"), ref.B58BTC)
		}
		x, rerr := ref.B58CheckDec(s, ref.B58BTC, "doubleSHA256")
		ok := rerr == nil && bytes.HasPrefix(x, q)
		var got []byte
		var err error
		if m := kit.NoPanic(func() { got, err = owkeychain.Base58checkDecode(s, q) }); m != "" {
			t.Fatalf("decoding %q with prefix %x: %s", s, q, m)
		}
		if (err == nil) != ok || (ok && !bytes.Equal(got, x[len(q):])) {
			t.Fatalf("%q with prefix %x decodes to %x %v, want ok=%v %x", s, q, got, err, ok, x)
		}
		c.Eval(3)
		c.Class("key check accepted=%v", ok)
		c.NonTrivial(p, b, s, q)
	})
}

// ---------------------------------------------------------------- bech32

type seg struct {
	name string
	enc  func(hrp, alpha string, b []byte) string
	dec  func(s string) ([]byte, error)
	ver  bool // segwit version 0 in front, programs of 20 or 32 bytes
}

var segs = []seg{
	{"btc", btc.Bech32Encode, btc.Bech32Decode, true},
	{"hc", hc.Bech32Encode, hc.Bech32Decode, true},
	{"cxc", cxc.Bech32Encode, cxc.Bech32Decode, true},
	{"zencash", zencash.Bech32Encode, zencash.Bech32Decode, true},
	{"omni", omni.Bech32Encode, omni.Bech32Decode, true},
	{"btcLike", like.Bech32Encode, like.Bech32Decode, true},
	{"cosmos", cosmos.Bech32Encode, cosmos.Bech32Decode, false},
	{"evaio", evaio.Bech32Encode, evaio.Bech32Decode, false},
}

func hrp(t *rapid.T, l string) string {
	return kit.Str(t, "abcdefghijklmnopqrstuvwxyz", 1, 10, l)
}

func TestC02_Segwit(t *testing.T) {
	kit.Check(t, 120000, func(t *rapid.T, c *kit.Case) {
		d := &segs[kit.Pos(t, 0, len(segs)-1, "codec")]
		n := rapid.SampledFrom([]int{20, 32}).Draw(t, "len")
		if !d.ver && rapid.Bool().Draw(t, "any") {
			n = rapid.IntRange(1, 45).Draw(t, "n")
		}
		p, b := hrp(t, "hrp"), kit.Bytes(t, n, "data")
		in := append([]byte{}, b...)
		g := ref.Bits8to5(b)
		if d.ver {
			g = append([]byte{0}, g...)
		}
		want := ref.Bech32Groups(p, g, ref.ConstBech32)
		if got := d.enc(p, ref.B32, in); got != want || !bytes.Equal(in, b) {
			t.Fatalf("%s: %s %x encodes to %s, want %s", d.name, p, b, got, want)
		}
		if len(want) <= 90 {
			if got, err := d.dec(want); err != nil || !bytes.Equal(got, b) {
				t.Fatalf("%s: %s decodes to %x %v, want %x", d.name, want, got, err, b)
			}
		}
		s := want
		mode := rapid.IntRange(0, 5).Draw(t, "mode")
		switch mode {
		case 5:
			s = kit.MixCase(t, s, "case")
		case 0:
			s = kit.MutStr(t, s, "mut")
		case 1: // one character of the data part
			r := []byte(s)
			q := kit.Pos(t, len(p)+1, len(r)-1, "pos")
			r[q] = ref.B32[rapid.IntRange(0, 31).Draw(t, "ch")]
			s = string(r)
		case 2: // a right checksum over other groups
			gs := kit.BytesRange(t, 0, 70, "groups")
			for i := range gs {
				gs[i] &= 31
			}
			if d.ver && len(gs) > 0 && rapid.Bool().Draw(t, "v0") {
				gs[0] = 0
			}
			s = ref.Bech32Groups(p, gs, rapid.SampledFrom([]uint32{ref.ConstBech32, ref.ConstBech32m, 0, 2}).Draw(t, "const"))
		case 3: // another prefix, same data
			s = hrp(t, "hrp2") + s[len(p):]
		case 4: // padding bits
			gs := append([]byte{}, g...)
			gs[len(gs)-1] |= byte(rapid.IntRange(1, 31).Draw(t, "pad"))
			if rapid.Bool().Draw(t, "more") {
				gs = append(append([]byte{}, g...), make([]byte, rapid.IntRange(1, 3).Draw(t, "extra"))...)
			}
			s = ref.Bech32Groups(p, gs, ref.ConstBech32)
		}
		var got []byte
		var err error
		if m := kit.NoPanic(func() { got, err = d.dec(s) }); m != "" {
			t.Fatalf("%s: decoding %q: %s", d.name, s, m)
		}
		if err == nil {
			ok := false
			if _, gs, k, rerr := ref.Bech32Dec(s); rerr == nil && k == ref.ConstBech32 {
				if d.ver && len(gs) > 0 && gs[0] == 0 {
					gs = gs[1:]
				} else if d.ver {
					gs = nil
				}
				ok = bytes.Equal(gs, ref.Bits8to5(got)) && (!d.ver || len(got) == 20 || len(got) == 32)
			} else if len(s) > 90 {
				return
			}
			if !ok {
				t.Fatalf("%s: %q accepted as %x", d.name, s, got)
			}
		}
		c.Eval(3)
		c.Class("%s mode %d accepted=%v", d.name, mode, err == nil)
		c.NonTrivial(d.name, p, b, s)
		c.Sample("%s %s", d.name, want)
	})
}

// The two generic codecs over five-bit groups, and regrouping of bits.
func TestC02_Groups(t *testing.T) {
	kit.Check(t, 120000, func(t *rapid.T, c *kit.Case) {
		p := kit.Str(t, "abcdefghijklmnopqrstuvwxyz0123456789-_.!?~", 1, 20, "hrp")
		b := kit.BytesRange(t, 0, 36, "data")
		g := ref.Bits8to5(b)
		if rapid.Bool().Draw(t, "free") {
			g = kit.BytesRange(t, 0, 60, "groups")
			for i := range g {
				g[i] &= 31
			}
		}
		buf := append(append([]byte{}, g...), kit.Uniform(t, 8, "caller's")...)
		keep := append([]byte{}, buf...)
		which := rapid.IntRange(0, 2).Draw(t, "codec")
		k := uint32(ref.ConstBech32)
		enc := func() (string, error) { return bytom.Bech32Encode(p, buf[:len(g)]) }
		if which == 1 {
			enc = func() (string, error) { return bech32m.Encode(p, buf[:len(g)], bech32m.Bech32, ref.B32), nil }
		} else if which == 2 {
			k = ref.ConstBech32m
			enc = func() (string, error) { return bech32m.Encode(p, buf[:len(g)], bech32m.Bech32m, ref.B32), nil }
		}
		dec := func(s string) (string, []byte, uint32, error) {
			if which == 0 {
				h, d, err := bytom.Bech32Decode(s)
				return h, d, ref.ConstBech32, err
			}
			h, d, sp, err := bech32m.Decode(s, ref.B32)
			kk := uint32(0)
			if sp == bech32m.Bech32 {
				kk = ref.ConstBech32
			} else if sp == bech32m.Bech32m {
				kk = ref.ConstBech32m
			}
			return h, d, kk, err
		}
		want := ref.Bech32Groups(p, g, k)
		got, err := enc()
		if err != nil || got != want {
			t.Fatalf("codec %d: %s %x encodes to %s %v, want %s", which, p, g, got, err, want)
		}
		if !bytes.Equal(buf, keep) {
			t.Fatalf("codec %d: encoding %s %x changed the caller's memory", which, p, g)
		}
		s := want
		mode := rapid.IntRange(0, 3).Draw(t, "mode")
		switch mode {
		case 1:
			s = kit.MutStr(t, s, "mut")
		case 2:
			s = kit.MixCase(t, s, "case")
		case 3:
			s = ref.Bech32Groups(p, g, rapid.SampledFrom([]uint32{ref.ConstBech32, ref.ConstBech32m, 0, 2}).Draw(t, "const"))
		}
		rh, rg, rk, rerr := ref.Bech32Dec(s)
		if rerr == nil && which == 0 && rk != ref.ConstBech32 {
			rerr = ref.ErrRef
		}
		var h string
		var d []byte
		var kk uint32
		if m := kit.NoPanic(func() { h, d, kk, err = dec(s) }); m != "" {
			t.Fatalf("codec %d: decoding %q: %s", which, s, m)
		}
		if (err == nil) != (rerr == nil) || (err == nil && (h != rh || !bytes.Equal(d, rg) || kk != rk)) {
			t.Fatalf("codec %d: %q decodes to %s %x %x %v, want %s %x %x %v", which, s, h, d, kk, err, rh, rg, rk, rerr)
		}
		c.Eval(2)
		c.Class("codec %d mode %d ok=%v", which, mode, rerr == nil)
		c.NonTrivial(which, p, g, s)
	})
}

func TestC02_Bech32m(t *testing.T) {
	kit.Check(t, 45000, func(t *rapid.T, c *kit.Case) {
		p, b := hrp(t, "hrp"), kit.BytesRange(t, 0, 45, "data")
		want := ref.Bech32Groups(p, ref.Bits8to5(b), ref.ConstBech32m)
		got, err := bech32m.Bech32mEncode(p, b, ref.B32)
		if err != nil || got != want {
			t.Fatalf("%s %x encodes to %s %v, want %s", p, b, got, err, want)
		}
		s, q := want, p
		switch rapid.IntRange(0, 5).Draw(t, "mode") {
		case 5:
			s = kit.MixCase(t, s, "case")
		case 1:
			s = kit.MutStr(t, s, "mut")
		case 2:
			q = hrp(t, "other")
		case 3:
			s = ref.Bech32Groups(p, ref.Bits8to5(b), ref.ConstBech32)
		case 4:
			gs := kit.BytesRange(t, 0, 40, "groups")
			for i := range gs {
				gs[i] &= 31
			}
			s = ref.Bech32Groups(p, gs, ref.ConstBech32m)
		}
		rh, rg, rk, rerr := ref.Bech32Dec(s)
		ok := rerr == nil && rh == q && rk == ref.ConstBech32m
		var d []byte
		if m := kit.NoPanic(func() { d, err = bech32m.Bech32mDecode(s, q, ref.B32) }); m != "" {
			t.Fatalf("decoding %q: %s", s, m)
		}
		if err == nil {
			if !ok || !bytes.Equal(ref.Bits8to5(d), rg) {
				t.Fatalf("%q with prefix %s accepted as %x", s, q, d)
			}
		} else if ok && bytes.Equal(ref.Bits8to5(b), rg) && len(s) <= 90 {
			t.Fatalf("%q with prefix %s refused: %v", s, q, err)
		}
		c.Eval(2)
		c.Class("bech32m accepted=%v", err == nil)
		c.NonTrivial(p, b, s, q)
	})
}

// regroup is the definition: the bits in order, padded with zeros, or nothing but zeros left over.
func regroup(d []byte, from, to uint, pad bool) ([]byte, bool) {
	var bits []byte
	for _, x := range d {
		for i := int(from) - 1; i >= 0; i-- {
			bits = append(bits, x>>uint(i)&1)
		}
	}
	var out []byte
	for len(bits) >= int(to) {
		v := byte(0)
		for _, b := range bits[:to] {
			v = v<<1 | b
		}
		out, bits = append(out, v), bits[to:]
	}
	if pad && len(bits) > 0 {
		v := byte(0)
		for _, b := range bits {
			v = v<<1 | b
		}
		out = append(out, v<<(to-uint(len(bits))))
		bits = nil
	}
	ok := len(bits) < 5
	for _, b := range bits {
		ok = ok && b == 0
	}
	return out, ok
}

func TestC02_Regroup(t *testing.T) {
	kit.Check(t, 45000, func(t *rapid.T, c *kit.Case) {
		from, to := uint(8), uint(5)
		if rapid.Bool().Draw(t, "back") {
			from, to = 5, 8
		}
		pad := rapid.Bool().Draw(t, "pad")
		d := kit.BytesRange(t, 0, 60, "data")
		for i := range d {
			d[i] &= 1<<from - 1
		}
		in := append([]byte{}, d...)
		want, ok := regroup(d, from, to, pad)
		a, aerr := bytom.ConvertBits(in, uint8(from), uint8(to), pad)
		if (aerr == nil) != ok || (ok && !bytes.Equal(a, want)) || !bytes.Equal(in, d) {
			t.Fatalf("bytom: %x from %d to %d pad %v: %x %v, want %x %v", d, from, to, pad, a, aerr, want, ok)
		}
		b, berr := bech32m.Convertbits(in, from, to, pad)
		if pad || from == 5 {
			if (berr == nil) != ok || (ok && !bytes.Equal(b, want)) || !bytes.Equal(in, d) {
				t.Fatalf("bech32m: %x from %d to %d pad %v: %x %v, want %x %v", d, from, to, pad, b, berr, want, ok)
			}
		}
		c.Eval(2)
		c.Class("%d to %d pad %v ok=%v", from, to, pad, ok)
		c.NonTrivial(from, pad, d)
	})
}

// SCALE compact integers.
func TestC02_Compact(t *testing.T) {
	kit.Check(t, 60000, func(t *rapid.T, c *kit.Case) {
		v := kit.U64(t, "v")
		var want []byte
		n := 0
		switch {
		case v < 1<<6:
			want, n = []byte{byte(v << 2)}, 1
		case v < 1<<14:
			want, n = ref.LE64(v<<2 | 1)[:2], 2
		case v < 1<<30:
			want, n = ref.LE64(v<<2 | 2)[:4], 4
		default:
			w := ref.LE64(v)
			for len(w) > 4 && w[len(w)-1] == 0 {
				w = w[:len(w)-1]
			}
			want, n = append([]byte{byte(len(w)-4)<<2 | 3}, w...), 5
		}
		if got := polkadot.Encode(v); got != kit.Hex(want) {
			t.Fatalf("%d encodes to %s, want %x", v, got, want)
		}
		if v < 1<<32 {
			if got := polkadot.CompactLength(uint32(v)); got != n {
				t.Fatalf("%d: length %d, want %d", v, got, n)
			}
		}
		c.Eval(1)
		c.Class("compact %d", len(want))
		c.NonTrivial(fmt.Sprint(v))
	})
}
