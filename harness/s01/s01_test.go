package s01

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"testing"

	alien "github.com/blocktree/go-owcdrivers/aliencoinTransaction"
	bigbang "github.com/blocktree/go-owcdrivers/bigbangTransaction"
	binance "github.com/blocktree/go-owcdrivers/binancechainTransaction"
	bch "github.com/blocktree/go-owcdrivers/bitcoincashTransaction"
	bsv "github.com/blocktree/go-owcdrivers/bitcoinsvTransaction"
	like "github.com/blocktree/go-owcdrivers/btcLikeTxDriver"
	btc "github.com/blocktree/go-owcdrivers/btcTransaction"
	bytom "github.com/blocktree/go-owcdrivers/bytomTransaction"
	cosmos "github.com/blocktree/go-owcdrivers/cosmosTransaction"
	cxc "github.com/blocktree/go-owcdrivers/cxcTransaction"
	elastos "github.com/blocktree/go-owcdrivers/elastosTransaction"
	evaio "github.com/blocktree/go-owcdrivers/evaioTransaction"
	fiii "github.com/blocktree/go-owcdrivers/fiiiTransaction"
	filenet "github.com/blocktree/go-owcdrivers/filenetTransaction"
	hc "github.com/blocktree/go-owcdrivers/hcTransaction"
	hypercash "github.com/blocktree/go-owcdrivers/hypercashTransaction"
	mvs "github.com/blocktree/go-owcdrivers/mateverseTransaction"
	moac "github.com/blocktree/go-owcdrivers/moacchainTransaction"
	omni "github.com/blocktree/go-owcdrivers/omniTransaction"
	ontology "github.com/blocktree/go-owcdrivers/ontologyTransaction"
	polkadot "github.com/blocktree/go-owcdrivers/polkadotTransaction"
	ripple "github.com/blocktree/go-owcdrivers/rippleTransaction"
	verge "github.com/blocktree/go-owcdrivers/vergeTransaction"
	vsys "github.com/blocktree/go-owcdrivers/virtualeconomyTransaction"
	vollar "github.com/blocktree/go-owcdrivers/vollarTransaction"
	wayki "github.com/blocktree/go-owcdrivers/waykichainTransaction"
	zen "github.com/blocktree/go-owcdrivers/zencashTransaction"
	owcrypt "github.com/blocktree/go-owcrypt"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

type signer struct {
	name  string
	curve string // k1, r1, ed, x
	msg   bool   // signs messages of any length, not digests
	rec   bool   // appends the recovery id
	sign  func(hash string, key []byte) (sig, pub []byte, err error)
}

func raw(f func(string, []byte) ([]byte, error)) func(string, []byte) ([]byte, []byte, error) {
	return func(h string, k []byte) ([]byte, []byte, error) {
		s, err := f(h, k)
		return s, nil, err
	}
}

func text(f func(string, []byte) (string, error)) func(string, []byte) ([]byte, []byte, error) {
	return func(h string, k []byte) ([]byte, []byte, error) {
		s, err := f(h, k)
		if err != nil {
			return nil, nil, err
		}
		b, err := hex.DecodeString(s)
		if err != nil || hex.EncodeToString(b) != s {
			return []byte(s), nil, nil // not lower-case hex: fails the length check
		}
		return b, nil, nil
	}
}

var signers = []signer{
	{"aliencoin", "k1", false, false, raw(alien.SignTransaction)},
	{"bigbang", "ed", false, false, text(bigbang.SignTransactionHash)},
	{"binancechain", "k1", false, false, raw(binance.SignRawTransaction)},
	{"bitcoincash", "k1", false, false, func(h string, k []byte) ([]byte, []byte, error) {
		s, err := bch.SignRawTransactionHash(h, k)
		if err != nil {
			return nil, nil, err
		}
		return s.Signature, s.Pubkey, nil
	}},
	{"bitcoinsv", "k1", false, false, func(h string, k []byte) ([]byte, []byte, error) {
		s, err := bsv.SignRawTransactionHash(h, k)
		if err != nil {
			return nil, nil, err
		}
		return s.Signature, s.Pubkey, nil
	}},
	{"btcLike", "k1", false, false, func(h string, k []byte) ([]byte, []byte, error) {
		s, err := like.SignRawTransactionHash([]string{h}, []like.TxUnlock{{PrivateKey: k}})
		if err != nil {
			return nil, nil, err
		}
		return s[0].Signature, s[0].Pubkey, nil
	}},
	{"btc", "k1", false, false, func(h string, k []byte) ([]byte, []byte, error) {
		s, err := btc.SignRawTransactionHash(h, k)
		if err != nil {
			return nil, nil, err
		}
		return s.Signature, s.Pubkey, nil
	}},
	{"bytom", "ed", false, false, func(h string, k []byte) ([]byte, []byte, error) {
		s, err := bytom.SignRawTransactionHash(h, k)
		if err != nil {
			return nil, nil, err
		}
		return s.Signature, s.Pubkey, nil
	}},
	{"cosmos", "k1", false, false, text(cosmos.SignTransactionHash)},
	{"cxc", "k1", false, false, func(h string, k []byte) ([]byte, []byte, error) {
		s, err := cxc.SignRawTransactionHash(h, k)
		if err != nil {
			return nil, nil, err
		}
		return s.Signature, s.Pubkey, nil
	}},
	{"elastos", "r1", false, false, raw(elastos.SignRawTransaction)},
	{"evaio", "k1", false, false, text(evaio.SignTransactionHash)},
	{"fiii", "ed", true, false, raw(fiii.SignTransactionMessage)},
	{"filenet", "k1", false, false, text(filenet.SignTransaction)},
	{"hc", "k1", false, false, func(h string, k []byte) ([]byte, []byte, error) {
		s, err := hc.SignRawTransactionHash(h, k)
		if err != nil {
			return nil, nil, err
		}
		return s.Signature, s.Pubkey, nil
	}},
	{"hypercash", "k1", false, false, raw(hypercash.SignTransaction)},
	{"metaverse", "k1", false, false, text(mvs.SignTransaction)},
	{"moac", "k1", false, true, raw(moac.SignRawTransaction)},
	{"omni", "k1", false, false, func(h string, k []byte) ([]byte, []byte, error) {
		s, err := omni.SignRawTransactionHash(h, k)
		if err != nil {
			return nil, nil, err
		}
		return s.Signature, s.Pubkey, nil
	}},
	{"ontology", "r1", false, false, func(h string, k []byte) ([]byte, []byte, error) {
		s, err := ontology.SignRawTransactionHash(h, k)
		if err != nil {
			return nil, nil, err
		}
		return s.Signature, s.PublicKey, nil
	}},
	{"polkadot", "ed", true, false, raw(polkadot.SignTransaction)},
	{"ripple", "k1", false, false, text(ripple.SignRawTransaction)},
	{"verge", "k1", false, false, raw(verge.SignTransaction)},
	{"vsys", "x", true, false, func(h string, k []byte) ([]byte, []byte, error) {
		s, err := vsys.SignTransaction(h, k)
		if err != nil {
			return nil, nil, err
		}
		return s.Signature, s.PublicKey, nil
	}},
	{"vollar", "k1", false, false, raw(vollar.SignRawTransaction)},
	{"waykichain", "k1", false, false, raw(wayki.SignRawTransaction)},
	{"zencash", "k1", false, false, func(h string, k []byte) ([]byte, []byte, error) {
		s, err := zen.SignRawTransactionHash(h, k)
		if err != nil {
			return nil, nil, err
		}
		return s.Signature, s.Pubkey, nil
	}},
}

func (s *signer) key(t *rapid.T) []byte {
	switch s.curve {
	case "k1":
		return gen.KeyK1(t, "key")
	case "r1":
		return gen.KeyR1(t, "key")
	}
	return gen.KeyEd(t, "key")
}

// valid tells whether sig is a signature of msg under key in the form the networks take.
func (s *signer) valid(key, msg, sig, pub []byte) string {
	if s.rec {
		if len(sig) != 65 || !bytes.Equal(ref.RecoverK1(sig[:64], sig[64], msg), ref.Pub64(ref.K1, key)) {
			return "recovery id does not lead to the key"
		}
		sig = sig[:64]
	}
	if len(sig) != 64 {
		return "not 64 bytes"
	}
	var want []byte
	switch s.curve {
	case "k1":
		want = ref.PubK1(key)
		if !ref.IsLowS(ref.K1, sig) {
			return "high s"
		}
		if !ref.VerifyECDSA(ref.K1, ref.Pub64(ref.K1, key), msg, sig) {
			return "does not verify"
		}
	case "r1":
		want = ref.PubR1(key)
		if !ref.VerifyECDSA(ref.R1, ref.Pub64(ref.R1, key), msg, sig) {
			return "does not verify"
		}
	case "ed":
		want = ref.PubEd(key)
		if !ref.VerifyEd(want, msg, sig) {
			return "does not verify"
		}
	case "x":
		want, _ = owcrypt.CURVE25519_convert_Ed_to_X(ref.PubEd(key))
		if owcrypt.Verify(want, nil, msg, sig, owcrypt.ECC_CURVE_X25519) != owcrypt.SUCCESS {
			return "does not verify"
		}
	}
	if pub != nil && !bytes.Equal(pub, want) {
		return "another public key"
	}
	return ""
}

func TestS01_Sign(t *testing.T) {
	kit.Check(t, 1350, func(t *rapid.T, c *kit.Case) {
		s := &signers[kit.Pos(t, 0, len(signers)-1, "driver")]
		key := s.key(t)
		n := 32
		if s.msg {
			n = rapid.SampledFrom([]int{1, 2, 31, 32, 33, 36, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}).Draw(t, "len")
		}
		msg := kit.Bytes(t, n, "msg")
		if !s.msg && kit.OneIn(t, 5, "big") { // above the order of the curves
			copy(msg, bytes.Repeat([]byte{0xff}, 24))
		}
		kk := append([]byte{}, key...)
		kit.SeedRand(rapid.Uint64().Draw(t, "entropy"))
		h := kit.Hex(msg)
		sig, pub, err := s.sign(h, kk)
		if err != nil {
			t.Fatalf("%s: signing %s with %x refused: %v", s.name, h, key, err)
		}
		if m := s.valid(key, msg, sig, pub); m != "" {
			t.Fatalf("%s: signing %s with %x gives %x (key %x): %s", s.name, h, key, sig, pub, m)
		}
		if !bytes.Equal(kk, key) {
			t.Fatalf("%s: signing changed the private key %x to %x", s.name, key, kk)
		}
		// another message under the same key: valid for that one only, and never with the same nonce
		msg2 := gen.Flip(t, msg, 0, "flip")
		if rapid.Bool().Draw(t, "fresh") {
			kit.SeedRand(rapid.Uint64().Draw(t, "entropy2"))
		}
		sig2, _, err := s.sign(kit.Hex(msg2), kk)
		if err != nil {
			t.Fatalf("%s: signing %x with %x refused: %v", s.name, msg2, key, err)
		}
		if m := s.valid(key, msg2, sig2, nil); m != "" {
			t.Fatalf("%s: second signature over %x with %x gives %x: %s", s.name, msg2, key, sig2, m)
		}
		if bytes.Equal(sig[:32], sig2[:32]) {
			t.Fatalf("%s: two messages under key %x signed with the same nonce", s.name, key)
		}
		if s.valid(key, msg, sig2, nil) == "" {
			t.Fatalf("harness: signature of another message accepted")
		}
		c.Eval(2)
		c.Class("%s", s.name)
		c.NonTrivial(s.name, h, kit.Hex(key))
		c.Sample("%s %s %x", s.name, h, sig)
	})
}

func TestS01_Refuse(t *testing.T) {
	kit.Check(t, 4000, func(t *rapid.T, c *kit.Case) {
		s := &signers[kit.Pos(t, 0, len(signers)-1, "driver")]
		key, h := s.key(t), kit.Hex(kit.Bytes(t, 32, "msg"))
		mode := rapid.IntRange(0, 4).Draw(t, "mode")
		switch mode {
		case 0: // not a digest
			n := rapid.IntRange(0, 80).Draw(t, "len")
			h = kit.Hex(kit.Bytes(t, n, "msg2"))
			if n == 32 || s.msg && n > 0 {
				return
			}
		case 1: // not hexadecimal
			h = kit.MutStr(t, h, "mut")
			if b, err := hex.DecodeString(h); err == nil && (len(b) == 32 || s.msg && len(b) > 0 || s.name == "vsys") {
				return
			}
		case 2: // not a key
			n := rapid.IntRange(0, 70).Draw(t, "keylen")
			if n == 32 {
				return
			}
			key = kit.Bytes(t, n, "key2")
			if rapid.Bool().Draw(t, "nil") {
				key = nil
			}
		case 3: // outside the group
			if s.curve == "ed" || s.curve == "x" {
				return
			}
			n := ref.NK1
			if s.curve == "r1" {
				n = ref.NR1
			}
			v := new(big.Int).Add(n, big.NewInt(int64(rapid.IntRange(0, 5).Draw(t, "over"))))
			key = v.Bytes()
			switch rapid.IntRange(0, 2).Draw(t, "kind") {
			case 0:
				key = make([]byte, 32)
			case 1:
				key = bytes.Repeat([]byte{0xff}, 32)
			}
		case 4:
			h = ""
			if s.name == "vsys" {
				return // what it is given is parsed elsewhere
			}
		}
		if s.name == "vsys" && mode == 0 {
			return
		}
		var sig []byte
		var err error
		given := append([]byte{}, key...)
		if m := kit.NoPanic(func() { sig, _, err = s.sign(h, key) }); m != "" {
			t.Fatalf("%s: signing %q with %x: %s", s.name, h, key, m)
		}
		if err == nil {
			t.Fatalf("%s: signing %q with %x is not possible, yet gives %x", s.name, h, key, sig)
		}
		if !bytes.Equal(given, key) {
			t.Fatalf("%s: the refused call changed the private key %x to %x", s.name, given, key)
		}
		c.Eval(1)
		c.Class("%s mode %d", s.name, mode)
		c.NonTrivial(s.name, h, fmt.Sprint(key))
		c.Sample("%s mode %d %q %x", s.name, mode, h, key)
	})
}

// Private keys of the Edwards curve which no generator of keys leaves behind: any 32 bytes. What the
// curve library makes of one is its affair; the caller's key stays as it is.
func TestS01_AnyScalar(t *testing.T) {
	var eds []*signer
	for i := range signers {
		if c := signers[i].curve; c == "ed" || c == "x" {
			eds = append(eds, &signers[i])
		}
	}
	kit.Check(t, 300, func(t *rapid.T, c *kit.Case) {
		s := eds[kit.Pos(t, 0, len(eds)-1, "driver")]
		key := kit.Bytes(t, 32, "key")
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0:
			key[31] |= 0x80
		case 1:
			key[31] |= 0xc0
		case 2:
			key[0] |= 7
		}
		given := append([]byte{}, key...)
		msg := kit.Bytes(t, 32, "msg")
		kit.SeedRand(rapid.Uint64().Draw(t, "entropy"))
		var err error
		if m := kit.NoPanic(func() { _, _, err = s.sign(kit.Hex(msg), key) }); m != "" {
			t.Fatalf("%s: signing %x with %x: %s", s.name, msg, key, m)
		}
		if !bytes.Equal(given, key) {
			t.Fatalf("%s: signing changed the private key %x to %x", s.name, given, key)
		}
		c.Class("%s signed %v", s.name, err == nil)
		c.Eval(1)
		c.NonTrivial(s.name, kit.Hex(msg), kit.Hex(key))
		c.Sample("%s %x %x", s.name, msg, key)
	})
}
