// Package gen holds generators shared by the driver harnesses.
package gen

import (
	"crypto/elliptic"
	"fmt"
	"math/big"

	"pgregory.net/rapid"
	"verif/harness/kit"
	"verif/harness/ref"
)

const B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func Addr58(v, h []byte) string { return ref.B58CheckEnc(ref.Cat(v, h), B58, "doubleSHA256") }

// KeyK1 / KeyR1 draw private keys.
func KeyK1(t *rapid.T, l string) []byte { return kit.Scalar(t, ref.NK1, l) }
func KeyR1(t *rapid.T, l string) []byte { return kit.Scalar(t, ref.NR1, l) }

// CheckSig fails unless sig is a 64-byte signature (low-S on secp256k1) of dig under key's public key.
func CheckSig(t *rapid.T, c elliptic.Curve, key, dig, sig []byte, who string) {
	if len(sig) != 64 || (c == elliptic.Curve(ref.K1) && !ref.IsLowS(c, sig)) || !ref.VerifyECDSA(c, ref.Pub64(c, key), dig, sig) {
		t.Fatalf("%s: signing %x with %x gives %x, not a valid signature in the form the networks take", who, dig, key, sig)
	}
}

// ECDSA draws a signature over dig: the driver's own (checked), an external signer's with any nonce
// (also one whose r is 90 bits short, or whose s is two bytes short), or, unless real, arbitrary values. ok tells whether it is valid.
func ECDSA(t *rapid.T, c elliptic.Curve, key, dig []byte, own func() ([]byte, error), real bool, who, l string) (sig []byte, ok bool) {
	top := 4
	if real {
		top = 3
	}
	switch rapid.IntRange(0, top).Draw(t, l+".how") {
	case 0, 1:
		kit.SeedRand(rapid.Uint64().Draw(t, l+".ent"))
		s, err := own()
		if err != nil {
			t.Fatalf("%s: signing %x with %x failed: %v", who, dig, key, err)
		}
		CheckSig(t, c, key, dig, s, who)
		return append([]byte{}, s...), true
	case 2, 3:
		if kit.Rare(t, 30, l+".shorts") {
			return ref.ShortS(c, key, dig), true
		}
		k := kit.Scalar(t, c.Params().N, l+".nonce")
		if c == elliptic.Curve(ref.K1) && rapid.Bool().Draw(t, l+".short") {
			k = ref.HalfNonce
		}
		s := ref.SignWith(c, key, k, dig)
		if s == nil {
			t.Skip("no signature for this nonce")
		}
		return ref.LowS(c, s), true
	}
	s := ref.Cat(kit.Bytes(t, 32, l+".r"), kit.Bytes(t, 32, l+".s"))
	return s, ref.VerifyECDSA(c, ref.Pub64(c, key), dig, s)
}

// HighS gives the other valid signature of the pair: s is replaced by n-s. Networks' policies differ about
// the one above n/2, so drivers may refuse it; if they take it they have to write it properly.
func HighS(c elliptic.Curve, sig []byte) []byte {
	s := new(big.Int).SetBytes(sig[32:])
	return ref.Cat(sig[:32], s.Sub(c.Params().N, s).FillBytes(make([]byte, 32)))
}

// OtherScalar draws a private key different from key.
func OtherScalar(t *rapid.T, n *big.Int, key []byte, l string) []byte {
	for {
		k := kit.Scalar(t, n, l)
		if string(k) != string(key) {
			return k
		}
		l += "'"
	}
}

// Flip changes one bit of b (len(b) > 0) at or after byte lo.
func Flip(t *rapid.T, b []byte, lo int, l string) []byte {
	o := append([]byte{}, b...)
	o[kit.Pos(t, lo, len(o)-1, l+".pos")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, l+".bit"))
	return o
}

// Count draws a list length, sometimes around the single-byte limits.
func Count(t *rapid.T, l string) int {
	if kit.OneIn(t, 25, l+".big") {
		if kit.OneIn(t, 3, l+".mid") {
			return kit.Pos(t, 6, 130, l+".n")
		}
		return rapid.SampledFrom([]int{127, 128, 252, 253, 254, 255, 256, 257, 300}).Draw(t, l+".n")
	}
	return rapid.IntRange(1, 5).Draw(t, l+".n")
}

// Few draws the number of inputs or outputs of a transaction that is to be signed: mostly up to max,
// now and then some more.
func Few(t *rapid.T, max int, l string) int {
	switch {
	case kit.Rare(t, 12, l+".more"):
		return kit.Pos(t, max+1, 10, l)
	case kit.Rare(t, 150, l+".many"):
		return kit.Pos(t, 11, 40, l)
	}
	return rapid.IntRange(1, max).Draw(t, l)
}

func IsHex(s string) bool {
	if len(s)%2 != 0 {
		return false
	}
	for _, c := range s {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}

// KeyEd draws an ed25519 private scalar in the usual (clamped) form.
func KeyEd(t *rapid.T, l string) []byte {
	k := kit.Bytes(t, 32, l)
	if kit.Rare(t, 15, l+".short") { // public keys that begin or end with a zero byte
		n := rapid.SampledFrom([]int{360, 568, 3808, 4176, 880, 1920, 2192, 3256}).Draw(t, l+".point")
		copy(k, make([]byte, 32))
		k[0], k[1] = byte(n), byte(n>>8)
	}
	k[0] &= 248
	k[31] = k[31]&63 | 64
	return k
}

// Ed draws an ed25519 signature of msg under the scalar key: the driver's own (checked), an external
// signer's, or, unless real, arbitrary values. ok tells whether it is valid.
func Ed(t *rapid.T, key, msg []byte, own func() ([]byte, error), real bool, who, l string) (sig []byte, ok bool) {
	top := 2
	if real {
		top = 1
	}
	switch rapid.IntRange(0, top).Draw(t, l+".how") {
	case 0:
		kit.SeedRand(rapid.Uint64().Draw(t, l+".ent"))
		s, err := own()
		if err != nil {
			t.Fatalf("%s: signing %x with %x failed: %v", who, msg, key, err)
		}
		if !ref.VerifyEd(ref.PubEd(key), msg, s) {
			t.Fatalf("%s: signing %x with %x gives %x, which does not verify", who, msg, key, s)
		}
		return append([]byte{}, s...), true
	case 1:
		return ref.SignEd(key, kit.Bytes(t, 32, l+".nonce"), msg), true
	}
	s := kit.Bytes(t, 64, l+".arb")
	s[63] |= 0x20 // never canonical
	return s, false
}

// Long is a list length at one of the boundaries of two byte counts.
func Long(t *rapid.T, l string) int {
	return rapid.SampledFrom([]int{65535, 65536, 65537}).Draw(t, l)
}

// Diff says where two long texts part.
func Diff(got, want string) string {
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	w := func(s string) string {
		e := n + 60
		if e > len(s) {
			e = len(s)
		}
		return s[n:e]
	}
	return fmt.Sprintf("%d and %d characters, apart from %d: got %s, want %s", len(got), len(want), n, w(got), w(want))
}

// None is an empty list, nil or not.
func None[T any](t *rapid.T, s []T) []T {
	if rapid.Bool().Draw(t, "nil") {
		return nil
	}
	return s[:0:0]
}

// Junk puts characters that are not whole hexadecimal bytes before or, mostly, behind hexadecimal text.
func Junk(t *rapid.T, s string) string {
	j := rapid.SampledFrom([]string{"z", "zz", "0", "g0", "0g", " ", "\n", "\x00", "00z", "000", "0x", "-", "é"}).Draw(t, "junk")
	if kit.OneIn(t, 4, "before") {
		return j + s
	}
	return s + j
}
