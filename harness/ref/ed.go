package ref

import (
	"crypto/ed25519"
	"math/big"
)

func leInt(b []byte) *big.Int { return new(big.Int).SetBytes(Rev(b)) }

func le32(n *big.Int) []byte {
	b := n.Bytes()
	return Rev(Cat(make([]byte, 32-len(b)), b))
}

// PubEd is the ed25519 public key of a private scalar (little endian).
func PubEd(key []byte) []byte { return EdMulG(leInt(key)) }

// VerifyEd is the standard ed25519 verification.
func VerifyEd(pub, msg, sig []byte) bool {
	return len(pub) == 32 && len(sig) == 64 && ed25519.Verify(pub, msg, sig)
}

// SignEd signs with the private scalar and an arbitrary nonce.
func SignEd(key, nonce, msg []byte) []byte {
	r := new(big.Int).Mod(leInt(nonce), EdL)
	R := EdMulG(r)
	h := new(big.Int).Mod(leInt(Sha512(R, PubEd(key), msg)), EdL)
	s := h.Mul(h, leInt(key))
	s.Add(s, r).Mod(s, EdL)
	return Cat(R, le32(s))
}
