// Package ref holds reference implementations written from the public specifications
// (Base58Check, BIP-173/350, CashAddr, Bitcoin serialisation, BIP-143, strict DER, SCALE, RLP ...).
// Nothing in it imports the code under test.
package ref

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"math/big"
	"strings"

	owcrypt "github.com/blocktree/go-owcrypt"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"
)

var ErrRef = errors.New("ref: invalid")

const (
	B58BTC = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	B58XRP = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
	B32    = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
)

// ---- hashes

func Sha256(b ...[]byte) []byte  { h := sha256.Sum256(Cat(b...)); return h[:] }
func DSha256(b ...[]byte) []byte { return Sha256(Sha256(Cat(b...))) }
func Sha512(b ...[]byte) []byte  { h := sha512.Sum512(Cat(b...)); return h[:] }
func Ripemd(b []byte) []byte     { h := ripemd160.New(); h.Write(b); return h.Sum(nil) }
func H160(b []byte) []byte       { return Ripemd(Sha256(b)) }
func Keccak(b []byte) []byte     { h := sha3.NewLegacyKeccak256(); h.Write(b); return h.Sum(nil) }
func Sha3(b []byte) []byte       { h := sha3.Sum256(b); return h[:] }
func Blake2b(b []byte, n int) []byte {
	h, _ := blake2b.New(n, nil)
	h.Write(b)
	return h.Sum(nil)
}
func Blake256(b []byte) []byte { return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_BLAKE256) }

func Cat(b ...[]byte) []byte {
	var r []byte
	for _, x := range b {
		r = append(r, x...)
	}
	return r
}
func Rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}
func LE16(v uint16) []byte { b := make([]byte, 2); binary.LittleEndian.PutUint16(b, v); return b }
func LE32(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }
func LE64(v uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, v); return b }
func BE16(v uint16) []byte { b := make([]byte, 2); binary.BigEndian.PutUint16(b, v); return b }
func BE32(v uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, v); return b }
func BE64(v uint64) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, v); return b }

// ---- base58

func B58Enc(b []byte, alpha string) string {
	n := new(big.Int).SetBytes(b)
	m, r := big.NewInt(58), new(big.Int)
	var out []byte
	for n.Sign() > 0 {
		n.DivMod(n, m, r)
		out = append(out, alpha[r.Int64()])
	}
	for _, x := range b {
		if x != 0 {
			break
		}
		out = append(out, alpha[0])
	}
	return string(Rev(out))
}

func B58Dec(s string, alpha string) ([]byte, error) {
	n := new(big.Int)
	m := big.NewInt(58)
	for i := 0; i < len(s); i++ {
		k := strings.IndexByte(alpha, s[i])
		if k < 0 {
			return nil, ErrRef
		}
		n.Mul(n, m)
		n.Add(n, big.NewInt(int64(k)))
	}
	z := 0
	for z < len(s) && s[z] == alpha[0] {
		z++
	}
	return append(make([]byte, z), n.Bytes()...), nil
}

func Sum4(kind string, d []byte) []byte {
	switch kind {
	case "doubleSHA256":
		return DSha256(d)[:4]
	case "doubleBlake256":
		return Blake256(Blake256(d))[:4]
	case "keccak256":
		return Keccak(d)[:4]
	case "sha3_256":
		return Sha3(d)[:4]
	case "blake2b_and_keccak256_first_twenty":
		return Keccak(Blake2b(d, 32))[:4]
	case "ripemd160":
		return Ripemd(d)[:4]
	}
	panic("sum " + kind)
}

func B58CheckEnc(d []byte, alpha, sum string) string {
	return B58Enc(Cat(d, Sum4(sum, d)), alpha)
}
func B58CheckDec(s, alpha, sum string) ([]byte, error) {
	d, err := B58Dec(s, alpha)
	if err != nil || len(d) < 4 {
		return nil, ErrRef
	}
	if !bytes.Equal(Sum4(sum, d[:len(d)-4]), d[len(d)-4:]) {
		return nil, ErrRef
	}
	return d[:len(d)-4], nil
}

// ---- bit regrouping

func Bits8to5(d []byte) []byte {
	n := len(d) * 8
	var out []byte
	for i := 0; i < n; i += 5 {
		v := byte(0)
		for k := 0; k < 5; k++ {
			v <<= 1
			if p := i + k; p < n && d[p/8]&(0x80>>(uint(p)%8)) != 0 {
				v |= 1
			}
		}
		out = append(out, v)
	}
	return out
}

// Bits5to8 returns an error for non-zero padding or >= 5 padding bits (BIP-173 rule).
func Bits5to8(d []byte) ([]byte, error) {
	n := len(d) * 5
	out := make([]byte, n/8)
	for i := 0; i < n; i++ {
		bit := d[i/5]&(0x10>>(uint(i)%5)) != 0
		if i/8 < len(out) {
			if bit {
				out[i/8] |= 0x80 >> (uint(i) % 8)
			}
		} else if bit {
			return nil, ErrRef
		}
	}
	if n%8 >= 5 {
		return nil, ErrRef
	}
	return out, nil
}

// ---- bech32

func bechPoly(v []byte) uint32 {
	gen := []uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	chk := uint32(1)
	for _, x := range v {
		top := chk >> 25
		chk = (chk&0x1ffffff)<<5 ^ uint32(x)
		for i, g := range gen {
			if top>>uint(i)&1 == 1 {
				chk ^= g
			}
		}
	}
	return chk
}
func hrpExp(h string) []byte {
	var r []byte
	for i := 0; i < len(h); i++ {
		r = append(r, h[i]>>5)
	}
	r = append(r, 0)
	for i := 0; i < len(h); i++ {
		r = append(r, h[i]&31)
	}
	return r
}

// Bech32Groups encodes 5-bit groups; konst 1 = bech32, 0x2bc830a3 = bech32m.
func Bech32Groups(hrp string, groups []byte, konst uint32) string {
	pm := bechPoly(Cat(hrpExp(hrp), groups, make([]byte, 6))) ^ konst
	out := append([]byte{}, groups...)
	for i := 0; i < 6; i++ {
		out = append(out, byte(pm>>uint(5*(5-i)))&31)
	}
	var sb strings.Builder
	sb.WriteString(hrp + "1")
	for _, g := range out {
		sb.WriteByte(B32[g])
	}
	return sb.String()
}

const (
	ConstBech32  = 1
	ConstBech32m = 0x2bc830a3
)

// Bech32Dec parses a lower- or upper-case bech32 string.
func Bech32Dec(s string) (hrp string, groups []byte, konst uint32, err error) {
	lo, up := strings.ToLower(s), strings.ToUpper(s)
	if s != lo && s != up {
		return "", nil, 0, ErrRef
	}
	s = lo
	p := strings.LastIndexByte(s, '1')
	if p < 1 || p+7 > len(s) || len(s) > 90 {
		return "", nil, 0, ErrRef
	}
	for i := 0; i < p; i++ {
		if s[i] < 33 || s[i] > 126 {
			return "", nil, 0, ErrRef
		}
	}
	for i := p + 1; i < len(s); i++ {
		k := strings.IndexByte(B32, s[i])
		if k < 0 {
			return "", nil, 0, ErrRef
		}
		groups = append(groups, byte(k))
	}
	c := bechPoly(Cat(hrpExp(s[:p]), groups))
	if c != ConstBech32 && c != ConstBech32m {
		return "", nil, 0, ErrRef
	}
	return s[:p], groups[:len(groups)-6], c, nil
}

// SegwitAddr encodes a segwit v0 address.
func SegwitAddr(hrp string, ver byte, prog []byte) string {
	k := uint32(ConstBech32)
	return Bech32Groups(hrp, append([]byte{ver}, Bits8to5(prog)...), k)
}

// ---- cashaddr

func CashPoly(v []byte) uint64 {
	gen := []uint64{0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470}
	c := uint64(1)
	for _, d := range v {
		c0 := c >> 35
		c = (c&0x07ffffffff)<<5 ^ uint64(d)
		for i, g := range gen {
			if c0>>uint(i)&1 == 1 {
				c ^= g
			}
		}
	}
	return c ^ 1
}
func cashPre(p string) []byte {
	var r []byte
	for i := 0; i < len(p); i++ {
		r = append(r, p[i]&31)
	}
	return append(r, 0)
}
func CashGroups(prefix string, groups []byte) string {
	c := CashPoly(Cat(cashPre(prefix), groups, make([]byte, 8)))
	out := append([]byte{}, groups...)
	for i := 0; i < 8; i++ {
		out = append(out, byte(c>>uint(5*(7-i)))&31)
	}
	var sb strings.Builder
	sb.WriteString(prefix + ":")
	for _, g := range out {
		sb.WriteByte(B32[g])
	}
	return sb.String()
}

// CashAddr encodes type (0 P2PKH, 1 P2SH) and a 20-byte hash.
func CashAddr(prefix string, typ byte, h []byte) string {
	return CashGroups(prefix, Bits8to5(append([]byte{typ << 3}, h...)))
}
func CashDec(s string) (prefix string, payload []byte, err error) {
	if s != strings.ToLower(s) && s != strings.ToUpper(s) {
		return "", nil, ErrRef
	}
	s = strings.ToLower(s)
	p := strings.IndexByte(s, ':')
	if p < 1 || len(s)-p-1 < 8 {
		return "", nil, ErrRef
	}
	var g []byte
	for i := p + 1; i < len(s); i++ {
		k := strings.IndexByte(B32, s[i])
		if k < 0 {
			return "", nil, ErrRef
		}
		g = append(g, byte(k))
	}
	if CashPoly(Cat(cashPre(s[:p]), g)) != 0 {
		return "", nil, ErrRef
	}
	pl, err := Bits5to8(g[:len(g)-8])
	if err != nil {
		return "", nil, err
	}
	return s[:p], pl, nil
}

// ---- monero block base58

var xmrSizes = []int{0, 2, 3, 5, 6, 7, 9, 10, 11}

func XMRBase58(d []byte) string {
	var sb strings.Builder
	for len(d) > 0 {
		n := 8
		if len(d) < 8 {
			n = len(d)
		}
		v := new(big.Int).SetBytes(d[:n])
		size := xmrSizes[n]
		blk := make([]byte, size)
		for i := size - 1; i >= 0; i-- {
			r := new(big.Int)
			v.DivMod(v, big.NewInt(58), r)
			blk[i] = B58BTC[r.Int64()]
		}
		sb.Write(blk)
		d = d[n:]
	}
	return sb.String()
}

// ---- Bitcoin varint

func VarInt(n uint64) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return append([]byte{0xfd}, LE16(uint16(n))...)
	case n <= 0xffffffff:
		return append([]byte{0xfe}, LE32(uint32(n))...)
	}
	return append([]byte{0xff}, LE64(n)...)
}

// Reader is a strict byte reader.
type Reader struct {
	B   []byte
	Err error
}

func (r *Reader) Take(n int) []byte {
	if r.Err != nil || n < 0 || n > len(r.B) {
		r.Err = ErrRef
		return nil
	}
	x := r.B[:n]
	r.B = r.B[n:]
	return x
}
func (r *Reader) U8() byte {
	b := r.Take(1)
	if r.Err != nil {
		return 0
	}
	return b[0]
}
func (r *Reader) U16() uint16 {
	b := r.Take(2)
	if r.Err != nil {
		return 0
	}
	return binary.LittleEndian.Uint16(b)
}
func (r *Reader) U32() uint32 {
	b := r.Take(4)
	if r.Err != nil {
		return 0
	}
	return binary.LittleEndian.Uint32(b)
}
func (r *Reader) U64() uint64 {
	b := r.Take(8)
	if r.Err != nil {
		return 0
	}
	return binary.LittleEndian.Uint64(b)
}
func (r *Reader) VarInt() uint64 {
	c := r.U8()
	switch c {
	case 0xfd:
		return uint64(r.U16())
	case 0xfe:
		return uint64(r.U32())
	case 0xff:
		return r.U64()
	}
	return uint64(c)
}
func (r *Reader) VarBytes() []byte {
	n := r.VarInt()
	if n > uint64(len(r.B)) {
		r.Err = ErrRef
		return nil
	}
	return r.Take(int(n))
}
