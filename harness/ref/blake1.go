package ref

import (
	"encoding/binary"
	"math/bits"
)

var b1c = [16]uint32{0x243F6A88, 0x85A308D3, 0x13198A2E, 0x03707344, 0xA4093822, 0x299F31D0, 0x082EFA98, 0xEC4E6C89,
	0x452821E6, 0x38D01377, 0xBE5466CF, 0x34E90C6C, 0xC0AC29B7, 0xC97C50DD, 0x3F84D5B5, 0xB5470917}
var b1s = [10][16]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}}

// Blake1 is BLAKE-224/256 (SHA-3 submission, 14 rounds) straight from the specification.
func Blake1(m []byte, size int, salt []byte) []byte {
	h := [8]uint32{0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19}
	if size == 224 {
		h = [8]uint32{0xC1059ED8, 0x367CD507, 0x3070DD17, 0xF70E5939, 0xFFC00B31, 0x68581511, 0x64F98FA7, 0xBEFA4FA4}
	}
	var s [4]uint32
	if salt != nil {
		for i := range s {
			s[i] = binary.BigEndian.Uint32(salt[4*i:])
		}
	}
	l := uint64(len(m)) * 8
	p := append([]byte{}, m...)
	p = append(p, 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	if size == 256 {
		p[len(p)-1] |= 1
	}
	p = append(p, BE64(l)...)
	done := uint64(0)
	for off := 0; off < len(p); off += 64 {
		var w [16]uint32
		for i := range w {
			w[i] = binary.BigEndian.Uint32(p[off+4*i:])
		}
		// t counts message bits hashed so far, 0 for a block without message bits
		var t uint64
		if done < l {
			done += 512
			if done > l {
				done = l
			}
			t = done
		}
		var v [16]uint32
		copy(v[:8], h[:])
		for i := 0; i < 4; i++ {
			v[8+i] = s[i] ^ b1c[i]
		}
		v[12] = uint32(t) ^ b1c[4]
		v[13] = uint32(t) ^ b1c[5]
		v[14] = uint32(t>>32) ^ b1c[6]
		v[15] = uint32(t>>32) ^ b1c[7]
		for r := 0; r < 14; r++ {
			g := func(a, b, c, d, i int) {
				x, y := b1s[r%10][2*i], b1s[r%10][2*i+1]
				v[a] += v[b] + (w[x] ^ b1c[y])
				v[d] = bits.RotateLeft32(v[d]^v[a], -16)
				v[c] += v[d]
				v[b] = bits.RotateLeft32(v[b]^v[c], -12)
				v[a] += v[b] + (w[y] ^ b1c[x])
				v[d] = bits.RotateLeft32(v[d]^v[a], -8)
				v[c] += v[d]
				v[b] = bits.RotateLeft32(v[b]^v[c], -7)
			}
			g(0, 4, 8, 12, 0)
			g(1, 5, 9, 13, 1)
			g(2, 6, 10, 14, 2)
			g(3, 7, 11, 15, 3)
			g(0, 5, 10, 15, 4)
			g(1, 6, 11, 12, 5)
			g(2, 7, 8, 13, 6)
			g(3, 4, 9, 14, 7)
		}
		for i := range h {
			h[i] ^= s[i%4] ^ v[i] ^ v[i+8]
		}
	}
	var out []byte
	for _, x := range h[:size/32] {
		out = append(out, BE32(x)...)
	}
	return out
}
func Blake224(b []byte) []byte { return Blake1(b, 224, nil) }
