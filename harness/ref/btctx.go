package ref

import (
	"bytes"
	"errors"
)

// Bitcoin transactions: serialisation, digests and input validation, written from the protocol
// documents (BIP66, BIP141, BIP143) and independent of the code under test.

type BIn struct {
	Txid    []byte // wire order
	Vout    uint32
	Script  []byte
	Seq     uint32
	Witness [][]byte
}
type BOut struct {
	Amount uint64
	Script []byte
}
type BTx struct {
	Version uint32
	Ins     []BIn
	Outs    []BOut
	Lock    uint32
}

func VarBytes(b []byte) []byte { return Cat(VarInt(uint64(len(b))), b) }

func (t *BTx) Bytes(witness bool) []byte {
	o := LE32(t.Version)
	if witness {
		o = append(o, 0, 1)
	}
	o = append(o, VarInt(uint64(len(t.Ins)))...)
	for _, i := range t.Ins {
		o = append(o, Cat(i.Txid, LE32(i.Vout), VarBytes(i.Script), LE32(i.Seq))...)
	}
	o = append(o, VarInt(uint64(len(t.Outs)))...)
	for _, x := range t.Outs {
		o = append(o, Cat(LE64(x.Amount), VarBytes(x.Script))...)
	}
	if witness {
		for _, i := range t.Ins {
			o = append(o, VarInt(uint64(len(i.Witness)))...)
			for _, w := range i.Witness {
				o = append(o, VarBytes(w)...)
			}
		}
	}
	return append(o, LE32(t.Lock)...)
}

func ParseBTx(b []byte) (*BTx, bool, error) {
	r := &Reader{B: b}
	t := &BTx{Version: r.U32()}
	n := r.VarInt()
	wit := false
	if n == 0 && r.Err == nil {
		if r.U8() != 1 {
			return nil, false, errors.New("flag")
		}
		wit = true
		n = r.VarInt()
	}
	for i := uint64(0); i < n && r.Err == nil; i++ {
		t.Ins = append(t.Ins, BIn{Txid: r.Take(32), Vout: r.U32(), Script: r.VarBytes(), Seq: r.U32()})
	}
	n = r.VarInt()
	for i := uint64(0); i < n && r.Err == nil; i++ {
		t.Outs = append(t.Outs, BOut{Amount: r.U64(), Script: r.VarBytes()})
	}
	if wit && r.Err == nil {
		for i := range t.Ins {
			c := r.VarInt()
			for j := uint64(0); j < c && r.Err == nil; j++ {
				t.Ins[i].Witness = append(t.Ins[i].Witness, r.VarBytes())
			}
		}
	}
	t.Lock = r.U32()
	if r.Err != nil {
		return nil, false, r.Err
	}
	if len(r.B) != 0 || len(t.Ins) == 0 || len(t.Outs) == 0 {
		return nil, false, errors.New("length")
	}
	return t, wit, nil
}

// Legacy digest (SIGHASH_ALL only).
func (t *BTx) LegacyHash(i int, script []byte, ht uint32) []byte {
	c := &BTx{Version: t.Version, Outs: t.Outs, Lock: t.Lock}
	for j, in := range t.Ins {
		in.Script = nil
		if j == i {
			in.Script = script
		}
		c.Ins = append(c.Ins, in)
	}
	return DSha256(c.Bytes(false), LE32(ht))
}

// BIP143 digest (SIGHASH_ALL only).
func (t *BTx) SegwitHash(i int, scriptCode []byte, amount uint64, ht uint32) []byte {
	var pre, seq, outs []byte
	for _, in := range t.Ins {
		pre = append(pre, Cat(in.Txid, LE32(in.Vout))...)
		seq = append(seq, LE32(in.Seq)...)
	}
	for _, x := range t.Outs {
		outs = append(outs, Cat(LE64(x.Amount), VarBytes(x.Script))...)
	}
	in := t.Ins[i]
	return DSha256(LE32(t.Version), DSha256(pre), DSha256(seq), in.Txid, LE32(in.Vout), VarBytes(scriptCode), LE64(amount), LE32(in.Seq), DSha256(outs), LE32(t.Lock), LE32(ht))
}

func P2PKH(h []byte) []byte { return Cat([]byte{0x76, 0xa9, 20}, h, []byte{0x88, 0xac}) }
func P2SH(h []byte) []byte  { return Cat([]byte{0xa9, 20}, h, []byte{0x87}) }

// Push encodes a data push the way the reference client does.
func Push(b []byte) []byte {
	switch {
	case len(b) < 0x4c:
		return Cat([]byte{byte(len(b))}, b)
	case len(b) <= 0xff:
		return Cat([]byte{0x4c, byte(len(b))}, b)
	default:
		return Cat([]byte{0x4d}, LE16(uint16(len(b))), b)
	}
}

// Pushes splits a push-only script (any push encoding).
func Pushes(s []byte) ([][]byte, bool) {
	var out [][]byte
	for len(s) > 0 {
		op := int(s[0])
		s = s[1:]
		n := op
		switch {
		case op <= 0x4b:
		case op == 0x4c && len(s) >= 1:
			n, s = int(s[0]), s[1:]
		case op == 0x4d && len(s) >= 2:
			n, s = int(s[0])|int(s[1])<<8, s[2:]
		default:
			return nil, false
		}
		if n > len(s) {
			return nil, false
		}
		out = append(out, s[:n])
		s = s[n:]
	}
	return out, true
}

func MultiRedeem(req int, pubs [][]byte) []byte {
	o := []byte{byte(0x50 + req)}
	for _, p := range pubs {
		o = append(o, Cat([]byte{byte(len(p))}, p)...)
	}
	return append(o, byte(0x50+len(pubs)), 0xae)
}

// CheckSig verifies a script signature element (strict DER followed by the hash type) under a
// compressed key; digest is computed for the element's own hash type.
func CheckSig(el, pub []byte, ht byte, digest []byte) bool {
	if len(el) < 9 || el[len(el)-1] != ht {
		return false
	}
	sig, err := ParseDER(el[:len(el)-1])
	if err != nil {
		return false
	}
	p := Decompress(K1, pub)
	return p != nil && VerifyECDSA(K1, p, digest, sig)
}

// CheckMulti is OP_CHECKMULTISIG over compressed keys.
func CheckMulti(sigs, pubs [][]byte, ht byte, digest []byte) bool {
	j := 0
	for _, s := range sigs {
		for j < len(pubs) && !CheckSig(s, pubs[j], ht, digest) {
			j++
		}
		if j == len(pubs) {
			return false
		}
		j++
	}
	return true
}

// ParseMulti reads an m-of-n redeem script of compressed keys.
func ParseMulti(r []byte) (m int, pubs [][]byte, ok bool) {
	if len(r) < 37 || r[0] < 0x51 || r[0] > 0x60 || r[len(r)-1] != 0xae {
		return
	}
	m = int(r[0] - 0x50)
	b := r[1 : len(r)-2]
	for len(b) >= 34 && b[0] == 33 {
		pubs = append(pubs, b[1:34])
		b = b[34:]
	}
	if len(b) != 0 || int(r[len(r)-2])-0x50 != len(pubs) || m > len(pubs) {
		return 0, nil, false
	}
	return m, pubs, true
}

// BSpend is what is known about the output an input spends.
type BSpend struct {
	Kind   string // p2pkh, p2sh-p2wpkh, p2wpkh, multi (P2SH), wmulti (P2SH-P2WSH)
	Lock   []byte
	Redeem []byte
	Amount uint64
}

func wpkhCode(prog []byte) []byte { return P2PKH(prog[2:]) }

// Digest an input of the given kind has to sign. fork selects the BIP143-style digest for all kinds.
func (t *BTx) InputHash(i int, s BSpend, ht byte, fork bool) []byte {
	switch s.Kind {
	case "p2pkh":
		if fork {
			return t.SegwitHash(i, s.Lock, s.Amount, uint32(ht))
		}
		return t.LegacyHash(i, s.Lock, uint32(ht))
	case "p2sh-p2wpkh":
		return t.SegwitHash(i, wpkhCode(s.Redeem), s.Amount, uint32(ht))
	case "p2wpkh":
		return t.SegwitHash(i, wpkhCode(s.Lock), s.Amount, uint32(ht))
	case "multi":
		if fork {
			return t.SegwitHash(i, s.Redeem, s.Amount, uint32(ht))
		}
		return t.LegacyHash(i, s.Redeem, uint32(ht))
	case "wmulti":
		return t.SegwitHash(i, s.Redeem, s.Amount, uint32(ht))
	}
	panic(s.Kind)
}

// ValidInput evaluates one input under consensus rules for the listed output kinds.
func (t *BTx) ValidInput(i int, s BSpend, ht byte, fork bool) bool {
	in := t.Ins[i]
	dig := t.InputHash(i, s, ht, fork)
	ps, ok := Pushes(in.Script)
	if !ok {
		return false
	}
	eq := bytes.Equal
	switch s.Kind {
	case "p2pkh":
		return len(in.Witness) == 0 && len(ps) == 2 && len(ps[1]) == 33 && eq(H160(ps[1]), s.Lock[3:23]) && CheckSig(ps[0], ps[1], ht, dig)
	case "p2sh-p2wpkh":
		return len(ps) == 1 && eq(ps[0], s.Redeem) && eq(H160(ps[0]), s.Lock[2:22]) && len(in.Witness) == 2 && eq(H160(in.Witness[1]), s.Redeem[2:]) && CheckSig(in.Witness[0], in.Witness[1], ht, dig)
	case "p2wpkh":
		return len(in.Script) == 0 && len(in.Witness) == 2 && eq(H160(in.Witness[1]), s.Lock[2:]) && CheckSig(in.Witness[0], in.Witness[1], ht, dig)
	case "multi", "wmulti":
		items := ps
		if s.Kind == "wmulti" {
			prog := Cat([]byte{0, 32}, Sha256(s.Redeem))
			if len(ps) != 1 || !eq(ps[0], prog) || !eq(H160(prog), s.Lock[2:22]) {
				return false
			}
			items = in.Witness
		} else if len(in.Witness) != 0 || !eq(H160(s.Redeem), s.Lock[2:22]) {
			return false
		}
		m, pubs, ok := ParseMulti(s.Redeem)
		if !ok || len(items) != m+2 || len(items[0]) != 0 || !eq(items[len(items)-1], s.Redeem) {
			return false
		}
		return CheckMulti(items[1:len(items)-1], pubs, ht, dig)
	}
	return false
}
