package btcfam

import (
	"github.com/blocktree/go-owcdrivers/zencashTransaction"
)

type zencashA struct{}

func (zencashA) ins(v []vin) (o []zencashTransaction.Vin) {
	for _, x := range v {
		o = append(o, zencashTransaction.Vin{TxID: x.Txid, Vout: x.Vout})
	}
	return
}
func (zencashA) outs(v []vout) (o []zencashTransaction.Vout) {
	for _, x := range v {
		o = append(o, zencashTransaction.Vout{Address: x.Addr, Amount: x.Amount})
	}
	return
}
func (zencashA) unl(v []unl) (o []zencashTransaction.TxUnlock) {
	for _, x := range v {
		o = append(o, zencashTransaction.TxUnlock{LockScript: x.Lock, RedeemScript: x.Redeem, Amount: x.Amount, SigType: x.SigType})
	}
	return
}
func (zencashA) pfx(p pfx) zencashTransaction.AddressPrefix {
	return zencashTransaction.AddressPrefix{P2PKHPrefix: p.pkh, P2WPKHPrefix: p.sh, Bech32Prefix: p.hrp}
}
func (a zencashA) create(v []vin, o []vout, lock uint32, rbf bool, p pfx, x extra) (string, error) {
	return zencashTransaction.CreateEmptyRawTransaction(a.ins(v), a.outs(o), lock, rbf, a.pfx(p), x.blockHash, x.height)
}
func (a zencashA) hashes(tx string, u []unl, seg bool, p pfx) ([]hsh, error) {
	hs, err := zencashTransaction.CreateRawTransactionHashForSig(tx, a.unl(u), seg, a.pfx(p))
	if err != nil {
		return nil, err
	}
	var o []hsh
	for _, h := range hs {
		x := hsh{Hash: h.GetTxHashHex(), NReq: h.NRequired}
		if h.Normal != nil {
			x.Addr = h.GetNormalTxAddress()
			x.Normal = &sp{h.Normal.SigType, h.Normal.SigPub.Signature, h.Normal.SigPub.Pubkey}
		}
		if h.IsMultisig() != (h.NRequired != 0) {
			panic("IsMultisig disagrees with NRequired")
		}
		x.Pubkeys = h.GetMultiTxPubkeys()
		for _, m := range h.Multi {
			x.Multi = append(x.Multi, sp{m.SigType, m.SigPub.Signature, m.SigPub.Pubkey})
		}
		o = append(o, x)
	}
	return o, nil
}
func (zencashA) sign(h string, k []byte) ([]byte, []byte, error) {
	s, err := zencashTransaction.SignRawTransactionHash(h, k)
	if err != nil {
		return nil, nil, err
	}
	return s.Signature, s.Pubkey, nil
}
func (a zencashA) insert(tx string, hs []hsh, u []unl, seg bool) (string, error) {
	var o []zencashTransaction.TxHash
	for _, h := range hs {
		x := zencashTransaction.TxHash{Hash: h.Hash, NRequired: h.NReq}
		if h.Normal != nil {
			x.Normal = &zencashTransaction.NormalTx{Address: h.Addr, SigType: h.Normal.SigType, SigPub: zencashTransaction.SignaturePubkey{Signature: h.Normal.Sig, Pubkey: h.Normal.Pub}}
		}
		for i, m := range h.Multi {
			x.Multi = append(x.Multi, zencashTransaction.MultiTx{Pubkey: h.Pubkeys[i], SigType: m.SigType, SigPub: zencashTransaction.SignaturePubkey{Signature: m.Sig, Pubkey: m.Pub}})
		}
		o = append(o, x)
	}
	return zencashTransaction.InsertSignatureIntoEmptyTransaction(tx, o, a.unl(u), seg)
}
func (a zencashA) verify(tx string, u []unl, seg bool, p pfx) bool {
	return zencashTransaction.VerifyRawTransaction(tx, a.unl(u), seg, a.pfx(p))
}
func (zencashA) decode(tx []byte, seg bool) (*txView, error) {
	t, err := zencashTransaction.DecodeRawTransaction(tx, seg)
	if err != nil {
		return nil, err
	}
	v := &txView{Version: t.Version, Lock: t.LockTime, Witness: t.Witness, NOuts: len(t.Vouts)}
	for _, i := range t.Vins {
		v.Ins = append(v.Ins, inView{i.GetTxID(), i.GetVout(), i.GetUTXOType()})
	}
	return v, nil
}
func (a zencashA) multisig(req byte, pubs [][]byte, seg bool, p pfx) (string, string, error) {
	return zencashTransaction.CreateMultiSig(req, pubs, seg, a.pfx(p))
}
