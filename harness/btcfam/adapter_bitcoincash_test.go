package btcfam

import (
	"github.com/blocktree/go-owcdrivers/bitcoincashTransaction"
)

type bitcoincashA struct{}

func (bitcoincashA) ins(v []vin) (o []bitcoincashTransaction.Vin) {
	for _, x := range v {
		o = append(o, bitcoincashTransaction.Vin{TxID: x.Txid, Vout: x.Vout})
	}
	return
}
func (bitcoincashA) outs(v []vout) (o []bitcoincashTransaction.Vout) {
	for _, x := range v {
		o = append(o, bitcoincashTransaction.Vout{Address: x.Addr, Amount: x.Amount})
	}
	return
}
func (bitcoincashA) unl(v []unl) (o []bitcoincashTransaction.TxUnlock) {
	for _, x := range v {
		o = append(o, bitcoincashTransaction.TxUnlock{LockScript: x.Lock, RedeemScript: x.Redeem, Amount: x.Amount, SigType: x.SigType})
	}
	return
}
func (bitcoincashA) pfx(p pfx) bitcoincashTransaction.AddressPrefix {
	return bitcoincashTransaction.AddressPrefix{P2PKHPrefix: p.pkh, P2WPKHPrefix: p.sh, P2SHPrefix: p.sh2, Bech32Prefix: p.hrp}
}
func (a bitcoincashA) create(v []vin, o []vout, lock uint32, rbf bool, p pfx, x extra) (string, error) {
	return bitcoincashTransaction.CreateEmptyRawTransaction(a.ins(v), a.outs(o), lock, rbf, a.pfx(p))
}
func (a bitcoincashA) hashes(tx string, u []unl, seg bool, p pfx) ([]hsh, error) {
	hs, err := bitcoincashTransaction.CreateRawTransactionHashForSig(tx, a.unl(u), seg, a.pfx(p))
	if err != nil {
		return nil, err
	}
	var o []hsh
	for _, h := range hs {
		x := hsh{Hash: h.GetTxHashHex(), NReq: h.NRequired}
		if h.Normal != nil {
			x.Addr = h.GetNormalTxAddress()
			x.Normal = &sp{h.Normal.SigType, h.Normal.SigPub.Signature, h.Normal.SigPub.Pubkey}
		}
		if h.IsMultisig() != (h.NRequired != 0) {
			panic("IsMultisig disagrees with NRequired")
		}
		x.Pubkeys = h.GetMultiTxPubkeys()
		for _, m := range h.Multi {
			x.Multi = append(x.Multi, sp{m.SigType, m.SigPub.Signature, m.SigPub.Pubkey})
		}
		o = append(o, x)
	}
	return o, nil
}
func (bitcoincashA) sign(h string, k []byte) ([]byte, []byte, error) {
	s, err := bitcoincashTransaction.SignRawTransactionHash(h, k)
	if err != nil {
		return nil, nil, err
	}
	return s.Signature, s.Pubkey, nil
}
func (a bitcoincashA) insert(tx string, hs []hsh, u []unl, seg bool) (string, error) {
	var o []bitcoincashTransaction.TxHash
	for _, h := range hs {
		x := bitcoincashTransaction.TxHash{Hash: h.Hash, NRequired: h.NReq}
		if h.Normal != nil {
			x.Normal = &bitcoincashTransaction.NormalTx{Address: h.Addr, SigType: h.Normal.SigType, SigPub: bitcoincashTransaction.SignaturePubkey{Signature: h.Normal.Sig, Pubkey: h.Normal.Pub}}
		}
		for i, m := range h.Multi {
			x.Multi = append(x.Multi, bitcoincashTransaction.MultiTx{Pubkey: h.Pubkeys[i], SigType: m.SigType, SigPub: bitcoincashTransaction.SignaturePubkey{Signature: m.Sig, Pubkey: m.Pub}})
		}
		o = append(o, x)
	}
	return bitcoincashTransaction.InsertSignatureIntoEmptyTransaction(tx, o, a.unl(u), seg)
}
func (a bitcoincashA) verify(tx string, u []unl, seg bool, p pfx) bool {
	return bitcoincashTransaction.VerifyRawTransaction(tx, a.unl(u), seg, a.pfx(p))
}
func (bitcoincashA) decode(tx []byte, seg bool) (*txView, error) {
	t, err := bitcoincashTransaction.DecodeRawTransaction(tx, seg)
	if err != nil {
		return nil, err
	}
	v := &txView{Version: t.Version, Lock: t.LockTime, Witness: t.Witness, NOuts: len(t.Vouts)}
	for _, i := range t.Vins {
		v.Ins = append(v.Ins, inView{i.GetTxID(), i.GetVout(), i.GetUTXOType()})
	}
	return v, nil
}
func (a bitcoincashA) multisig(req byte, pubs [][]byte, seg bool, p pfx) (string, string, error) {
	return bitcoincashTransaction.CreateMultiSig(req, pubs, seg, a.pfx(p))
}
