package btcfam

import (
	"github.com/blocktree/go-owcdrivers/cxcTransaction"
)

type cxcA struct{}

func (cxcA) ins(v []vin) (o []cxcTransaction.Vin) {
	for _, x := range v {
		o = append(o, cxcTransaction.Vin{TxID: x.Txid, Vout: x.Vout})
	}
	return
}
func (cxcA) outs(v []vout) (o []cxcTransaction.Vout) {
	for _, x := range v {
		o = append(o, cxcTransaction.Vout{Address: x.Addr, Amount: x.Amount})
	}
	return
}
func (cxcA) unl(v []unl) (o []cxcTransaction.TxUnlock) {
	for _, x := range v {
		o = append(o, cxcTransaction.TxUnlock{LockScript: x.Lock, RedeemScript: x.Redeem, Amount: x.Amount, SigType: x.SigType})
	}
	return
}
func (cxcA) pfx(p pfx) cxcTransaction.AddressPrefix {
	return cxcTransaction.AddressPrefix{P2PKHPrefix: p.pkh, P2WPKHPrefix: p.sh, Bech32Prefix: p.hrp}
}
func (a cxcA) create(v []vin, o []vout, lock uint32, rbf bool, p pfx, x extra) (string, error) {
	return cxcTransaction.CreateEmptyRawTransaction(a.ins(v), a.outs(o), lock, rbf, a.pfx(p))
}
func (a cxcA) hashes(tx string, u []unl, seg bool, p pfx) ([]hsh, error) {
	hs, err := cxcTransaction.CreateRawTransactionHashForSig(tx, a.unl(u), seg, a.pfx(p))
	if err != nil {
		return nil, err
	}
	var o []hsh
	for _, h := range hs {
		x := hsh{Hash: h.GetTxHashHex(), NReq: h.NRequired}
		if h.Normal != nil {
			x.Addr = h.GetNormalTxAddress()
			x.Normal = &sp{h.Normal.SigType, h.Normal.SigPub.Signature, h.Normal.SigPub.Pubkey}
		}
		if h.IsMultisig() != (h.NRequired != 0) {
			panic("IsMultisig disagrees with NRequired")
		}
		x.Pubkeys = h.GetMultiTxPubkeys()
		for _, m := range h.Multi {
			x.Multi = append(x.Multi, sp{m.SigType, m.SigPub.Signature, m.SigPub.Pubkey})
		}
		o = append(o, x)
	}
	return o, nil
}
func (cxcA) sign(h string, k []byte) ([]byte, []byte, error) {
	s, err := cxcTransaction.SignRawTransactionHash(h, k)
	if err != nil {
		return nil, nil, err
	}
	return s.Signature, s.Pubkey, nil
}
func (a cxcA) insert(tx string, hs []hsh, u []unl, seg bool) (string, error) {
	var o []cxcTransaction.TxHash
	for _, h := range hs {
		x := cxcTransaction.TxHash{Hash: h.Hash, NRequired: h.NReq}
		if h.Normal != nil {
			x.Normal = &cxcTransaction.NormalTx{Address: h.Addr, SigType: h.Normal.SigType, SigPub: cxcTransaction.SignaturePubkey{Signature: h.Normal.Sig, Pubkey: h.Normal.Pub}}
		}
		for i, m := range h.Multi {
			x.Multi = append(x.Multi, cxcTransaction.MultiTx{Pubkey: h.Pubkeys[i], SigType: m.SigType, SigPub: cxcTransaction.SignaturePubkey{Signature: m.Sig, Pubkey: m.Pub}})
		}
		o = append(o, x)
	}
	return cxcTransaction.InsertSignatureIntoEmptyTransaction(tx, o, a.unl(u), seg)
}
func (a cxcA) verify(tx string, u []unl, seg bool, p pfx) bool {
	return cxcTransaction.VerifyRawTransaction(tx, a.unl(u), seg, a.pfx(p))
}
func (cxcA) decode(tx []byte, seg bool) (*txView, error) {
	t, err := cxcTransaction.DecodeRawTransaction(tx, seg)
	if err != nil {
		return nil, err
	}
	v := &txView{Version: t.Version, Lock: t.LockTime, Witness: t.Witness, NOuts: len(t.Vouts)}
	for _, i := range t.Vins {
		v.Ins = append(v.Ins, inView{i.GetTxID(), i.GetVout(), i.GetUTXOType()})
	}
	return v, nil
}
func (a cxcA) multisig(req byte, pubs [][]byte, seg bool, p pfx) (string, string, error) {
	return cxcTransaction.CreateMultiSig(req, pubs, seg, a.pfx(p))
}
