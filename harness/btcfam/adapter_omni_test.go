package btcfam

import (
	"github.com/blocktree/go-owcdrivers/omniTransaction"
)

type omniA struct{}

func (omniA) ins(v []vin) (o []omniTransaction.Vin) {
	for _, x := range v {
		o = append(o, omniTransaction.Vin{TxID: x.Txid, Vout: x.Vout})
	}
	return
}
func (omniA) outs(v []vout) (o []omniTransaction.Vout) {
	for _, x := range v {
		o = append(o, omniTransaction.Vout{Address: x.Addr, Amount: x.Amount})
	}
	return
}
func (omniA) unl(v []unl) (o []omniTransaction.TxUnlock) {
	for _, x := range v {
		o = append(o, omniTransaction.TxUnlock{LockScript: x.Lock, RedeemScript: x.Redeem, Amount: x.Amount, SigType: x.SigType})
	}
	return
}
func (omniA) pfx(p pfx) omniTransaction.AddressPrefix {
	return omniTransaction.AddressPrefix{P2PKHPrefix: p.pkh, P2WPKHPrefix: p.sh, Bech32Prefix: p.hrp}
}
func (a omniA) create(v []vin, o []vout, lock uint32, rbf bool, p pfx, x extra) (string, error) {
	return omniTransaction.CreateEmptyRawTransaction(a.ins(v), a.outs(o), omniTransaction.OmniStruct{TxType: x.omni.Type, PropertyId: x.omni.Prop, Amount: x.omni.Amount, Ecosystem: x.omni.Ecosystem, Memo: x.omni.Memo, Address: x.omni.Address}, lock, rbf, a.pfx(p))
}
func (a omniA) hashes(tx string, u []unl, seg bool, p pfx) ([]hsh, error) {
	hs, err := omniTransaction.CreateRawTransactionHashForSig(tx, a.unl(u), a.pfx(p))
	if err != nil {
		return nil, err
	}
	var o []hsh
	for _, h := range hs {
		x := hsh{Hash: h.GetTxHashHex(), NReq: h.NRequired}
		if h.Normal != nil {
			x.Addr = h.GetNormalTxAddress()
			x.Normal = &sp{h.Normal.SigType, h.Normal.SigPub.Signature, h.Normal.SigPub.Pubkey}
		}
		if h.IsMultisig() != (h.NRequired != 0) {
			panic("IsMultisig disagrees with NRequired")
		}
		x.Pubkeys = h.GetMultiTxPubkeys()
		for _, m := range h.Multi {
			x.Multi = append(x.Multi, sp{m.SigType, m.SigPub.Signature, m.SigPub.Pubkey})
		}
		o = append(o, x)
	}
	return o, nil
}
func (omniA) sign(h string, k []byte) ([]byte, []byte, error) {
	s, err := omniTransaction.SignRawTransactionHash(h, k)
	if err != nil {
		return nil, nil, err
	}
	return s.Signature, s.Pubkey, nil
}
func (a omniA) insert(tx string, hs []hsh, u []unl, seg bool) (string, error) {
	var o []omniTransaction.TxHash
	for _, h := range hs {
		x := omniTransaction.TxHash{Hash: h.Hash, NRequired: h.NReq}
		if h.Normal != nil {
			x.Normal = &omniTransaction.NormalTx{Address: h.Addr, SigType: h.Normal.SigType, SigPub: omniTransaction.SignaturePubkey{Signature: h.Normal.Sig, Pubkey: h.Normal.Pub}}
		}
		for i, m := range h.Multi {
			x.Multi = append(x.Multi, omniTransaction.MultiTx{Pubkey: h.Pubkeys[i], SigType: m.SigType, SigPub: omniTransaction.SignaturePubkey{Signature: m.Sig, Pubkey: m.Pub}})
		}
		o = append(o, x)
	}
	return omniTransaction.InsertSignatureIntoEmptyTransaction(tx, o, a.unl(u))
}
func (a omniA) verify(tx string, u []unl, seg bool, p pfx) bool {
	return omniTransaction.VerifyRawTransaction(tx, a.unl(u), a.pfx(p))
}
func (omniA) decode(tx []byte, seg bool) (*txView, error) {
	t, err := omniTransaction.DecodeRawTransaction(tx, seg)
	if err != nil {
		return nil, err
	}
	v := &txView{Version: t.Version, Lock: t.LockTime, Witness: t.Witness, NOuts: len(t.Vouts)}
	for _, i := range t.Vins {
		v.Ins = append(v.Ins, inView{i.GetTxID(), i.GetVout(), i.GetUTXOType()})
	}
	return v, nil
}
func (a omniA) multisig(req byte, pubs [][]byte, seg bool, p pfx) (string, string, error) {
	return omniTransaction.CreateMultiSig(req, pubs, a.pfx(p))
}
