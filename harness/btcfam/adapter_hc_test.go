package btcfam

import (
	"github.com/blocktree/go-owcdrivers/hcTransaction"
)

type hcA struct{}

func (hcA) ins(v []vin) (o []hcTransaction.Vin) {
	for _, x := range v {
		o = append(o, hcTransaction.Vin{TxID: x.Txid, Vout: x.Vout})
	}
	return
}
func (hcA) outs(v []vout) (o []hcTransaction.Vout) {
	for _, x := range v {
		o = append(o, hcTransaction.Vout{Address: x.Addr, Amount: x.Amount})
	}
	return
}
func (hcA) unl(v []unl) (o []hcTransaction.TxUnlock) {
	for _, x := range v {
		o = append(o, hcTransaction.TxUnlock{LockScript: x.Lock, RedeemScript: x.Redeem, Amount: x.Amount, SigType: x.SigType})
	}
	return
}
func (hcA) pfx(p pfx) hcTransaction.AddressPrefix {
	return hcTransaction.AddressPrefix{P2PKHPrefix: p.pkh, P2WPKHPrefix: p.sh, Bech32Prefix: p.hrp}
}
func (a hcA) create(v []vin, o []vout, lock uint32, rbf bool, p pfx, x extra) (string, error) {
	return hcTransaction.CreateEmptyRawTransaction(a.ins(v), a.outs(o), lock, rbf, a.pfx(p))
}
func (a hcA) hashes(tx string, u []unl, seg bool, p pfx) ([]hsh, error) {
	hs, err := hcTransaction.CreateRawTransactionHashForSig(tx, a.unl(u), seg, a.pfx(p))
	if err != nil {
		return nil, err
	}
	var o []hsh
	for _, h := range hs {
		x := hsh{Hash: h.GetTxHashHex(), NReq: h.NRequired}
		if h.Normal != nil {
			x.Addr = h.GetNormalTxAddress()
			x.Normal = &sp{h.Normal.SigType, h.Normal.SigPub.Signature, h.Normal.SigPub.Pubkey}
		}
		if h.IsMultisig() != (h.NRequired != 0) {
			panic("IsMultisig disagrees with NRequired")
		}
		x.Pubkeys = h.GetMultiTxPubkeys()
		for _, m := range h.Multi {
			x.Multi = append(x.Multi, sp{m.SigType, m.SigPub.Signature, m.SigPub.Pubkey})
		}
		o = append(o, x)
	}
	return o, nil
}
func (hcA) sign(h string, k []byte) ([]byte, []byte, error) {
	s, err := hcTransaction.SignRawTransactionHash(h, k)
	if err != nil {
		return nil, nil, err
	}
	return s.Signature, s.Pubkey, nil
}
func (a hcA) insert(tx string, hs []hsh, u []unl, seg bool) (string, error) {
	var o []hcTransaction.TxHash
	for _, h := range hs {
		x := hcTransaction.TxHash{Hash: h.Hash, NRequired: h.NReq}
		if h.Normal != nil {
			x.Normal = &hcTransaction.NormalTx{Address: h.Addr, SigType: h.Normal.SigType, SigPub: hcTransaction.SignaturePubkey{Signature: h.Normal.Sig, Pubkey: h.Normal.Pub}}
		}
		for i, m := range h.Multi {
			x.Multi = append(x.Multi, hcTransaction.MultiTx{Pubkey: h.Pubkeys[i], SigType: m.SigType, SigPub: hcTransaction.SignaturePubkey{Signature: m.Sig, Pubkey: m.Pub}})
		}
		o = append(o, x)
	}
	return hcTransaction.InsertSignatureIntoEmptyTransaction(tx, o, a.unl(u), seg)
}
func (a hcA) verify(tx string, u []unl, seg bool, p pfx) bool {
	return hcTransaction.VerifyRawTransaction(tx, a.unl(u), seg, a.pfx(p))
}
func (hcA) decode(tx []byte, seg bool) (*txView, error) {
	t, err := hcTransaction.DecodeRawTransaction(tx, seg)
	if err != nil {
		return nil, err
	}
	v := &txView{Version: t.Version, Lock: t.LockTime, Witness: t.Witness, NOuts: len(t.Vouts)}
	for _, i := range t.Vins {
		v.Ins = append(v.Ins, inView{i.GetTxID(), i.GetVout(), i.GetUTXOType()})
	}
	return v, nil
}
func (a hcA) multisig(req byte, pubs [][]byte, seg bool, p pfx) (string, string, error) {
	return hcTransaction.CreateMultiSig(req, pubs, seg, a.pfx(p))
}
