package btcfam

import (
	"github.com/blocktree/go-owcdrivers/btcTransaction"
)

type btcA struct{}

func (btcA) ins(v []vin) (o []btcTransaction.Vin) {
	for _, x := range v {
		o = append(o, btcTransaction.Vin{TxID: x.Txid, Vout: x.Vout})
	}
	return
}
func (btcA) outs(v []vout) (o []btcTransaction.Vout) {
	for _, x := range v {
		o = append(o, btcTransaction.Vout{Address: x.Addr, Amount: x.Amount})
	}
	return
}
func (btcA) unl(v []unl) (o []btcTransaction.TxUnlock) {
	for _, x := range v {
		o = append(o, btcTransaction.TxUnlock{LockScript: x.Lock, RedeemScript: x.Redeem, Amount: x.Amount, SigType: x.SigType})
	}
	return
}
func (btcA) pfx(p pfx) btcTransaction.AddressPrefix {
	return btcTransaction.AddressPrefix{P2PKHPrefix: p.pkh, P2WPKHPrefix: p.sh, P2SHPrefix: p.sh2, Bech32Prefix: p.hrp}
}
func (a btcA) create(v []vin, o []vout, lock uint32, rbf bool, p pfx, x extra) (string, error) {
	return btcTransaction.CreateEmptyRawTransaction(a.ins(v), a.outs(o), lock, rbf, a.pfx(p))
}
func (a btcA) hashes(tx string, u []unl, seg bool, p pfx) ([]hsh, error) {
	hs, err := btcTransaction.CreateRawTransactionHashForSig(tx, a.unl(u), seg, a.pfx(p))
	if err != nil {
		return nil, err
	}
	var o []hsh
	for _, h := range hs {
		x := hsh{Hash: h.GetTxHashHex(), NReq: h.NRequired}
		if h.Normal != nil {
			x.Addr = h.GetNormalTxAddress()
			x.Normal = &sp{h.Normal.SigType, h.Normal.SigPub.Signature, h.Normal.SigPub.Pubkey}
		}
		if h.IsMultisig() != (h.NRequired != 0) {
			panic("IsMultisig disagrees with NRequired")
		}
		x.Pubkeys = h.GetMultiTxPubkeys()
		for _, m := range h.Multi {
			x.Multi = append(x.Multi, sp{m.SigType, m.SigPub.Signature, m.SigPub.Pubkey})
		}
		o = append(o, x)
	}
	return o, nil
}
func (btcA) sign(h string, k []byte) ([]byte, []byte, error) {
	s, err := btcTransaction.SignRawTransactionHash(h, k)
	if err != nil {
		return nil, nil, err
	}
	return s.Signature, s.Pubkey, nil
}
func (a btcA) insert(tx string, hs []hsh, u []unl, seg bool) (string, error) {
	var o []btcTransaction.TxHash
	for _, h := range hs {
		x := btcTransaction.TxHash{Hash: h.Hash, NRequired: h.NReq}
		if h.Normal != nil {
			x.Normal = &btcTransaction.NormalTx{Address: h.Addr, SigType: h.Normal.SigType, SigPub: btcTransaction.SignaturePubkey{Signature: h.Normal.Sig, Pubkey: h.Normal.Pub}}
		}
		for i, m := range h.Multi {
			x.Multi = append(x.Multi, btcTransaction.MultiTx{Pubkey: h.Pubkeys[i], SigType: m.SigType, SigPub: btcTransaction.SignaturePubkey{Signature: m.Sig, Pubkey: m.Pub}})
		}
		o = append(o, x)
	}
	return btcTransaction.InsertSignatureIntoEmptyTransaction(tx, o, a.unl(u), seg)
}
func (a btcA) verify(tx string, u []unl, seg bool, p pfx) bool {
	return btcTransaction.VerifyRawTransaction(tx, a.unl(u), seg, a.pfx(p))
}
func (btcA) decode(tx []byte, seg bool) (*txView, error) {
	t, err := btcTransaction.DecodeRawTransaction(tx, seg)
	if err != nil {
		return nil, err
	}
	v := &txView{Version: t.Version, Lock: t.LockTime, Witness: t.Witness, NOuts: len(t.Vouts)}
	for _, i := range t.Vins {
		v.Ins = append(v.Ins, inView{i.GetTxID(), i.GetVout(), i.GetUTXOType()})
	}
	return v, nil
}
func (a btcA) multisig(req byte, pubs [][]byte, seg bool, p pfx) (string, string, error) {
	return btcTransaction.CreateMultiSig(req, pubs, seg, a.pfx(p))
}
