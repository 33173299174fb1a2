package btcfam

import (
	"github.com/blocktree/go-owcdrivers/bitcoinsvTransaction"
)

type bitcoinsvA struct{}

func (bitcoinsvA) ins(v []vin) (o []bitcoinsvTransaction.Vin) {
	for _, x := range v {
		o = append(o, bitcoinsvTransaction.Vin{TxID: x.Txid, Vout: x.Vout})
	}
	return
}
func (bitcoinsvA) outs(v []vout) (o []bitcoinsvTransaction.Vout) {
	for _, x := range v {
		o = append(o, bitcoinsvTransaction.Vout{Address: x.Addr, Amount: x.Amount})
	}
	return
}
func (bitcoinsvA) unl(v []unl) (o []bitcoinsvTransaction.TxUnlock) {
	for _, x := range v {
		o = append(o, bitcoinsvTransaction.TxUnlock{LockScript: x.Lock, RedeemScript: x.Redeem, Amount: x.Amount, SigType: x.SigType})
	}
	return
}
func (bitcoinsvA) pfx(p pfx) bitcoinsvTransaction.AddressPrefix {
	return bitcoinsvTransaction.AddressPrefix{P2PKHPrefix: p.pkh, P2WPKHPrefix: p.sh, P2SHPrefix: p.sh2, Bech32Prefix: p.hrp}
}
func (a bitcoinsvA) create(v []vin, o []vout, lock uint32, rbf bool, p pfx, x extra) (string, error) {
	return bitcoinsvTransaction.CreateEmptyRawTransaction(a.ins(v), a.outs(o), lock, rbf, a.pfx(p))
}
func (a bitcoinsvA) hashes(tx string, u []unl, seg bool, p pfx) ([]hsh, error) {
	hs, err := bitcoinsvTransaction.CreateRawTransactionHashForSig(tx, a.unl(u), seg, a.pfx(p))
	if err != nil {
		return nil, err
	}
	var o []hsh
	for _, h := range hs {
		x := hsh{Hash: h.GetTxHashHex(), NReq: h.NRequired}
		if h.Normal != nil {
			x.Addr = h.GetNormalTxAddress()
			x.Normal = &sp{h.Normal.SigType, h.Normal.SigPub.Signature, h.Normal.SigPub.Pubkey}
		}
		if h.IsMultisig() != (h.NRequired != 0) {
			panic("IsMultisig disagrees with NRequired")
		}
		x.Pubkeys = h.GetMultiTxPubkeys()
		for _, m := range h.Multi {
			x.Multi = append(x.Multi, sp{m.SigType, m.SigPub.Signature, m.SigPub.Pubkey})
		}
		o = append(o, x)
	}
	return o, nil
}
func (bitcoinsvA) sign(h string, k []byte) ([]byte, []byte, error) {
	s, err := bitcoinsvTransaction.SignRawTransactionHash(h, k)
	if err != nil {
		return nil, nil, err
	}
	return s.Signature, s.Pubkey, nil
}
func (a bitcoinsvA) insert(tx string, hs []hsh, u []unl, seg bool) (string, error) {
	var o []bitcoinsvTransaction.TxHash
	for _, h := range hs {
		x := bitcoinsvTransaction.TxHash{Hash: h.Hash, NRequired: h.NReq}
		if h.Normal != nil {
			x.Normal = &bitcoinsvTransaction.NormalTx{Address: h.Addr, SigType: h.Normal.SigType, SigPub: bitcoinsvTransaction.SignaturePubkey{Signature: h.Normal.Sig, Pubkey: h.Normal.Pub}}
		}
		for i, m := range h.Multi {
			x.Multi = append(x.Multi, bitcoinsvTransaction.MultiTx{Pubkey: h.Pubkeys[i], SigType: m.SigType, SigPub: bitcoinsvTransaction.SignaturePubkey{Signature: m.Sig, Pubkey: m.Pub}})
		}
		o = append(o, x)
	}
	return bitcoinsvTransaction.InsertSignatureIntoEmptyTransaction(tx, o, a.unl(u), seg)
}
func (a bitcoinsvA) verify(tx string, u []unl, seg bool, p pfx) bool {
	return bitcoinsvTransaction.VerifyRawTransaction(tx, a.unl(u), seg, a.pfx(p))
}
func (bitcoinsvA) decode(tx []byte, seg bool) (*txView, error) {
	t, err := bitcoinsvTransaction.DecodeRawTransaction(tx, seg)
	if err != nil {
		return nil, err
	}
	v := &txView{Version: t.Version, Lock: t.LockTime, Witness: t.Witness, NOuts: len(t.Vouts)}
	for _, i := range t.Vins {
		v.Ins = append(v.Ins, inView{i.GetTxID(), i.GetVout(), i.GetUTXOType()})
	}
	return v, nil
}
func (a bitcoinsvA) multisig(req byte, pubs [][]byte, seg bool, p pfx) (string, string, error) {
	return bitcoinsvTransaction.CreateMultiSig(req, pubs, seg, a.pfx(p))
}
