package btcfam

import (
	"testing"

	"pgregory.net/rapid"
	"verif/harness/kit"
	"verif/harness/ref"
)

func TestMain(m *testing.M) { kit.Main(m) }

// Neutral types; adapters_*_test.go convert them to each driver's own.
type vin struct {
	Txid string
	Vout uint32
}
type vout struct {
	Addr   string
	Amount uint64
}
type unl struct {
	Lock, Redeem string
	Amount       uint64
	SigType      byte
}
type pfx struct {
	pkh, sh, sh2 []byte
	hrp          string
}
type sp struct {
	SigType  byte
	Sig, Pub []byte
}
type hsh struct {
	Hash    string
	NReq    byte
	Addr    string // Normal
	Normal  *sp
	Pubkeys []string
	Multi   []sp
}
type inView struct {
	Txid string
	Vout uint32
	Type int
}
type txView struct {
	Version, Lock []byte
	Witness       bool
	Ins           []inView
	NOuts         int
}
type omni struct {
	Type      int
	Prop      uint32
	Amount    uint64
	Ecosystem byte
	Memo      string
	Address   string
}
type extra struct {
	blockHash string
	height    uint64
	omni      omni
}

type drv interface {
	create(vins []vin, vouts []vout, lock uint32, rbf bool, p pfx, x extra) (string, error)
	hashes(tx string, u []unl, seg bool, p pfx) ([]hsh, error)
	sign(hash string, key []byte) (sig, pub []byte, err error)
	insert(tx string, h []hsh, u []unl, seg bool) (string, error)
	verify(tx string, u []unl, seg bool, p pfx) bool
	decode(tx []byte, seg bool) (*txView, error)
	multisig(req byte, pubs [][]byte, seg bool, p pfx) (string, string, error)
}

type driver struct {
	drv
	name    string
	version uint32
	segwit  bool
	fork    bool
	sh2     bool // the driver knows the second script hash version
	omni    bool // transactions always carry a payload
	zen     bool
	multi   bool
	bech    bool
	cash    bool // reports input addresses in cashaddr form
	ht      byte
	pfxs    []pfx
}

var btcPfx = []pfx{{[]byte{0}, []byte{5}, nil, "bc"}, {[]byte{0x6f}, []byte{0xc4}, nil, "tb"}}
var allPfx = append(append([]pfx{}, btcPfx...),
	pfx{[]byte{0x30}, []byte{5}, nil, "ltc"}, pfx{[]byte{0x6f}, []byte{0xc4}, nil, "tltc"},
	pfx{[]byte{0x1c, 0xb8}, []byte{0x1c, 0xbd}, nil, ""}, pfx{[]byte{0x1d, 0x25}, []byte{0x1c, 0xba}, nil, ""})
var allPfx2 = append(append([]pfx{}, btcPfx...),
	pfx{[]byte{0x30}, []byte{5}, []byte{0x32}, "ltc"}, pfx{[]byte{0x6f}, []byte{0xc4}, []byte{0x3a}, "tltc"},
	pfx{[]byte{0x1c, 0xb8}, []byte{0x1c, 0xbd}, nil, ""}, pfx{[]byte{0x1d, 0x25}, []byte{0x1c, 0xba}, nil, ""})

var drivers = []driver{
	{drv: btcA{}, name: "btc", version: 2, segwit: true, sh2: true, multi: true, bech: true, ht: 1, pfxs: allPfx2},
	{drv: hcA{}, name: "hc", version: 2, segwit: true, multi: true, bech: true, ht: 1, pfxs: btcPfx},
	{drv: omniA{}, name: "omni", version: 2, omni: true, multi: true, bech: true, ht: 1, pfxs: btcPfx},
	{drv: cxcA{}, name: "cxc", version: 1, segwit: true, multi: true, bech: true, ht: 1, pfxs: allPfx},
	{drv: zencashA{}, name: "zencash", version: 1, zen: true, ht: 1, pfxs: []pfx{{[]byte{0x20, 0x89}, []byte{0x20, 0x96}, nil, "bc"}}},
	{drv: bitcoincashA{}, name: "bitcoincash", version: 1, fork: true, sh2: true, multi: true, cash: true, ht: 0x41, pfxs: allPfx2},
	{drv: bitcoinsvA{}, name: "bitcoinsv", version: 1, fork: true, sh2: true, multi: true, ht: 0x41, pfxs: allPfx2},
}

func drawDriver(t *rapid.T) *driver {
	return &drivers[kit.Pos(t, 0, len(drivers)-1, "driver")]
}
func drawPfx(t *rapid.T, d *driver) pfx {
	return d.pfxs[kit.Pos(t, 0, len(d.pfxs)-1, "net")]
}

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func addr58(v, h []byte) string { return ref.B58CheckEnc(ref.Cat(v, h), b58, "doubleSHA256") }

// suffix a zencash output script carries
func zenSuffix(x extra) []byte {
	h := ref.Rev(kit.UnHex(x.blockHash))
	le := ref.LE64(x.height)
	n := 8
	for n > 0 && le[n-1] == 0 {
		n--
	}
	le = le[:n]
	if n > 0 && le[n-1]&0x80 != 0 {
		le = append(le, 0)
	}
	return ref.Cat([]byte{32}, h, []byte{byte(len(le))}, le, []byte{0xb4})
}

// scriptFor is the reference mapping from an address to the lock script it stands for.
func scriptFor(d *driver, p pfx, a string, x extra) ([]byte, bool) {
	if d.bech && p.hrp != "" {
		if h, g, k, err := ref.Bech32Dec(a); err == nil {
			if h != p.hrp || k != 1 || len(g) == 0 || g[0] != 0 {
				return nil, false
			}
			prog, err := ref.Bits5to8(g[1:])
			if err != nil || (len(prog) != 20 && len(prog) != 32) {
				return nil, false
			}
			return ref.Cat([]byte{0, byte(len(prog))}, prog), true
		}
	}
	b, err := ref.B58CheckDec(a, b58, "doubleSHA256")
	if err != nil || len(b) < 21 {
		return nil, false
	}
	v, h := string(b[:len(b)-20]), b[len(b)-20:]
	var s []byte
	switch {
	case v == string(p.pkh):
		s = ref.P2PKH(h)
	case v == string(p.sh), d.sh2 && p.sh2 != nil && v == string(p.sh2):
		s = ref.P2SH(h)
	default:
		return nil, false
	}
	if d.zen {
		s = append(s, zenSuffix(x)...)
	}
	return s, true
}

func drawAddr(t *rapid.T, d *driver, p pfx, l string) string {
	k := rapid.IntRange(0, 4).Draw(t, l+".kind")
	h := kit.Bytes(t, 20, l+".hash")
	switch {
	case k == 1:
		return addr58(p.sh, h)
	case k == 2 && d.sh2 && p.sh2 != nil:
		return addr58(p.sh2, h)
	case k == 3 && d.bech && p.hrp != "":
		return ref.SegwitAddr(p.hrp, 0, h)
	case k == 4 && d.bech && p.hrp != "":
		return ref.SegwitAddr(p.hrp, 0, kit.Bytes(t, 32, l+".prog"))
	}
	return addr58(p.pkh, h)
}

var omniTypes = []int{0, 4, 22, 28, 53, 55, 56, 70, 71, 72, 185, 186}

func drawOmni(t *rapid.T) omni {
	o := omni{Type: rapid.SampledFrom(omniTypes).Draw(t, "omni.type"), Prop: kit.U32(t, "omni.prop"), Amount: kit.U64(t, "omni.amount"),
		Ecosystem: byte(rapid.IntRange(0, 255).Draw(t, "omni.eco"))}
	n := rapid.SampledFrom([]int{0, 1, 10, 40, 54, 55, 56, 57, 58, 59, 100, 200, 229, 230, 231, 232, 233, 234, 235, 236, 238, 239, 240, 254, 255, 256, 300}).Draw(t, "omni.memolen")
	o.Memo = string(kit.Uniform(t, n, "omni.memo"))
	o.Address = addr58([]byte{rapid.SampledFrom([]byte{0, 5, 0x6f, 0xc4}).Draw(t, "omni.av")}, kit.Bytes(t, 20, "omni.addr"))
	return o
}

// omniScript is the class C payload output defined by the Omni protocol.
func omniScript(o omni) []byte {
	p := ref.Cat([]byte("omni"), ref.BE16(0), ref.BE16(uint16(o.Type)))
	switch o.Type {
	case 0, 22:
		p = ref.Cat(p, ref.BE32(o.Prop), ref.BE64(o.Amount))
	case 4, 28:
		p = append(p, o.Ecosystem)
	case 53, 70, 71, 72:
		p = append(p, ref.BE32(o.Prop)...)
	case 55, 56:
		m := o.Memo
		if len(m) > 255 {
			m = m[:255]
		}
		p = ref.Cat(p, ref.BE32(o.Prop), ref.BE64(o.Amount), []byte(m), []byte{0})
	case 185, 186:
		b, err := ref.B58CheckDec(o.Address, b58, "doubleSHA256")
		if err != nil {
			return nil
		}
		p = ref.Cat(p, ref.BE32(o.Prop), ref.BE64(o.Amount), b)
	default:
		return nil
	}
	return ref.Cat([]byte{0x6a}, ref.Push(p))
}

func drawExtra(t *rapid.T, d *driver) extra {
	var x extra
	if d.zen {
		x.blockHash = kit.Hex(kit.Bytes(t, 32, "blockhash"))
		x.height = kit.U64Range(t, 17, 1<<32-1, "height")
	}
	if d.omni {
		x.omni = drawOmni(t)
	}
	return x
}

func count(t *rapid.T, l string) int {
	if kit.OneIn(t, 30, l+".big") {
		if kit.OneIn(t, 3, l+".mid") {
			return kit.Pos(t, 6, 130, l+".n")
		}
		return rapid.SampledFrom([]int{127, 128, 252, 253, 254, 255, 256, 257, 300}).Draw(t, l+".n")
	}
	return rapid.IntRange(1, 5).Draw(t, l+".n")
}

func drawVins(t *rapid.T, n int) []vin {
	o := make([]vin, n)
	p := kit.NewPRNG(rapid.Uint64().Draw(t, "vins.seed"))
	for i := range o {
		if i < 6 {
			o[i] = vin{kit.Hex(kit.Bytes(t, 32, "txid")), kit.U32(t, "vout")}
		} else {
			b := make([]byte, 32)
			p.Read(b)
			o[i] = vin{kit.Hex(b), uint32(p.Next())}
		}
	}
	return o
}

func drawVouts(t *rapid.T, d *driver, p pfx, n int) []vout {
	o := make([]vout, n)
	r := kit.NewPRNG(rapid.Uint64().Draw(t, "vouts.seed"))
	for i := range o {
		if i < 6 {
			o[i] = vout{drawAddr(t, d, p, "addr"), kit.U64(t, "amount")}
		} else {
			b := make([]byte, 20)
			r.Read(b)
			o[i] = vout{addr58(p.pkh, b), r.Next()}
		}
	}
	return o
}

// refTx is the unsigned transaction the request stands for; ok is false when an output address is not valid.
func refTx(d *driver, p pfx, ins []vin, outs []vout, lock uint32, rbf bool, x extra) (*ref.BTx, bool) {
	t := &ref.BTx{Version: d.version, Lock: lock}
	seq := uint32(0xffffffff)
	if rbf {
		seq = 0xfffffffd
	} else if lock != 0 {
		seq = 0xfffffffe
	}
	for _, i := range ins {
		t.Ins = append(t.Ins, ref.BIn{Txid: ref.Rev(kit.UnHex(i.Txid)), Vout: i.Vout, Seq: seq})
	}
	for _, o := range outs {
		s, ok := scriptFor(d, p, o.Addr, x)
		if !ok {
			return nil, false
		}
		t.Outs = append(t.Outs, ref.BOut{Amount: o.Amount, Script: s})
	}
	if d.omni {
		t.Outs = append(t.Outs, ref.BOut{Amount: 0, Script: omniScript(x.omni)})
	}
	return t, true
}
