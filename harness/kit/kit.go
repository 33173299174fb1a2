// Package kit is the shared runtime of the property checks: case budgets, deterministic
// randomness, coverage accounting and a watchdog. It contains no oracle.
package kit

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- statistics

type TestStat struct {
	Cases      int            `json:"cases"`
	Evals      int            `json:"evals"`
	NonTrivial int            `json:"nontrivial"`
	Classes    map[string]int `json:"classes"`
	Samples    []string       `json:"samples"`
}

type dump struct {
	Tests    map[string]*TestStat `json:"tests"`
	Distinct []string             `json:"distinct"`
	Findings []string             `json:"findings"`
}

var (
	mu       sync.Mutex
	stats    = map[string]*TestStat{}
	distinct = map[uint64]struct{}{}
	findings []string
	caseFrom time.Time
	caseName string
	inCase   bool

	devNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
)

// Case is the per-generated-case handle.
type Case struct {
	st   *TestStat
	name string
}

func (c *Case) Eval(n int) {
	mu.Lock()
	defer mu.Unlock()
	c.st.Evals += n
}

// Class counts the case in a behaviour class (reported in the evidence).
func (c *Case) Class(format string, a ...interface{}) {
	k := fmt.Sprintf(format, a...)
	mu.Lock()
	defer mu.Unlock()
	c.st.Classes[k]++
}

// NonTrivial marks the case as non-trivial; key identifies it for the distinct count.
func (c *Case) NonTrivial(key ...interface{}) {
	h := sha256.New()
	fmt.Fprintf(h, "%s|", c.name)
	for _, k := range key {
		switch v := k.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{'|'})
	}
	d := binary.LittleEndian.Uint64(h.Sum(nil))
	mu.Lock()
	defer mu.Unlock()
	c.st.NonTrivial++
	if len(distinct) < 400000 {
		distinct[d] = struct{}{}
	}
}

// Sample keeps a few rendered cases for the evidence file.
func (c *Case) Sample(format string, a ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
	if len(c.st.Samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.st.Samples = append(c.st.Samples, s)
	}
}

// Finding records that a listed known finding still reproduces.
func Finding(id string) {
	mu.Lock()
	defer mu.Unlock()
	for _, f := range findings {
		if f == id {
			return
		}
	}
	findings = append(findings, id)
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func scale() float64 {
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil && f > 0 {
			return f
		}
	}
	return 1
}

func statOf(name string) *TestStat {
	mu.Lock()
	defer mu.Unlock()
	st := stats[name]
	if st == nil {
		st = &TestStat{Classes: map[string]int{}}
		stats[name] = st
	}
	return st
}

// Check runs prop on n generated cases (n is the quick budget of one shard; it is scaled by
// VERIF_SCALE).
func Check(t *testing.T, n int, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	st := statOf(t.Name())
	k := int(float64(n) * scale())
	if k < 1 {
		k = 1
	}
	if Concurrent() {
		together(t, k, st, prop)
		return
	}
	flag.Set("rapid.checks", strconv.Itoa(k))
	run := func(rt *rapid.T) {
		defer memories.Delete(rt)
		ent := rapid.Uint64().Draw(rt, "nonce-entropy")
		rand.Reader = NewPRNG(ent)
		mu.Lock()
		caseFrom, caseName, inCase = time.Now(), t.Name(), true
		st.Cases++
		mu.Unlock()
		out := os.Stdout
		os.Stdout = devNull // some drivers print diagnostics
		defer func() {
			os.Stdout = out
			mu.Lock()
			inCase = false
			mu.Unlock()
		}()
		prop(rt, &Case{st: st, name: t.Name()})
	}
	if History() {
		histories(t, (k+3)/4, st, run)
		return
	}
	rapid.Check(t, run)
}

// Concurrent says whether the properties are to run side by side, several goroutines each.
func Concurrent() bool { return concurrent }

// Brief says whether the run is one of many short ones, in which very large cases have no place.
func Brief() bool { return concurrent || History() }

var concurrent = os.Getenv("VERIF_CONCURRENT") != ""

var (
	flagMu   sync.Mutex
	parallel = map[string]bool{} // used only before the tests go parallel, and read by its own test after
)

// together runs the property from three goroutines at once, next to all other properties of
// the package. The cases of each goroutine are drawn from their own seed.
func together(t *testing.T, k int, st *TestStat, prop func(rt *rapid.T, c *Case)) {
	if !parallel[t.Name()] {
		parallel[t.Name()] = true
		os.Stdout = devNull // some drivers print diagnostics; nothing else runs before t.Parallel
		t.Parallel()
	}
	for g := 0; g < 3; g++ {
		t.Run(fmt.Sprintf("g%d", g), func(t *testing.T) {
			t.Parallel()
			// rapid reads its flags when Check starts, so they stay locked until the first case
			flagMu.Lock()
			var once sync.Once
			defer once.Do(flagMu.Unlock)
			flag.Set("rapid.checks", strconv.Itoa(k))
			rapid.Check(t, func(rt *rapid.T) {
				defer memories.Delete(rt)
				once.Do(flagMu.Unlock)
				rapid.Uint64().Draw(rt, "nonce-entropy")
				mu.Lock()
				st.Cases++
				mu.Unlock()
				prop(rt, &Case{st: st, name: t.Name()})
			})
		})
	}
}

// Once runs a fixed scenario (known findings, exhaustive tables).
func Once(t *testing.T, prop func(c *Case)) {
	st := statOf(t.Name())
	if Concurrent() {
		os.Stdout = devNull
		t.Parallel()
	} else {
		rand.Reader = NewPRNG(42)
	}
	mu.Lock()
	st.Cases++
	mu.Unlock()
	prop(&Case{st: st, name: t.Name()})
}

// Main is called from TestMain of every property package.
func Main(m *testing.M) {
	debug.SetMemoryLimit(3 << 30)
	limit := 150 * time.Second
	go func() {
		for {
			time.Sleep(2 * time.Second)
			mu.Lock()
			if inCase && time.Since(caseFrom) > limit {
				fmt.Fprintf(os.Stderr, "\n--- HANG in %s: one generated case did not finish within %s\n", caseName, limit)
				os.Exit(7)
			}
			mu.Unlock()
		}
	}()
	if Concurrent() {
		rand.Reader = &lockedPRNG{p: NewPRNG(42)}
	}
	rc := m.Run()
	if p := os.Getenv("VERIF_STATS"); p != "" {
		d := dump{Tests: stats, Findings: findings}
		for k := range distinct {
			d.Distinct = append(d.Distinct, strconv.FormatUint(k, 16))
		}
		sort.Strings(d.Distinct)
		b, _ := json.Marshal(d)
		os.WriteFile(p, b, 0o644)
	}
	os.Exit(rc)
}

// ---------------------------------------------------------------- deterministic randomness

type PRNG struct{ s uint64 }

func NewPRNG(seed uint64) *PRNG { return &PRNG{seed} }
func (p *PRNG) Next() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (p *PRNG) Read(b []byte) (int, error) {
	for i := 0; i < len(b); i += 8 {
		v := p.Next()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return len(b), nil
}

type lockedPRNG struct {
	mu sync.Mutex
	p  *PRNG
}

func (l *lockedPRNG) Read(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.p.Read(b)
}

func (p *PRNG) Intn(n int) int { return int(p.Next() % uint64(n)) }

// ---------------------------------------------------------------- generators

// Bytes draws n bytes: mostly uniform, sometimes with leading/trailing zeros or extremes.
func Bytes(t *rapid.T, n int, label string) []byte {
	b := make([]byte, n)
	mode := rapid.IntRange(0, 10).Draw(t, label+".mode")
	m := memoryOf(t)
	defer func() { m.bytes[n] = append(m.bytes[n], string(b)) }()
	switch {
	case mode == 4 && n > 0: // what the case has drawn before
		if old := m.bytes[n]; len(old) > 0 {
			copy(b, old[rapid.IntRange(0, len(old)-1).Draw(t, label+".again")])
			return b
		}
	case mode == 10:
		return b
	case mode == 9:
		for i := range b {
			b[i] = 0xff
		}
		return b
	}
	NewPRNG(rapid.Uint64().Draw(t, label)).Read(b)
	if n == 0 {
		return b
	}
	switch mode {
	case 5:
		k := rapid.IntRange(1, n).Draw(t, label+".lead")
		for i := 0; i < k; i++ {
			b[i] = 0
		}
	case 6:
		k := rapid.IntRange(1, n).Draw(t, label+".trail")
		for i := 0; i < k; i++ {
			b[n-1-i] = 0
		}
	case 7, 8:
		b[0] |= 0x80
	}
	return b
}

func BytesRange(t *rapid.T, lo, hi int, label string) []byte {
	return Bytes(t, rapid.IntRange(lo, hi).Draw(t, label+".len"), label)
}

// Uniform draws n uniform bytes.
func Uniform(t *rapid.T, n int, label string) []byte {
	b := make([]byte, n)
	NewPRNG(rapid.Uint64().Draw(t, label)).Read(b)
	return b
}

// memory holds what a case has drawn so far, so that equal values turn up in one case: a sender that
// pays itself, two outputs of one transaction spent together, one key for two inputs.
type memory struct {
	bytes map[int][]string
	ints  []uint64
	keys  []*big.Int
}

var memories sync.Map // *rapid.T -> *memory

func memoryOf(t *rapid.T) *memory {
	if m, ok := memories.Load(t); ok {
		return m.(*memory)
	}
	m := &memory{bytes: map[int][]string{}}
	memories.Store(t, m)
	return m
}

// multiples of the generator with short coordinates, of secp256k1 and of P-256; bit 4 of the order tells them apart
var shortPoints = [2][]int{
	{153, 246, 886, 122, 130, 533, 44629, 58165, 63439, 41192, 394851, 396508},
	{379, 552, 751, 43, 444, 742, 40393, 116173, 209780, 2376, 61552, 77299},
}

// Scalar draws a private scalar in [1, order-1] as 32 big-endian bytes with edge cases.
func Scalar(t *rapid.T, order *big.Int, label string) []byte {
	mode := rapid.IntRange(0, 15).Draw(t, label+".mode")
	v := new(big.Int)
	m := memoryOf(t)
	defer func() { m.keys = append(m.keys, v) }()
	if mode == 12 && len(m.keys) > 0 { // what the case has drawn before
		v.Set(m.keys[rapid.IntRange(0, len(m.keys)-1).Draw(t, label+".again")])
	}
	switch mode {
	case 11: // public keys whose x or y begins with one or two zero bytes
		v.SetInt64(int64(rapid.SampledFrom(shortPoints[order.Bit(4)]).Draw(t, label+".point")))
		if rapid.Bool().Draw(t, label+".neg") {
			v.Sub(order, v)
		}
	case 12:
		if v.Sign() == 0 {
			v.SetBytes(Uniform(t, 32, label))
		}
	case 15:
		v.SetInt64(int64(rapid.IntRange(1, 5).Draw(t, label+".small")))
	case 14:
		v.Sub(order, big.NewInt(int64(rapid.IntRange(1, 5).Draw(t, label+".top"))))
	case 13:
		v.SetBytes(Uniform(t, rapid.IntRange(1, 31).Draw(t, label+".len"), label))
	default:
		v.SetBytes(Uniform(t, 32, label))
	}
	v.Mod(v, order)
	if v.Sign() == 0 {
		v.SetInt64(1)
	}
	return v.FillBytes(make([]byte, 32))
}

// U64 draws a 64-bit value with boundary bias.
func U64(t *rapid.T, label string) (v uint64) {
	m := memoryOf(t)
	defer func() { m.ints = append(m.ints, v) }()
	mode := rapid.IntRange(0, 4).Draw(t, label+".mode")
	if mode == 1 && len(m.ints) == 0 {
		mode = 0
	}
	switch mode {
	case 1: // what the case has drawn before
		return m.ints[rapid.IntRange(0, len(m.ints)-1).Draw(t, label+".again")]
	case 0:
		return rapid.Uint64().Draw(t, label)
	case 2:
		k := uint(rapid.IntRange(0, 63).Draw(t, label+".bit"))
		d := rapid.IntRange(-2, 2).Draw(t, label+".d")
		return uint64(int64(uint64(1)<<k) + int64(d))
	case 3:
		return rapid.SampledFrom([]uint64{0, 1, 2, 15, 16, 17, 63, 64, 127, 128, 129, 252, 253, 254, 255, 256, 16383, 16384, 65535, 65536, 1<<30 - 1, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1, 2100000000000000}).Draw(t, label+".edge")
	default:
		return rapid.Uint64().Draw(t, label) >> uint(rapid.IntRange(0, 63).Draw(t, label+".sh"))
	}
}

// U64Max draws in [lo,hi] with boundary bias.
func U64Range(t *rapid.T, lo, hi uint64, label string) uint64 {
	v := U64(t, label)
	if v >= lo && v <= hi {
		return v
	}
	span := hi - lo
	if span == ^uint64(0) {
		return v
	}
	return lo + v%(span+1)
}

func U32(t *rapid.T, label string) uint32 { return uint32(U64Range(t, 0, 1<<32-1, label)) }

func Hex(b []byte) string { return hex.EncodeToString(b) }
func UnHex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// Bool with probability 1/n.
func OneIn(t *rapid.T, n int, label string) bool {
	return rapid.IntRange(0, n-1).Draw(t, label) == n-1
}

// Rare is true once in n cases; OneIn, with rapid's preference for the ends of a range, never drops
// below three in a hundred.
func Rare(t *rapid.T, n int, label string) bool {
	v := rapid.Uint64().Draw(t, label)
	return v != 0 && NewPRNG(v).Intn(n) == 0
}

// Pos draws a position in [lo,hi]: uniform, or near the ends as rapid prefers.
func Pos(t *rapid.T, lo, hi int, label string) int {
	if hi <= lo {
		return lo
	}
	if v := rapid.Uint64().Draw(t, label+".u"); v%4 != 0 {
		return lo + NewPRNG(v).Intn(hi-lo+1)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

func Str(t *rapid.T, alphabet string, lo, hi int, label string) string {
	n := rapid.IntRange(lo, hi).Draw(t, label+".len")
	p := NewPRNG(rapid.Uint64().Draw(t, label))
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteByte(alphabet[p.Intn(len(alphabet))])
	}
	return sb.String()
}

// ---------------------------------------------------------------- guarded calls

// NoPanic runs f and returns a description of the panic it raised, or "".
func NoPanic(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			where := ""
			for _, l := range st {
				if strings.Contains(l, "go-owcdrivers/") || strings.Contains(l, "/repo/") {
					where = strings.TrimSpace(l)
					break
				}
			}
			msg = fmt.Sprintf("panic: %v at %s", r, where)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// Before makes, in part of the cases, a call that the one under judgement follows: what a driver keeps of
// a good call must not make it take a bad one.
func Before(t *rapid.T, f func()) {
	if OneIn(t, 3, "before") {
		if m := NoPanic(f); m != "" {
			t.Fatalf("%s", m)
		}
	}
}

// MutHex returns a mutated copy of a hex string: byte flips, truncation, extension, splice.
func MutHex(t *rapid.T, s string, label string) string {
	b, err := hex.DecodeString(s)
	if err != nil {
		return MutStr(t, s, label)
	}
	return hex.EncodeToString(MutBytes(t, b, label))
}

func MutBytes(t *rapid.T, in []byte, label string) []byte {
	b := append([]byte{}, in...)
	n := rapid.IntRange(1, 3).Draw(t, label+".n")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 6).Draw(t, label+".op") {
		case 0: // bit flip
			if len(b) > 0 {
				p := Pos(t, 0, len(b)-1, label+".p")
				b[p] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, label+".bit"))
			}
		case 1: // set interesting
			if len(b) > 0 {
				p := Pos(t, 0, len(b)-1, label+".p")
				b[p] = rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff}).Draw(t, label+".v")
			}
		case 2: // truncate
			if len(b) > 0 {
				b = b[:Pos(t, 0, len(b)-1, label+".cut")]
			}
		case 3: // drop head
			if len(b) > 0 {
				b = b[Pos(t, 1, len(b), label+".drop"):]
			}
		case 4: // append
			b = append(b, BytesRange(t, 1, 40, label+".app")...)
		case 5: // delete range
			if len(b) > 1 {
				p := Pos(t, 0, len(b)-1, label+".p")
				q := Pos(t, p, len(b), label+".q")
				b = append(b[:p:p], b[q:]...)
			}
		case 6: // insert
			p := Pos(t, 0, len(b), label+".p")
			ins := BytesRange(t, 1, 4, label+".ins")
			b = append(b[:p:p], append(ins, b[p:]...)...)
		}
	}
	return b
}

func MutStr(t *rapid.T, in string, label string) string {
	return string(MutBytes(t, []byte(in), label))
}

// SeedRand replaces the process' entropy source by a deterministic one, so that a signature made by
// the code under test is a function of the drawn seed.
func SeedRand(seed uint64) {
	if !Concurrent() {
		rand.Reader = NewPRNG(seed)
	}
}

// MixCase changes the letter case of a part of s: all of it, up to a place, from a place on, one letter, or some letters.
func MixCase(t *rapid.T, s string, label string) string {
	if len(s) == 0 {
		return s
	}
	mode := rapid.IntRange(0, 5).Draw(t, label+".case")
	at := Pos(t, 0, len(s)-1, label+".at")
	if i := strings.IndexByte(s, '1'); mode < 4 && i >= 0 && rapid.Bool().Draw(t, label+".one") {
		at = i
	}
	set := NewPRNG(uint64(at)*977 + uint64(mode))
	b := []byte(s)
	for i := range b {
		flip := mode == 0 || mode == 1 && i < at || mode == 2 && i >= at || (mode == 3 || mode == 4) && i == at || mode == 5 && set.Intn(2) == 0
		if !flip {
			continue
		}
		switch c := b[i]; {
		case c >= 'a' && c <= 'z':
			b[i] = c - 32
		case c >= 'A' && c <= 'Z':
			b[i] = c + 32
		}
	}
	return string(b)
}

// MutAddr damages an address: its characters, their letter case, or one character near the end - the
// checksum, in most formats - which becomes another one of the alphabet; or one byte of what it encodes.
func MutAddr(t *rapid.T, s string, label string) string {
	switch rapid.IntRange(0, 3).Draw(t, label+".what") {
	case 0:
		return MixCase(t, s, label)
	case 1:
		if n := len(s); n > 8 {
			b := []byte(s)
			b[n-1-rapid.IntRange(0, 6).Draw(t, label+".end")] = s[rapid.IntRange(n/4, n-1).Draw(t, label+".by")]
			return string(b)
		}
	case 2: // one byte of the checksum, or any other one, in the formats with a base-58 text
		alpha := ref.B58BTC
		if len(s) > 0 && s[0] == 'r' {
			alpha = ref.B58XRP
		}
		if b, err := ref.B58Dec(s, alpha); err == nil && len(b) > 5 {
			i := len(b) - 1 - rapid.IntRange(0, 3).Draw(t, label+".sum")
			if OneIn(t, 4, label+".any") {
				i = Pos(t, 0, len(b)-1, label+".byte")
			}
			b[i] ^= byte(rapid.IntRange(1, 255).Draw(t, label+".xor"))
			return ref.B58Enc(b, alpha)
		}
	}
	return MutStr(t, s, label)
}
