package kit

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"testing"

	"pgregory.net/rapid"
)

// History says whether the properties run in histories of related cases: each case of a history repeats an
// earlier one of it exactly or with one to three of its drawn numbers changed, so that consecutive calls
// share most of their arguments. Every case is judged by the property's own oracle, hence by its own
// arguments alone; what a call leaves behind for a later one (a result remembered under a part of its
// arguments, a buffer or a setting kept) shows as a wrong answer.
func History() bool { return history }

var history = os.Getenv("VERIF_HISTORY") != ""

// A recorded history: the numbers from which each case draws its values.
type record struct {
	Test  string   `json:"test"`
	Steps []string `json:"steps"`
}

// used is how many of the n numbers on offer the case drew.
func used(rt *rapid.T, n int) (u int) {
	u = n
	defer func() { recover() }()
	b := reflect.ValueOf(rt).Elem().FieldByName("s").Elem().Elem().FieldByName("buf")
	return n - b.Len()
}

func pack(w []uint64) []byte {
	b := make([]byte, 8*len(w))
	for i, v := range w {
		for j := 0; j < 8; j++ {
			b[8*i+j] = byte(v >> uint(8*j))
		}
	}
	return b
}

func histories(t *testing.T, n int, st *TestStat, prop func(rt *rapid.T)) {
	drawn := 0
	total := 0
	fuzz := rapid.MakeFuzz(func(rt *rapid.T) {
		defer func() { drawn = used(rt, total) }()
		prop(rt)
	})
	step := func(name string, b []byte) bool {
		total = len(b) / 8
		drawn = total
		return t.Run(name, func(t *testing.T) { fuzz(t, b) })
	}
	if f := os.Getenv("VERIF_HISTORY_REPLAY"); f != "" {
		var r record
		raw, _ := os.ReadFile(f)
		if err := json.Unmarshal(raw, &r); err != nil || r.Test != t.Name() {
			return
		}
		for i, s := range r.Steps {
			b, _ := hex.DecodeString(s)
			step(fmt.Sprintf("replay.%d", i), b)
		}
		return
	}
	seed, _ := strconv.ParseUint(flag.Lookup("rapid.seed").Value.String(), 10, 64)
	for _, c := range t.Name() {
		seed = seed*1099511628211 + uint64(c)
	}
	p := NewPRNG(seed)
	for h := 0; h < n; h++ {
		type kase struct {
			w []uint64
			n int // numbers drawn from w
		}
		var l []kase
		var rec record
		rec.Test = t.Name()
		for i := 0; i < 5; i++ {
			var w []uint64
			if i == 0 {
				w = make([]uint64, 6000)
				for j := range w {
					w[j] = p.Next()
				}
			} else {
				from := l[p.Intn(len(l))]
				w = append([]uint64{}, from.w...)
				if i != 3 && from.n > 0 {
					for k := p.Intn(3) + 1; k > 0; k-- {
						j := p.Intn(from.n)
						switch p.Intn(4) {
						case 0:
							w[j]++
						case 1:
							w[j] ^= 1 << uint(p.Intn(64))
						default:
							w[j] = p.Next()
						}
					}
				}
			}
			ok := step(fmt.Sprintf("h%d.%d", h, i), pack(w))
			l = append(l, kase{w, drawn})
			rec.Steps = append(rec.Steps, hex.EncodeToString(pack(w[:drawn])))
			if !ok {
				b, _ := json.Marshal(rec)
				if d := os.Getenv("VERIF_STATS"); d != "" {
					os.WriteFile(d+".history", b, 0o644)
				}
				return
			}
		}
	}
}
