// Command vharness runs the property checks of /verif against the go-trees packages it is built with.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// tbase implements rapid.TB for runs outside "go test".
type tbase struct {
	name   string
	failed bool
	msg    string
}

type failNow struct{}

func (t *tbase) Helper()                           {}
func (t *tbase) Name() string                      { return t.name }
func (t *tbase) Logf(f string, a ...interface{})   {}
func (t *tbase) Log(a ...interface{})              {}
func (t *tbase) Skipf(f string, a ...interface{})  { panic("skip") }
func (t *tbase) Skip(a ...interface{})             { panic("skip") }
func (t *tbase) SkipNow()                          { panic("skip") }
func (t *tbase) Errorf(f string, a ...interface{}) { t.failed = true; t.msg += fmt.Sprintf(f, a...) }
func (t *tbase) Error(a ...interface{})            { t.failed = true; t.msg += fmt.Sprint(a...) }
func (t *tbase) Fatalf(f string, a ...interface{}) {
	t.failed = true
	t.msg += fmt.Sprintf(f, a...)
	panic(failNow{})
}
func (t *tbase) Fatal(a ...interface{}) {
	t.failed = true
	t.msg += fmt.Sprint(a...)
	panic(failNow{})
}
func (t *tbase) FailNow()     { t.failed = true; panic(failNow{}) }
func (t *tbase) Fail()        { t.failed = true }
func (t *tbase) Failed() bool { return t.failed }

type result struct {
	Status string `json:"status"` // ok | violation | error
	Error  string `json:"error,omitempty"`
	Case   *Case  `json:"case,omitempty"`
	Stats  *Stats `json:"stats,omitempty"`
	Rule   string `json:"rule,omitempty"`
	// Regs is the number of committed regression cases executed first.
	Regs int `json:"regs"`
	Exh  int `json:"exhaustive_cases"`
}

// procBase is the number of goroutines when nothing of the library was called; the first case that looks at
// it sets it to zero.
var procBase int

func main() {
	procBase = 1 // this one: packages that are only imported have no business running either
	testing.Init()
	prop := flag.String("prop", "", "property id")
	seed := flag.Uint64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "number of shards")
	tier := flag.String("tier", "quick", "tier")
	scale := flag.Float64("scale", 1, "multiplies the number of cases")
	out := flag.String("out", "", "result file")
	hashes := flag.String("hashes", "", "file for hashes of non-trivial cases")
	cur := flag.String("cur", "", "file holding the case being executed")
	replay := flag.String("replay", "", "replay one case file")
	regs := flag.String("regs", "", "file with regression cases (one JSON case per line)")
	lits := flag.Bool("literals", false, "print the literals of the sources named by VH_REPO, for dict_base.txt")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()

	if *lits {
		for l := range sourceLiterals(os.Getenv("VH_REPO")) {
			fmt.Println(l)
		}
		return
	}
	if *list {
		for id := range props {
			fmt.Println(id)
		}
		return
	}
	debug.SetGCPercent(400)

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		if c.Prop != "C25" {
			growValues()
		}
		p := props[c.Prop]
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property", c.Prop)
			os.Exit(3)
		}
		if err := runCase(p, &c, newStats()); err != nil {
			fmt.Println("FAIL", err)
			os.Exit(1)
		}
		fmt.Println("PASS")
		return
	}

	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	if *prop != "C25" {
		growValues()
	}
	loadDict(os.Getenv("VH_REPO"))
	res := work(p, *seed, *shard, *shards, *tier, *scale, *cur, *regs, *hashes)
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := os.WriteFile(*out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	switch res.Status {
	case "ok":
	case "violation":
		os.Exit(1)
	default:
		fmt.Fprintln(os.Stderr, res.Error)
		os.Exit(3)
	}
}

func work(p *Prop, seed uint64, shard, shards int, tier string, scale float64, cur, regs, hashes string) (res *result) {
	st := newStats()
	res = &result{Status: "ok", Stats: st, Rule: p.Rule}
	var cf *curFile
	if cur != "" {
		f, err := os.Create(cur)
		if err != nil {
			return &result{Status: "error", Error: err.Error()}
		}
		cf = &curFile{f: f}
	}
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				res = &result{Status: "error", Error: string(h)}
				return
			}
			panic(r)
		}
	}()

	announce = cf.put
	var failed *Case
	var failErr error
	exec := func(c *Case) bool {
		c.Prop = p.ID
		cf.put(c)
		if err := runCase(p, c, st); err != nil {
			failed, failErr = c, err
			return false
		}
		return true
	}

	// Regression cases first (shard 0), then the enumerated family, then random search.
	if regs != "" && shard == 0 {
		n, err := eachReg(regs, p.ID, exec)
		if err != nil {
			return &result{Status: "error", Error: err.Error()}
		}
		res.Regs = n
	}
	if failed == nil && p.Exhaust != nil {
		i := 0
		p.Exhaust(tier, func(c *Case) bool {
			i++
			if i%shards != shard {
				return true
			}
			res.Exh++
			return exec(c)
		})
	}
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	n = int(float64(n)*scale+float64(shards)-1) / shards
	if failed == nil && n > 0 && p.Gen != nil {
		rseed := mix(mix(seed+0x1234567)+uint64(shard)*0x9e3779b97f4a7c15+uint64(len(p.ID))) >> 2
		for _, ch := range p.ID {
			rseed = mix(rseed^uint64(ch)) >> 2
		}
		if rseed == 0 {
			rseed = 1
		}
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.seed", strconv.FormatUint(rseed, 10))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "3s")
		tb := &tbase{name: "P" + p.ID}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(failNow); !ok {
						panic(r)
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				c := p.Gen(newG(t))
				if !exec(c) {
					t.Fatalf("violation")
				}
			})
		}()
		if tb.failed && failed == nil {
			return &result{Status: "error", Error: "rapid reported a failure without a failing case: " + tb.msg}
		}
	}
	if failed != nil {
		small := shrinkCase(failed, func(c *Case) bool {
			cf.put(c)
			return failsWith(p, c) != nil
		}, 15*time.Second)
		err := failsWith(p, small)
		if err == nil {
			small, err = failed, failErr
		}
		res.Status = "violation"
		res.Error = err.Error()
		res.Case = small
	}
	if hashes != "" {
		b := make([]byte, 0, 8*len(st.hashes))
		for h := range st.hashes {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		if err := os.WriteFile(hashes, b, 0644); err != nil {
			return &result{Status: "error", Error: err.Error()}
		}
	}
	return res
}

func eachReg(file, id string, exec func(*Case) bool) (int, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		if os.IsNotExist(err) {
			return 0, nil
		}
		return 0, err
	}
	n := 0
	start := 0
	for i := 0; i <= len(b); i++ {
		if i == len(b) || b[i] == '\n' {
			line := b[start:i]
			start = i + 1
			if len(line) == 0 {
				continue
			}
			var c Case
			if err := json.Unmarshal(line, &c); err != nil {
				return n, err
			}
			if c.Prop != id {
				continue
			}
			n++
			if !exec(&c) {
				return n, nil
			}
		}
	}
	return n, nil
}
