package main

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// Cases: everything a check executes is written out as data, so a failing case
// can be stored, shrunk and replayed without the random generator.

// BS is a byte string with a readable JSON form: "t:..." for printable ASCII, "x:hex" otherwise.
type BS []byte

func (b BS) MarshalJSON() ([]byte, error) {
	plain := true
	for _, c := range b {
		if c < ' ' || c > '~' || c == '"' || c == '\\' || c == '<' || c == '>' || c == '&' {
			plain = false
			break
		}
	}
	out := make([]byte, 0, len(b)*2+4)
	if plain {
		out = append(out, `"t:`...)
		out = append(out, b...)
		return append(out, '"'), nil
	}
	out = append(out, `"x:`...)
	out = append(out, hex.EncodeToString(b)...)
	return append(out, '"'), nil
}

func (b *BS) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	if strings.HasPrefix(s, "t:") {
		*b = BS(s[2:])
		return nil
	}
	if strings.HasPrefix(s, "x:") {
		v, err := hex.DecodeString(s[2:])
		*b = v
		return err
	}
	return fmt.Errorf("bad byte string %q", s)
}

// Key is a key of any tree kind.
type Key struct {
	S  BS     `json:"s,omitempty"`  // string keys, binary labels, raw text
	L  []BS   `json:"l,omitempty"`  // domain names: canonical labels, top-level label first
	F  int    `json:"f,omitempty"`  // IP family: 4 or 6
	Hi uint64 `json:"hi,omitempty"` // numeric keys, high half of IPv6, IPv4 (in the top 32 bits)
	Lo uint64 `json:"lo,omitempty"` // low half of IPv6
	B  int    `json:"b,omitempty"`  // prefix length
}

// Op is one operation; the meaning of the fields depends on O and the tree kind.
type Op struct {
	O string `json:"o"`
	K int    `json:"k,omitempty"` // index into Case.Keys
	V int    `json:"v,omitempty"` // value token
	W uint64 `json:"w,omitempty"` // spelling/variant selector
	T int    `json:"t,omitempty"` // tree version / enumeration / goroutine selector
	N int    `json:"n,omitempty"` // repeat count
}

// Case is one generated test case.
type Case struct {
	Prop string            `json:"prop"`
	Kind string            `json:"kind,omitempty"`
	Pkg  string            `json:"pkg,omitempty"`
	Cfg  map[string]string `json:"cfg,omitempty"`
	Keys []Key             `json:"keys,omitempty"`
	Ops  []Op              `json:"ops,omitempty"`
}

func (c *Case) cfg(k string) string { return c.Cfg[k] }

func (c *Case) hash() uint64 {
	b, _ := json.Marshal(c)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// ---------------------------------------------------------------------------
// Random source: every choice is a draw from rapid's bit stream. rapid biases integer
// draws towards small values; salting and mixing them keeps indices close to uniform.

type G struct {
	t     *rapid.T
	salt  uint64
	magic bool // this case draws from the dictionary now and then
}

func newG(t *rapid.T) *G {
	g := &G{t: t}
	g.salt = rapid.Uint64().Draw(t, "salt")*0x9e3779b97f4a7c15 ^ rapid.Uint64().Draw(t, "salt2")
	g.magic = len(dict.ints) > 0 && g.P(15)
	return g
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

var u64gen = rapid.Uint64()

func (g *G) U64() uint64 { return mix(u64gen.Draw(g.t, "") ^ g.salt) }

// Int returns a number in [0, n).
func (g *G) Int(n int) int {
	if n <= 1 {
		return 0
	}
	return int(g.U64() % uint64(n))
}

// Range returns a number in [a, b].
func (g *G) Range(a, b int) int { return a + g.Int(b-a+1) }

// P is true with probability pct percent.
func (g *G) P(pct int) bool { return g.Int(100) < pct }

// W picks an index with the given weights.
func (g *G) W(w ...int) int {
	s := 0
	for _, x := range w {
		s += x
	}
	r := g.Int(s)
	for i, x := range w {
		if r < x {
			return i
		}
		r -= x
	}
	return len(w) - 1
}

func pick[T any](g *G, xs []T) T { return xs[g.Int(len(xs))] }

// rnd is a deterministic sub-stream derived from a selector stored in the case.
type rnd struct{ s uint64 }

func (r *rnd) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}
func (r *rnd) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// ---------------------------------------------------------------------------
// Properties and statistics

type Stats struct {
	Evals    int            `json:"evaluations"`
	NT       int            `json:"nontrivial"`
	Classes  map[string]int `json:"classes"`
	Sizes    map[string]int `json:"sizes"`
	Samples  []*Case        `json:"samples"`
	Executed int            `json:"executed_ops"`
	hashes   map[uint64]struct{}
	cur      *Case
	curNT    bool
}

func newStats() *Stats {
	return &Stats{Classes: map[string]int{}, Sizes: map[string]int{}, hashes: map[uint64]struct{}{}}
}

// nt marks the current case as non-trivial.
func (s *Stats) nt() { s.curNT = true }

// class counts one occurrence of a named class of cases.
func (s *Stats) class(n string) { s.Classes[n]++ }

func (s *Stats) begin(c *Case) { s.cur = c; s.curNT = false; s.Evals++ }

func (s *Stats) end(c *Case) {
	n := len(c.Ops)
	b := "ops:0"
	switch {
	case n == 0:
	case n <= 8:
		b = "ops:1-8"
	case n <= 32:
		b = "ops:9-32"
	case n <= 128:
		b = "ops:33-128"
	default:
		b = "ops:>128"
	}
	s.Sizes[b]++
	s.Executed += n
	if s.curNT {
		h := c.hash()
		if _, ok := s.hashes[h]; !ok {
			s.hashes[h] = struct{}{}
			s.NT++
			if len(s.Samples) < 3 || (len(s.Samples) < 6 && h%64 == 0) {
				if len(c.Ops) <= 40 && len(c.Keys) <= 40 || len(s.Samples) == 0 && s.Evals > 200 {
					s.Samples = append(s.Samples, c)
				}
			}
		}
	}
}

type Prop struct {
	ID   string
	Rule string
	// Gen builds a random case; Run executes it against its oracle.
	Gen func(g *G) *Case
	Run func(c *Case, st *Stats) error
	// Exhaust, when set, enumerates a finite family of cases (the same ones whatever the seed);
	// shard i of n takes every n-th.
	Exhaust         func(tier string, emit func(*Case) bool)
	Quick, Thorough int // number of random cases over all shards
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// errf makes an oracle disagreement.
func errf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

// runCase executes one case and turns panics of the code under test into failures.
func runCase(p *Prop, c *Case, st *Stats) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(harnessError); ok {
				panic(r)
			}
			buf := make([]byte, 6000)
			buf = buf[:runtime.Stack(buf, false)]
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(buf)))
		}
	}()
	st.begin(c)
	err = p.Run(c, st)
	st.end(c)
	return err
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "go-trees") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// harnessError marks mistakes of the harness itself: they end the check with an error, not a violation.
type harnessError string

func harnessFail(f string, a ...interface{}) { panic(harnessError(fmt.Sprintf(f, a...))) }

// ---------------------------------------------------------------------------
// Shrinking of cases (data, not random bits): drop operations, then keys, then simplify fields.

func failsWith(p *Prop, c *Case) error {
	return runCase(p, c, newStats())
}

func cloneCase(c *Case) *Case {
	d := *c
	d.Keys = append([]Key(nil), c.Keys...)
	d.Ops = append([]Op(nil), c.Ops...)
	d.Cfg = map[string]string{}
	for k, v := range c.Cfg {
		d.Cfg[k] = v
	}
	return &d
}

func shrinkCase(c *Case, fails func(*Case) bool, budget time.Duration) *Case {
	stop := time.Now().Add(budget)
	ok := func(d *Case) bool { return time.Now().Before(stop) && fails(d) }
	cur := cloneCase(c)
	if n, err := strconv.Atoi(c.cfg("n")); err == nil { // size of a generated tree
		lo := 0
		for n-lo > 1 {
			d := cloneCase(cur)
			d.Cfg["n"] = strconv.Itoa((lo + n) / 2)
			if ok(d) {
				n, cur = (lo+n)/2, d
			} else {
				lo = (lo + n) / 2
			}
		}
	}
	for pass := 0; pass < 4; pass++ {
		before, _ := json.Marshal(cur)
		// operations
		for sz := (len(cur.Ops) + 1) / 2; sz >= 1; sz /= 2 {
			for i := 0; i+sz <= len(cur.Ops); {
				d := cloneCase(cur)
				d.Ops = append(d.Ops[:i:i], cur.Ops[i+sz:]...)
				if ok(d) {
					cur = d
				} else {
					i += sz
				}
			}
			if time.Now().After(stop) {
				break
			}
		}
		// keys not referenced: drop from the end and renumber
		for i := len(cur.Keys) - 1; i >= 0; i-- {
			d := cloneCase(cur)
			d.Keys = append(d.Keys[:i:i], cur.Keys[i+1:]...)
			for j := range d.Ops {
				if d.Ops[j].K > i {
					d.Ops[j].K--
				}
			}
			if len(d.Keys) > 0 && ok(d) {
				cur = d
			}
		}
		// fields
		for i := range cur.Ops {
			for _, f := range []func(*Op){
				func(o *Op) { o.W = 0 }, func(o *Op) { o.N = 0 }, func(o *Op) { o.N /= 2 }, func(o *Op) { o.T = 0 }, func(o *Op) { o.V = 1 },
			} {
				d := cloneCase(cur)
				f(&d.Ops[i])
				if d.Ops[i] != cur.Ops[i] && ok(d) {
					cur = d
				}
			}
		}
		for i := range cur.Keys {
			if n := len(cur.Keys[i].S); n > 0 {
				for sz := n; sz >= 1; sz /= 2 {
					for j := 0; j+sz <= len(cur.Keys[i].S); {
						d := cloneCase(cur)
						s := cur.Keys[i].S
						d.Keys[i].S = append(append(BS(nil), s[:j]...), s[j+sz:]...)
						if ok(d) {
							cur = d
						} else {
							j += sz
						}
					}
				}
			}
			for j := 0; j < len(cur.Keys[i].L); {
				d := cloneCase(cur)
				l := cur.Keys[i].L
				d.Keys[i].L = append(append([]BS(nil), l[:j]...), l[j+1:]...)
				if ok(d) {
					cur = d
				} else {
					j++
				}
			}
		}
		for k := range cur.Cfg {
			d := cloneCase(cur)
			delete(d.Cfg, k)
			if ok(d) {
				cur = d
			}
		}
		after, _ := json.Marshal(cur)
		if string(before) == string(after) || time.Now().After(stop) {
			break
		}
	}
	return cur
}

// ---------------------------------------------------------------------------
// The current case is kept in a file so that a case which kills the process can be replayed.

type curFile struct {
	f   *os.File
	n   uint64
	max int
}

func (cf *curFile) put(c *Case) {
	if cf == nil || cf.f == nil {
		return
	}
	cf.n++
	b, err := json.Marshal(c)
	if err != nil {
		harnessFail("marshal: %v", err)
	}
	buf := make([]byte, 16+len(b))
	binary.LittleEndian.PutUint64(buf, cf.n)
	binary.LittleEndian.PutUint64(buf[8:], uint64(len(b)))
	copy(buf[16:], b)
	cf.f.WriteAt(buf, 0)
}
