package mls

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand/v2"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"testing/cryptotest"
	"time"

	"pgregory.net/rapid"
)

// Statistics of one process, merged by the driver.
type vfStats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  []uint64       `json:"nontrivial"`
	Rules       []string       `json:"rules"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Counters    map[string]int `json:"counters"`
}

var (
	vfSt     = vfStats{Classes: map[string]int{}, Counters: map[string]int{}}
	vfSeen   = map[uint64]bool{}
	vfFailed bool // a failure was found, what follows is shrinking

	vfProgress atomic.Int64
	vfActive   atomic.Bool
	vfCurrent  atomic.Pointer[vfCase]
)

// raceMode: this is a vfRun with the race detector.
var vfRaceMode = os.Getenv("PROPS_RACE") != ""

const vfHangSeconds = 120

func vfWriteJSON(path string, v any) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
		os.Exit(4)
	}
}

// vfWatchdog reports an operation that does not return.
func vfWatchdog() {
	last, since := int64(-1), 0
	for {
		time.Sleep(time.Second)
		p := vfProgress.Load()
		if !vfActive.Load() || p != last {
			last, since = p, 0
			continue
		}
		since++
		if since >= vfHangSeconds {
			c := vfCurrent.Load()
			fmt.Fprintf(os.Stderr, "HANG no progress for %d s in %s\n", vfHangSeconds, c.name)
			for _, l := range c.tail() {
				fmt.Fprintln(os.Stderr, "  ", l)
			}
			os.Exit(3)
		}
	}
}

func TestMain(m *testing.M) {
	flag.Parse()
	go vfWatchdog()
	code := m.Run()
	if p := os.Getenv("PROPS_STATS"); p != "" {
		for h := range vfSeen {
			vfSt.Nontrivial = append(vfSt.Nontrivial, h)
		}
		sort.Slice(vfSt.Nontrivial, func(i, j int) bool { return vfSt.Nontrivial[i] < vfSt.Nontrivial[j] })
		vfWriteJSON(p, &vfSt)
	}
	os.Exit(code)
}

// vfCase is one generated case.
type vfCase struct {
	*rapid.T
	name    string
	tr      []string
	classes map[string]bool
	good    bool
	rnd     *rand.Rand
	fast    *rand.Rand
}

// vfRun checks a property over generated cases. weight scales the number of
// cases; rule says what makes a case non-trivial.
func vfRun(t *testing.T, weight float64, rule string, prop func(c *vfCase)) {
	vfSt.Rules = append(vfSt.Rules, t.Name()+": "+rule)
	base, _ := strconv.Atoi(os.Getenv("PROPS_CHECKS"))
	if base == 0 {
		base = 100
	}
	n := int(float64(base)*weight + 0.5)
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	rapid.Check(t, func(rt *rapid.T) {
		c := vfNewCase(t, rt)
		vfCurrent.Store(c)
		vfActive.Store(true)
		defer func() {
			vfActive.Store(false)
			c.record(recover())
		}()
		prop(c)
	})
}

func vfNewCase(t *testing.T, rt *rapid.T) *vfCase {
	c := &vfCase{T: rt, name: t.Name(), classes: map[string]bool{}}
	seed := rapid.Uint64().Draw(rt, "seed")
	if !vfRaceMode {
		// (its lock would order goroutines and hide races)
		cryptotest.SetGlobalRandom(t, seed)
	}
	c.rnd = rand.New(rand.NewPCG(seed, 1))
	return c
}

func (c *vfCase) record(p any) {
	if p != nil {
		vfFailed = true
		panic(p)
	}
	if c.Failed() {
		vfFailed = true
	}
	if vfFailed {
		return
	}
	vfSt.Evaluations++
	for k := range c.classes {
		vfSt.Classes[k]++
	}
	if c.good {
		h := sha256.Sum256([]byte(c.name + "\n" + strings.Join(c.tr, "\n")))
		k := binary.BigEndian.Uint64(h[:])
		if !vfSeen[k] {
			vfSeen[k] = true
			if n := len(vfSeen); len(vfSt.Samples) < 3 && (n == 1 || n == 10 || n == 50) {
				s := strings.Join(c.tr, "; ")
				if len(s) > 1500 {
					s = s[:1500] + "..."
				}
				vfSt.Samples = append(vfSt.Samples, c.name+": "+s)
			}
		}
	}
}

func (c *vfCase) tail() []string {
	if len(c.tr) > 40 {
		return c.tr[len(c.tr)-40:]
	}
	return c.tr
}

// op records a step of the case.
func (c *vfCase) op(format string, args ...any) {
	vfProgress.Add(1)
	s := fmt.Sprintf(format, args...)
	c.tr = append(c.tr, s)
	c.Logf("step: %s", s)
	if vfRaceMode {
		// the detector ends the process
		fmt.Fprintf(os.Stderr, "%s\n", s)
	}
}

// class counts a case (once) under a name.
func (c *vfCase) class(format string, args ...any) { c.classes[fmt.Sprintf(format, args...)] = true }

// count counts an event.
func (c *vfCase) count(name string) {
	vfProgress.Add(1)
	if !vfFailed {
		vfSt.Counters[name]++
	}
}

// nontrivial marks the case as non-trivial.
func (c *vfCase) nontrivial() { c.good = true }

func (c *vfCase) Int(label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(c.T, label) }

func (c *vfCase) Bool(label string) bool { return rapid.Bool().Draw(c.T, label) }

// Chance is true with probability 1/n.
func (c *vfCase) Chance(label string, n int) bool { return c.Int(label, 0, n-1) == n-1 }

func vfPick[T any](c *vfCase, label string, xs ...T) T { return xs[c.Int(label, 0, len(xs)-1)] }

// weighted draws an index with the given weights; index 0 is the simplest.
func (c *vfCase) weighted(label string, ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	x := c.Int(label, 0, sum-1)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	panic("unreachable")
}

// Size draws a length with interesting boundaries.
func (c *vfCase) Size(label string, max int) int {
	var n int
	switch c.weighted(label+" kind", 4, 3, 2, 1) {
	case 0:
		n = c.Int(label, 0, 40)
	case 1:
		n = c.Int(label, 0, 300)
	case 2:
		n = vfPick(c, label, 0, 1, 62, 63, 64, 65, 127, 128, 255, 256, 257)
	case 3:
		n = vfPick(c, label, 16382, 16383, 16384, 16385, 20000, 65535, 65536)
	}
	return min(n, max)
}

// Bytes draws a byte string.
func (c *vfCase) Bytes(label string, max int) []byte {
	n := c.Size(label, max)
	b := make([]byte, n)
	switch c.Int(label+" content", 0, 3) {
	case 0: // zero
	default:
		for i := range b {
			b[i] = byte(c.rnd.Uint32())
		}
	}
	return b
}

// must stops the case as violated when err is not nil.
func (c *vfCase) must(err error, format string, args ...any) {
	vfProgress.Add(1)
	if err != nil {
		c.Helper()
		c.Fatalf("%s: %v", fmt.Sprintf(format, args...), err)
	}
}

func vfShort(b []byte) string {
	if len(b) <= 8 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%x..(%d)", b[:4], len(b))
}
