// Package checks decides the properties of /verif/properties.jsonl on the real unitype code.
package checks

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Op is one operation of a history.
type Op struct {
	Kind  string   `json:"kind"`
	Font  int      `json:"font,omitempty"`
	Ints  []int    `json:"ints,omitempty"`
	Runes []rune   `json:"runes,omitempty"`
	Strs  []string `json:"strs,omitempty"`
}

// Case is a generated test case: everything a check needs to run again.
type Case struct {
	Prop  string   `json:"property"`
	Font  []byte   `json:"font,omitempty"`
	More  [][]byte `json:"more,omitempty"`
	Ints  []int    `json:"ints,omitempty"`
	Runes []rune   `json:"runes,omitempty"`
	Strs  []string `json:"strs,omitempty"`
	Ops   []Op     `json:"ops,omitempty"`
	Err   string   `json:"violation,omitempty"`
}

// Rec collects what a case did.
type Rec struct {
	labels  map[string]int
	nontriv bool
	sample  string
}

// Label counts a class of cases.
func (r *Rec) Label(format string, a ...interface{}) { r.labels[fmt.Sprintf(format, a...)]++ }

// Nontrivial marks the case.
func (r *Rec) Nontrivial() { r.nontriv = true }

// Prop is a property with its check.
type Prop struct {
	ID    string
	Rule  string
	Gen   func(t *rapid.T) *Case
	Run   func(c *Case, r *Rec) error
	Quick int // cases over all workers
	Deep  int
	Fixed func() []*Case // cases run once, by the first worker, before the generated ones
	// FromFile makes a case of any bytes, for a property of arbitrary files; the number chooses everything else.
	FromFile func(data []byte, ctl uint32) *Case
}

var registry = map[string]*Prop{}

func register(p *Prop) { registry[p.ID] = p }

// Stats is what a worker reports.
type Stats struct {
	Property    string         `json:"property"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Hashes      []string       `json:"hashes"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Skipped     int            `json:"skipped"`      // cases not begun: out of time
	MaxCPU      float64        `json:"max_case_cpu"` // seconds of processor time of the longest case
	Failed      bool           `json:"failed"`
	Message     string         `json:"message,omitempty"`
}

type runner struct {
	p      *Prop
	dir    string
	st     Stats
	seen   map[string]bool
	failed bool
}

var (
	caseStart atomic.Int64 // process CPU time (ns) when the running case began; 0: none
	limitCPU  = 80 * time.Second
	limitHeap = uint64(3 << 30)
	maxCPU    float64
)

func cpuNow() int64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// Exit codes of the worker, for the driver.
const (
	exitHang  = 77
	exitBloat = 78
)

// watchdog ends the process when one case burns far more processor time or memory than any terminating case does.
// It measures processor time of this process, not elapsed time, so a busy machine does not matter.
func watchdog() {
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			s := caseStart.Load()
			if s == 0 {
				continue
			}
			if cpuNow()-s > int64(limitCPU) && caseStart.Load() == s {
				fmt.Fprintf(os.Stderr, "WATCHDOG: a single case used more than %v of processor time\n", limitCPU)
				buf := make([]byte, 1<<20)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(exitHang)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > limitHeap && caseStart.Load() == s {
				fmt.Fprintf(os.Stderr, "WATCHDOG: a single case needs more than %d bytes of memory\n", limitHeap)
				buf := make([]byte, 1<<20)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(exitBloat)
			}
		}
	}()
}

type panicError struct {
	val   interface{}
	stack string
}

func (e *panicError) Error() string { return fmt.Sprintf("panic: %v\n%s", e.val, e.stack) }

// try runs f and turns a panic into an error.
func try(f func() error) (err error) {
	defer func() {
		if v := recover(); v != nil {
			err = &panicError{v, string(debug.Stack())}
		}
	}()
	return f()
}

func safeRun(p *Prop, c *Case, r *Rec) error {
	s := cpuNow()
	caseStart.Store(s)
	defer func() {
		caseStart.Store(0)
		if d := float64(cpuNow()-s) / 1e9; d > maxCPU {
			maxCPU = d
		}
	}()
	err := try(func() error { return p.Run(c, r) })
	if pe, ok := err.(*panicError); ok {
		if _, ok := pe.val.(harnessFault); ok {
			r.Label("set aside: mistake of the harness")
			r.nontriv = false
			return nil
		}
	}
	return err
}

func (w *runner) path(name string) string { return filepath.Join(w.dir, name) }

// one runs a case; it returns the violation, if any.
func (w *runner) one(c *Case) error {
	c.Prop = w.p.ID
	js, err := json.Marshal(c)
	if err != nil {
		return err
	}
	if err := os.WriteFile(w.path("current.json"), js, 0o644); err != nil {
		panic(err)
	}
	r := &Rec{labels: map[string]int{}}
	err = safeRun(w.p, c, r)
	if err != nil {
		c.Err = err.Error()
		js, _ := json.Marshal(c)
		os.WriteFile(w.path("failed.json"), js, 0o644)
		w.failed = true
		w.st.Failed = true
		w.st.Message = err.Error()
		return err
	}
	if w.failed {
		return nil // shrinking: not part of the exploration
	}
	w.count(c, r, js)
	return nil
}

// count adds a case that held to the account.
func (w *runner) count(c *Case, r *Rec, js []byte) {
	w.st.Evaluations++
	for k, v := range r.labels {
		if v > 0 {
			w.st.Labels[k]++
		}
	}
	if r.nontriv {
		w.st.Nontrivial++
		h := sha256.Sum256(js)
		k := fmt.Sprintf("%x", h[:6])
		if !w.seen[k] {
			w.seen[k] = true
			w.st.Hashes = append(w.st.Hashes, k)
			if n := len(w.st.Hashes); n&(n-1) == 0 && len(w.st.Samples) < 12 {
				w.st.Samples = append(w.st.Samples, summary(c, r))
			}
		}
	}
}

func summary(c *Case, r *Rec) string {
	var b strings.Builder
	if r.sample != "" {
		b.WriteString(r.sample)
	} else {
		d := *c
		d.Font, d.More = nil, nil
		js, _ := json.Marshal(d)
		if len(js) > 600 {
			js = append(js[:600], "..."...)
		}
		b.Write(js)
		if c.Font != nil {
			fmt.Fprintf(&b, " font(%d bytes)=", len(c.Font))
			f := c.Font
			if len(f) > 160 {
				fmt.Fprintf(&b, "%x...", f[:160])
			} else {
				fmt.Fprintf(&b, "%x", f)
			}
		}
	}
	var ls []string
	for k := range r.labels {
		ls = append(ls, k)
	}
	sort.Strings(ls)
	fmt.Fprintf(&b, " classes: %s", strings.Join(ls, ", "))
	return b.String()
}

func (w *runner) save() {
	w.st.MaxCPU = maxCPU
	js, err := json.Marshal(&w.st)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(w.path("stats.json"), js, 0o644); err != nil {
		panic(err)
	}
}
