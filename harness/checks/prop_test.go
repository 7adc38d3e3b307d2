package checks

import (
	"encoding/json"
	"os"
	"runtime/debug"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
)

func setup(t *testing.T) *Prop {
	id := os.Getenv("VP_PROP")
	if id == "" {
		t.Skip("VP_PROP not set: run through /verif/check")
	}
	p := registry[id]
	if p == nil {
		t.Fatalf("no check for %q", id)
	}
	stackAndWatchdog()
	return p
}

func stackAndWatchdog() {
	debug.SetMaxStack(256 << 20)
	watchdog()
}

// TestProp explores with generated cases.
func TestProp(t *testing.T) {
	p := setup(t)
	w := &runner{p: p, dir: os.Getenv("VP_DIR"), seen: map[string]bool{}}
	w.st = Stats{Property: p.ID, Rule: p.Rule, Labels: map[string]int{}}
	defer w.save()
	if p.Fixed != nil && os.Getenv("VP_WORKER") == "0" {
		for _, c := range p.Fixed() {
			if err := w.one(c); err != nil {
				t.Fatalf("violation")
			}
		}
	}
	if p.Gen == nil {
		return
	}
	end := time.Now().Add(1000 * time.Hour)
	if v, err := strconv.Atoi(os.Getenv("VP_SECONDS")); err == nil {
		end = time.Now().Add(time.Duration(v) * time.Second)
	}
	rapid.Check(t, func(rt *rapid.T) {
		if !w.failed && time.Now().After(end) {
			w.st.Skipped++
			return
		}
		c := w.draw(rt)
		if c == nil {
			return
		}
		if err := w.one(c); err != nil {
			rt.Fatalf("violation")
		}
	})
}

// draw generates a case; nil if the harness makes a mistake.
func (w *runner) draw(rt *rapid.T) (c *Case) {
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(harnessFault); !ok {
				panic(v)
			}
			w.st.Labels["set aside: mistake of the harness"]++
			c = nil
		}
	}()
	return w.p.Gen(rt)
}

// TestReplay runs one saved case, without the library.
func TestReplay(t *testing.T) {
	p := setup(t)
	js, err := os.ReadFile(os.Getenv("VP_CASE"))
	if err != nil {
		t.Fatal(err)
	}
	var c Case
	if err := json.Unmarshal(js, &c); err != nil {
		t.Fatal(err)
	}
	c.Err = ""
	if err := safeRun(p, &c, &Rec{labels: map[string]int{}}); err != nil {
		os.WriteFile(os.Getenv("VP_DIR")+"/replay.txt", []byte(err.Error()), 0o644)
		t.Fatalf("violation: %v", err)
	}
}
