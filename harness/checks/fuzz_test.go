package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/unidoc/unitype/verifharness/gen"
	"pgregory.net/rapid"
)

// fuzzer is what one fuzzing process has seen.  The processes of the engine are ended without notice, so each writes
// its account and its smallest violation as it goes.
type fuzzer struct {
	runner
	saved time.Time
	small int
}

func newFuzzer(p *Prop) *fuzzer {
	dir := fmt.Sprintf("%s/p%d", os.Getenv("VP_DIR"), os.Getpid())
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	os.Setenv("VP_DIR", dir) // scratch files of cases
	w := &fuzzer{}
	w.p, w.dir, w.seen = p, dir, map[string]bool{}
	w.st = Stats{Property: p.ID, Rule: p.Rule, Labels: map[string]int{}}
	return w
}

// run decides one case; a violation is kept only if it is smaller than the ones before.
func (w *fuzzer) run(c *Case) error {
	c.Prop = w.p.ID
	js, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(w.path("current.json"), js, 0o644); err != nil {
		panic(err)
	}
	r := &Rec{labels: map[string]int{}}
	if err = safeRun(w.p, c, r); err != nil {
		if w.small == 0 || len(js) < w.small {
			w.small = len(js)
			c.Err = err.Error()
			js, _ = json.Marshal(c)
			os.WriteFile(w.path("failed.json"), js, 0o644)
			w.st.Failed, w.st.Message = true, c.Err
			w.save()
		}
		return err
	}
	w.count(c, r, js)
	if time.Since(w.saved) > 2*time.Second {
		w.saved = time.Now()
		w.save()
	}
	return nil
}

func random(n int, seed int64) []byte {
	b := make([]byte, n)
	rand.New(rand.NewSource(seed)).Read(b)
	return b
}

func base() int64 {
	n, _ := strconv.Atoi(os.Getenv("VP_SEED"))
	return int64(n) * 1000
}

// FuzzGen lets the coverage-guided engine choose what the generator of the property draws.
func FuzzGen(f *testing.F) {
	id := os.Getenv("VP_PROP")
	p := registry[id]
	if p == nil || p.Gen == nil {
		f.Skip("VP_PROP not set, or the property has no generator: run through /verif/check")
	}
	stackAndWatchdog()
	w := newFuzzer(p)
	for i := int64(0); i < 64; i++ {
		f.Add(random([]int{512, 2 << 10, 8 << 10}[i%3], base()+i), uint32(base()+i))
	}
	draw := rapid.MakeFuzz(func(rt *rapid.T) {
		c := w.draw(rt)
		if c == nil {
			return
		}
		if err := w.run(c); err != nil {
			rt.Fatalf("violation")
		}
	})
	f.Fuzz(func(t *testing.T, data []byte, rest uint32) {
		// What the engine does not choose is drawn: most draws of a generator run out of data otherwise.
		draw(t, append(append([]byte(nil), data...), random(64<<10, int64(rest))...))
	})
}

// FuzzFile lets the coverage-guided engine choose the bytes of the font file.
func FuzzFile(f *testing.F) {
	id := os.Getenv("VP_PROP")
	p := registry[id]
	if p == nil || p.FromFile == nil {
		f.Skip("VP_PROP not set, or the property is not about arbitrary files: run through /verif/check")
	}
	stackAndWatchdog()
	w := newFuzzer(p)
	fonts := rapid.Custom(func(t *rapid.T) *gen.FontInfo {
		return gen.Font(t, gen.Opts{Small: true, NoHuge: true})
	})
	odd := rapid.Custom(func(t *rapid.T) *Case {
		if id == "C14" {
			return p.Gen(t)
		}
		return genC27(t)
	})
	for i := 0; i < 64; i++ {
		f.Add(fonts.Example(int(base())+i).Data, uint32(i))
		f.Add(odd.Example(int(base())+i).Font, uint32(i))
	}
	f.Fuzz(func(t *testing.T, data []byte, ctl uint32) {
		if len(data) > 16000 {
			return // C14 bounds what small inputs may cost
		}
		if err := w.run(p.FromFile(data, ctl)); err != nil {
			t.Fatal("violation")
		}
	})
}
