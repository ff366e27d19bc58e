package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/lint/mutate/list"
)

// sensitivity measures which small changes of the analysed functions the
// check notices. The changed sources are only given to the analyser; nothing
// is written to the module, and the outcome has no influence on the verdict.
func (j *J) sensitivity(dir string, seed int) map[string]any {
	budget := 150 * time.Second
	if s, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
		budget = time.Duration(s) * time.Second
	}
	self, err := os.Executable()
	if err != nil {
		return nil
	}
	tmp, err := os.MkdirTemp("", "lint-sens")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(tmp)
	// changes of analysed functions
	names := map[string]bool{}
	for u := range j.units {
		names[u[strings.LastIndexByte(u, '.')+1:]] = true
	}
	var edits []list.Edit
	for _, e := range list.Edits(dir) {
		if names[e.Fn] {
			edits = append(edits, e)
		}
	}
	rand.New(rand.NewSource(int64(seed))).Shuffle(len(edits), func(a, b int) { edits[a], edits[b] = edits[b], edits[a] })
	src := map[string]string{}
	for _, e := range edits {
		if _, ok := src[e.File]; !ok {
			b, err := os.ReadFile(filepath.Join(dir, e.File))
			if err != nil {
				return nil
			}
			src[e.File] = string(b)
		}
	}
	// decide the property for each change
	type outcome struct{ invalid, noticed bool }
	out := make([]*outcome, len(edits))
	next, end := 0, time.Now().Add(budget)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			d := filepath.Join(tmp, strconv.Itoa(w))
			if os.MkdirAll(d, 0o755) != nil {
				return
			}
			for {
				mu.Lock()
				n := next
				next++
				mu.Unlock()
				if n >= len(edits) || time.Now().After(end) {
					return
				}
				e := edits[n]
				s := src[e.File]
				b, _ := json.Marshal(map[string]string{filepath.Join(dir, e.File): s[:e.From] + e.New + s[e.To:]})
				f := filepath.Join(d, "overlay.json")
				if os.WriteFile(f, b, 0o644) != nil {
					return
				}
				cmd := exec.Command(self, "-verif", d, "-dir", dir, "-check", j.id, "-overlay", f)
				cmd.Env = append(os.Environ(), "VERIF_TIER=quick", "GOMAXPROCS=2")
				o, err := cmd.CombinedOutput()
				out[n] = &outcome{strings.Contains(string(o), "does not type-check"), err != nil}
			}
		}(w)
	}
	wg.Wait()
	var tried, invalid, noticed int
	per := map[string]*[2]int{}
	var quiet []string
	for n, o := range out {
		if o == nil {
			continue
		}
		if o.invalid {
			invalid++
			continue
		}
		tried++
		e := edits[n]
		k := e.File + ":" + e.Fn
		if per[k] == nil {
			per[k] = &[2]int{}
		}
		per[k][0]++
		if o.noticed {
			noticed++
			per[k][1]++
		} else {
			quiet = append(quiet, fmt.Sprintf("%s:%d %s %q -> %q", e.File, e.Line, e.Op, cutText(e.Old), cutText(e.New)))
		}
	}
	sort.Strings(quiet)
	if len(quiet) > 40 {
		quiet = quiet[:40]
	}
	fns := map[string]string{}
	for k, v := range per {
		fns[k] = fmt.Sprintf("%d of %d", v[1], v[0])
	}
	return map[string]any{"mutation": map[string]any{
		"explanation": "single changes of the analysed functions, given to the analyser only; many of them do not concern this property",
		"candidates":  len(edits), "analysed": tried, "do_not_build": invalid, "noticed": noticed, "noticed_by_function": fns, "samples_not_noticed": quiet,
	}}
}

func cutText(s string) string {
	if len(s) > 40 {
		return s[:40] + "..."
	}
	return s
}
