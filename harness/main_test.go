package unitype_test

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
)

type propDef struct {
	fn   func(*cs) error
	opt  func(rg *rand.Rand) synOpt
	raw  bool // needs no font
	real bool
}

func plain(rg *rand.Rand) synOpt { return synOpt{} }

var props = map[string]propDef{
	"C01": {fn: propC01, opt: plain, real: true},
	"C02": {fn: propC02, opt: plain, real: true},
	"C03": {fn: propC03, opt: plain, real: true},
	"C04": {fn: propC04, opt: plain, real: true},
	"C05": {fn: propC05, opt: func(rg *rand.Rand) synOpt { return synOpt{bigRaw: true} }, real: true},
	"C06": {fn: propC06, opt: plain, real: true},
	"C07": {fn: propC07, opt: plain, real: true},
	"C08": {fn: propC08, opt: func(rg *rand.Rand) synOpt { return synOpt{deep: true} }, real: true},
	"C09": {fn: propC09, opt: plain, real: true},
	"C10": {fn: propC10, opt: func(rg *rand.Rand) synOpt { return synOpt{maxGlyphs: 300} }, real: true},
	"C11": {fn: propC11, opt: func(rg *rand.Rand) synOpt { return synOpt{maxGlyphs: 300} }, real: true},
	"C12": {fn: propC12, opt: plain, real: true},
	"C13": {fn: propC13, opt: func(rg *rand.Rand) synOpt {
		all := [][3]int{{3, 1, 4}, {1, 0, 0}, {0, 3, 4}, {3, 10, 12}, {0, 4, 12}, {3, 0, 4}, {0, 0, 6}, {1, 0, 6}, {3, 1, 6}, {3, 10, 4}, {0, 3, 6}, {3, 1, 12}}
		o := synOpt{maxGlyphs: 200}
		n := rg.Intn(6)
		o.cmaps = [][3]int{}
		for i := 0; i < n; i++ {
			o.cmaps = append(o.cmaps, all[rg.Intn(len(all))])
		}
		return o
	}, real: true},
	"C14": {fn: propC14, opt: plain, real: true},
	"C15": {fn: propC15, opt: func(rg *rand.Rand) synOpt {
		return synOpt{postVersion: []int{0, 0x10000, 0x20000, 0x20000, 0x25000, 0x30000}[rg.Intn(6)], maxGlyphs: 300}
	}, real: true},
	"C16": {fn: propC16, raw: true},
	"C17": {fn: propC17, opt: plain, real: true},
	"C18": {fn: propC18, opt: plain, real: true},
}

type result struct {
	Evaluations int
	Distinct    int
	Samples     []string
	Violation   string
	Replay      string
	Seconds     float64
}

func caseOf(prop string, d propDef, seed int64, reals [][]byte, k int) *cs {
	rg := rand.New(rand.NewSource(seed))
	c := &cs{rg: rg}
	if !d.raw {
		if d.real && len(reals) > 0 && k%97 == 0 {
			c.data = append([]byte{}, reals[rg.Intn(len(reals))]...)
			c.isReal = true
		} else {
			c.data = synFont(rg, d.opt(rg))
		}
	}
	return c
}

// runCase runs one case, turning panics and hangs into failures.
func runCase(d propDef, c *cs, limit time.Duration) (err error, hung bool) {
	done := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Errorf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		done <- d.fn(c)
	}()
	select {
	case err = <-done:
		return err, false
	case <-time.After(limit):
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		s := string(buf)
		if i := strings.Index(s, "unitype."); i > 0 {
			if j := strings.LastIndex(s[:i], "goroutine"); j >= 0 {
				s = s[j:]
			}
		}
		if len(s) > 4000 {
			s = s[:4000]
		}
		return fmt.Errorf("no answer within %v\n%s", limit, s), true
	}
}

func TestVerif(t *testing.T) {
	logrus.SetLevel(logrus.PanicLevel)
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("no property")
	}
	d, ok := props[prop]
	if !ok {
		t.Fatalf("no harness for %s", prop)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64)
	if budget == 0 {
		budget = 10
	}
	maxCases, _ := strconv.Atoi(os.Getenv("VERIF_MAXCASES"))
	if maxCases == 0 {
		maxCases = 1 << 30
	}
	var reals [][]byte
	var files []string
	for _, p := range []string{"testdata/*.ttf", "testdata/*/*.ttf"} {
		m, _ := filepath.Glob(p)
		files = append(files, m...)
	}
	sort.Strings(files)
	for _, f := range files {
		if b, err := os.ReadFile(f); err == nil && len(b) < 1<<20 {
			reals = append(reals, b)
		}
	}
	start := time.Now()
	deadline := start.Add(time.Duration(budget * float64(time.Second)))
	var mu sync.Mutex
	res := result{}
	seen := map[string]bool{}
	next := 0
	stop := false
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				k := next
				next++
				over := stop || k >= maxCases || time.Now().After(deadline)
				mu.Unlock()
				if over {
					return
				}
				s := seed*1000003 + int64(k)
				c := caseOf(prop, d, s, reals, k)
				err, hung := runCase(d, c, 60*time.Second)
				mu.Lock()
				res.Evaluations++
				if !hung {
					h := sha256.Sum256(append(append([]byte{}, c.data...), strings.Join(c.desc, ";")...))
					key := hex.EncodeToString(h[:8])
					if d.raw {
						key = strconv.Itoa(k)
					}
					if !c.triv && !seen[key] {
						seen[key] = true
						if len(res.Samples) < 3 {
							res.Samples = append(res.Samples, fmt.Sprintf("case %d (seed %d): font of %d bytes; %s", k, s, len(c.data), strings.Join(c.desc, "; ")))
						}
					}
				}
				if err != nil && res.Violation == "" {
					stop = true
					res.Violation = err.Error()
					if dir := os.Getenv("VERIF_REPLAY"); dir != "" {
						base := filepath.Join(dir, fmt.Sprintf("%s-%d", prop, s))
						res.Replay = base + ".txt"
						txt := fmt.Sprintf("property %s violated\ncase seed: %d (index %d)\nsteps: %s\nfont: %s (as parsed by the failing case)\n\n%s\n\nTo run this case again: VERIF_CASE=%d /verif/harness/run.sh %s\n",
							prop, s, k, strings.Join(c.desc, "; "), base+".ttf", err, k, prop)
						if !hung {
							os.WriteFile(base+".ttf", c.data, 0644)
						} else {
							// the case still runs: make the input again
							os.WriteFile(base+".ttf", append([]byte{}, c.data...), 0644)
						}
						os.WriteFile(res.Replay, []byte(txt), 0644)
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	res.Distinct = len(seen)
	res.Seconds = time.Since(start).Seconds()
	if one := os.Getenv("VERIF_CASE"); one != "" {
		k, _ := strconv.Atoi(one)
		c := caseOf(prop, d, seed*1000003+int64(k), reals, k)
		err, _ := runCase(d, c, 60*time.Second)
		t.Logf("%v: %v", c.desc, err)
	}
	b, _ := json.MarshalIndent(res, "", " ")
	if out := os.Getenv("VERIF_OUT"); out != "" {
		if err := os.WriteFile(out, b, 0644); err != nil {
			t.Fatal(err)
		}
	} else {
		t.Logf("%s", b)
	}
}
