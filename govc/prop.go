package main

// Checking one property: the functions whose contracts carry a clause of that property, and every
// contracted function these rest on.

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (ct *Contract) tagged(prop string) bool {
	for _, cs := range [][]*clause{ct.ensures, ct.invs, ct.requires, ct.globals} {
		for _, c := range cs {
			for _, p := range c.props {
				if p == prop {
					return true
				}
			}
		}
	}
	return ct.needs[prop]
}

// callees lists the contracted functions reached from fn without going through another contract.
func (e *Engine) callees(fn *ssa.Function) []string {
	seen := map[*ssa.Function]bool{fn: true}
	found := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || seen[g] {
						continue
					}
					seen[g] = true
					cts := e.specs.byName[fnName(g)]
					inl := len(cts) == 0
					for _, ct := range cts {
						found[ct.name] = true
						if ct.inline {
							inl = true
						}
					}
					if inl && g.Blocks != nil {
						walk(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok && !seen[g] {
						seen[g] = true
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	var out []string
	for n := range found {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (e *Engine) closure(prop string) []*Contract {
	byName := map[string]*Contract{}
	in := map[string]bool{}
	var todo []*Contract
	for _, ct := range e.specs.all {
		byName[ct.name] = ct
		if prop == "C01" || ct.tagged(prop) {
			in[ct.name] = true
			todo = append(todo, ct)
		}
	}
	for len(todo) > 0 {
		ct := todo[0]
		todo = todo[1:]
		fn := e.fns[ct.fname]
		if fn == nil {
			continue
		}
		for _, gf := range e.globalFacts(fn, ct) {
			if !in[gf.by.name] {
				in[gf.by.name] = true
				todo = append(todo, gf.by)
			}
		}
		for _, n := range e.callees(fn) {
			if c := byName[n]; c != nil && !in[n] {
				in[n] = true
				todo = append(todo, c)
			}
		}
	}
	var out []*Contract
	for _, ct := range e.specs.all {
		if in[ct.name] {
			out = append(out, ct)
		}
	}
	return out
}

// relevant tells whether an obligation bears on the property: its own clauses, and the untagged
// support (frames, callee preconditions, shared contracts). Absence of panics is C01's.
func (o *Oblig) relevant(prop string) bool {
	if len(o.Props) == 0 {
		return true
	}
	for _, p := range o.Props {
		if p == prop {
			return true
		}
	}
	return false
}

// violated: a failing input has been found already, so nothing hangs on the time a proof gets.
var violated bool

var errDeadline = errors.New("deadline")

// onlyProp is the property being checked (empty: all): only what bears on it is decided.
var onlyProp string

func (c *clause) bears() bool {
	if onlyProp == "" || len(c.props) == 0 {
		return true
	}
	for _, p := range c.props {
		if p == onlyProp {
			return true
		}
	}
	return false
}

func runWorker(e *Engine) {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<16), 1<<20)
	out := json.NewEncoder(os.Stdout)
	byName := map[string]*Contract{}
	for _, ct := range e.specs.all {
		byName[ct.name] = ct
	}
	for in.Scan() {
		f := strings.SplitN(in.Text(), "\t", 2)
		scale := 1
		fmt.Sscan(f[0], &scale)
		ct := byName[f[1]]
		if ct == nil {
			out.Encode(&UnitResult{Name: f[1], Err: "no such contract"})
			continue
		}
		houdiniTO = time.Duration(scale) * 1500 * time.Millisecond
		houdiniUserTO = time.Duration(scale) * 8 * time.Second
		obligTO = time.Duration(scale) * 10 * time.Second
		obligScale = time.Duration(scale)
		loopHints = scale == 1
		r := e.verify(ct)
		out.Encode(r)
	}
}

type propResult struct {
	Property string
	Units    []*UnitResult
	Seconds  float64
	LoadErr  string
}

func runProp(e *Engine, prop, out string, jobs int) int {
	start := time.Now()
	units := e.closure(prop)
	sort.SliceStable(units, func(i, j int) bool { return units[i].cost() > units[j].cost() })
	res := make([]*UnitResult, len(units))
	var deadline time.Time
	run := func(idx []int, scale, jobs int) {
		if jobs > len(idx) {
			jobs = len(idx)
		}
		ch := make(chan int, len(idx))
		for _, i := range idx {
			ch <- i
		}
		close(ch)
		var wg sync.WaitGroup
		for k := 0; k < jobs; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var args []string
				for _, a := range os.Args[1:] {
					if !strings.HasPrefix(a, "-prop") && !strings.HasPrefix(a, "--prop") {
						args = append(args, a)
					} else {
						args = append(args, "-worker", "-prop")
					}
				}
				var cmd *exec.Cmd
				var enc *bufio.Writer
				var dec *json.Decoder
				var stop func()
				begin := func() bool {
					cmd = exec.Command("/proc/self/exe", args...)
					cmd.Stderr = os.Stderr
					w, err := cmd.StdinPipe()
					if err != nil {
						return false
					}
					r, err := cmd.StdoutPipe()
					if err != nil {
						return false
					}
					if cmd.Start() != nil {
						return false
					}
					enc = bufio.NewWriter(w)
					dec = json.NewDecoder(r)
					stop = func() { w.Close(); cmd.Wait() }
					return true
				}
				for i := range ch {
					if time.Now().After(deadline) {
						if res[i] == nil {
							res[i] = &UnitResult{Name: units[i].name, Func: units[i].fname, Err: "not decided within the time this check has"}
						}
						continue
					}
					if cmd == nil && !begin() {
						res[i] = &UnitResult{Name: units[i].name, Err: "internal error: no worker"}
						continue
					}
					fmt.Fprintf(enc, "%d\t%s\n", scale, units[i].name)
					enc.Flush()
					r := &UnitResult{}
					done := make(chan error, 1)
					d := dec
					go func() { done <- d.Decode(r) }()
					var err error
					select {
					case err = <-done:
					case <-time.After(time.Until(deadline)):
						err = errDeadline
					}
					if err != nil {
						if err != errDeadline || res[i] == nil {
							res[i] = &UnitResult{Name: units[i].name, Func: units[i].fname, Err: "internal error: worker died: " + err.Error()}
							if err == errDeadline {
								res[i].Err = "not decided within the time this check has"
							}
						}
						cmd.Process.Kill()
						cmd.Wait()
						cmd = nil
						continue
					}
					res[i] = r
				}
				if cmd != nil {
					stop()
				}
			}()
		}
		wg.Wait()
	}
	all := make([]int, len(units))
	for i := range all {
		all[i] = i
	}
	deadline = start.Add(400 * time.Second)
	if violated {
		// an input that breaks the property is known: only the obligations that fail are to be named
		deadline = start.Add(200 * time.Second)
	}
	run(all, 1, jobs)
	// what failed is tried again with more time and less company
	var again []int
	for i, r := range res {
		if r.bad(prop) && !strings.HasPrefix(r.Err, "outside") && !strings.HasPrefix(r.Err, "specification") {
			again = append(again, i)
		}
	}
	if len(again) > 0 && len(again) <= 8 && !violated {
		first := map[int]*UnitResult{}
		for _, i := range again {
			first[i] = res[i]
		}
		deadline = start.Add(540 * time.Second)
		run(again, 3, min(2, jobs))
		for _, i := range again {
			res[i].Dur += first[i].Dur
		}
	}
	pr := &propResult{Property: prop, Units: res, Seconds: time.Since(start).Seconds()}
	b, _ := json.MarshalIndent(pr, "", " ")
	if out == "" {
		os.Stdout.Write(b)
	} else if err := os.WriteFile(out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

func (r *UnitResult) bad(prop string) bool {
	if r.Err != "" || r.Vacuous {
		return true
	}
	for _, o := range r.Obligs {
		if o.Status != "proved" && o.relevant(prop) {
			return true
		}
	}
	return false
}

func (ct *Contract) cost() int {
	if ct.timeout > 0 {
		return 1000 + ct.timeout
	}
	return len(ct.invs)*10 + len(ct.ensures)
}
