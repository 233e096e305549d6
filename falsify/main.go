// falsify searches for concrete inputs on which the code in /repo breaks a
// property. It uses the exported API only and compares with oracles that are
// written from the property's statement. It never decides that a property
// holds: it replays, as a bounded check, what the verifier cannot turn into a
// concrete input.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// F is one run for one property.
type F struct {
	prop    string
	rnd     *rand.Rand
	end     time.Time
	cases   int
	kinds   map[string]int
	sum     map[string]bool
	mu      sync.Mutex
	cur     string
	curT    time.Time
	failure *Failure
	long    bool
}

type Failure struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	What     string `json:"what"`
	Stack    string `json:"stack,omitempty"`
}

type stop struct{}

// Case runs one input; an error or a panic is a violation.
func (f *F) Case(kind, desc string, fn func() error) {
	f.mu.Lock()
	f.cur, f.curT = desc, time.Now()
	f.mu.Unlock()
	f.cases++
	f.kinds[kind]++
	err, stack := safely(fn)
	f.mu.Lock()
	f.cur = ""
	f.mu.Unlock()
	if err != nil {
		f.fail(kind+": "+desc, err.Error(), stack)
	}
}

func safely(fn func() error) (err error, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				panic(s)
			}
			err = fmt.Errorf("panic: %v", r)
			stack = string(debug.Stack())
		}
	}()
	return fn(), ""
}

func (f *F) fail(desc, what, stack string) {
	f.mu.Lock()
	if f.failure == nil {
		f.failure = &Failure{f.prop, desc, what, stack}
	}
	f.mu.Unlock()
	panic(stop{})
}

// More tells whether there is time for another random case.
func (f *F) More() bool { return time.Now().Before(f.end) }

var props = map[string]func(f *F){}

func try(fn func()) (panicked bool, val interface{}) {
	defer func() {
		if r := recover(); r != nil {
			panicked, val = true, r
		}
	}()
	fn()
	return
}

func main() {
	prop := os.Args[1]
	secs, _ := strconv.ParseFloat(os.Args[2], 64)
	seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
	out := os.Args[4]
	f := &F{prop: prop, rnd: rand.New(rand.NewSource(seed)), end: time.Now().Add(time.Duration(secs * float64(time.Second))), kinds: map[string]int{}, long: secs > 60}
	fn := props[prop]
	report := func() {
		rep := map[string]interface{}{"property": prop, "cases": f.cases, "kinds": f.kinds, "failure": f.failure, "seed": seed}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(out, b, 0o644)
		var ks []string
		for k, n := range f.kinds {
			ks = append(ks, fmt.Sprintf("%s:%d", k, n))
		}
		sort.Strings(ks)
		fmt.Printf("falsify %s: %d cases (%s)\n", prop, f.cases, strings.Join(ks, " "))
		if f.failure != nil {
			fmt.Printf("FAILS: %s\n  %s\n%s\n", f.failure.Case, f.failure.What, f.failure.Stack)
			os.Exit(1)
		}
		os.Exit(0)
	}
	if fn == nil {
		report()
	}
	go func() {
		for {
			time.Sleep(time.Second)
			f.mu.Lock()
			if f.cur != "" && time.Since(f.curT) > 20*time.Second && f.failure == nil {
				f.failure = &Failure{prop, f.cur, "the call doesn't return within 20 seconds", ""}
				f.mu.Unlock()
				report()
			}
			f.mu.Unlock()
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); ok {
					return
				}
				f.mu.Lock()
				if f.failure == nil {
					f.failure = &Failure{prop, f.cur, fmt.Sprintf("panic: %v", r), string(debug.Stack())}
				}
				f.mu.Unlock()
			}
		}()
		fn(f)
	}()
	report()
}
