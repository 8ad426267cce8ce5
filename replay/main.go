// Command replay searches for a concrete input on which the real code in
// /repo breaks a property; it runs only after the verifier rejected an
// obligation, to turn the rejection into a replayable failure.
package main

import (
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type T struct {
	r   *rand.Rand
	mu  sync.Mutex
	log []string
}

type failure string

func (t *T) op(f string, a ...interface{}) {
	t.mu.Lock()
	t.log = append(t.log, fmt.Sprintf(f, a...))
	t.mu.Unlock()
}
func (t *T) fail(f string, a ...interface{}) { panic(failure(fmt.Sprintf(f, a...))) }

// noPanic fails when f panics.
func (t *T) noPanic(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failure); ok {
				panic(r)
			}
			t.fail("%s panics: %v", what, r)
		}
	}()
	f()
}

func (t *T) val() float64 {
	switch t.r.Intn(12) {
	case 0:
		return float64(t.r.Intn(2000)-1000) / 8
	default:
		return float64(t.r.Intn(7) - 3)
	}
}

var cases = map[string][]func(*T){}

func found(prop string, seed int64, t *T, msg string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	fmt.Printf("FOUND property %s is broken: %s\ncase seed %d; history:\n  %s\n", prop, msg, seed, strings.Join(t.log, "\n  "))
	os.Exit(1)
}

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	secs := flag.Int("secs", 60, "")
	flag.Parse()
	fs := cases[*prop]
	if len(fs) == 0 {
		fmt.Println("no replay search for", *prop)
		return
	}
	end := time.Now().Add(time.Duration(*secs) * time.Second)
	n := 0
	for i := int64(0); time.Now().Before(end); i++ {
		for k, f := range fs {
			s := *seed*1000003 + i*101 + int64(k)
			t := &T{r: rand.New(rand.NewSource(s))}
			done := make(chan string, 1)
			go func() {
				msg := ""
				defer func() {
					if r := recover(); r != nil {
						if x, ok := r.(failure); ok {
							msg = string(x)
						} else {
							msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
						}
					}
					done <- msg
				}()
				f(t)
			}()
			select {
			case m := <-done:
				if m != "" {
					found(*prop, s, t, m)
				}
			case <-time.After(10 * time.Second):
				found(*prop, s, t, "the last operation does not return (blocked or looping for 10s)")
			}
			n++
		}
	}
	fmt.Printf("no failing input among %d cases (seed %d)\n", n, *seed)
}

func sorted(x []float64) []float64 {
	c := append([]float64(nil), x...)
	sort.Float64s(c)
	return c
}

func same(a, b float64) bool { return a == b || (math.IsNaN(a) && math.IsNaN(b)) }

// near compares up to rounding.
func near(a, b, scale float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return same(a, b)
	}
	return math.Abs(a-b) <= 1e-6*(1+math.Abs(a)+math.Abs(b)+scale)
}

// window keeps the last w values (all of them if w is 0).
func window(h []float64, w int) []float64 {
	if w > 0 && len(h) > w {
		return h[len(h)-w:]
	}
	return h
}
