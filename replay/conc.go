package main

import (
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/sample"
)

func init() {
	cases["C19"] = []func(*T){stressCase, aggLockCase}
	cases["C20"] = []func(*T){aggCase}
	cases["C21"] = []func(*T){reservoirCase, uniformCase, longReservoirCase}
}

// probe is a wrapped metric with a random delay.
type probe struct {
	name              string
	mu                sync.Mutex
	pushes            int
	asked             int
	clears            int
	last              float64
	lastv             []float64
	val               float64
	failPush, failVal bool
	delay             int
	inside            int32
	overlap           *int32
}

func (p *probe) enter() {
	if atomic.AddInt32(&p.inside, 1) > 1 {
		atomic.StoreInt32(p.overlap, 1)
	}
	for i := 0; i < p.delay; i++ {
		runtime.Gosched()
	}
	if p.delay > 60 {
		time.Sleep(time.Duration(p.delay) * time.Microsecond)
	}
}
func (p *probe) leave()         { atomic.AddInt32(&p.inside, -1) }
func (p *probe) String() string { return p.name }
func (p *probe) Value() (float64, error) {
	p.enter()
	defer p.leave()
	p.mu.Lock()
	defer p.mu.Unlock()
	p.asked++
	if p.failVal {
		return p.val, fmt.Errorf("value %s", p.name)
	}
	return p.val, nil
}
func (p *probe) Clear() {
	p.enter()
	defer p.leave()
	p.mu.Lock()
	defer p.mu.Unlock()
	p.clears++
}

type uni struct{ probe }

func (p *uni) Push(x float64) error {
	p.enter()
	defer p.leave()
	p.mu.Lock()
	defer p.mu.Unlock()
	p.pushes++
	p.last = x
	if p.failPush {
		return fmt.Errorf("push %s", p.name)
	}
	return nil
}

type multi struct{ probe }

func (p *multi) Push(xs ...float64) error {
	p.enter()
	defer p.leave()
	p.mu.Lock()
	defer p.mu.Unlock()
	p.pushes++
	p.lastv = append([]float64(nil), xs...)
	if p.failPush || len(xs) == 0 {
		return fmt.Errorf("push %s", p.name)
	}
	return nil
}

func aggCase(t *T) {
	n := t.r.Intn(6)
	if t.r.Intn(8) == 0 {
		n = 8 + t.r.Intn(40)
	}
	var overlap int32
	joint := t.r.Intn(2) == 0
	var ps []*probe
	var us []stream.SimpleMetric
	var js []stream.SimpleJointMetric
	for i := 0; i < n; i++ {
		p := probe{name: fmt.Sprint("m", i), val: t.val(), delay: t.r.Intn(90), overlap: &overlap,
			failPush: t.r.Intn(10) == 0, failVal: t.r.Intn(10) == 0}
		if t.r.Intn(3) == 0 {
			p.delay = 0
		}
		t.op("metric %s failPush=%v failVal=%v delay=%d", p.name, p.failPush, p.failVal, p.delay)
		if joint {
			m := &multi{p}
			js = append(js, m)
			ps = append(ps, &m.probe)
		} else {
			m := &uni{p}
			us = append(us, m)
			ps = append(ps, &m.probe)
		}
	}
	ua := aggregate.NewSimpleAggregateMetric(us...)
	ja := aggregate.NewSimpleJointAggregateMetric(js...)
	pushes, asks, clears := 0, 0, 0
	for k := 0; k < 1+t.r.Intn(4); k++ {
		switch t.r.Intn(5) {
		case 0, 1:
			xs := make([]float64, 1+t.r.Intn(3))
			if joint && t.r.Intn(6) == 0 {
				xs = nil
			}
			for i := range xs {
				xs[i] = t.val()
			}
			var err error
			t.op("Push(%v) joint=%v", xs, joint)
			if joint {
				err = ja.Push(xs...)
			} else {
				err = ua.Push(xs[0])
			}
			pushes++
			want := false
			for _, p := range ps {
				p.mu.Lock()
				if p.pushes != pushes {
					t.fail("metric %s was pushed %d times, want %d", p.name, p.pushes, pushes)
				}
				if joint {
					ok := len(p.lastv) == len(xs)
					for i := range xs {
						ok = ok && p.lastv[i] == xs[i]
					}
					if !ok {
						t.fail("metric %s was pushed %v", p.name, p.lastv)
					}
				} else if p.last != xs[0] {
					t.fail("metric %s was pushed %v", p.name, p.last)
				}
				want = want || p.failPush || len(xs) == 0
				p.mu.Unlock()
			}
			if (err != nil) != want {
				t.fail("Push error %v, some wrapped push failed: %v", err, want)
			}
		case 2, 3:
			var vs map[string]float64
			var err error
			t.op("Values() joint=%v", joint)
			if joint {
				vs, err = ja.Values()
			} else {
				vs, err = ua.Values()
			}
			asks++
			want := false
			for _, p := range ps {
				want = want || p.failVal
				if p.asked != asks {
					t.fail("metric %s was asked %d times, want %d", p.name, p.asked, asks)
				}
			}
			if (err != nil) != want {
				t.fail("Values error %v, some wrapped value failed: %v", err, want)
			}
			if err == nil {
				if len(vs) != n {
					t.fail("Values returned %v for %d metrics", vs, n)
				}
				for _, p := range ps {
					if v, ok := vs[p.name]; !ok || v != p.val {
						t.fail("Values()[%s] = %v %v, want %v", p.name, v, ok, p.val)
					}
				}
				for k := range vs {
					vs[k]++
				}
			}
		case 4:
			t.op("Clear() joint=%v", joint)
			if joint {
				ja.Clear()
			} else {
				ua.Clear()
			}
			clears++
		}
		for _, p := range ps {
			p.mu.Lock()
			if p.clears != clears || p.pushes != pushes || p.asked != asks {
				t.fail("metric %s got %d pushes, %d value calls, %d clears; want %d, %d, %d", p.name, p.pushes, p.asked, p.clears, pushes, asks, clears)
			}
			p.mu.Unlock()
		}
	}
	time.Sleep(50 * time.Microsecond)
	for _, p := range ps {
		p.mu.Lock()
		if p.clears != clears || p.pushes != pushes || p.asked != asks {
			t.fail("after the last operation metric %s got %d pushes, %d value calls, %d clears; want %d, %d, %d", p.name, p.pushes, p.asked, p.clears, pushes, asks, clears)
		}
		p.mu.Unlock()
	}
	if overlap != 0 {
		t.fail("operations of the aggregate overlap on a wrapped metric")
	}
}

// aggLockCase: concurrent operations on one aggregate never overlap on a
// wrapped metric.
func aggLockCase(t *T) {
	var overlap int32
	var us []stream.SimpleMetric
	var js []stream.SimpleJointMetric
	n := 1 + t.r.Intn(4)
	for i := 0; i < n; i++ {
		us = append(us, &uni{probe{name: fmt.Sprint("m", i), delay: 3, overlap: &overlap, failPush: t.r.Intn(4) == 0, failVal: t.r.Intn(4) == 0}})
		js = append(js, &multi{probe{name: fmt.Sprint("j", i), delay: 3, overlap: &overlap, failPush: t.r.Intn(4) == 0, failVal: t.r.Intn(4) == 0}})
	}
	ua := aggregate.NewSimpleAggregateMetric(us...)
	ja := aggregate.NewSimpleJointAggregateMetric(js...)
	fs := []func(){func() { ua.Push(1) }, func() { ua.Values() }, ua.Clear, func() { ja.Push(1, 2) }, func() { ja.Values() }, ja.Clear}
	t.op("two goroutines per operation of both aggregates over %d metrics", n)
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		for _, f := range fs {
			f := f
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 5; i++ {
					f()
				}
			}()
		}
	}
	wg.Wait()
	if overlap != 0 {
		t.fail("operations of one aggregate overlap on a wrapped metric")
	}
}

func reservoirCase(t *T) {
	s := t.r.Intn(6)
	r := &sample.Reservoir{Size: s}
	t.op("Reservoir{Size: %d}", s)
	n := t.r.Intn(25)
	for i := 0; i < n; i++ {
		prev := r.Sample()
		t.op("Push(item %d)", i)
		t.noPanic("Push", func() { r.Push(i) })
		got := r.Sample()
		want := i + 1
		if want > s {
			want = s
		}
		if len(got) != want {
			t.fail("sample has %d items after %d pushes, want %d", len(got), i+1, want)
		}
		seen := map[interface{}]bool{}
		diff := 0
		for k, x := range got {
			if v, ok := x.(int); !ok || v < 0 || v > i || seen[x] {
				t.fail("sample %v after %d pushes is not a set of pushed items", got, i+1)
			}
			seen[x] = true
			if k < len(prev) && prev[k] != x {
				diff++
				if x != i {
					t.fail("slot %d changed from %v to %v when %d was pushed", k, prev[k], x, i)
				}
			}
		}
		if diff > 1 {
			t.fail("%d slots changed in one push", diff)
		}
		for k := range got {
			got[k] = -1
		}
		_ = append(got, -1)
		for _, x := range r.Sample() {
			if x == -1 {
				t.fail("the returned sample shares memory with the reservoir")
			}
		}
	}
}

// uniformCase: inclusion counts of every stream position and of every slot
// replaced, far outside what a fair source gives (7 standard deviations).
func uniformCase(t *T) {
	s, n := 1+t.r.Intn(4), 2+t.r.Intn(9)
	if n < s {
		n = s + 1
	}
	const trials = 20000
	t.op("%d runs of a reservoir of size %d over %d items", trials, s, n)
	cnt := make([]int, n)
	slot := make([]int, s)
	repl := 0
	for k := 0; k < trials; k++ {
		r := &sample.Reservoir{Size: s}
		for i := 0; i < n; i++ {
			r.Push(i)
		}
		for k, x := range r.Sample() {
			cnt[x.(int)]++
			if x.(int) == n-1 && n > s {
				slot[k]++
				repl++
			}
		}
	}
	p := float64(s) / float64(n)
	dev := func(c int, p float64, n int) bool {
		return math.Abs(float64(c)-p*float64(n)) > 7*math.Sqrt(float64(n)*p*(1-p))+1
	}
	for i, c := range cnt {
		if n > s && dev(c, p, trials) {
			t.fail("item %d of %d is in the sample of size %d in %d of %d runs, expected about %.0f", i, n, s, c, trials, p*trials)
		}
	}
	for k, c := range slot {
		if n > s && dev(c, 1/float64(s), repl) {
			t.fail("the last item replaced slot %d in %d of %d replacements, expected about %d", k, c, repl, repl/s)
		}
	}
}

// longReservoirCase: long streams; the sampled items spread evenly over the
// tenths of the stream.
func longReservoirCase(t *T) {
	s, n := 1+t.r.Intn(20), 10*(10+t.r.Intn(400))
	const trials = 300
	t.op("%d runs of a reservoir of size %d over %d items", trials, s, n)
	cnt := make([]int, 10)
	for k := 0; k < trials; k++ {
		r := &sample.Reservoir{Size: s}
		for i := 0; i < n; i++ {
			r.Push(i)
		}
		for _, x := range r.Sample() {
			cnt[x.(int)*10/n]++
		}
	}
	e := float64(trials*s) / 10
	for i, c := range cnt {
		if math.Abs(float64(c)-e) > 8*math.Sqrt(e)+1 {
			t.fail("the items of tenth %d of the stream fill %d of %d places, expected about %.0f", i, c, trials*s, e)
		}
	}
}

type target struct {
	name string
	fs   []func() error // push, queries..., clear
	clr  bool
}

func stressTargets(t *T) []target {
	var out []target
	var seq int64
	x := func() float64 { return float64(atomic.AddInt64(&seq, 1) % 17) }
	type vm interface {
		Push(float64) error
		Value() (float64, error)
		String() string
		Clear()
	}
	add := func(name string, m vm, err error) {
		if err != nil || m == nil {
			t.fail("constructing %s: %v", name, err)
		}
		out = append(out, target{name: name, clr: true, fs: []func() error{func() error { return m.Push(x()) }, func() error { _, err := m.Value(); return err }, func() error { _ = m.String(); return nil }, void(m.Clear)}})
	}
	w := t.r.Intn(4)
	mx, e := minmax.NewMax(w)
	add("Max", mx, e)
	mn, e := minmax.NewMin(w)
	add("Min", mn, e)
	init1 := func(m interface {
		vm
		moment.Metric
	}) vm {
		if err := moment.Init(m); err != nil {
			t.fail("moment.Init: %v", err)
		}
		return m
	}
	add("Mean", init1(moment.NewMean(w)), nil)
	add("Std", init1(moment.NewStd(w)), nil)
	add("Skewness", init1(moment.NewSkewness(w)), nil)
	add("Kurtosis", init1(moment.NewKurtosis(w)), nil)
	add("Moment", init1(moment.New(3, w)), nil)
	add("EWMA", init1(moment.NewEWMA(0.5)), nil)
	add("EWMMoment", init1(moment.NewEWMMoment(3, 0.5)), nil)
	add("EWMStd", init1(moment.NewEWMStd(0.5)), nil)
	opt, _ := implOpt(t)
	if opt == nil {
		opt = quantile.InterpolationOption(quantile.Linear)
	}
	q, e := quantile.New(w, opt)
	if e != nil {
		t.fail("quantile.New: %v", e)
	}
	out = append(out, target{name: "Quantile", clr: true, fs: []func() error{func() error { return q.Push(x()) }, func() error { _, err := q.Value(0.3); return err }, func() error { _ = q.String(); return nil }, void(q.Clear)}})
	md, e := quantile.NewMedian(w, opt)
	add("Median", md, e)
	iq, e := quantile.NewIQR(w, opt)
	add("IQR", iq, e)
	hm, e := quantile.NewHeapMedian(w)
	add("HeapMedian", hm, e)
	gh := quantile.NewGlobalHeapMedian()
	add("GlobalHeapMedian", gh, nil)
	core, e := moment.NewCore(&moment.CoreConfig{Sums: moment.SumsConfig{2: true, 3: true}, Window: iptr(w)})
	if e != nil {
		t.fail("moment.NewCore: %v", e)
	}
	out = append(out, target{name: "moment.Core", clr: true, fs: []func() error{func() error { return core.Push(x()) }, func() error {
		if n := core.Count(); w > 0 && n != w {
			return fmt.Errorf("Count() = %d with a full window of %d", n, w)
		}
		return nil
	}, func() error { _, err := core.Mean(); return err }, func() error { _, err := core.Sum(2); return err }, void(core.Clear)}})
	type jvm interface {
		Push(...float64) error
		Value() (float64, error)
		String() string
		Clear()
	}
	addj := func(name string, m interface {
		jvm
		joint.Metric
	}, dims int) {
		if err := joint.Init(m); err != nil {
			t.fail("joint.Init(%s): %v", name, err)
		}
		out = append(out, target{name: name, clr: true, fs: []func() error{func() error {
			if dims == 1 {
				return m.Push(x())
			}
			return m.Push(x(), x())
		}, func() error { _, err := m.Value(); return err }, func() error { _ = m.String(); return nil }, void(m.Clear)}})
	}
	addj("Cov", joint.NewCov(w), 2)
	addj("Corr", joint.NewCorr(w), 2)
	addj("EWMCov", joint.NewEWMCov(0.5), 2)
	addj("EWMCorr", joint.NewEWMCorr(0.5), 2)
	lag := t.r.Intn(3)
	ac, e := joint.NewAutocov(lag, w)
	if e != nil {
		t.fail("NewAutocov: %v", e)
	}
	acr, e := joint.NewAutocorr(lag, w)
	if e != nil {
		t.fail("NewAutocorr: %v", e)
	}
	for _, m := range []interface {
		vm
		joint.CoreWrapper
	}{ac, acr} {
		if err := joint.Init(m); err != nil {
			t.fail("joint.Init(%T): %v", m, err)
		}
		add(fmt.Sprintf("%T", m), m, nil)
	}
	jc, e := joint.NewCore(&joint.CoreConfig{Sums: joint.SumsConfig{{1, 1}}, Vars: iptr(2), Window: iptr(w)})
	if e != nil {
		t.fail("joint.NewCore: %v", e)
	}
	out = append(out, target{name: "joint.Core", clr: true, fs: []func() error{func() error { return jc.Push(x(), x()) }, func() error {
		if n := jc.Count(); w > 0 && n != w {
			return fmt.Errorf("Count() = %d with a full window of %d", n, w)
		}
		return nil
	}, func() error { _, err := jc.Mean(0); return err }, func() error { _, err := jc.Sum(1, 1); return err }, void(jc.Clear)}})
	rs := &sample.Reservoir{Size: 3}
	out = append(out, target{name: "Reservoir", fs: []func() error{func() error { rs.Push(1); return nil }, func() error {
		if n := len(rs.Sample()); n != 3 {
			return fmt.Errorf("%d items in a full sample of size 3", n)
		}
		return nil
	}}})
	return out
}

func void(f func()) func() error { return func() error { f(); return nil } }

// stressCase: concurrent operations on one metric; run with the race
// detector. A lock left held or taken twice blocks and is reported. Without
// concurrent clears a query that succeeds on a full window keeps succeeding.
func stressCase(t *T) {
	ts := stressTargets(t)
	tg := ts[t.r.Intn(len(ts))]
	t.op("%s: concurrent operations", tg.name)
	fmt.Printf("CASE %s\n", tg.name)
	// single-threaded first: every operation must return
	ok := make([]bool, len(tg.fs))
	for i := 0; i < 6; i++ {
		f := tg.fs[t.r.Intn(len(tg.fs))]
		t.noPanic(tg.name, func() { f() })
	}
	for i := 0; i < 8; i++ {
		tg.fs[0]()
	}
	for k, f := range tg.fs {
		if k < len(tg.fs)-1 || !tg.clr {
			ok[k] = f() == nil
		}
	}
	var wg sync.WaitGroup
	bad := make(chan string, 64)
	clear := t.r.Intn(2) == 0
	report := func(m string) {
		select {
		case bad <- m:
		default:
		}
	}
	for g := 0; g < 2; g++ {
		for k, f := range tg.fs {
			if tg.clr && k == len(tg.fs)-1 && !clear {
				continue
			}
			f, k := f, k
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						report(fmt.Sprint("panic: ", r))
					}
				}()
				for i := 0; i < 60; i++ {
					err := f()
					if err != nil && ok[k] && (!clear || !tg.clr) {
						report(fmt.Sprintf("operation %d (0 is Push, then the queries) fails in a full window: %v", k, err))
					}
				}
			}()
		}
	}
	wg.Wait()
	select {
	case m := <-bad:
		t.fail("%s under concurrent use: %s", tg.name, m)
	default:
	}
}
