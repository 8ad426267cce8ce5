package main

import (
	"math"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/moment"
)

func init() {
	cases["C09"] = []func(*T){func(t *T) { coreCase(t, false) }}
	cases["C10"] = []func(*T){func(t *T) { coreCase(t, true) }}
	cases["C11"] = []func(*T){metricCase, coreConfigCase}
	cases["C17"] = append(cases["C17"], coreConfigCase, mergeCase)
}

// weights gives the weight of every element; the decayed ones sum to 1.
func weights(n int, decay *float64) []float64 {
	w := make([]float64, n)
	for i := range w {
		switch {
		case decay == nil:
			w[i] = 1
		case i == 0:
			w[i] = math.Pow(1-*decay, float64(n-1))
		default:
			w[i] = *decay * math.Pow(1-*decay, float64(n-1-i))
		}
	}
	return w
}

func wmean(h []float64, decay *float64) float64 {
	w := weights(len(h), decay)
	s, t := 0., 0.
	for i, x := range h {
		s += w[i] * x
		t += w[i]
	}
	return s / t
}

// magFloor is the magnitude of the values pushed.
var magFloor = 1.0

// wsum is the k-th central sum and its magnitude.
func wsum(h []float64, k int, decay *float64) (float64, float64) {
	m := wmean(h, decay)
	w := weights(len(h), decay)
	s, a := 0., 0.
	for i, x := range h {
		s += w[i] * math.Pow(x-m, float64(k))
		a += w[i] * math.Pow(math.Abs(x-m)+math.Abs(m)+magFloor, float64(k))
	}
	return s, a
}

func iptr(i int) *int         { return &i }
func fptr(f float64) *float64 { return &f }
func randDecay(t *T) float64  { return float64(1+t.r.Intn(9)) / 10 }
func finite(vs ...float64) bool {
	for _, v := range vs {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return false
		}
	}
	return true
}

func coreCase(t *T, withDecay bool) {
	cfg := &moment.CoreConfig{Window: iptr(t.r.Intn(7)), Sums: moment.SumsConfig{}}
	if withDecay {
		cfg.Window = iptr(0)
		cfg.Decay = fptr(randDecay(t))
	}
	maxK := 0
	for i := t.r.Intn(4); i > 0; i-- {
		k := 1 + t.r.Intn(6)
		cfg.Sums[k] = true
		if k > maxK {
			maxK = k
		}
	}
	t.op("NewCore(window %d, decay %v, sums %v)", *cfg.Window, val(cfg.Decay), cfg.Sums)
	w := *cfg.Window
	c, err := moment.NewCore(cfg)
	if err != nil {
		t.fail("NewCore: %v", err)
	}
	var h []float64
	for i := 1 + t.r.Intn(25); i > 0; i-- {
		if t.r.Intn(12) == 0 {
			t.op("Clear")
			c.Clear()
			h = nil
		} else {
			x := t.val()
			t.op("Push(%v)", x)
			var err error
			if t.r.Intn(2) == 0 {
				err = c.Push(x)
			} else {
				c.Lock()
				err = c.UnsafePush(x)
				c.Unlock()
			}
			if err != nil {
				t.fail("Push: %v", err)
			}
			h = append(h, x)
		}
		win := window(h, w)
		if n := c.Count(); n != len(win) {
			t.fail("Count() = %d, %d values in the window", n, len(win))
		}
		m, err := c.Mean()
		if (err != nil) != (len(win) == 0) {
			t.fail("Mean() error %v, %d values in the window", err, len(win))
		}
		if err == nil && !near(m, wmean(win, cfg.Decay), 0) {
			t.fail("Mean() = %v, window %v has %v", m, win, wmean(win, cfg.Decay))
		}
		for k := -1; k <= maxK+2; k++ {
			var s float64
			var err error
			if t.r.Intn(2) == 0 {
				s, err = c.Sum(k)
			} else {
				c.RLock()
				s, err = c.UnsafeSum(k)
				c.RUnlock()
			}
			if (err != nil) != (len(win) == 0 || k <= 0 || k > maxK) {
				t.fail("Sum(%d) error %v, %d values, powers up to %d tracked", k, err, len(win), maxK)
			}
			if err == nil {
				want, _ := wsum(win, k, cfg.Decay)
				_, a := wsum(h, k, cfg.Decay) // values gone leave rounding behind
				if k == 1 {
					want = 0
				}
				if !near(s, want, a) {
					t.fail("Sum(%d) = %v, window %v has %v", k, s, win, want)
				}
			}
		}
	}
}

func val(p *float64) interface{} {
	if p == nil {
		return nil
	}
	return *p
}

type momentCase struct {
	name  string
	m     moment.Metric
	w     int
	decay *float64
	ref   func(h []float64, decay *float64) (float64, float64)
	set   func() bool
}

func sumOver(k int) func(h []float64, d *float64) (float64, float64) {
	return func(h []float64, d *float64) (float64, float64) {
		if k == 1 {
			return 0, 1
		}
		s, a := wsum(h, k, d)
		if d == nil {
			return s / (float64(len(h)) - 1), a
		}
		return s, a
	}
}

func newMoment(t *T) momentCase {
	w := t.r.Intn(7)
	k := 1 + t.r.Intn(5)
	d := randDecay(t)
	global := t.r.Intn(4) == 0
	if global {
		w = 0
	}
	std := func(h []float64, _ *float64) (float64, float64) {
		s, a := wsum(h, 2, nil)
		return math.Sqrt(s / (float64(len(h)) - 1)), math.Sqrt(a)
	}
	mean := func(h []float64, d *float64) (float64, float64) { return wmean(h, d), 1 }
	switch t.r.Intn(8) {
	case 0:
		m := moment.NewMean(w)
		if global {
			m = moment.NewGlobalMean()
		}
		return momentCase{"Mean", m, w, nil, mean, m.IsSetCore}
	case 1:
		m := moment.New(k, w)
		if global {
			m = moment.NewGlobal(k)
		}
		return momentCase{"Moment", m, w, nil, sumOver(k), m.IsSetCore}
	case 2:
		m := moment.NewStd(w)
		if global {
			m = moment.NewGlobalStd()
		}
		return momentCase{"Std", m, w, nil, std, m.IsSetCore}
	case 3:
		m := moment.NewSkewness(w)
		if global {
			m = moment.NewGlobalSkewness()
		}
		return momentCase{"Skewness", m, w, nil, func(h []float64, _ *float64) (float64, float64) {
			n := float64(len(h))
			m2, _ := wsum(h, 2, nil)
			m3, a := wsum(h, 3, nil)
			v := math.Pow(m2/n, 1.5)
			return math.Sqrt(n*(n-1)) / (n - 2) * (m3 / n) / v, a / v
		}, m.IsSetCore}
	case 4:
		m := moment.NewKurtosis(w)
		if global {
			m = moment.NewGlobalKurtosis()
		}
		return momentCase{"Kurtosis", m, w, nil, func(h []float64, _ *float64) (float64, float64) {
			n := float64(len(h))
			m2, _ := wsum(h, 2, nil)
			m4, a := wsum(h, 4, nil)
			v := (m2 / n) * (m2 / n)
			return (m4/n)/v - 3, a / v
		}, m.IsSetCore}
	case 5:
		m := moment.NewEWMA(d)
		return momentCase{"EWMA", m, 0, &d, mean, m.IsSetCore}
	case 6:
		m := moment.NewEWMMoment(k, d)
		return momentCase{"EWMMoment", m, 0, &d, sumOver(k), m.IsSetCore}
	default:
		m := moment.NewEWMStd(d)
		return momentCase{"EWMStd", m, 0, &d, func(h []float64, d *float64) (float64, float64) {
			s, a := wsum(h, 2, d)
			return math.Sqrt(s), math.Sqrt(a)
		}, m.IsSetCore}
	}
}

func metricCase(t *T) {
	mc := newMoment(t)
	t.op("new %s, window %d, decay %v", mc.m.String(), mc.w, val(mc.decay))
	var m stream.SimpleMetric = mc.m
	if mc.set() {
		t.fail("IsSetCore() before initialisation")
	}
	if err := m.Push(1); err == nil {
		t.fail("Push before initialisation succeeds")
	}
	if _, err := m.Value(); err == nil {
		t.fail("Value before initialisation succeeds")
	}
	t.noPanic("Clear before initialisation", m.Clear)
	if err := moment.Init(mc.m); err != nil {
		t.fail("Init: %v", err)
	}
	if !mc.set() {
		t.fail("not IsSetCore() after initialisation")
	}
	unit := []float64{1, 1, 1.0 / 1024, 64}[t.r.Intn(4)]
	magFloor = unit
	defer func() { magFloor = 1 }()
	var h []float64
	for i := 1 + t.r.Intn(20); i > 0; i-- {
		if t.r.Intn(12) == 0 {
			t.op("Clear")
			m.Clear()
			h = nil
		} else {
			x := t.val() * unit
			t.op("Push(%v)", x)
			if err := m.Push(x); err != nil {
				t.fail("Push: %v", err)
			}
			h = append(h, x)
		}
		win := window(h, mc.w)
		v, err := m.Value()
		if (err != nil) != (len(win) == 0) {
			t.fail("Value() error %v, %d values in the window", err, len(win))
		}
		if err == nil {
			want, a := mc.ref(win, mc.decay)
			m2, _ := wsum(win, 2, mc.decay)
			// degenerate windows only have to agree when the formula is defined
			if len(h) > len(win) {
				if _, b := mc.ref(h, mc.decay); b > a {
					a = b
				}
			}
			if finite(want) && (m2 > 1e-3*unit*unit || mc.name == "Mean" || mc.name == "EWMA" || mc.name == "Moment" || mc.name == "EWMMoment") {
				if len(win) == 1 && mc.name == "Moment" {
					continue
				}
				if !near(v, want, a) {
					t.fail("%s.Value() = %v, window %v has %v", mc.name, v, win, want)
				}
			}
		}
	}
}

func randCoreConfig(t *T) *moment.CoreConfig {
	c := &moment.CoreConfig{}
	if t.r.Intn(8) != 0 {
		c.Window = iptr([]int{-2, -1, 0, 0, 0, 1, 3}[t.r.Intn(7)])
	}
	if t.r.Intn(3) == 0 {
		c.Decay = fptr([]float64{-1, 0, 0.2, 0.5, 0.999, 1, 2, math.NaN()}[t.r.Intn(8)])
	}
	if t.r.Intn(5) != 0 {
		c.Sums = moment.SumsConfig{}
		for i := t.r.Intn(4); i > 0; i-- {
			k := 1 + t.r.Intn(6)
			if t.r.Intn(15) == 0 {
				k = -t.r.Intn(3)
			}
			c.Sums[k] = true
		}
	}
	return c
}

func showCore(c *moment.CoreConfig) []interface{} {
	var w interface{}
	if c.Window != nil {
		w = *c.Window
	}
	return []interface{}{w, val(c.Decay), c.Sums}
}

func coreConfigCase(t *T) {
	for i := 0; i < 20; i++ {
		c := randCoreConfig(t)
		t.op("NewCore(window, decay, sums = %v)", showCore(c))
		ok := c.Window != nil && *c.Window >= 0
		if c.Decay != nil && !(*c.Decay > 0 && *c.Decay < 1 && c.Window != nil && *c.Window == 0) {
			ok = false
		}
		max := 0
		keys := []int{}
		for k := range c.Sums {
			keys = append(keys, k)
			if k <= 0 {
				ok = false
			}
			if k > max {
				max = k
			}
		}
		core, err := moment.NewCore(c)
		if (err == nil) != ok {
			t.fail("NewCore(%v): error %v, valid %v", showCore(c), err, ok)
		}
		if len(c.Sums) != len(keys) {
			t.fail("NewCore changes the sums of the configuration to %v", c.Sums)
		}
		if err == nil {
			core.Push(1)
			core.Push(2)
			for k := 1; k <= max+2; k++ {
				if _, err := core.Sum(k); (err == nil) != (k <= max) {
					t.fail("Sum(%d) error %v with configuration %v", k, err, showCore(c))
				}
			}
		}
	}
}

func mergeCase(t *T) {
	n := t.r.Intn(5)
	var cs []*moment.CoreConfig
	for i := 0; i < n; i++ {
		c := randCoreConfig(t)
		// mostly agreeing
		if t.r.Intn(3) != 0 && i > 0 {
			c.Window, c.Decay = cs[0].Window, cs[0].Decay
			if c.Window != nil {
				c.Window = iptr(*c.Window)
			}
			if c.Decay != nil {
				c.Decay = fptr(*c.Decay)
			}
		}
		if c.Decay != nil && math.IsNaN(*c.Decay) {
			c.Decay = nil
		}
		cs = append(cs, c)
		t.op("config %d: window, decay, sums = %v", i, showCore(c))
	}
	var before [][]int
	conflict := n == 0
	all := map[int]bool{}
	var w *int
	var d *float64
	for _, c := range cs {
		var ks []int
		for k := range c.Sums {
			ks = append(ks, k)
			all[k] = true
		}
		before = append(before, ks)
		if c.Window != nil {
			if w != nil && *w != *c.Window {
				conflict = true
			}
			w = c.Window
		}
		if c.Decay != nil {
			if d != nil && *d != *c.Decay {
				conflict = true
			}
			d = c.Decay
		}
	}
	t.op("MergeConfigs")
	r, err := moment.MergeConfigs(cs...)
	if (err != nil) != conflict {
		t.fail("MergeConfigs error %v, conflicting %v", err, conflict)
	}
	for i, c := range cs {
		if len(c.Sums) != len(before[i]) {
			t.fail("MergeConfigs changes the sums of config %d to %v", i, c.Sums)
		}
	}
	if err != nil {
		return
	}
	if (r.Window == nil) != (w == nil) || w != nil && *r.Window != *w {
		t.fail("merged window differs")
	}
	if (r.Decay == nil) != (d == nil) || d != nil && *r.Decay != *d {
		t.fail("merged decay differs")
	}
	if len(r.Sums) != len(all) {
		t.fail("merged sums %v, want %v", r.Sums, all)
	}
	for k := range all {
		if !r.Sums[k] {
			t.fail("merged sums %v lack %d", r.Sums, k)
		}
	}
}
