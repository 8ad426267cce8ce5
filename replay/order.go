package main

import (
	heapops "container/heap"
	"math"
	"math/rand"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/heap"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
)

func init() {
	cases["C01"] = []func(*T){minmaxCase}
	cases["C02"] = []func(*T){func(t *T) { treeCase(t, "avl", &avl.Tree{}) }}
	cases["C03"] = []func(*T){func(t *T) { treeCase(t, "rb", &rb.Tree{}) }}
	cases["C04"] = []func(*T){skipCase}
	cases["C05"] = []func(*T){func(t *T) { treeCase(t, "avl", &avl.Tree{}) }, func(t *T) { treeCase(t, "rb", &rb.Tree{}) }}
	cases["C06"] = []func(*T){quantileCase, medianCase}
	cases["C07"] = []func(*T){heapMedianCase}
	cases["C08"] = []func(*T){heapCase, heapLongCase}
}

func minmaxCase(t *T) {
	w := t.r.Intn(7)
	mx, err1 := minmax.NewMax(w)
	mn, err2 := minmax.NewMin(w)
	if t.r.Intn(10) == 0 {
		w = 0
		mx, mn = minmax.NewGlobalMax(), minmax.NewGlobalMin()
	}
	t.op("NewMax/NewMin(%d)", w)
	if err1 != nil || err2 != nil {
		t.fail("constructor error %v %v", err1, err2)
	}
	if _, err := minmax.NewMax(-1 - t.r.Intn(3)); err == nil {
		t.fail("negative window accepted by NewMax")
	}
	if _, err := minmax.NewMin(-1 - t.r.Intn(3)); err == nil {
		t.fail("negative window accepted by NewMin")
	}
	var h []float64
	n := 1 + t.r.Intn(30)
	span := 2 + t.r.Intn(6)
	for i := 0; i < n; i++ {
		if t.r.Intn(14) == 0 {
			t.op("Clear")
			mx.Clear()
			mn.Clear()
			h = nil
		} else {
			x := float64(t.r.Intn(span))
			switch t.r.Intn(25) {
			case 0:
				x = math.Inf(1)
			case 1:
				x = math.Inf(-1)
			case 2:
				x = -x
			}
			t.op("Push(%v)", x)
			if e := mx.Push(x); e != nil {
				t.fail("Max.Push: %v", e)
			}
			if e := mn.Push(x); e != nil {
				t.fail("Min.Push: %v", e)
			}
			h = append(h, x)
		}
		win := window(h, w)
		a, e1 := mx.Value()
		b, e2 := mn.Value()
		if (e1 != nil) != (len(win) == 0) || (e2 != nil) != (len(win) == 0) {
			t.fail("error mismatch: window %v, errors %v %v", win, e1, e2)
		}
		if len(win) > 0 {
			s := sorted(win)
			if a != s[len(s)-1] {
				t.fail("Max.Value() = %v, window %v", a, win)
			}
			if b != s[0] {
				t.fail("Min.Value() = %v, window %v", b, win)
			}
		}
	}
}

func checkAVL(t *T, n *avl.Node) int {
	if n == nil {
		return 0
	}
	var l, r *avl.Node
	if x, err := n.Left(); err == nil {
		l, _ = x.(*avl.Node)
	}
	if x, err := n.Right(); err == nil {
		r, _ = x.(*avl.Node)
	}
	a, b := checkAVL(t, l), checkAVL(t, r)
	if a-b > 1 || b-a > 1 {
		t.fail("avl: subtrees of %v have heights %d and %d", n.Value(), a, b)
	}
	h := a
	if b > h {
		h = b
	}
	h++
	// leaves report 0
	if n.Height() != h-1 {
		t.fail("avl: node %v reports height %d, true height %d", n.Value(), n.Height(), h-1)
	}
	return h
}

func checkRB(t *T, n *rb.Node, root bool) int {
	if n == nil {
		return 1
	}
	var l, r *rb.Node
	if x, err := n.Left(); err == nil {
		l, _ = x.(*rb.Node)
	}
	if x, err := n.Right(); err == nil {
		r, _ = x.(*rb.Node)
	}
	if !root && n.Color() == rb.Red {
		if (l != nil && l.Color() == rb.Red) || (r != nil && r.Color() == rb.Red) {
			t.fail("rb: red node %v has a red child", n.Value())
		}
	}
	a, b := checkRB(t, l, false), checkRB(t, r, false)
	if a != b {
		t.fail("rb: black heights %d and %d below %v", a, b, n.Value())
	}
	if n.Color() == rb.Black {
		a++
	}
	return a
}

func checkShape(t *T, name string, s order.Statistic) {
	n := s.Size()
	nodes := map[order.Node]bool{}
	child := map[order.Node]bool{}
	for k := 0; k < n; k++ {
		nodes[s.Select(k)] = true
	}
	for x := range nodes {
		switch y := x.(type) {
		case *avl.Node:
			if c, err := y.Left(); err == nil {
				child[c] = true
			}
			if c, err := y.Right(); err == nil {
				child[c] = true
			}
		case *rb.Node:
			if c, err := y.Left(); err == nil {
				child[c] = true
			}
			if c, err := y.Right(); err == nil {
				child[c] = true
			}
		}
	}
	for x := range nodes {
		if child[x] {
			continue
		}
		switch y := x.(type) {
		case *avl.Node:
			h := checkAVL(t, y)
			if tr, ok := s.(*avl.Tree); ok && tr.Height() != h-1 {
				t.fail("avl: Tree.Height() = %d, true height %d", tr.Height(), h-1)
			}
		case *rb.Node:
			checkRB(t, y, true)
		}
	}
}

func treeCase(t *T, name string, s order.Statistic) {
	t.op("new %s", name)
	var h []float64
	n := 1 + t.r.Intn(60)
	span := 1 + t.r.Intn(12)
	if t.r.Intn(3) == 0 {
		span = 60
	}
	mode := t.r.Intn(4)
	for i := 0; i < n; i++ {
		x := float64(t.r.Intn(span))
		if mode == 1 {
			x = float64(i)
		} else if mode == 2 {
			x = float64(n - i)
		}
		switch c := t.r.Intn(20); {
		case c == 0 && t.r.Intn(4) == 0:
			t.op("Clear")
			s.Clear()
			h = nil
		case c < 8 && i > 3:
			if len(h) > 0 && t.r.Intn(3) > 0 {
				x = h[t.r.Intn(len(h))]
			}
			t.op("Remove(%v)", x)
			s.Remove(x)
			for j, y := range h {
				if y == x {
					h = append(h[:j:j], h[j+1:]...)
					break
				}
			}
		default:
			t.op("Add(%v)", x)
			s.Add(x)
			h = append(h, x)
		}
		srt := sorted(h)
		if s.Size() != len(h) {
			t.fail("%s: Size() = %d, want %d (%v)", name, s.Size(), len(h), srt)
		}
		for k, y := range srt {
			nd := s.Select(k)
			if nd == nil {
				t.fail("%s: Select(%d) is nil, contents %v", name, k, srt)
			}
			if nd.Value() != y {
				t.fail("%s: Select(%d) = %v, contents %v", name, k, nd.Value(), srt)
			}
		}
		for _, v := range append([]float64{-1.5, 1e9}, srt...) {
			for _, q := range []float64{v, v + 0.5} {
				c := 0
				for _, y := range h {
					if y < q {
						c++
					}
				}
				if s.Rank(q) != c {
					t.fail("%s: Rank(%v) = %d, want %d, contents %v", name, q, s.Rank(q), c, srt)
				}
			}
		}
		checkShape(t, name, s)
	}
}

func skipCase(t *T) {
	var opts []order.Option
	lvl := 1 + t.r.Intn(6)
	p := []float64{0.1, 0.5, 0.9, 0.5}[t.r.Intn(4)]
	opts = append(opts, skiplist.MaxLevelOption(lvl), skiplist.ProbabilityOption(p), skiplist.RandOption(rand.New(rand.NewSource(t.r.Int63()))))
	s, err := skiplist.New(opts...)
	if err != nil {
		t.fail("skiplist.New: %v", err)
	}
	t.op("skiplist.New(maxLevel %d, p %v)", lvl, p)
	treeCase(t, "skiplist", s)
}

// interpolate computes the documented quantile.
func interpolate(win []float64, q float64, mode quantile.Interpolation) float64 {
	s := sorted(win)
	raw := q * float64(len(s)-1)
	i := int(math.Floor(raw))
	if raw == float64(i) {
		return s[i]
	}
	d := raw - float64(i)
	lo, hi := s[i], s[i+1]
	switch mode {
	case quantile.Linear:
		return (1-d)*lo + d*hi
	case quantile.Lower:
		return lo
	case quantile.Higher:
		return hi
	case quantile.Nearest:
		if d < 0.5 || (d == 0.5 && i%2 == 0) {
			return lo
		}
		return hi
	}
	return (lo + hi) / 2
}

func implOpt(t *T) (quantile.Option, string) {
	switch t.r.Intn(4) {
	case 0:
		return quantile.ImplOption(quantile.AVL), "AVL"
	case 1:
		return quantile.ImplOption(quantile.RedBlack), "RedBlack"
	case 2:
		return quantile.ImplOption(quantile.SkipList, skiplist.RandOption(rand.New(rand.NewSource(t.r.Int63())))), "SkipList"
	}
	return nil, "default"
}

func quantileCase(t *T) {
	w := t.r.Intn(6)
	mode := quantile.Interpolation(t.r.Intn(5))
	var opts []quantile.Option
	o, name := implOpt(t)
	if o != nil {
		opts = append(opts, o)
	}
	if mode != quantile.Linear || t.r.Intn(2) == 0 {
		opts = append(opts, quantile.InterpolationOption(mode))
	}
	q, err := quantile.New(w, opts...)
	t.op("quantile.New(%d, %s, interpolation %d)", w, name, mode)
	if err != nil {
		t.fail("New: %v", err)
	}
	var h []float64
	for i, n := 0, 1+t.r.Intn(25); i < n; i++ {
		if t.r.Intn(15) == 0 {
			t.op("Clear")
			q.Clear()
			h = nil
		} else {
			x := t.val()
			t.op("Push(%v)", x)
			if e := q.Push(x); e != nil {
				t.fail("Push: %v", e)
			}
			h = append(h, x)
		}
		win := window(h, w)
		for _, p := range []float64{0.1, 0.25, 0.5, 0.75, 0.9, 1.0 / 3, t.r.Float64()} {
			if p == 0 {
				continue
			}
			v, e := q.Value(p)
			if (e != nil) != (len(win) == 0) {
				t.fail("Value(%v): error %v, window %v", p, e, win)
			}
			if e == nil && !near(v, interpolate(win, p, mode), 0) {
				t.fail("Value(%v) = %v, want %v, window %v", p, v, interpolate(win, p, mode), win)
			}
			if e == nil && mode != quantile.Linear && mode != quantile.Midpoint && v != interpolate(win, p, mode) {
				t.fail("Value(%v) = %v, want %v, window %v", p, v, interpolate(win, p, mode), win)
			}
		}
		for _, p := range []float64{0, 1, -0.5, 2, math.NaN(), math.Inf(1)} {
			if _, e := q.Value(p); e == nil {
				t.fail("Value(%v) is not an error", p)
			}
		}
	}
}

func medianCase(t *T) {
	w := t.r.Intn(6)
	var opts []quantile.Option
	o, name := implOpt(t)
	if o != nil {
		opts = append(opts, o)
	}
	m, e1 := quantile.NewMedian(w, opts...)
	r, e2 := quantile.NewIQR(w, opts...)
	t.op("NewMedian/NewIQR(%d, %s)", w, name)
	if e1 != nil || e2 != nil {
		t.fail("constructor: %v %v", e1, e2)
	}
	var h []float64
	for i, n := 0, 1+t.r.Intn(25); i < n; i++ {
		if t.r.Intn(15) == 0 {
			t.op("Clear")
			m.Clear()
			r.Clear()
			h = nil
		} else {
			x := t.val()
			t.op("Push(%v)", x)
			m.Push(x)
			r.Push(x)
			h = append(h, x)
		}
		win := window(h, w)
		a, e1 := m.Value()
		b, e2 := r.Value()
		if (e1 != nil) != (len(win) == 0) || (e2 != nil) != (len(win) == 0) {
			t.fail("errors %v %v, window %v", e1, e2, win)
		}
		if len(win) > 0 {
			if want := interpolate(win, 0.5, quantile.Midpoint); a != want {
				t.fail("Median = %v, want %v, window %v", a, want, win)
			}
			if want := interpolate(win, 0.75, quantile.Midpoint) - interpolate(win, 0.25, quantile.Midpoint); b != want {
				t.fail("IQR = %v, want %v, window %v", b, want, win)
			}
		}
	}
}

func heapMedianCase(t *T) {
	w := t.r.Intn(8)
	m, err := quantile.NewHeapMedian(w)
	if w == 0 && t.r.Intn(2) == 0 {
		m = quantile.NewGlobalHeapMedian()
	}
	t.op("NewHeapMedian(%d)", w)
	if err != nil {
		t.fail("NewHeapMedian: %v", err)
	}
	if _, err := quantile.NewHeapMedian(-1); err == nil {
		t.fail("negative window accepted")
	}
	span := 2 + t.r.Intn(8)
	var h []float64
	for i, n := 0, 1+t.r.Intn(40); i < n; i++ {
		if t.r.Intn(18) == 0 {
			t.op("Clear")
			m.Clear()
			h = nil
		} else {
			x := float64(t.r.Intn(span))
			t.op("Push(%v)", x)
			if e := m.Push(x); e != nil {
				t.fail("Push: %v", e)
			}
			h = append(h, x)
		}
		win := window(h, w)
		v, e := m.Value()
		if (e != nil) != (len(win) == 0) {
			t.fail("Value: error %v, window %v", e, win)
		}
		if len(win) > 0 {
			s := sorted(win)
			k := len(s)
			want := s[k/2]
			if k%2 == 0 {
				want = (s[k/2-1] + s[k/2]) / 2
			}
			if v != want {
				t.fail("Value = %v, want %v, window %v", v, want, win)
			}
		}
	}
}

func heapCase(t *T)     { heapRun(t, 12, 30) }
func heapLongCase(t *T) { heapRun(t, 40, 80) }

func heapRun(t *T, maxInit, maxOps int) {
	var init []float64
	for i, n := 0, t.r.Intn(maxInit); i < n; i++ {
		init = append(init, float64(t.r.Intn(10)))
	}
	cmp := func(a, b float64) bool { return a < b }
	cn := "<"
	switch t.r.Intn(3) {
	case 1:
		cmp, cn = func(a, b float64) bool { return a > b }, ">"
	case 2:
		cmp, cn = func(a, b float64) bool { return int(a)/3 < int(b)/3 }, "a/3<b/3"
	}
	h := heap.New("h", append([]float64(nil), init...), cmp)
	t.op("heap.New(%v, %s)", init, cn)
	all := append([]float64(nil), init...)
	live := map[*heap.Item]bool{}
	removed := func(v float64) {
		for j, y := range all {
			if y == v {
				all = append(all[:j:j], all[j+1:]...)
				return
			}
		}
		t.fail("took out %v, which is not in %v", v, all)
	}
	pick := func() *heap.Item {
		var its []*heap.Item
		for it := range live {
			its = append(its, it)
		}
		if len(its) == 0 {
			return nil
		}
		// deterministic choice
		best := its[0]
		k := t.r.Intn(1000)
		for _, it := range its {
			if (int(it.Val)*7919+k)%1000 < (int(best.Val)*7919+k)%1000 {
				best = it
			}
		}
		return best
	}
	check := func() {
		if h.Len() != len(all) {
			t.fail("Len() = %d, want %d", h.Len(), len(all))
		}
		vs := sorted(h.Values())
		for i, v := range sorted(all) {
			if vs[i] != v {
				t.fail("Values() = %v, want %v", vs, sorted(all))
			}
		}
		if len(all) > 0 {
			top := h.Peek()
			for _, v := range all {
				if cmp(v, top) {
					t.fail("Peek() = %v, but %v precedes it", top, v)
				}
			}
		}
	}
	check()
	for i, n := 0, t.r.Intn(maxOps); i < n; i++ {
		switch t.r.Intn(4) {
		case 0:
			it := &heap.Item{Val: float64(t.r.Intn(10))}
			t.op("Push(%v)", it.Val)
			heapops.Push(h, it)
			live[it] = true
			all = append(all, it.Val)
			if it.HeapID != h.ID {
				t.fail("item has HeapID %q in heap %q", it.HeapID, h.ID)
			}
		case 1:
			if len(all) == 0 {
				continue
			}
			t.op("Pop")
			top := h.Peek()
			it := heapops.Pop(h).(*heap.Item)
			if it.Val != top {
				t.fail("Pop returned %v, Peek was %v", it.Val, top)
			}
			removed(it.Val)
			delete(live, it)
		case 2:
			if it := pick(); it != nil {
				v := float64(t.r.Intn(10))
				t.op("Update(item %v, %v)", it.Val, v)
				removed(it.Val)
				h.Update(it, v)
				all = append(all, v)
				if it.Val != v {
					t.fail("item holds %v after Update to %v", it.Val, v)
				}
			}
		case 3:
			if it := pick(); it != nil {
				t.op("Remove(item %v)", it.Val)
				removed(it.Val)
				h.Remove(it)
				delete(live, it)
			}
		}
		check()
	}
}

var _ stream.SimpleMetric
