package main

import (
	"math/big"
	"sync"

	mathutil "github.com/alexander-yu/stream/util/math"
)

func init() {
	cases["C23"] = []func(*T){binomCase}
}

func binomCase(t *T) {
	check := func(n, k int) {
		want := new(big.Int).Binomial(int64(n), int64(k))
		got := mathutil.Binom(n, k)
		if !want.IsInt64() || want.Int64() != int64(got) {
			t.fail("Binom(%d, %d) = %d, want %v", n, k, got, want)
		}
	}
	switch t.r.Intn(3) {
	case 0:
		for i := 0; i < 50; i++ {
			n := t.r.Intn(62)
			k := t.r.Intn(n + 1)
			t.op("Binom(%d, %d)", n, k)
			check(n, k)
		}
	case 1:
		for i := 0; i < 50; i++ {
			n := t.r.Intn(2000) - 1000
			if t.r.Intn(4) == 0 {
				n = int(t.r.Uint64())
			}
			want := 1
			if n&1 != 0 {
				want = -1
			}
			t.op("Sign(%d)", n)
			if got := mathutil.Sign(n); got != want {
				t.fail("Sign(%d) = %d, want %d", n, got, want)
			}
		}
	case 2:
		t.op("8 goroutines calling Binom concurrently")
		var wg sync.WaitGroup
		type res struct{ n, k, got int }
		out := make([][]res, 8)
		for g := range out {
			seed := t.r.Int()
			wg.Add(1)
			go func(g, seed int) {
				defer wg.Done()
				for i := 0; i < 200; i++ {
					seed = seed*1103515245 + 12345
					n := (seed >> 16 & 0xffff) % 62
					seed = seed*1103515245 + 12345
					k := (seed >> 16 & 0xffff) % (n + 1)
					out[g] = append(out[g], res{n, k, mathutil.Binom(n, k)})
				}
			}(g, seed)
		}
		wg.Wait()
		for _, o := range out {
			for _, r := range o {
				want := new(big.Int).Binomial(int64(r.n), int64(r.k))
				if want.Int64() != int64(r.got) {
					t.fail("concurrent Binom(%d, %d) = %d, want %v", r.n, r.k, r.got, want)
				}
			}
		}
	}
}
