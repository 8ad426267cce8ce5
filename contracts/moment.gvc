# C09, C10: the univariate core
ghostfield moment.Core g_n int
ghostfield moment.Core g_data (Array Int Real)

pred mc_start(c) = if c.window == 0 || c.g_n < c.window then 0 else c.g_n - c.window

pred mc_queue(c) =
  !c.queue.dead && c.queue.cap >= c.window
  && (c.window > 0 ==> c.queue.tail - c.queue.head == c.g_n - mc_start(c))
  && (c.window > 0 ==> forall j int :: {c.queue.data[j]} c.queue.head <= j < c.queue.tail ==>
        is(c.queue.data[j], "float64") && as(c.queue.data[j], "float64") == c.g_data[c.g_n - c.queue.tail + j])

# count, mean and sums describe data[n - count, n)
pred mc_stats(c, data, n) =
  0 <= c.count <= n && c.window >= 0 && off(c.sums) == 0 && (len(c.sums) > 1 ==> c.sums[1] == 0.0)
  && c.mean * real(c.count) == asum(data, n - c.count, n)
  && (c.count == 0 ==> c.mean == 0.0)
  && (forall j int :: {c.sums[j]} 2 <= j < len(c.sums) ==> c.sums[j] == psum(data, n - c.count, n, c.mean, j))

# the same with exponential weights over data[0, n)
pred mc_estats(c, data, n) =
  c.count == n && n >= 0 && off(c.sums) == 0 && (len(c.sums) > 1 ==> c.sums[1] == 0.0)
  && c.decay != nil && 0.0 < deref(c.decay) < 1.0
  && (n == 0 ==> c.mean == 0.0)
  && (n > 0 ==> c.mean == emean(data, n, deref(c.decay)))
  && (n == 0 ==> forall j int :: {c.sums[j]} 2 <= j < len(c.sums) ==> c.sums[j] == 0.0)
  && (n > 0 ==> forall j int :: {c.sums[j]} 2 <= j < len(c.sums) ==> c.sums[j] == esum(data, n, c.mean, j, deref(c.decay)))

pred mc_inv(c) = c.window >= 0 && c.queue != nil && c.g_n >= 0 && off(c.sums) == 0
  && (c.decay != nil ==> c.window == 0)
  && mc_queue(c) && c.count == c.g_n - mc_start(c)
  && (if c.decay == nil then mc_stats(c, c.g_data, c.g_n) else mc_estats(c, c.g_data, c.g_n))

func (*moment.Core).add(c, x) ()
uses moments
opt optional=1 fallback=(*moment.Core).UnsafePush
requires c != nil && mc_stats(c, c.g_data, c.g_n)
modifies c.mean, c.count, c.sums[*]
ensures c.count == old(c.count) + 1
ensures [sums include x] mc_stats(c, c.g_data[c.g_n := x], c.g_n + 1)
inv [add: done] forall j int :: {c.sums[j]} $kM < j < len(c.sums) ==> c.sums[j] == psum(c.g_data[c.g_n := x], c.g_n + 1 - c.count, c.g_n + 1, c.mean, j)
inv [add: rest] forall j int :: {c.sums[j]} 0 <= j && (j <= $kM || j < 2) && j < len(c.sums) ==> c.sums[j] == pre(c.sums[j])
inv [add: others] $iM >= 1 && (forall j int :: {c.sums[j]} 0 <= j < len(c.sums) && j != $k ==> c.sums[j] == pre(c.sums[j]))
inv [add: row] c.sums[$k] == pre(c.sums[$k]) + binner(pre(row(c.sums)), $k, $xdelta, real(c.count), $iM - 1)

func (*moment.Core).remove(c, x) ()
uses moments
opt optional=1 fallback=(*moment.Core).UnsafePush
requires c != nil && mc_stats(c, c.g_data, c.g_n) && c.count > 0 && x == c.g_data[c.g_n - c.count]
modifies c.mean, c.count, c.sums[*]
ensures c.count == old(c.count) - 1
ensures [sums exclude x] mc_stats(c, c.g_data, c.g_n)
inv [remove: done] forall j int :: {c.sums[j]} 2 <= j < $kM ==> c.sums[j] == psum(c.g_data, c.g_n - c.count, c.g_n, c.mean, j)
inv [remove: rest] forall j int :: {c.sums[j]} 0 <= j && ($kM <= j || j < 2) && j < len(c.sums) ==> c.sums[j] == pre(c.sums[j])
inv [remove: others] $iM >= 1 && (forall j int :: {c.sums[j]} 0 <= j < len(c.sums) && j != $k ==> c.sums[j] == pre(c.sums[j]))
inv [remove: row] c.sums[$k] == pre(c.sums[$k]) - binner(pre(row(c.sums)), $k, $xdelta, real(c.count + 1), $iM - 1)
inv [cleared] forall j int :: {c.sums[j]} 0 <= j < $kM ==> c.sums[j] == 0.0

func (*moment.Core).addDecay(c, x) ()
uses moments
opt optional=1 fallback=(*moment.Core).UnsafePush
requires c != nil && mc_estats(c, c.g_data, c.g_n)
modifies c.mean, c.count, c.sums[*]
ensures c.count == old(c.count) + 1
ensures [weighted sums include x] mc_estats(c, c.g_data[c.g_n := x], c.g_n + 1)
inv [decay: done] forall j int :: {c.sums[j]} $kM < j < len(c.sums) ==> c.sums[j] == esum(c.g_data[c.g_n := x], c.g_n + 1, c.mean, j, deref(c.decay))
inv [decay: rest] forall j int :: {c.sums[j]} 0 <= j && (j <= $kM || j < 2) && j < len(c.sums) ==> c.sums[j] == pre(c.sums[j])
inv [decay: term] c.count > 1 && $iM >= 1 && $sM == pre($sM) + (1.0 - deref(c.decay)) * dinner(pre(row(c.sums)), $k, deref(c.decay), $xdelta, $iM - 1)
inv [decay: first] c.count == 1 && $sM == pre($sM)

func (*moment.Core).UnsafePush(c, x) (err)
uses moments
requires c != nil && mc_inv(c)
modifies c.*, c.sums[*], c.queue.*
ghost c.g_data := old(c.g_data)[old(c.g_n) := x]
ghost c.g_n := old(c.g_n) + 1
ensures [push succeeds] err == nil
ensures [configuration unchanged] c.window == old(c.window) && c.decay == old(c.decay) && len(c.sums) == old(len(c.sums))
ensures [invariant] mc_inv(c)

func (*moment.Core).Push(c, x) (err)
uses moments
requires c != nil && mc_inv(c)
modifies c.*, c.sums[*], c.queue.*
ghost c.g_data := old(c.g_data)[old(c.g_n) := x]
ghost c.g_n := old(c.g_n) + 1
ensures [push succeeds] err == nil
ensures [configuration unchanged] c.window == old(c.window) && c.decay == old(c.decay) && len(c.sums) == old(len(c.sums))
ensures [invariant] mc_inv(c)

func (*moment.Core).UnsafeCount(c) (r)
uses moments
requires c != nil && mc_inv(c)
modifies nothing
ensures [count of the window] r == c.g_n - mc_start(c)

func (*moment.Core).Count(c) (r)
uses moments
requires c != nil && mc_inv(c)
modifies nothing
ensures [count of the window] r == c.g_n - mc_start(c)

pred mc_mean(c, r) =
  (c.decay == nil ==> r * real(c.g_n - mc_start(c)) == asum(c.g_data, mc_start(c), c.g_n))
  && (c.decay != nil ==> r == emean(c.g_data, c.g_n, deref(c.decay)))

func (*moment.Core).UnsafeMean(c) (r, err)
uses moments
requires c != nil && mc_inv(c)
modifies nothing
ensures [error exactly when empty] err != nil <==> c.g_n == mc_start(c)
ensures [mean of the window] err == nil ==> mc_mean(c, r)

func (*moment.Core).Mean(c) (r, err)
uses moments
requires c != nil && mc_inv(c)
modifies nothing
ensures [error exactly when empty] err != nil <==> c.g_n == mc_start(c)
ensures [mean of the window] err == nil ==> mc_mean(c, r)

pred mc_sum(c, k, r) =
  mc_mean(c, c.mean) && r == csum(c, k)

# k-th central power sum of the window
pred csum(c, k) = if c.decay == nil then psum(c.g_data, mc_start(c), c.g_n, c.mean, k) else esum(c.g_data, c.g_n, c.mean, k, deref(c.decay))
pred ccount(c) = real(c.g_n - mc_start(c))

func (*moment.Core).UnsafeSum(c, k) (r, err)
uses moments
requires c != nil && mc_inv(c)
modifies nothing
ensures [error exactly when empty or untracked] err != nil <==> c.g_n == mc_start(c) || k <= 0 || k >= len(c.sums)
ensures [central power sum of the window] err == nil ==> mc_sum(c, k, r)

func (*moment.Core).Sum(c, k) (r, err)
uses moments
requires c != nil && mc_inv(c)
modifies nothing
ensures [error exactly when empty or untracked] err != nil <==> c.g_n == mc_start(c) || k <= 0 || k >= len(c.sums)
ensures [central power sum of the window] err == nil ==> mc_sum(c, k, r)

func (*moment.Core).UnsafeClear(c) ()
uses moments
requires c != nil && mc_inv(c)
modifies c.*, c.sums[*], c.queue.*
ghost c.g_n := 0
inv [cleared] forall j int :: {c.sums[j]} 0 <= j < $kM ==> c.sums[j] == 0.0
ensures [configuration unchanged] c.window == old(c.window) && c.decay == old(c.decay) && len(c.sums) == old(len(c.sums))
ensures [history empty] c.g_n == 0
ensures [invariant] mc_inv(c)
ensures [as new] c.count == 0 && c.mean == 0.0 && (forall j int :: {c.sums[j]} 0 <= j < len(c.sums) ==> c.sums[j] == 0.0) && c.queue.head == c.queue.tail && !c.queue.dead && fresh(c.queue)

func (*moment.Core).Clear(c) ()
uses moments
requires c != nil && mc_inv(c)
modifies c.*, c.sums[*], c.queue.*
ghost c.g_n := 0
inv [cleared] forall j int :: {c.sums[j]} 0 <= j < $kM ==> c.sums[j] == 0.0
ensures [configuration unchanged] c.window == old(c.window) && c.decay == old(c.decay) && len(c.sums) == old(len(c.sums))
ensures [history empty] c.g_n == 0
ensures [invariant] mc_inv(c)
ensures [as new] c.count == 0 && c.mean == 0.0 && (forall j int :: {c.sums[j]} 0 <= j < len(c.sums) ==> c.sums[j] == 0.0) && c.queue.head == c.queue.tail && !c.queue.dead && fresh(c.queue)

globalinv moment G_moment_defaultConfig != nil && allocated(G_moment_defaultConfig) && G_moment_defaultConfig.Window == nil && G_moment_defaultConfig.Decay == nil

func moment.init() ()
requires !G_moment_init$guard
opt noframe=1

pred mconf_valid(config) = config.Window != nil && deref(config.Window) >= 0
  && (config.Decay != nil ==> 0.0 < deref(config.Decay) < 1.0 && deref(config.Window) == 0)
  && (forall k int :: {has(config.Sums, k)} has(config.Sums, k) ==> k > 0)

func moment.NewCore(config) (r, err)
uses moments
requires config != nil
modifies config.*
inv [largest power so far] $nM >= -1 && (forall k int :: {has(config.Sums, k)} has(config.Sums, k) && $w[k] ==> k <= $nM) && ($nM == -1 || has(config.Sums, $nM))
inv [powers positive so far] forall k int :: {has(config.Sums, k)} has(config.Sums, k) && $w[k] ==> k > 0
ensures [created exactly when valid] err == nil <==> mconf_valid(config)
ensures [configuration kept] config.Window == old(config.Window) && config.Decay == old(config.Decay) && (old(config.Sums) != nil ==> config.Sums == old(config.Sums))
ensures [new core has an empty history] err == nil ==> fresh(r) && r.g_n == 0
ensures [new core satisfies the invariant] err == nil ==> mc_inv(r)
ensures [window and decay as configured] err == nil ==> r.window == deref(config.Window) && r.decay == config.Decay
ensures [every configured power is tracked] err == nil ==> forall k int :: {has(config.Sums, k)} has(config.Sums, k) ==> k < len(r.sums)
ensures [nothing beyond what those dominate is tracked] err == nil ==> len(r.sums) == 0 || has(config.Sums, len(r.sums) - 1)
ensures [as new] err == nil ==> r.count == 0 && r.mean == 0.0 && (forall j int :: {r.sums[j]} 0 <= j < len(r.sums) ==> r.sums[j] == 0.0) && r.queue.head == r.queue.tail && !r.queue.dead

func moment.MergeConfigs(configs) (r, err)
assume off(configs) == 0
requires forall i int :: {configs[i]} 0 <= i < len(configs) ==> configs[i] != nil && allocated(configs[i]) && allocated(configs[i].Sums)
modifies nothing
inv [windows so far agree] ($p == nil ==> forall q int :: {configs[q]} 0 <= q < $iM ==> configs[q].Window == nil) && ($p != nil ==> forall q int :: {configs[q]} 0 <= q < $iM ==> configs[q].Window == nil || deref(configs[q].Window) == deref($p))
inv [window comes from an input] $p != nil ==> exists q int :: {configs[q]} 0 <= q < $iM && configs[q].Window == $p
inv [decays so far agree] ($p == nil ==> forall q int :: {configs[q]} 0 <= q < $iM ==> configs[q].Decay == nil) && ($p != nil ==> forall q int :: {configs[q]} 0 <= q < $iM ==> configs[q].Decay == nil || deref(configs[q].Decay) == deref($p))
inv [decay comes from an input] $p != nil ==> exists q int :: {configs[q]} 0 <= q < $iM && configs[q].Decay == $p
inv [sums so far are tracked] forall q int, k int :: {configs[q], has(configs[q].Sums, k)} 0 <= q < $iM && has(configs[q].Sums, k) ==> has($p.Sums, k)
inv [tracked sums come from an input] forall k int :: {has($p.Sums, k)} has($p.Sums, k) ==> exists q int :: {configs[q]} 0 <= q < $iM && has(configs[q].Sums, k)
inv [keys copied so far] forall k int :: {has($z, k)} has($zs, k) && $w[k] ==> has($z, k)
inv [only keys of both] forall k int :: {has($z, k)} has($z, k) <==> pre(has($z, k)) || has($zs, k) && $w[k]
ensures [fails exactly without or with conflicting configurations] err != nil <==> len(configs) == 0 || (exists i int, j int :: {configs[i], configs[j]} 0 <= i < len(configs) && 0 <= j < len(configs) && (configs[i].Window != nil && configs[j].Window != nil && deref(configs[i].Window) != deref(configs[j].Window) || configs[i].Decay != nil && configs[j].Decay != nil && deref(configs[i].Decay) != deref(configs[j].Decay)))
ensures [common window] err == nil ==> (r != nil && (r.Window == nil ==> forall i int :: {configs[i]} 0 <= i < len(configs) ==> configs[i].Window == nil) && (r.Window != nil ==> exists i int :: {configs[i]} 0 <= i < len(configs) && configs[i].Window != nil && deref(configs[i].Window) == deref(r.Window)))
ensures [common decay] err == nil ==> (r.Decay == nil ==> forall i int :: {configs[i]} 0 <= i < len(configs) ==> configs[i].Decay == nil) && (r.Decay != nil ==> exists i int :: {configs[i]} 0 <= i < len(configs) && configs[i].Decay != nil && deref(configs[i].Decay) == deref(r.Decay))
ensures [tracks every sum of every input] err == nil ==> forall i int, k int :: {configs[i], has(configs[i].Sums, k)} 0 <= i < len(configs) && has(configs[i].Sums, k) ==> has(r.Sums, k)
ensures [tracks nothing else] err == nil ==> forall k int :: {has(r.Sums, k)} has(r.Sums, k) ==> exists i int :: {configs[i]} 0 <= i < len(configs) && has(configs[i].Sums, k)

pred nodecay(c) = c.decay == nil
pred hasdecay(c) = c.decay != nil

property C09 entry=nodecay entrytype=*moment.Core (*moment.Core).UnsafePush (*moment.Core).Push (*moment.Core).UnsafeCount (*moment.Core).Count (*moment.Core).UnsafeMean (*moment.Core).Mean (*moment.Core).UnsafeSum (*moment.Core).Sum (*moment.Core).UnsafeClear (*moment.Core).Clear moment.NewCore
property C10 entry=hasdecay entrytype=*moment.Core (*moment.Core).UnsafePush (*moment.Core).Push (*moment.Core).UnsafeCount (*moment.Core).Count (*moment.Core).UnsafeMean (*moment.Core).Mean (*moment.Core).UnsafeSum (*moment.Core).Sum (*moment.Core).UnsafeClear (*moment.Core).Clear moment.NewCore
