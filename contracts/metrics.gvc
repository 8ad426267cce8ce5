# C11: univariate metrics (generated by tools/mkmetrics.py)

# ---- moment.Mean ----
pred mean_inv(m) = true && (m.core != nil ==> allocated(m.core) && mc_inv(m.core))

func (*moment.Mean).IsSetCore(m) (r)
uses moments
requires m != nil && mean_inv(m)
modifies nothing
ensures [set exactly when a core was given] r <==> m.core != nil

func (*moment.Mean).SetCore(m, c) ()
uses moments
requires m != nil && true && (c != nil ==> allocated(c) && mc_inv(c))
modifies m.core
ensures [core stored] m.core == c && mean_inv(m)

func (*moment.Mean).Push(m, x) (err)
uses moments
requires m != nil && mean_inv(m)
modifies m.core.*, m.core.sums[*], m.core.queue.*
ensures [error exactly when not initialised] err != nil <==> m.core == nil
ensures [pushed exactly once] err == nil ==> m.core.g_n == old(m.core.g_n) + 1 && m.core.g_data == old(m.core.g_data)[old(m.core.g_n) := x]
ensures [core and configuration unchanged] m.core == old(m.core) && (m.core != nil ==> m.core.window == old(m.core.window) && m.core.decay == old(m.core.decay) && len(m.core.sums) == old(len(m.core.sums)))
ensures [invariant] mean_inv(m)

func (*moment.Mean).Value(m) (r, err)
uses moments
requires m != nil && mean_inv(m)
modifies nothing
ensures [error exactly when not initialised, empty or untracked] err != nil <==> m.core == nil || m.core.g_n == mc_start(m.core) || false
ensures [documented value] err == nil ==> mc_mean(m.core, r)

func (*moment.Mean).Clear(m) ()
uses moments
requires m != nil && mean_inv(m)
modifies m.core.*, m.core.sums[*], m.core.queue.*
ensures [history empty] m.core == old(m.core) && (m.core != nil ==> m.core.g_n == 0 && m.core.window == old(m.core.window) && m.core.decay == old(m.core.decay) && len(m.core.sums) == old(len(m.core.sums)))
ensures [invariant] mean_inv(m)

func (*moment.Mean).Config(m) (r)
uses moments
requires m != nil && mean_inv(m)
modifies nothing
ensures [configuration as constructed] r != nil && r.Window != nil && deref(r.Window) == m.window && r.Decay == nil && (forall k int :: {has(r.Sums, k)} !has(r.Sums, k))

func moment.NewMean(window) (r)
uses moments
modifies nothing
ensures [new metric as configured] fresh(r) && r.core == nil && mean_inv(r) && r.window == window

func moment.NewGlobalMean() (r)
uses moments
modifies nothing
ensures [new global metric] fresh(r) && r.core == nil && mean_inv(r) && r.window == 0

# ---- moment.Moment ----
pred moment_inv(m) = true && (m.core != nil ==> allocated(m.core) && mc_inv(m.core))

func (*moment.Moment).IsSetCore(m) (r)
uses moments
requires m != nil && moment_inv(m)
modifies nothing
ensures [set exactly when a core was given] r <==> m.core != nil

func (*moment.Moment).SetCore(m, c) ()
uses moments
requires m != nil && true && (c != nil ==> allocated(c) && mc_inv(c))
modifies m.core
ensures [core stored] m.core == c && moment_inv(m)

func (*moment.Moment).Push(m, x) (err)
uses moments
requires m != nil && moment_inv(m)
modifies m.core.*, m.core.sums[*], m.core.queue.*
ensures [error exactly when not initialised] err != nil <==> m.core == nil
ensures [pushed exactly once] err == nil ==> m.core.g_n == old(m.core.g_n) + 1 && m.core.g_data == old(m.core.g_data)[old(m.core.g_n) := x]
ensures [core and configuration unchanged] m.core == old(m.core) && (m.core != nil ==> m.core.window == old(m.core.window) && m.core.decay == old(m.core.decay) && len(m.core.sums) == old(len(m.core.sums)))
ensures [invariant] moment_inv(m)

func (*moment.Moment).Value(m) (r, err)
uses moments
requires m != nil && moment_inv(m)
modifies nothing
ensures [error exactly when not initialised, empty or untracked] err != nil <==> m.core == nil || m.core.g_n == mc_start(m.core) || m.k <= 0 || m.k >= len(m.core.sums)
ensures [documented value] err == nil ==> mc_mean(m.core, m.core.mean) && r == csum(m.core, m.k) / (ccount(m.core) - 1.0)

func (*moment.Moment).Clear(m) ()
uses moments
requires m != nil && moment_inv(m)
modifies m.core.*, m.core.sums[*], m.core.queue.*
ensures [history empty] m.core == old(m.core) && (m.core != nil ==> m.core.g_n == 0 && m.core.window == old(m.core.window) && m.core.decay == old(m.core.decay) && len(m.core.sums) == old(len(m.core.sums)))
ensures [invariant] moment_inv(m)

func (*moment.Moment).Config(m) (r)
uses moments
requires m != nil && moment_inv(m)
modifies nothing
ensures [configuration as constructed] r != nil && r.Window != nil && deref(r.Window) == m.window && r.Decay == nil && (forall k int :: {has(r.Sums, k)} has(r.Sums, k) <==> k == m.k)

func moment.New(k, window) (r)
uses moments
modifies nothing
ensures [new metric as configured] fresh(r) && r.core == nil && moment_inv(r) && r.k == k && r.window == window

func moment.NewGlobal(k) (r)
uses moments
modifies nothing
ensures [new global metric] fresh(r) && r.core == nil && moment_inv(r) && r.k == k && r.window == 0

# ---- moment.Std ----
pred std_inv(m) = m.variance != nil && allocated(m.variance) && m.variance.k == 2 && (m.variance.core != nil ==> allocated(m.variance.core) && mc_inv(m.variance.core))

func (*moment.Std).IsSetCore(m) (r)
uses moments
requires m != nil && std_inv(m)
modifies nothing
ensures [set exactly when a core was given] r <==> m.variance.core != nil

func (*moment.Std).SetCore(m, c) ()
uses moments
requires m != nil && m.variance != nil && allocated(m.variance) && m.variance.k == 2 && (c != nil ==> allocated(c) && mc_inv(c))
modifies m.variance.core
ensures [core stored] m.variance.core == c && std_inv(m)

func (*moment.Std).Push(m, x) (err)
uses moments
requires m != nil && std_inv(m)
modifies m.variance.core.*, m.variance.core.sums[*], m.variance.core.queue.*
ensures [error exactly when not initialised] err != nil <==> m.variance.core == nil
ensures [pushed exactly once] err == nil ==> m.variance.core.g_n == old(m.variance.core.g_n) + 1 && m.variance.core.g_data == old(m.variance.core.g_data)[old(m.variance.core.g_n) := x]
ensures [core and configuration unchanged] m.variance.core == old(m.variance.core) && (m.variance.core != nil ==> m.variance.core.window == old(m.variance.core.window) && m.variance.core.decay == old(m.variance.core.decay) && len(m.variance.core.sums) == old(len(m.variance.core.sums)))
ensures [invariant] std_inv(m)

func (*moment.Std).Value(m) (r, err)
uses moments
requires m != nil && std_inv(m)
modifies nothing
ensures [error exactly when not initialised, empty or untracked] err != nil <==> m.variance.core == nil || m.variance.core.g_n == mc_start(m.variance.core) || 2 >= len(m.variance.core.sums)
ensures [documented value] err == nil ==> mc_mean(m.variance.core, m.variance.core.mean) && r == rsqrt(csum(m.variance.core, 2) / (ccount(m.variance.core) - 1.0))

func (*moment.Std).Clear(m) ()
uses moments
requires m != nil && std_inv(m)
modifies m.variance.core.*, m.variance.core.sums[*], m.variance.core.queue.*
ensures [history empty] m.variance.core == old(m.variance.core) && (m.variance.core != nil ==> m.variance.core.g_n == 0 && m.variance.core.window == old(m.variance.core.window) && m.variance.core.decay == old(m.variance.core.decay) && len(m.variance.core.sums) == old(len(m.variance.core.sums)))
ensures [invariant] std_inv(m)

func (*moment.Std).Config(m) (r)
uses moments
requires m != nil && std_inv(m)
modifies nothing
ensures [configuration as constructed] r != nil && r.Window != nil && deref(r.Window) == m.variance.window && r.Decay == nil && (forall k int :: {has(r.Sums, k)} has(r.Sums, k) <==> k == 2)

func moment.NewStd(window) (r)
uses moments
modifies nothing
ensures [new metric as configured] fresh(r) && r.variance.core == nil && std_inv(r) && r.variance.window == window

func moment.NewGlobalStd() (r)
uses moments
modifies nothing
ensures [new global metric] fresh(r) && r.variance.core == nil && std_inv(r) && r.variance.window == 0

# ---- moment.Skewness ----
pred skewness_inv(m) = m.variance != nil && allocated(m.variance) && m.moment3 != nil && allocated(m.moment3) && m.variance.k == 2 && m.moment3.k == 3 && m.variance.core == m.core && m.moment3.core == m.core && m.config != nil && allocated(m.config) && m.config.Window != nil && m.config.Decay == nil && has(m.config.Sums, 2) && has(m.config.Sums, 3) && (forall k int :: {has(m.config.Sums, k)} has(m.config.Sums, k) ==> k == 2 || k == 3) && (m.core != nil ==> allocated(m.core) && mc_inv(m.core))

func (*moment.Skewness).IsSetCore(m) (r)
uses moments
requires m != nil && skewness_inv(m)
modifies nothing
ensures [set exactly when a core was given] r <==> m.core != nil

func (*moment.Skewness).SetCore(m, c) ()
uses moments
requires m != nil && m.variance != nil && allocated(m.variance) && m.moment3 != nil && allocated(m.moment3) && m.variance.k == 2 && m.moment3.k == 3 && m.variance.core == m.core && m.moment3.core == m.core && m.config != nil && allocated(m.config) && m.config.Window != nil && m.config.Decay == nil && has(m.config.Sums, 2) && has(m.config.Sums, 3) && (forall k int :: {has(m.config.Sums, k)} has(m.config.Sums, k) ==> k == 2 || k == 3) && (c != nil ==> allocated(c) && mc_inv(c))
modifies m.core, m.variance.core, m.moment3.core
ensures [core stored] m.core == c && skewness_inv(m)

func (*moment.Skewness).Push(m, x) (err)
uses moments
requires m != nil && skewness_inv(m)
modifies m.core.*, m.core.sums[*], m.core.queue.*
ensures [error exactly when not initialised] err != nil <==> m.core == nil
ensures [pushed exactly once] err == nil ==> m.core.g_n == old(m.core.g_n) + 1 && m.core.g_data == old(m.core.g_data)[old(m.core.g_n) := x]
ensures [core and configuration unchanged] m.core == old(m.core) && (m.core != nil ==> m.core.window == old(m.core.window) && m.core.decay == old(m.core.decay) && len(m.core.sums) == old(len(m.core.sums)))
ensures [invariant] skewness_inv(m)

func (*moment.Skewness).Value(m) (r, err)
uses moments
requires m != nil && skewness_inv(m)
modifies nothing
ensures [error exactly when not initialised, empty or untracked] err != nil <==> m.core == nil || m.core.g_n == mc_start(m.core) || 3 >= len(m.core.sums)
ensures [documented value] err == nil ==> mc_mean(m.core, m.core.mean) && (m.core.g_n - mc_start(m.core) > 2 ==> r == rsqrt(ccount(m.core) * (ccount(m.core) - 1.0)) / (ccount(m.core) - 2.0) * (csum(m.core, 3) / ccount(m.core)) / (csum(m.core, 2) / ccount(m.core) * rsqrt(csum(m.core, 2) / ccount(m.core))))

func (*moment.Skewness).Clear(m) ()
uses moments
requires m != nil && skewness_inv(m)
modifies m.core.*, m.core.sums[*], m.core.queue.*
ensures [history empty] m.core == old(m.core) && (m.core != nil ==> m.core.g_n == 0 && m.core.window == old(m.core.window) && m.core.decay == old(m.core.decay) && len(m.core.sums) == old(len(m.core.sums)))
ensures [invariant] skewness_inv(m)

func (*moment.Skewness).Config(m) (r)
uses moments
requires m != nil && skewness_inv(m)
modifies nothing
ensures [configuration as constructed] r != nil && r == m.config

func moment.NewSkewness(window) (r)
uses moments
modifies nothing
ensures [new metric as configured] fresh(r) && r.core == nil && skewness_inv(r) && deref(r.config.Window) == window

func moment.NewGlobalSkewness() (r)
uses moments
modifies nothing
ensures [new global metric] fresh(r) && r.core == nil && skewness_inv(r) && deref(r.config.Window) == 0

# ---- moment.Kurtosis ----
pred kurtosis_inv(m) = m.variance != nil && allocated(m.variance) && m.moment4 != nil && allocated(m.moment4) && m.variance.k == 2 && m.moment4.k == 4 && m.variance.core == m.core && m.moment4.core == m.core && m.config != nil && allocated(m.config) && m.config.Window != nil && m.config.Decay == nil && has(m.config.Sums, 2) && has(m.config.Sums, 4) && (forall k int :: {has(m.config.Sums, k)} has(m.config.Sums, k) ==> k == 2 || k == 4) && (m.core != nil ==> allocated(m.core) && mc_inv(m.core))

func (*moment.Kurtosis).IsSetCore(m) (r)
uses moments
requires m != nil && kurtosis_inv(m)
modifies nothing
ensures [set exactly when a core was given] r <==> m.core != nil

func (*moment.Kurtosis).SetCore(m, c) ()
uses moments
requires m != nil && m.variance != nil && allocated(m.variance) && m.moment4 != nil && allocated(m.moment4) && m.variance.k == 2 && m.moment4.k == 4 && m.variance.core == m.core && m.moment4.core == m.core && m.config != nil && allocated(m.config) && m.config.Window != nil && m.config.Decay == nil && has(m.config.Sums, 2) && has(m.config.Sums, 4) && (forall k int :: {has(m.config.Sums, k)} has(m.config.Sums, k) ==> k == 2 || k == 4) && (c != nil ==> allocated(c) && mc_inv(c))
modifies m.core, m.variance.core, m.moment4.core
ensures [core stored] m.core == c && kurtosis_inv(m)

func (*moment.Kurtosis).Push(m, x) (err)
uses moments
requires m != nil && kurtosis_inv(m)
modifies m.core.*, m.core.sums[*], m.core.queue.*
ensures [error exactly when not initialised] err != nil <==> m.core == nil
ensures [pushed exactly once] err == nil ==> m.core.g_n == old(m.core.g_n) + 1 && m.core.g_data == old(m.core.g_data)[old(m.core.g_n) := x]
ensures [core and configuration unchanged] m.core == old(m.core) && (m.core != nil ==> m.core.window == old(m.core.window) && m.core.decay == old(m.core.decay) && len(m.core.sums) == old(len(m.core.sums)))
ensures [invariant] kurtosis_inv(m)

func (*moment.Kurtosis).Value(m) (r, err)
uses moments
requires m != nil && kurtosis_inv(m)
modifies nothing
ensures [error exactly when not initialised, empty or untracked] err != nil <==> m.core == nil || m.core.g_n == mc_start(m.core) || 4 >= len(m.core.sums)
ensures [documented value] err == nil ==> mc_mean(m.core, m.core.mean) && (m.core.g_n - mc_start(m.core) > 1 ==> r == (csum(m.core, 4) / ccount(m.core)) / (csum(m.core, 2) / ccount(m.core) * (csum(m.core, 2) / ccount(m.core))) - 3.0)

func (*moment.Kurtosis).Clear(m) ()
uses moments
requires m != nil && kurtosis_inv(m)
modifies m.core.*, m.core.sums[*], m.core.queue.*
ensures [history empty] m.core == old(m.core) && (m.core != nil ==> m.core.g_n == 0 && m.core.window == old(m.core.window) && m.core.decay == old(m.core.decay) && len(m.core.sums) == old(len(m.core.sums)))
ensures [invariant] kurtosis_inv(m)

func (*moment.Kurtosis).Config(m) (r)
uses moments
requires m != nil && kurtosis_inv(m)
modifies nothing
ensures [configuration as constructed] r != nil && r == m.config

func moment.NewKurtosis(window) (r)
uses moments
modifies nothing
ensures [new metric as configured] fresh(r) && r.core == nil && kurtosis_inv(r) && deref(r.config.Window) == window

func moment.NewGlobalKurtosis() (r)
uses moments
modifies nothing
ensures [new global metric] fresh(r) && r.core == nil && kurtosis_inv(r) && deref(r.config.Window) == 0

# ---- moment.EWMA ----
pred ewma_inv(m) = true && (m.core != nil ==> allocated(m.core) && mc_inv(m.core))

func (*moment.EWMA).IsSetCore(m) (r)
uses moments
requires m != nil && ewma_inv(m)
modifies nothing
ensures [set exactly when a core was given] r <==> m.core != nil

func (*moment.EWMA).SetCore(m, c) ()
uses moments
requires m != nil && true && (c != nil ==> allocated(c) && mc_inv(c))
modifies m.core
ensures [core stored] m.core == c && ewma_inv(m)

func (*moment.EWMA).Push(m, x) (err)
uses moments
requires m != nil && ewma_inv(m)
modifies m.core.*, m.core.sums[*], m.core.queue.*
ensures [error exactly when not initialised] err != nil <==> m.core == nil
ensures [pushed exactly once] err == nil ==> m.core.g_n == old(m.core.g_n) + 1 && m.core.g_data == old(m.core.g_data)[old(m.core.g_n) := x]
ensures [core and configuration unchanged] m.core == old(m.core) && (m.core != nil ==> m.core.window == old(m.core.window) && m.core.decay == old(m.core.decay) && len(m.core.sums) == old(len(m.core.sums)))
ensures [invariant] ewma_inv(m)

func (*moment.EWMA).Value(m) (r, err)
uses moments
requires m != nil && ewma_inv(m)
modifies nothing
ensures [error exactly when not initialised, empty or untracked] err != nil <==> m.core == nil || m.core.g_n == mc_start(m.core) || false
ensures [documented value] err == nil ==> mc_mean(m.core, r)

func (*moment.EWMA).Clear(m) ()
uses moments
requires m != nil && ewma_inv(m)
modifies m.core.*, m.core.sums[*], m.core.queue.*
ensures [history empty] m.core == old(m.core) && (m.core != nil ==> m.core.g_n == 0 && m.core.window == old(m.core.window) && m.core.decay == old(m.core.decay) && len(m.core.sums) == old(len(m.core.sums)))
ensures [invariant] ewma_inv(m)

func (*moment.EWMA).Config(m) (r)
uses moments
requires m != nil && ewma_inv(m)
modifies nothing
ensures [configuration as constructed] r != nil && r.Window != nil && deref(r.Window) == 0 && r.Decay != nil && deref(r.Decay) == m.decay && (forall k int :: {has(r.Sums, k)} !has(r.Sums, k))

func moment.NewEWMA(decay) (r)
uses moments
modifies nothing
ensures [new metric as configured] fresh(r) && r.core == nil && ewma_inv(r) && r.decay == decay

# ---- moment.EWMMoment ----
pred ewmmoment_inv(m) = true && (m.core != nil ==> allocated(m.core) && mc_inv(m.core))

func (*moment.EWMMoment).IsSetCore(m) (r)
uses moments
requires m != nil && ewmmoment_inv(m)
modifies nothing
ensures [set exactly when a core was given] r <==> m.core != nil

func (*moment.EWMMoment).SetCore(m, c) ()
uses moments
requires m != nil && true && (c != nil ==> allocated(c) && mc_inv(c))
modifies m.core
ensures [core stored] m.core == c && ewmmoment_inv(m)

func (*moment.EWMMoment).Push(m, x) (err)
uses moments
requires m != nil && ewmmoment_inv(m)
modifies m.core.*, m.core.sums[*], m.core.queue.*
ensures [error exactly when not initialised] err != nil <==> m.core == nil
ensures [pushed exactly once] err == nil ==> m.core.g_n == old(m.core.g_n) + 1 && m.core.g_data == old(m.core.g_data)[old(m.core.g_n) := x]
ensures [core and configuration unchanged] m.core == old(m.core) && (m.core != nil ==> m.core.window == old(m.core.window) && m.core.decay == old(m.core.decay) && len(m.core.sums) == old(len(m.core.sums)))
ensures [invariant] ewmmoment_inv(m)

func (*moment.EWMMoment).Value(m) (r, err)
uses moments
requires m != nil && ewmmoment_inv(m)
modifies nothing
ensures [error exactly when not initialised, empty or untracked] err != nil <==> m.core == nil || m.core.g_n == mc_start(m.core) || m.k <= 0 || m.k >= len(m.core.sums)
ensures [documented value] err == nil ==> mc_mean(m.core, m.core.mean) && r == csum(m.core, m.k)

func (*moment.EWMMoment).Clear(m) ()
uses moments
requires m != nil && ewmmoment_inv(m)
modifies m.core.*, m.core.sums[*], m.core.queue.*
ensures [history empty] m.core == old(m.core) && (m.core != nil ==> m.core.g_n == 0 && m.core.window == old(m.core.window) && m.core.decay == old(m.core.decay) && len(m.core.sums) == old(len(m.core.sums)))
ensures [invariant] ewmmoment_inv(m)

func (*moment.EWMMoment).Config(m) (r)
uses moments
requires m != nil && ewmmoment_inv(m)
modifies nothing
ensures [configuration as constructed] r != nil && r.Window != nil && deref(r.Window) == 0 && r.Decay != nil && deref(r.Decay) == m.decay && (forall k int :: {has(r.Sums, k)} has(r.Sums, k) <==> k == m.k)

func moment.NewEWMMoment(k, decay) (r)
uses moments
modifies nothing
ensures [new metric as configured] fresh(r) && r.core == nil && ewmmoment_inv(r) && r.k == k && r.decay == decay

# ---- moment.EWMStd ----
pred ewmstd_inv(m) = m.variance != nil && allocated(m.variance) && m.variance.k == 2 && (m.variance.core != nil ==> allocated(m.variance.core) && mc_inv(m.variance.core))

func (*moment.EWMStd).IsSetCore(m) (r)
uses moments
requires m != nil && ewmstd_inv(m)
modifies nothing
ensures [set exactly when a core was given] r <==> m.variance.core != nil

func (*moment.EWMStd).SetCore(m, c) ()
uses moments
requires m != nil && m.variance != nil && allocated(m.variance) && m.variance.k == 2 && (c != nil ==> allocated(c) && mc_inv(c))
modifies m.variance.core
ensures [core stored] m.variance.core == c && ewmstd_inv(m)

func (*moment.EWMStd).Push(m, x) (err)
uses moments
requires m != nil && ewmstd_inv(m)
modifies m.variance.core.*, m.variance.core.sums[*], m.variance.core.queue.*
ensures [error exactly when not initialised] err != nil <==> m.variance.core == nil
ensures [pushed exactly once] err == nil ==> m.variance.core.g_n == old(m.variance.core.g_n) + 1 && m.variance.core.g_data == old(m.variance.core.g_data)[old(m.variance.core.g_n) := x]
ensures [core and configuration unchanged] m.variance.core == old(m.variance.core) && (m.variance.core != nil ==> m.variance.core.window == old(m.variance.core.window) && m.variance.core.decay == old(m.variance.core.decay) && len(m.variance.core.sums) == old(len(m.variance.core.sums)))
ensures [invariant] ewmstd_inv(m)

func (*moment.EWMStd).Value(m) (r, err)
uses moments
requires m != nil && ewmstd_inv(m)
modifies nothing
ensures [error exactly when not initialised, empty or untracked] err != nil <==> m.variance.core == nil || m.variance.core.g_n == mc_start(m.variance.core) || 2 >= len(m.variance.core.sums)
ensures [documented value] err == nil ==> mc_mean(m.variance.core, m.variance.core.mean) && r == rsqrt(csum(m.variance.core, 2))

func (*moment.EWMStd).Clear(m) ()
uses moments
requires m != nil && ewmstd_inv(m)
modifies m.variance.core.*, m.variance.core.sums[*], m.variance.core.queue.*
ensures [history empty] m.variance.core == old(m.variance.core) && (m.variance.core != nil ==> m.variance.core.g_n == 0 && m.variance.core.window == old(m.variance.core.window) && m.variance.core.decay == old(m.variance.core.decay) && len(m.variance.core.sums) == old(len(m.variance.core.sums)))
ensures [invariant] ewmstd_inv(m)

func (*moment.EWMStd).Config(m) (r)
uses moments
requires m != nil && ewmstd_inv(m)
modifies nothing
ensures [configuration as constructed] r != nil && r.Window != nil && deref(r.Window) == 0 && r.Decay != nil && deref(r.Decay) == m.variance.decay && (forall k int :: {has(r.Sums, k)} has(r.Sums, k) <==> k == 2)

func moment.NewEWMStd(decay) (r)
uses moments
modifies nothing
ensures [new metric as configured] fresh(r) && r.variance.core == nil && ewmstd_inv(r) && r.variance.decay == decay

property C11 (*moment.Mean).IsSetCore (*moment.Mean).SetCore (*moment.Mean).Push (*moment.Mean).Value (*moment.Mean).Clear (*moment.Mean).Config moment.NewMean moment.NewGlobalMean (*moment.Moment).IsSetCore (*moment.Moment).SetCore (*moment.Moment).Push (*moment.Moment).Value (*moment.Moment).Clear (*moment.Moment).Config moment.New moment.NewGlobal (*moment.Std).IsSetCore (*moment.Std).SetCore (*moment.Std).Push (*moment.Std).Value (*moment.Std).Clear (*moment.Std).Config moment.NewStd moment.NewGlobalStd (*moment.Skewness).IsSetCore (*moment.Skewness).SetCore (*moment.Skewness).Push (*moment.Skewness).Value (*moment.Skewness).Clear (*moment.Skewness).Config moment.NewSkewness moment.NewGlobalSkewness (*moment.Kurtosis).IsSetCore (*moment.Kurtosis).SetCore (*moment.Kurtosis).Push (*moment.Kurtosis).Value (*moment.Kurtosis).Clear (*moment.Kurtosis).Config moment.NewKurtosis moment.NewGlobalKurtosis (*moment.EWMA).IsSetCore (*moment.EWMA).SetCore (*moment.EWMA).Push (*moment.EWMA).Value (*moment.EWMA).Clear (*moment.EWMA).Config moment.NewEWMA (*moment.EWMMoment).IsSetCore (*moment.EWMMoment).SetCore (*moment.EWMMoment).Push (*moment.EWMMoment).Value (*moment.EWMMoment).Clear (*moment.EWMMoment).Config moment.NewEWMMoment (*moment.EWMStd).IsSetCore (*moment.EWMStd).SetCore (*moment.EWMStd).Push (*moment.EWMStd).Value (*moment.EWMStd).Clear (*moment.EWMStd).Config moment.NewEWMStd
