import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
H=["inputs","histories","configurations"]
p("C01","Min/Max report the exact extremum of the window or stream",
 "After any sequence of pushes (and clears), the minimum/maximum metric's value is exactly the least/greatest of the last W values pushed since the last clear (all of them if fewer than W, or if W is 0), and it is an error only when nothing has been pushed. This holds for every window size and every sequence of ordered (non-NaN) values, including duplicates, plateaus and infinities.",
 H,"all windows W>=0, all finite push/clear histories, all non-NaN float64 values",
 "tests push a dozen fixed values at window 3; a monotone deque is wrong only for particular patterns of duplicates and evictions",
 ["minmax/max.go","minmax/min.go"],[("monotone deque + FIFO ring buffer","minmax/max.go Push"),("global running extremum","minmax/max.go Push, else branch")],
 [("deque","non-strictly monotone list of the window's suffix extrema","minmax/max.go"),("queue","the window in arrival order","minmax/max.go")],["Max.Value","Min.Value"])
for id,nm,f,extra in (("C02","AVL tree","quantile/ost/avl",""),("C03","Red-black tree","quantile/ost/rb","")):
    p(id,nm+" is an exact order-statistic multiset",
 "The "+nm.lower()+" behaves as a multiset of values: adding inserts exactly one occurrence, removing deletes exactly one occurrence if the value is present and nothing otherwise, size is the number of elements. For every k in range, selecting k yields the k-th smallest element (counting duplicates) and for every value v the rank of v is the number of elements strictly less than v; no operation ever panics.",
 ["inputs","histories"],"all finite sequences of add/remove/clear of non-NaN values, with duplicates and absent removals; all k and v",
 "tests use a few fixed, mostly distinct values; rotations move duplicates to either side of an ancestor only in particular histories",
 [f+"/node.go",f+"/tree.go"],[("recursive insert/delete with rebalancing",f+"/node.go"),("size augmentation",f+"/node.go rotations")],
 [("size","number of nodes in the subtree",f+"/node.go")],["Tree.Size","Tree.Select","Tree.Rank"])
p("C04","Skip list is an exact order-statistic multiset",
 "Whatever levels the random source assigns, the skip list behaves as a multiset of values: adding inserts exactly one occurrence, removing deletes exactly one occurrence if present and nothing otherwise, size is the number of elements. Selecting k (in range) yields the k-th smallest element counting duplicates, and the rank of v is the number of elements strictly less than v; no operation panics or loops forever.",
 ["inputs","histories","configurations","schedules"],"all finite histories of add/remove/clear of non-NaN values, all level outcomes of the random source, all max levels 1..64",
 "tests fix one random seed and a few distinct values; the span (width) bookkeeping is wrong only for particular level/duplicate combinations",
 ["quantile/skiplist/skiplist.go"],[("width bookkeeping on insert/remove","quantile/skiplist/skiplist.go Add, Remove"),("predecessor search","quantile/skiplist/skiplist.go getPrevs")],
 [("next/width","successor and distance to it at each level","quantile/skiplist/skiplist.go Node")],["SkipList.Select","SkipList.Rank","SkipList.Size"])
p("C05","Order-statistic trees stay balanced",
 "After any history of adds and removes, the AVL tree's sibling subtrees differ in height by at most one at every node and its reported height is the true height. The red-black tree has the same number of black nodes on every root-to-leaf path and no two consecutive red links below the root's own link, so the depth of both trees stays logarithmic in the number of stored values.",
 ["inputs","histories"],"all finite sequences of add/remove/clear of non-NaN values",
 "tests check the shape of a handful of fixed trees; values stay correct when balance is lost, so no value test notices",
 ["quantile/ost/avl/node.go","quantile/ost/rb/node.go"],[("balance after every recursive step","quantile/ost/avl/node.go balance"),("addBalance/removeBalance, moveRedLeft/moveRedRight","quantile/ost/rb/node.go")],
 [("height","height of subtree","quantile/ost/avl/node.go"),("color","link colour","quantile/ost/rb/node.go")],["Tree.Height"])
p("C06","Quantile, Median and IQR are computed over exactly the current window",
 "For every quantile strictly between 0 and 1, the value is the documented interpolation (linear, lower, higher, nearest with ties to the even index, or midpoint) of the order statistics adjacent to position q*(n-1) in the multiset of the last W values (or the whole stream). Median is the midpoint 0.5-quantile and IQR the difference of the midpoint 0.75 and 0.25 quantiles; a quantile outside (0,1), including NaN, or an empty window is an error, never a panic.",
 H,"all windows, all backing structures, all interpolation modes, all quantiles, all histories of non-NaN values",
 "tests sample a few quantiles of one fixed stream per mode",
 ["quantile/quantile.go","quantile/median.go","quantile/iqr.go","quantile/option.go","quantile/impl.go","quantile/interpolation.go"],
 [("evict-then-insert keeps the statistic equal to the window","quantile/quantile.go Push"),("index/interpolation arithmetic","quantile/quantile.go Value")],
 [("queue","window in arrival order","quantile/quantile.go"),("statistic","multiset of window values","quantile/quantile.go")],["Quantile.Value","Median.Value","IQR.Value"])
p("C07","HeapMedian reports the exact median of the window or stream",
 "After any sequence of pushes and clears, the heap-based median is exactly the median of the last W values pushed (or of all values if W is 0): the middle value for an odd count, the mean of the two middle values for an even count. It is an error only when nothing has been pushed, and no push ever panics, for any W>=0 including 1.",
 H,"all windows, all finite histories of non-NaN values including duplicates",
 "tests run one 6-to-10 element stream at window 3; eviction bookkeeping goes wrong only when an evicted element migrated between the two heaps",
 ["quantile/heap_median.go","quantile/heap/heap.go"],[("two heaps with size difference at most one","quantile/heap_median.go Push, rebalance"),("eviction through item back-pointers","quantile/heap_median.go Push")],
 [("lowHeap/highHeap","lower and upper half of the window","quantile/heap_median.go"),("queue","items in arrival order","quantile/heap_median.go")],["HeapMedian.Value"])
p("C08","The indexed heap keeps its extremum on top",
 "For any total preorder used as comparison, after any sequence of pushes, pops, updates and removals through the heap operations, the top of the heap is an element no other element precedes, the heap holds exactly the items put in and not yet taken out, and every item knows its own current position and heap. Updating or removing an item affects that item only.",
 ["inputs","histories"],"all initial contents, all operation sequences, all comparison functions that are strict weak orders",
 "tests exercise one small heap",
 ["quantile/heap/heap.go"],[("sift through Swap/Less keeping back-indices","quantile/heap/heap.go Swap, Push, Pop"),("heapops.Fix/Remove by stored index","quantile/heap/heap.go Update, Remove")],
 [("index","position of the item in its heap","quantile/heap/heap.go Item")],["Heap.Peek","Heap.Values","Heap.Len"])
p("C09","Univariate core: count, mean and central power sums match their definition",
 "After any history of pushes and clears, the core's count, mean and k-th central power sum (for every tracked k) equal n, the arithmetic mean and the sum of (x_i - mean)^k over exactly the last W values pushed (or all values if W is 0), in exact real arithmetic. Untracked or non-positive powers and an empty window are errors.",
 H,"all windows W>=0, all maximum powers, all k, all histories of real values (floating-point rounding excluded)",
 "tests check k<=4 on one short stream; an update formula wrong for higher k, other counts or after eviction passes them",
 ["moment/core.go","util/math/math.go"],[("one-pass update","moment/core.go add"),("inverse update on eviction","moment/core.go remove"),("eviction before insertion","moment/core.go UnsafePush")],
 [("sums","sums[k] = k-th central power sum","moment/core.go Core"),("mean, count, queue","window mean, size, content","moment/core.go Core")],["Core.Sum","Core.Mean","Core.Count"])
p("C10","Univariate core with decay computes exponentially weighted mean and moments",
 "With a decay d in (0,1), after n pushes the core's mean is the weighted mean with weights d(1-d)^(n-i) for i>1 and (1-d)^(n-1) for the first value, and its k-th sum is the weighted k-th central moment about that mean with the same weights, for every tracked k, in exact real arithmetic. Count is the number of pushes since the last clear.",
 H,"all decays in (0,1), all powers k, all histories of real values",
 "tests check k<=4 for one decay on one short stream",
 ["moment/core.go"],[("decayed one-pass update","moment/core.go addDecay")],[("sums, mean","weighted moments","moment/core.go Core")],["Core.Sum","Core.Mean","EWMA.Value","EWMMoment.Value"])
p("C11","Univariate metrics are the documented functions of the window's moments",
 "Mean, k-th sample central moment (sum divided by n-1), standard deviation, adjusted Fisher-Pearson skewness, sample excess kurtosis, EWMA, EW moment and EW standard deviation each return their documented closed-form function of the count, mean and central sums of the values pushed to them over their own configured window or decay. Every push reaches the statistics exactly once, and values are errors (not numbers) before initialisation or before any push.",
 H,"all metrics, all windows/decays/k, all histories",
 "tests compare one stream per metric to a constant",
 ["moment/mean.go","moment/moment.go","moment/std.go","moment/skewness.go","moment/kurtosis.go","moment/ewma.go","moment/ewmmoment.go","moment/ewmstd.go","moment/core.go"],
 [("Value formulas","moment/*.go Value"),("Config/Init wiring","moment/*.go Config, moment/core.go Init")],(),["*.Value"])
p("C12","Joint core: count, means and joint central sums match their definition",
 "After any history of pushes and clears, the joint core's count, per-variable means and the sum for every not-all-zero exponent tuple dominated by a configured tuple equal n, the arithmetic means and the sum over the window of the products of (x_j - mean_j)^(m_j), in exact real arithmetic, whatever set of tuples is configured. A tuple that is not tracked, or an empty window, is an error.",
 H,"all windows, all valid tuple configurations (exponents below 31, numeric hash injective), all histories of real vectors",
 "tests check a few tuples of order <=4 one at a time; overlapping configured tuples and eviction interact",
 ["joint/core.go","joint/tuple.go","util/math/math.go"],[("one-pass joint update","joint/core.go add"),("inverse on eviction","joint/core.go remove"),("enumeration of dominated tuples","joint/tuple.go iter")],
 [("sums","hash of tuple -> joint central sum","joint/core.go Core")],["Core.Sum","Core.Mean","Core.Count"])
p("C13","Joint core with decay computes exponentially weighted joint moments",
 "With a decay d in (0,1), after n pushes each variable's mean is the exponentially weighted mean (weights d(1-d)^(n-i), first value (1-d)^(n-1)) and the sum for every dominated not-all-zero exponent tuple is the weighted joint central moment about those means with the same weights, in exact real arithmetic. Count is the number of pushes since the last clear.",
 H,"all decays in (0,1), all valid tuple configurations, all histories",
 "tests check one decay and tuples of order 2",
 ["joint/core.go","joint/tuple.go"],[("decayed joint update","joint/core.go addDecay")],[("sums","weighted joint moments","joint/core.go Core")],["Core.Sum","EWMCov.Value"])
p("C14","Joint metrics are the documented functions of the window's joint moments",
 "Covariance is the joint (1,1) sum divided by n-1, correlation is that sum divided by the square root of the product of the two second-order sums, and the exponentially weighted versions use the weighted sums, over exactly the pairs pushed within the configured window or decay. Every accepted push reaches the statistics exactly once; a push of any number of values other than two is an error that changes nothing.",
 H,"all windows/decays, all histories, all argument counts",
 "tests compare one stream per metric to a constant",
 ["joint/cov.go","joint/corr.go","joint/ewmcov.go","joint/ewmcorr.go"],[("Value formulas, Config wiring","joint/*.go")],(),["Cov.Value","Corr.Value","EWMCov.Value","EWMCorr.Value"])
p("C15","Autocovariance/autocorrelation pair each value with the one exactly lag earlier",
 "For lag L and window W, autocovariance and autocorrelation equal the covariance/correlation of the pairs (x_t, x_{t-L}) over the last W such pairs (all pairs if W is 0) since the last clear, for every L>=0. The first L values only fill the lag and until one pair exists the value is an error.",
 H,"all lags L>=0, all windows, all histories including clears mid-stream",
 "tests use lag <=2 on one short stream; an off-by-one shows only at particular lags or after a clear",
 ["joint/autocov.go","joint/autocorr.go"],[("lag queue","joint/autocorr.go Push"),("shared core","joint/autocorr.go SetCore")],[("queue","the last L values","joint/autocorr.go")],["Autocov.Value","Autocorr.Value"])
p("C16","Clear makes a metric indistinguishable from a new one",
 "After clearing any metric, core, tree, skip list or aggregate, every later sequence of pushes and queries behaves exactly as on a freshly constructed one with the same configuration: counts, sums, means, windows, lag queues and order statistics start empty and the configuration is unchanged. Clearing is always safe, including before initialisation and when already empty.",
 H,"all metrics, all histories before and after the clear",
 "tests clear once and look at internal fields; a piece of state that survives shows only in a later eviction or query",
 ["minmax/max.go","minmax/min.go","moment/core.go","joint/core.go","joint/autocorr.go","joint/autocov.go","quantile/quantile.go","quantile/heap_median.go","quantile/ost/avl/tree.go","quantile/ost/rb/tree.go","quantile/skiplist/skiplist.go"],
 [("Clear methods re-establish the initial invariant","*/Clear")],(),["Clear followed by Value"])
p("C17","Configurations are accepted exactly when valid, and merged faithfully",
 "A core is created exactly when its configuration is valid (window set and non-negative, decay absent or strictly inside (0,1) with window 0, every tracked power positive / every tuple of equal length >=2, non-negative and not all zero, matching the number of variables), and otherwise an error is returned; no configuration causes a panic. Merging configurations yields one that tracks every sum tracked by any input and nothing else beyond what those dominate, carries the common window/variables/decay, and fails exactly when no configuration is given or two of them set window, variables or decay to different values.",
 ["configurations","inputs"],"all configuration values, including nil fields, NaN decay, empty and mismatched tuples; all lists of configurations",
 "tests enumerate a few invalid configurations",
 ["moment/config.go","joint/config.go","quantile/option.go","quantile/skiplist/option.go","moment/core.go","joint/core.go"],[("validateConfig/MergeConfigs","moment/config.go, joint/config.go"),("option validation","quantile/option.go, quantile/skiplist/option.go")],(),["NewCore","MergeConfigs","Init","quantile.New","skiplist.New"])
p("C18","Misuse yields an error and changes nothing",
 "Using a metric before initialisation, asking for a value before any data, asking for an untracked sum or variable, pushing the wrong number of values, or constructing with a negative window or lag or an invalid option returns an error and never panics. A call that returns an error leaves every later observable result as if the call had not been made.",
 ["inputs","histories","configurations"],"all metrics and cores, all argument values, any point in a history",
 "tests check the error text in a few situations, not that no other input panics or that state is untouched",
 ["moment/core.go","moment/mean.go","moment/moment.go","moment/std.go","moment/skewness.go","moment/kurtosis.go","moment/ewma.go","moment/ewmmoment.go","moment/ewmstd.go","joint/core.go","joint/cov.go","joint/corr.go","joint/ewmcov.go","joint/ewmcorr.go","joint/autocorr.go","joint/autocov.go","minmax/max.go","minmax/min.go","quantile/quantile.go","quantile/heap_median.go"],
 [("guard clauses before any state change","all Push/Value")],(),["returned errors"])
p("C19","Every public operation is one deadlock-free critical section",
 "Every public push, value, count, sum, mean and clear takes the object's lock before touching mutable state, holds it for the whole operation, never acquires a lock it already holds (not even for reading, which can deadlock with a waiting writer), and releases it on every return path including errors. Hence concurrent use from any number of goroutines is race-free, cannot deadlock, and each call observes one consistent state.",
 ["schedules","histories"],"all interleavings of public operations from any number of goroutines, all return paths",
 "the race detector only sees the schedules that ran, and the suite runs on one CPU because recursive read locking deadlocks",
 ["minmax/max.go","minmax/min.go","moment/core.go","joint/core.go","joint/autocorr.go","joint/autocov.go","quantile/quantile.go","quantile/iqr.go","quantile/heap_median.go","sample/sample.go","aggregate/simple_aggregate.go","aggregate/simple_joint_aggregate.go"],
 [("mutex + defer unlock; Unsafe* variants under the caller's lock","moment/core.go, joint/core.go"),("read lock","quantile/quantile.go")],[("mux","guards all mutable fields","every metric")],["all public methods"])
p("C20","Aggregates forward to every metric exactly once and report every result",
 "Pushing to an aggregate pushes the same value(s) to each wrapped metric exactly once, and it fails exactly when at least one wrapped push fails. Values returns, for every wrapped metric, its current value under its string name, or an error exactly when at least one wrapped value fails; Clear clears each wrapped metric; all of it regardless of how the worker goroutines are scheduled.",
 ["schedules","inputs","histories"],"all numbers of wrapped metrics with distinct names, all error patterns, all goroutine schedules",
 "tests wrap two metrics and run on one CPU",
 ["aggregate/simple_aggregate.go","aggregate/simple_joint_aggregate.go"],[("fork/join with WaitGroup and a mutex around shared results","aggregate/simple_aggregate.go")],(),["Push error","Values map"])
p("C21","Reservoir sampling keeps a uniform sample of the stream",
 "After n pushes, a reservoir of size S holds exactly min(n,S) of the pushed items (every position of the stream at most once), and each newly pushed item replaces a uniformly chosen slot with probability exactly S/n. Hence, given a uniform random source, every pushed item is in the sample with the same probability.",
 ["inputs","histories"],"all sizes S>=0, all n, all outcomes of the random source",
 "tests fix one seed, one size and ten items; a biased index still passes",
 ["sample/sample.go"],[("Algorithm R","sample/sample.go Push")],[("count, sample","stream length, reservoir","sample/sample.go")],["Reservoir.Sample"])
p("C22","Results never depend on memory the caller still owns",
 "A metric's future results are unaffected by anything the caller does to vectors it pushed or to slices and maps it got back: pushed vectors are captured by value, and returned samples and value maps are independent copies. Conversely, no operation modifies a vector, exponent tuple or option list the caller passed in.",
 ["inputs","histories"],"all later mutations of argument or result slices, all windows",
 "tests pass fresh literals each time, so aliasing is invisible",
 ["joint/core.go","sample/sample.go","joint/tuple.go","aggregate/simple_aggregate.go","quantile/median.go","quantile/iqr.go"],[("copy on capture / copy on return","joint/core.go UnsafePush, sample/sample.go Sample")],(),["Core.Sum after mutating a pushed slice","Reservoir.Sample"])
p("C23","Binomial coefficients and sign helpers are exact and stateless",
 "For all 0<=k<=n<=61 the binomial coefficient returned is exactly n!/(k!(n-k)!), with no intermediate overflow, and the sign helper is (-1)^n for every n. Both are pure: results do not depend on earlier or concurrent calls.",
 ["inputs","schedules","histories"],"all 0<=k<=n<=61, all int n for the sign, any interleaving of calls",
 "tests check three binomials; factorial tables overflow from 21 and a shared growing table races",
 ["util/math/math.go"],[("Binom, Sign","util/math/math.go")],(),["Binom","Sign"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
