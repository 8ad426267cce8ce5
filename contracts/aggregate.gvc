# C20: aggregates. EV records the calls made on
# wrapped metrics, in the order the worker bodies are serialised in. The
# obligations do not depend on that order: the list of metrics is arbitrary.
ghostfield multierror.Error bad bool
ghostfield multierror.Error n int
ghostfield multierror.Error fail (Array Int Bool)
ghostfield multierror.Error recv (Array Int Val)
ghostfield multierror.Error op (Array Int Int)
ghostfield multierror.Error arg (Array Int Real)
ghostfield multierror.Error vec (Array Int (Array Int Real))
ghostfield multierror.Error len (Array Int Int)
ghostfield multierror.Error off (Array Int Int)
ghostfield multierror.Error val (Array Int Real)
ghostfield sync.WaitGroup pending int
pred EV() = typed(0 - 9, "*multierror.Error")
pred WG() = typed(0 - 8, "*sync.WaitGroup")

# multierror.Append returns a list with the errors of both; the list passed in
# is not used afterwards.
func multierror.Append(err, errs) (r)
trusted
ensures fresh(r)
ensures len(errs) == 1 ==> (r.bad <==> (is(err, "*multierror.Error") && as(err, "*multierror.Error") != nil && as(err, "*multierror.Error").bad) || errs[0] != nil)

func (*multierror.Error).ErrorOrNil(e) (r)
trusted
pure
ensures r != nil <==> e != nil && e.bad

func (stream.Metric).Push(m, x) (err)
trusted
modifies EV.n, EV.recv, EV.op, EV.arg, EV.fail
ensures EV.n == old(EV.n) + 1 && EV.recv == old(EV.recv)[old(EV.n) := m] && EV.op == old(EV.op)[old(EV.n) := 1] && EV.arg == old(EV.arg)[old(EV.n) := x] && EV.fail == old(EV.fail)[old(EV.n) := err != nil]

func (stream.JointMetric).Push(m, xs) (err)
trusted
modifies EV.n, EV.recv, EV.op, EV.vec, EV.len, EV.off, EV.fail
ensures EV.n == old(EV.n) + 1 && EV.recv == old(EV.recv)[old(EV.n) := m] && EV.op == old(EV.op)[old(EV.n) := 1] && EV.vec == old(EV.vec)[old(EV.n) := row(xs)] && EV.len == old(EV.len)[old(EV.n) := len(xs)] && EV.off == old(EV.off)[old(EV.n) := off(xs)] && EV.fail == old(EV.fail)[old(EV.n) := err != nil]

func (stream.SimpleMetric).Value(m) (v, err)
trusted
modifies EV.n, EV.recv, EV.op, EV.val, EV.fail
ensures EV.n == old(EV.n) + 1 && EV.recv == old(EV.recv)[old(EV.n) := m] && EV.op == old(EV.op)[old(EV.n) := 2] && EV.val == old(EV.val)[old(EV.n) := v] && EV.fail == old(EV.fail)[old(EV.n) := err != nil]

func (stream.Metric).String(m) (r)
trusted
pure
uses agg
ensures r == mname(m)

func (stream.Metric).Clear(m) ()
trusted
modifies EV.n, EV.recv, EV.op
ensures EV.n == old(EV.n) + 1 && EV.recv == old(EV.recv)[old(EV.n) := m] && EV.op == old(EV.op)[old(EV.n) := 3]

func (stream.SimpleJointMetric).Value(m) (v, err)
trusted
modifies EV.n, EV.recv, EV.op, EV.val, EV.fail
ensures EV.n == old(EV.n) + 1 && EV.recv == old(EV.recv)[old(EV.n) := m] && EV.op == old(EV.op)[old(EV.n) := 2] && EV.val == old(EV.val)[old(EV.n) := v] && EV.fail == old(EV.fail)[old(EV.n) := err != nil]

func (stream.JointMetric).String(m) (r)
trusted
pure
uses agg
ensures r == mname(m)

func (stream.JointMetric).Clear(m) ()
trusted
modifies EV.n, EV.recv, EV.op
ensures EV.n == old(EV.n) + 1 && EV.recv == old(EV.recv)[old(EV.n) := m] && EV.op == old(EV.op)[old(EV.n) := 3]

func aggregate.NewSimpleAggregateMetric(metrics) (r)
modifies nothing
ensures fresh(r) && len(r.metrics) == len(metrics)
ensures [wraps the given metrics] forall i int :: {r.metrics[i]} 0 <= i < len(metrics) ==> r.metrics[i] == metrics[i]

func (*aggregate.SimpleAggregateMetric).Push(s, x) (err)
uses agg
opt goroutines=1
requires s != nil && off(s.metrics) == 0
requires forall i int :: {s.metrics[i]} 0 <= i < len(s.metrics) ==> s.metrics[i] != nil
modifies EV.n, EV.recv, EV.op, EV.arg, EV.fail, EV.vec, EV.len, EV.off, all(F.sync.WaitGroup.pending)
inv [wg] WG.pending == pre(WG.pending)
inv [wg counted up front] WG.pending == len(s.metrics) - $iM
inv [calls so far] EV.n == pre(EV.n) + $iM
inv [one call per metric so far] forall q int :: {EV.recv[q]} pre(EV.n) <= q < EV.n ==> EV.recv[q] == s.metrics[q - pre(EV.n)] && EV.op[q] == 1 && EV.arg[q] == x
inv [failed so far] ($p != nil && $p.bad) <==> (exists q int :: {EV.fail[q]} pre(EV.n) <= q < EV.n && EV.fail[q])
inv [failed so far as errors] len($v) > 0 <==> (exists q int :: {EV.fail[q]} pre(EV.n) <= q < EV.n && EV.fail[q])
inv [some error collected] ($p != nil && $p.bad) <==> $iM > 0
ensures [one call per wrapped metric] EV.n == old(EV.n) + len(s.metrics)
ensures [each metric gets the pushed value exactly once] forall q int :: {EV.recv[q]} old(EV.n) <= q < EV.n ==> EV.recv[q] == s.metrics[q - old(EV.n)] && EV.op[q] == 1 && EV.arg[q] == x
ensures [fails exactly when a wrapped push fails] err != nil <==> (exists q int :: {EV.fail[q]} old(EV.n) <= q < EV.n && EV.fail[q])

func (*aggregate.SimpleAggregateMetric).Values(s) (r, err)
uses agg
opt goroutines=1
requires s != nil && off(s.metrics) == 0
requires forall i int :: {s.metrics[i]} 0 <= i < len(s.metrics) ==> s.metrics[i] != nil
modifies EV.n, EV.recv, EV.op, EV.fail, EV.val, all(F.sync.WaitGroup.pending)
inv [wg] WG.pending == pre(WG.pending)
inv [wg counted up front] WG.pending == len(s.metrics) - $iM
inv [calls so far] EV.n == pre(EV.n) + $iM
inv [one call per metric so far] forall q int :: {EV.recv[q]} pre(EV.n) <= q < EV.n ==> EV.recv[q] == s.metrics[q - pre(EV.n)] && EV.op[q] == 2
inv [value map is new] fresh($z)
inv [values so far] forall q int :: {EV.recv[q]} pre(EV.n) <= q < EV.n && !EV.fail[q] ==> has($z, mname(EV.recv[q]))
inv [only values of metrics] forall k string :: {has($z, k)} has($z, k) ==> exists q int :: {EV.recv[q]} pre(EV.n) <= q < EV.n && !EV.fail[q] && mname(EV.recv[q]) == k && $z[k] == EV.val[q]
inv [errors list is new] cap($v) == 0 || fresh($v)
inv [failed so far] len($v) > 0 <==> (exists q int :: {EV.fail[q]} pre(EV.n) <= q < EV.n && EV.fail[q])
inv [failed so far as one error] ($p != nil && $p.bad) <==> (exists q int :: {EV.fail[q]} pre(EV.n) <= q < EV.n && EV.fail[q])
inv [some error collected] ($p != nil && $p.bad) <==> $iM > 0
ensures [one call per wrapped metric] EV.n == old(EV.n) + len(s.metrics)
ensures [each metric is asked exactly once] forall q int :: {EV.recv[q]} old(EV.n) <= q < EV.n ==> EV.recv[q] == s.metrics[q - old(EV.n)] && EV.op[q] == 2
ensures [fails exactly when a wrapped value fails] err != nil <==> (exists q int :: {EV.fail[q]} old(EV.n) <= q < EV.n && EV.fail[q])
ensures [every metric is reported under its name] err == nil ==> forall q int :: {EV.recv[q]} old(EV.n) <= q < EV.n ==> has(r, mname(EV.recv[q]))
ensures [every entry is the current value of a metric of that name] err == nil ==> forall k string :: {has(r, k)} has(r, k) ==> exists q int :: {EV.recv[q]} old(EV.n) <= q < EV.n && mname(EV.recv[q]) == k && r[k] == EV.val[q]
ensures [fresh map] err == nil ==> fresh(r)

func (*aggregate.SimpleAggregateMetric).Clear(s) ()
uses agg
opt goroutines=1
requires s != nil && off(s.metrics) == 0
requires forall i int :: {s.metrics[i]} 0 <= i < len(s.metrics) ==> s.metrics[i] != nil
modifies EV.n, EV.recv, EV.op, all(F.sync.WaitGroup.pending)
inv [wg] WG.pending == pre(WG.pending)
inv [wg counted up front] WG.pending == len(s.metrics) - $iM
inv [calls so far] EV.n == pre(EV.n) + $iM
inv [one call per metric so far] forall q int :: {EV.recv[q]} pre(EV.n) <= q < EV.n ==> EV.recv[q] == s.metrics[q - pre(EV.n)] && EV.op[q] == 3
ensures [one call per wrapped metric] EV.n == old(EV.n) + len(s.metrics)
ensures [each metric is cleared exactly once] forall q int :: {EV.recv[q]} old(EV.n) <= q < EV.n ==> EV.recv[q] == s.metrics[q - old(EV.n)] && EV.op[q] == 3

func aggregate.NewSimpleJointAggregateMetric(metrics) (r)
modifies nothing
ensures fresh(r) && len(r.metrics) == len(metrics)
ensures [wraps the given metrics] forall i int :: {r.metrics[i]} 0 <= i < len(metrics) ==> r.metrics[i] == metrics[i]

func (*aggregate.SimpleJointAggregateMetric).Push(s, xs) (err)
uses agg
opt goroutines=1
assume off(xs) == 0
requires s != nil && off(s.metrics) == 0
requires forall i int :: {s.metrics[i]} 0 <= i < len(s.metrics) ==> s.metrics[i] != nil
modifies EV.n, EV.recv, EV.op, EV.arg, EV.fail, EV.vec, EV.len, EV.off, all(F.sync.WaitGroup.pending)
inv [wg] WG.pending == pre(WG.pending)
inv [wg counted up front] WG.pending == len(s.metrics) - $iM
inv [calls so far] EV.n == pre(EV.n) + $iM
inv [one call per metric so far] forall q int :: {EV.recv[q]} pre(EV.n) <= q < EV.n ==> EV.recv[q] == s.metrics[q - pre(EV.n)] && EV.op[q] == 1 && EV.len[q] == len(xs)
inv [failed so far] ($p != nil && $p.bad) <==> (exists q int :: {EV.fail[q]} pre(EV.n) <= q < EV.n && EV.fail[q])
inv [failed so far as errors] len($v) > 0 <==> (exists q int :: {EV.fail[q]} pre(EV.n) <= q < EV.n && EV.fail[q])
inv [some error collected] ($p != nil && $p.bad) <==> $iM > 0
ensures [each call gets the pushed vector] forall q int, j int :: {EV.vec[q], xs[j]} old(EV.n) <= q < EV.n && 0 <= j < len(xs) ==> EV.vec[q][EV.off[q] + j] == xs[j]
inv [vectors passed on] forall q int, j int :: {EV.vec[q], xs[j]} pre(EV.n) <= q < EV.n && 0 <= j < len(xs) ==> EV.vec[q][EV.off[q] + j] == xs[j]
ensures [one call per wrapped metric] EV.n == old(EV.n) + len(s.metrics)
ensures [each metric gets the pushed value exactly once] forall q int :: {EV.recv[q]} old(EV.n) <= q < EV.n ==> EV.recv[q] == s.metrics[q - old(EV.n)] && EV.op[q] == 1 && EV.len[q] == len(xs)
ensures [fails exactly when a wrapped push fails] err != nil <==> (exists q int :: {EV.fail[q]} old(EV.n) <= q < EV.n && EV.fail[q])

func (*aggregate.SimpleJointAggregateMetric).Values(s) (r, err)
uses agg
opt goroutines=1
requires s != nil && off(s.metrics) == 0
requires forall i int :: {s.metrics[i]} 0 <= i < len(s.metrics) ==> s.metrics[i] != nil
modifies EV.n, EV.recv, EV.op, EV.fail, EV.val, all(F.sync.WaitGroup.pending)
inv [wg] WG.pending == pre(WG.pending)
inv [wg counted up front] WG.pending == len(s.metrics) - $iM
inv [calls so far] EV.n == pre(EV.n) + $iM
inv [one call per metric so far] forall q int :: {EV.recv[q]} pre(EV.n) <= q < EV.n ==> EV.recv[q] == s.metrics[q - pre(EV.n)] && EV.op[q] == 2
inv [value map is new] fresh($z)
inv [values so far] forall q int :: {EV.recv[q]} pre(EV.n) <= q < EV.n && !EV.fail[q] ==> has($z, mname(EV.recv[q]))
inv [only values of metrics] forall k string :: {has($z, k)} has($z, k) ==> exists q int :: {EV.recv[q]} pre(EV.n) <= q < EV.n && !EV.fail[q] && mname(EV.recv[q]) == k && $z[k] == EV.val[q]
inv [errors list is new] cap($v) == 0 || fresh($v)
inv [failed so far] len($v) > 0 <==> (exists q int :: {EV.fail[q]} pre(EV.n) <= q < EV.n && EV.fail[q])
inv [failed so far as one error] ($p != nil && $p.bad) <==> (exists q int :: {EV.fail[q]} pre(EV.n) <= q < EV.n && EV.fail[q])
inv [some error collected] ($p != nil && $p.bad) <==> $iM > 0
ensures [one call per wrapped metric] EV.n == old(EV.n) + len(s.metrics)
ensures [each metric is asked exactly once] forall q int :: {EV.recv[q]} old(EV.n) <= q < EV.n ==> EV.recv[q] == s.metrics[q - old(EV.n)] && EV.op[q] == 2
ensures [fails exactly when a wrapped value fails] err != nil <==> (exists q int :: {EV.fail[q]} old(EV.n) <= q < EV.n && EV.fail[q])
ensures [every metric is reported under its name] err == nil ==> forall q int :: {EV.recv[q]} old(EV.n) <= q < EV.n ==> has(r, mname(EV.recv[q]))
ensures [every entry is the current value of a metric of that name] err == nil ==> forall k string :: {has(r, k)} has(r, k) ==> exists q int :: {EV.recv[q]} old(EV.n) <= q < EV.n && mname(EV.recv[q]) == k && r[k] == EV.val[q]
ensures [fresh map] err == nil ==> fresh(r)

func (*aggregate.SimpleJointAggregateMetric).Clear(s) ()
uses agg
opt goroutines=1
requires s != nil && off(s.metrics) == 0
requires forall i int :: {s.metrics[i]} 0 <= i < len(s.metrics) ==> s.metrics[i] != nil
modifies EV.n, EV.recv, EV.op, all(F.sync.WaitGroup.pending)
inv [wg] WG.pending == pre(WG.pending)
inv [wg counted up front] WG.pending == len(s.metrics) - $iM
inv [calls so far] EV.n == pre(EV.n) + $iM
inv [one call per metric so far] forall q int :: {EV.recv[q]} pre(EV.n) <= q < EV.n ==> EV.recv[q] == s.metrics[q - pre(EV.n)] && EV.op[q] == 3
ensures [one call per wrapped metric] EV.n == old(EV.n) + len(s.metrics)
ensures [each metric is cleared exactly once] forall q int :: {EV.recv[q]} old(EV.n) <= q < EV.n ==> EV.recv[q] == s.metrics[q - old(EV.n)] && EV.op[q] == 3

property C20 aggregate.NewSimpleAggregateMetric (*aggregate.SimpleAggregateMetric).Push (*aggregate.SimpleAggregateMetric).Values (*aggregate.SimpleAggregateMetric).Clear aggregate.NewSimpleJointAggregateMetric (*aggregate.SimpleJointAggregateMetric).Push (*aggregate.SimpleJointAggregateMetric).Values (*aggregate.SimpleJointAggregateMetric).Clear assume=wrapped_metrics_are_safe_for_concurrent_use_and_their_String_is_pure|worker_bodies_are_serialised_by_their_common_lock
