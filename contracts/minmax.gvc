# C01: Max and Min (generated from one template by tools/mkminmax.py)

# ---- minmax.Max ----
ghostfield minmax.Max g_n int
ghostfield minmax.Max g_data (Array Int Real)
ghostfield minmax.Max g_pos (Array Int Int)

# first retained position of the history
pred max_start(m) = if m.window == 0 || m.g_n < m.window then 0 else m.g_n - m.window

pred max_global(m) =
  m.count == m.g_n
  && (m.g_n == 0 ==> m.max == NEGINF)
  && (m.g_n > 0 ==> exists i int :: 0 <= i < m.g_n && m.g_data[i] == m.max)
  && (forall i int :: {m.g_data[i]} 0 <= i < m.g_n ==> m.g_data[i] <= m.max)

pred max_queue(m) =
  !m.queue.dead && m.queue.cap >= m.window
  && m.queue.tail - m.queue.head == m.g_n - max_start(m)
  && (forall j int :: {m.queue.data[j]} m.queue.head <= j < m.queue.tail ==>
        is(m.queue.data[j], "*float64") && as(m.queue.data[j], "*float64") != nil && allocated(as(m.queue.data[j], "*float64"))
        && deref(as(m.queue.data[j], "*float64")) == m.g_data[m.g_n - m.queue.tail + j])

pred max_deque(m) =
  m.deque.lo <= m.deque.hi && (m.g_n > 0 ==> m.deque.lo < m.deque.hi && m.g_pos[m.deque.hi - 1] == m.g_n - 1)
  && (m.g_n == 0 ==> m.deque.lo == m.deque.hi)
  && (forall i int :: {m.g_pos[i]} {m.deque.arr[i]} m.deque.lo <= i < m.deque.hi ==>
       max_start(m) <= m.g_pos[i] < m.g_n && m.deque.arr[i] == m.g_data[m.g_pos[i]])
  && (forall i int, j int :: {m.g_pos[i], m.g_pos[j]} m.deque.lo <= i < j < m.deque.hi ==> m.g_pos[i] < m.g_pos[j])
  && (forall i int, j int :: {m.deque.arr[i], m.deque.arr[j]} m.deque.lo <= i <= j < m.deque.hi ==> m.deque.arr[j] <= m.deque.arr[i])
  && (forall i int, j int :: {m.deque.arr[i], m.g_data[j]} m.deque.lo <= i < m.deque.hi && (if i == m.deque.lo then max_start(m) else m.g_pos[i - 1] + 1) <= j < m.g_n
       ==> m.g_data[j] <= m.deque.arr[i] && (j < m.g_pos[i] ==> m.g_data[j] < m.deque.arr[i]))

pred max_inv(m) = m.window >= 0 && m.queue != nil && m.deque != nil && m.g_n >= 0
  && (forall i int :: {m.g_data[i]} NEGINF <= m.g_data[i] <= POSINF)
  && (if m.window == 0 then max_global(m) else m.count == m.g_n - max_start(m) && max_queue(m) && max_deque(m))

func minmax.NewMax(window) (r, err)
ensures [negative window is an error] window < 0 <==> err != nil
ensures [new metric has an empty history] err == nil ==> fresh(r) && r.window == window && r.g_n == 0 && max_start(r) == 0
ensures [new metric satisfies the invariant] err == nil ==> (forall i int :: NEGINF <= r.g_data[i] <= POSINF) ==> max_inv(r)
modifies nothing

func minmax.NewGlobalMax() (r)
ensures [new metric has an empty history] fresh(r) && r.window == 0 && r.g_n == 0
ensures [new metric satisfies the invariant] (forall i int :: NEGINF <= r.g_data[i] <= POSINF) ==> max_inv(r)
modifies nothing

func (*minmax.Max).Push(m, x) (err)
requires m != nil && max_inv(m) && NEGINF <= x <= POSINF
modifies m.*, m.queue.*, m.deque.*
ghost m.g_data := old(m.g_data)[old(m.g_n) := x]
ghost m.g_n := old(m.g_n) + 1
ghost m.g_pos := if m.window == 0 then m.g_pos else old(m.g_pos)[m.deque.hi - 1 := old(m.g_n)]
ensures [push succeeds] err == nil
ensures [configuration unchanged] m.window == old(m.window)
ensures [invariant] max_inv(m)
inv [deque end popped] m.deque.lo <= m.deque.hi && m.deque.hi <= pre(m.deque.hi)
inv [popped values are dominated by x] forall j int :: {m.g_data[j]} (if m.deque.hi == m.deque.lo then (if old(m.g_n) + 1 < m.window then 0 else old(m.g_n) + 1 - m.window) else m.g_pos[m.deque.hi - 1] + 1) <= j < m.g_n ==> m.g_data[j] < x

func (*minmax.Max).Value(m) (r, err)
requires m != nil && max_inv(m)
modifies nothing
ensures [error exactly when empty] err != nil <==> m.g_n == 0
ensures [value bounds every value of the window] err == nil ==> forall j int :: {m.g_data[j]} max_start(m) <= j < m.g_n ==> m.g_data[j] <= r
ensures [value occurs in the window] err == nil ==> exists j int :: {m.g_data[j]} max_start(m) <= j < m.g_n && m.g_data[j] == r

func (*minmax.Max).Clear(m)
requires m != nil && max_inv(m)
modifies m.*, m.queue.*
ghost m.g_n := 0
ensures [history empty] m.g_n == 0
ensures [configuration unchanged] m.window == old(m.window)
ensures [invariant] max_inv(m)

# ---- minmax.Min ----
ghostfield minmax.Min g_n int
ghostfield minmax.Min g_data (Array Int Real)
ghostfield minmax.Min g_pos (Array Int Int)

# first retained position of the history
pred min_start(m) = if m.window == 0 || m.g_n < m.window then 0 else m.g_n - m.window

pred min_global(m) =
  m.count == m.g_n
  && (m.g_n == 0 ==> m.min == POSINF)
  && (m.g_n > 0 ==> exists i int :: 0 <= i < m.g_n && m.g_data[i] == m.min)
  && (forall i int :: {m.g_data[i]} 0 <= i < m.g_n ==> m.g_data[i] >= m.min)

pred min_queue(m) =
  !m.queue.dead && m.queue.cap >= m.window
  && m.queue.tail - m.queue.head == m.g_n - min_start(m)
  && (forall j int :: {m.queue.data[j]} m.queue.head <= j < m.queue.tail ==>
        is(m.queue.data[j], "*float64") && as(m.queue.data[j], "*float64") != nil && allocated(as(m.queue.data[j], "*float64"))
        && deref(as(m.queue.data[j], "*float64")) == m.g_data[m.g_n - m.queue.tail + j])

pred min_deque(m) =
  m.deque.lo <= m.deque.hi && (m.g_n > 0 ==> m.deque.lo < m.deque.hi && m.g_pos[m.deque.hi - 1] == m.g_n - 1)
  && (m.g_n == 0 ==> m.deque.lo == m.deque.hi)
  && (forall i int :: {m.g_pos[i]} {m.deque.arr[i]} m.deque.lo <= i < m.deque.hi ==>
       min_start(m) <= m.g_pos[i] < m.g_n && m.deque.arr[i] == m.g_data[m.g_pos[i]])
  && (forall i int, j int :: {m.g_pos[i], m.g_pos[j]} m.deque.lo <= i < j < m.deque.hi ==> m.g_pos[i] < m.g_pos[j])
  && (forall i int, j int :: {m.deque.arr[i], m.deque.arr[j]} m.deque.lo <= i <= j < m.deque.hi ==> m.deque.arr[j] >= m.deque.arr[i])
  && (forall i int, j int :: {m.deque.arr[i], m.g_data[j]} m.deque.lo <= i < m.deque.hi && (if i == m.deque.lo then min_start(m) else m.g_pos[i - 1] + 1) <= j < m.g_n
       ==> m.g_data[j] >= m.deque.arr[i] && (j < m.g_pos[i] ==> m.g_data[j] > m.deque.arr[i]))

pred min_inv(m) = m.window >= 0 && m.queue != nil && m.deque != nil && m.g_n >= 0
  && (forall i int :: {m.g_data[i]} NEGINF <= m.g_data[i] <= POSINF)
  && (if m.window == 0 then min_global(m) else m.count == m.g_n - min_start(m) && min_queue(m) && min_deque(m))

func minmax.NewMin(window) (r, err)
ensures [negative window is an error] window < 0 <==> err != nil
ensures [new metric has an empty history] err == nil ==> fresh(r) && r.window == window && r.g_n == 0 && min_start(r) == 0
ensures [new metric satisfies the invariant] err == nil ==> (forall i int :: NEGINF <= r.g_data[i] <= POSINF) ==> min_inv(r)
modifies nothing

func minmax.NewGlobalMin() (r)
ensures [new metric has an empty history] fresh(r) && r.window == 0 && r.g_n == 0
ensures [new metric satisfies the invariant] (forall i int :: NEGINF <= r.g_data[i] <= POSINF) ==> min_inv(r)
modifies nothing

func (*minmax.Min).Push(m, x) (err)
requires m != nil && min_inv(m) && NEGINF <= x <= POSINF
modifies m.*, m.queue.*, m.deque.*
ghost m.g_data := old(m.g_data)[old(m.g_n) := x]
ghost m.g_n := old(m.g_n) + 1
ghost m.g_pos := if m.window == 0 then m.g_pos else old(m.g_pos)[m.deque.hi - 1 := old(m.g_n)]
ensures [push succeeds] err == nil
ensures [configuration unchanged] m.window == old(m.window)
ensures [invariant] min_inv(m)
inv [deque end popped] m.deque.lo <= m.deque.hi && m.deque.hi <= pre(m.deque.hi)
inv [popped values are dominated by x] forall j int :: {m.g_data[j]} (if m.deque.hi == m.deque.lo then (if old(m.g_n) + 1 < m.window then 0 else old(m.g_n) + 1 - m.window) else m.g_pos[m.deque.hi - 1] + 1) <= j < m.g_n ==> m.g_data[j] > x

func (*minmax.Min).Value(m) (r, err)
requires m != nil && min_inv(m)
modifies nothing
ensures [error exactly when empty] err != nil <==> m.g_n == 0
ensures [value bounds every value of the window] err == nil ==> forall j int :: {m.g_data[j]} min_start(m) <= j < m.g_n ==> m.g_data[j] >= r
ensures [value occurs in the window] err == nil ==> exists j int :: {m.g_data[j]} min_start(m) <= j < m.g_n && m.g_data[j] == r

func (*minmax.Min).Clear(m)
requires m != nil && min_inv(m)
modifies m.*, m.queue.*
ghost m.g_n := 0
ensures [history empty] m.g_n == 0
ensures [configuration unchanged] m.window == old(m.window)
ensures [invariant] min_inv(m)

property C01 minmax.NewMax minmax.NewMin minmax.NewGlobalMax minmax.NewGlobalMin (*minmax.Max).Push (*minmax.Max).Value (*minmax.Max).Clear (*minmax.Min).Push (*minmax.Min).Value (*minmax.Min).Clear
