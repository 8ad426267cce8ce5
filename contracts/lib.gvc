# Trusted contracts of the library types the repository stores its windows in.
# RingBuffer: an unbounded ghost sequence data[head..tail); Put blocks when the
# buffer is full and Get when it is empty, so both need room/an element.
ghostfield queue.RingBuffer head int
ghostfield queue.RingBuffer tail int
ghostfield queue.RingBuffer data (Array Int Val)
ghostfield queue.RingBuffer cap int
ghostfield queue.RingBuffer dead bool

func queue.NewRingBuffer(size) (r)
trusted
ensures fresh(r) && r.head == 0 && r.tail == 0 && !r.dead && r.cap >= size

func (*queue.RingBuffer).Len(q) (r)
trusted
pure
requires [queue not nil] q != nil
ensures r == q.tail - q.head

func (*queue.RingBuffer).Cap(q) (r)
trusted
pure
requires [queue not nil] q != nil
ensures r == q.cap

func (*queue.RingBuffer).Get(q) (v, err)
trusted
requires [queue not nil] q != nil
requires [queue not empty, Get would block] q.dead || q.tail > q.head
modifies q.head
ensures old(q.dead) ==> err != nil && q.head == old(q.head)
ensures !old(q.dead) ==> err == nil && v == q.data[old(q.head)] && q.head == old(q.head) + 1

func (*queue.RingBuffer).Put(q, item) (err)
trusted
requires [queue not nil] q != nil
requires [queue not full, Put would block] q.dead || q.tail - q.head < q.cap
modifies q.tail, q.data
ensures old(q.dead) ==> err != nil && q.tail == old(q.tail) && q.data == old(q.data)
ensures !old(q.dead) ==> err == nil && q.tail == old(q.tail) + 1 && q.data == old(q.data)[old(q.tail) := item]

func (*queue.RingBuffer).Dispose(q)
trusted
requires [queue not nil] q != nil
modifies q.dead
ensures q.dead

func (*queue.RingBuffer).IsDisposed(q) (r)
trusted
pure
requires [queue not nil] q != nil
ensures r <==> q.dead

# Deque: a ghost sequence arr[lo..hi)
ghostfield deque.Deque[float64] lo int
ghostfield deque.Deque[float64] hi int
ghostfield deque.Deque[float64] arr (Array Int Real)

func (*deque.Deque[float64]).Len(q) (r)
trusted
pure
ensures q == nil ==> r == 0
ensures q != nil ==> r == q.hi - q.lo

func (*deque.Deque[float64]).Front(q) (r)
trusted
pure
requires [deque not empty] q != nil && q.lo < q.hi
ensures r == q.arr[q.lo]

func (*deque.Deque[float64]).Back(q) (r)
trusted
pure
requires [deque not empty] q != nil && q.lo < q.hi
ensures r == q.arr[q.hi - 1]

func (*deque.Deque[float64]).At(q, i) (r)
trusted
pure
requires [deque index in range] q != nil && 0 <= i < q.hi - q.lo
ensures r == q.arr[q.lo + i]

func (*deque.Deque[float64]).PopFront(q) (r)
trusted
requires [deque not empty] q != nil && q.lo < q.hi
modifies q.lo
ensures r == q.arr[old(q.lo)] && q.lo == old(q.lo) + 1

func (*deque.Deque[float64]).PopBack(q) (r)
trusted
requires [deque not empty] q != nil && q.lo < q.hi
modifies q.hi
ensures r == q.arr[q.hi] && q.hi == old(q.hi) - 1

func (*deque.Deque[float64]).PushBack(q, x)
trusted
requires [deque not nil] q != nil
modifies q.hi, q.arr
ensures q.hi == old(q.hi) + 1 && q.arr == old(q.arr)[old(q.hi) := x]

func (*deque.Deque[float64]).Clear(q)
trusted
requires [deque not nil] q != nil
modifies q.lo, q.hi
ensures q.lo == 0 && q.hi == 0
