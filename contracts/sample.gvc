# C21: reservoir sampling. g_n pushes so far, g_data the stream; slot i of the
# sample holds the item of stream position g_pos[i].
ghostfield sample.Reservoir g_n int
ghostfield sample.Reservoir g_data (Array Int Val)
ghostfield sample.Reservoir g_pos (Array Int Int)

pred rs_inv(r) = r.g_n >= 0 && r.count == r.g_n && r.Size >= 0
  && off(r.sample) == 0 && len(r.sample) == min(r.g_n, r.Size)
  && (forall i int :: {r.g_pos[i]} 0 <= i < len(r.sample) ==> 0 <= r.g_pos[i] < r.g_n)
  && (forall i int :: {r.sample[i]} 0 <= i < len(r.sample) ==> r.sample[i] == r.g_data[r.g_pos[i]])
  && (forall i int, j int :: {r.g_pos[i], r.g_pos[j]} 0 <= i < j && j < len(r.sample) ==> r.g_pos[i] != r.g_pos[j])

func (*sample.Reservoir).Push(r, x) ()
requires r != nil && rs_inv(r)
modifies r.*, r.sample[*], RS.*
ghost r.g_data := old(r.g_data)[old(r.g_n) := x]
ghost r.g_pos := if old(r.g_n) < r.Size then old(r.g_pos)[old(r.g_n) := old(r.g_n)] else if RS.value < r.Size then old(r.g_pos)[RS.value := old(r.g_n)] else old(r.g_pos)
ghost r.g_n := old(r.g_n) + 1
ensures [holds min(n, S) items, each stream position at most once] rs_inv(r)
ensures [size unchanged] r.Size == old(r.Size)
ensures [a draw is uniform over the n positions seen] old(r.g_n) >= r.Size ==> RS.draws == old(RS.draws) + 1 && RS.bound == old(r.g_n) + 1
ensures [first S items are kept] old(r.g_n) < r.Size ==> len(r.sample) == old(len(r.sample)) + 1 && r.sample[old(r.g_n)] == x && (forall i int :: {r.sample[i]} 0 <= i < old(r.g_n) ==> r.sample[i] == old(row(r.sample))[i])
ensures [a draw below S replaces that slot by the new item, otherwise nothing changes] old(r.g_n) >= r.Size ==> forall i int :: {r.sample[i]} 0 <= i < r.Size ==> r.sample[i] == (if i == RS.value then x else old(row(r.sample))[i])

func (*sample.Reservoir).Sample(r) (res)
requires r != nil && rs_inv(r)
modifies nothing
ensures [min(n, S) items] len(res) == min(r.g_n, r.Size)
ensures [the items of the sample] forall i int :: {res[i]} 0 <= i < len(res) ==> res[i] == r.sample[i]
ensures [independent copy] fresh(res) || len(res) == 0

property C21 lean:reservoir.lean (*sample.Reservoir).Push (*sample.Reservoir).Sample assume=math/rand.Intn(n)_is_uniform_on_[0,n)_and_independent_of_earlier_draws
