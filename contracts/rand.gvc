# The global random source: one ghost record of the last draw. That the values
# of Intn(n) are uniform on [0, n) and independent is assumed.
ghostfield rand.Rand draws int
ghostfield rand.Rand bound int
ghostfield rand.Rand value int
pred RS() = typed(0 - 7, "*rand.Rand")

func rand.Intn(n) (r)
trusted
requires [positive bound] n > 0
modifies RS.draws, RS.bound, RS.value
ensures 0 <= r < n && RS.draws == old(RS.draws) + 1 && RS.bound == n && RS.value == r

func rand.Int63n(n) (r)
trusted
requires [positive bound] n > 0
modifies RS.draws, RS.bound, RS.value
ensures 0 <= r < n && RS.draws == old(RS.draws) + 1 && RS.bound == n && RS.value == r

func rand.Int31n(n) (r)
trusted
requires [positive bound] n > 0
modifies RS.draws, RS.bound, RS.value
ensures 0 <= r < n && RS.draws == old(RS.draws) + 1 && RS.bound == n && RS.value == r
