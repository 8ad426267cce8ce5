# C23: binomial coefficients and signs (machine-integer overflow is an obligation for n <= 61)
func mathutil.Binom(n, k) (r)
uses binom
opt overflow=1
requires 0 <= k <= n && use(n, k)
ovfcond n <= 61
modifies nothing
ensures [n!/(k!(n-k)!), lemma binom_fact] r == binom(n, k)
inv [partial coefficient] 1 <= $iM <= $k + 1 && $mM == binom(n - $k + $iM - 1, $iM - 1) && use(n - $k + $iM, $iM) && bx(n - $k + $iM, $iM, $mM) && dx($iM, $mM * (n - $k + $iM), binom(n - $k + $iM, $iM))

func mathutil.Sign(n) (r)
uses powers
modifies nothing
ensures [(-1)^n] r == sgn(n)

property C23 mathutil.Binom mathutil.Sign
