#!/usr/bin/env python3
# Generates contracts/metrics.gvc (C11, C16, C17 parts): every univariate metric has the
# same Push/Clear/SetCore shape and differs in its value formula and configuration.
import os
out=["# C11: univariate metrics (generated by tools/mkmetrics.py)\n"]
def metric(t, core, inv, uninit, value, cnt, newargs, new, conf, globalnew=None, extra_err="false", win="0"):
    R='m'
    name=f'moment.{t}'
    pre=f'{t.lower()}_inv'
    out.append(f'''# ---- moment.{t} ----
pred {pre}(m) = {inv} && (m{core} != nil ==> allocated(m{core}) && mc_inv(m{core}))

func (*{name}).IsSetCore(m) (r)
uses moments
requires m != nil && {pre}(m)
modifies nothing
ensures [set exactly when a core was given] r <==> m{core} != nil

func (*{name}).SetCore(m, c) ()
uses moments
requires m != nil && {inv} && (c != nil ==> allocated(c) && mc_inv(c))
modifies {uninit}
ensures [core stored] m{core} == c && {pre}(m)

func (*{name}).Push(m, x) (err)
uses moments
requires m != nil && {pre}(m)
modifies m{core}.*, m{core}.sums[*], m{core}.queue.*
ensures [error exactly when not initialised] err != nil <==> m{core} == nil
ensures [pushed exactly once] err == nil ==> m{core}.g_n == old(m{core}.g_n) + 1 && m{core}.g_data == old(m{core}.g_data)[old(m{core}.g_n) := x]
ensures [core and configuration unchanged] m{core} == old(m{core}) && (m{core} != nil ==> m{core}.window == old(m{core}.window) && m{core}.decay == old(m{core}.decay) && len(m{core}.sums) == old(len(m{core}.sums)))
ensures [invariant] {pre}(m)

func (*{name}).Value(m) (r, err)
uses moments
requires m != nil && {pre}(m)
modifies nothing
ensures [error exactly when not initialised, empty or untracked] err != nil <==> m{core} == nil || m{core}.g_n == mc_start(m{core}) || {extra_err}
ensures [documented value] err == nil ==> {value}

func (*{name}).Clear(m) ()
uses moments
requires m != nil && {pre}(m)
modifies m{core}.*, m{core}.sums[*], m{core}.queue.*
ensures [history empty] m{core} == old(m{core}) && (m{core} != nil ==> m{core}.g_n == 0 && m{core}.window == old(m{core}.window) && m{core}.decay == old(m{core}.decay) && len(m{core}.sums) == old(len(m{core}.sums)))
ensures [invariant] {pre}(m)

func (*{name}).Config(m) (r)
uses moments
requires m != nil && {pre}(m)
modifies nothing
ensures [configuration as constructed] r != nil && {conf}
''')
    out.append(f'''func moment.{new}({newargs}) (r)
uses moments
modifies nothing
ensures [new metric as configured] fresh(r) && r{core} == nil && {pre}(r) && {cnt}
''')
    if globalnew:
        fn,args,eq=globalnew
        out.append(f'''func moment.{fn}({args}) (r)
uses moments
modifies nothing
ensures [new global metric] fresh(r) && r{core} == nil && {pre}(r) && {eq}
''')
def only(*ks):
    o=' || '.join(f'k == {k}' for k in ks)
    return f'(forall k int :: {{has(r.Sums, k)}} has(r.Sums, k) <==> {o})' if ks else '(forall k int :: {has(r.Sums, k)} !has(r.Sums, k))'
W=lambda w:f'r.Window != nil && deref(r.Window) == {w} && r.Decay == nil'
D=lambda d:f'r.Window != nil && deref(r.Window) == 0 && r.Decay != nil && deref(r.Decay) == {d}'
n='real(m.core.g_n - mc_start(m.core))'
S=lambda k,c='m.core':f'csum({c}, {k})'

metric('Mean','.core','true','m.core','mc_mean(m.core, r)','r.window == window','window','NewMean',W('m.window')+' && '+only(),('NewGlobalMean','','r.window == 0'))
metric('Moment','.core','true','m.core','mc_mean(m.core, m.core.mean) && r == csum(m.core, m.k) / (ccount(m.core) - 1.0)','r.k == k && r.window == window','k, window','New',W('m.window')+' && '+only('m.k'),('NewGlobal','k','r.k == k && r.window == 0'),'m.k <= 0 || m.k >= len(m.core.sums)')
metric('Std','.variance.core','m.variance != nil && allocated(m.variance) && m.variance.k == 2','m.variance.core','mc_mean(m.variance.core, m.variance.core.mean) && r == rsqrt(csum(m.variance.core, 2) / (ccount(m.variance.core) - 1.0))','r.variance.window == window','window','NewStd',W('m.variance.window')+' && '+only(2),('NewGlobalStd','','r.variance.window == 0'),'2 >= len(m.variance.core.sums)')
def two(k): return f'm.variance != nil && allocated(m.variance) && m.moment{k} != nil && allocated(m.moment{k}) && m.variance.k == 2 && m.moment{k}.k == {k} && m.variance.core == m.core && m.moment{k}.core == m.core && m.config != nil && allocated(m.config) && m.config.Window != nil && m.config.Decay == nil && has(m.config.Sums, 2) && has(m.config.Sums, {k}) && (forall k int :: {{has(m.config.Sums, k)}} has(m.config.Sums, k) ==> k == 2 || k == {k})'
metric('Skewness','.core',two(3),'m.core, m.variance.core, m.moment3.core','mc_mean(m.core, m.core.mean) && (m.core.g_n - mc_start(m.core) > 2 ==> r == rsqrt(ccount(m.core) * (ccount(m.core) - 1.0)) / (ccount(m.core) - 2.0) * (csum(m.core, 3) / ccount(m.core)) / (csum(m.core, 2) / ccount(m.core) * rsqrt(csum(m.core, 2) / ccount(m.core))))','deref(r.config.Window) == window','window','NewSkewness','r == m.config',('NewGlobalSkewness','','deref(r.config.Window) == 0'),'3 >= len(m.core.sums)')
metric('Kurtosis','.core',two(4),'m.core, m.variance.core, m.moment4.core','mc_mean(m.core, m.core.mean) && (m.core.g_n - mc_start(m.core) > 1 ==> r == (csum(m.core, 4) / ccount(m.core)) / (csum(m.core, 2) / ccount(m.core) * (csum(m.core, 2) / ccount(m.core))) - 3.0)','deref(r.config.Window) == window','window','NewKurtosis','r == m.config',('NewGlobalKurtosis','','deref(r.config.Window) == 0'),'4 >= len(m.core.sums)')
metric('EWMA','.core','true','m.core','mc_mean(m.core, r)','r.decay == decay','decay','NewEWMA',D('m.decay')+' && '+only())
metric('EWMMoment','.core','true','m.core','mc_mean(m.core, m.core.mean) && r == csum(m.core, m.k)','r.k == k && r.decay == decay','k, decay','NewEWMMoment',D('m.decay')+' && '+only('m.k'),None,'m.k <= 0 || m.k >= len(m.core.sums)')
metric('EWMStd','.variance.core','m.variance != nil && allocated(m.variance) && m.variance.k == 2','m.variance.core','mc_mean(m.variance.core, m.variance.core.mean) && r == rsqrt(csum(m.variance.core, 2))','r.variance.decay == decay','decay','NewEWMStd',D('m.variance.decay')+' && '+only(2),None,'2 >= len(m.variance.core.sums)')
import re
fs=re.findall(r'^func (\S+)\(','\n'.join(out),re.M)
out.append('property C11 '+' '.join(fs)+'\n')
open(os.path.join(os.path.dirname(__file__),'..','contracts','metrics.gvc'),'w').write('\n'.join(out))
