package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The lock discipline. In mode "lock" a public operation is executed
// symbolically with a ghost lockset; only lock obligations are kept. Fields
// declared "guarded" need the object's lock (for writing: exclusively), what
// was loaded from such a field (a slice, a map, a container) likewise. The
// same lockset serves goroutine bodies in functional mode.

const (
	lockR = 1
	lockW = 2
)

func (e *Exec) tracking() bool {
	return e.mode == "lock" || e.contract != nil && e.contract.opts["goroutines"] != ""
}

// lockOblige keeps the obligation and goes on assuming it.
func (e *Exec) lockOblige(st *State, name string, goal *Term) {
	m := e.mode
	e.mode = ""
	e.oblige(st, "lock", name, goal)
	e.mode = m
}

func muxOf(p Val) (string, *Term) {
	switch q := p.(type) {
	case *PtrV:
		switch q.kind {
		case "field":
			return q.key, q.ref
		case "cell":
			return fmt.Sprintf("cell %s %p %v", q.cell.name, q.cell, q.path), intT(0)
		}
	case *Term:
		return "heap mutex", q
	}
	panic(unsupported("mutex address"))
}

func (e *Exec) syncCall(fr *Frame, st *State, full string, args []Val, k Kont) bool {
	if !e.tracking() {
		k(st, nil)
		return true
	}
	switch full {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		e.acquire(st, args[0], lockW)
	case "(*sync.RWMutex).RLock":
		e.acquire(st, args[0], lockR)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		e.release(st, args[0], lockW)
	case "(*sync.RWMutex).RUnlock":
		e.release(st, args[0], lockR)
	case "(*sync.WaitGroup).Add":
		if st.thread != 0 {
			e.lockOblige(st, "WaitGroup.Add happens before the goroutine starts", tFalse)
		}
		e.wgAdd(st, args[0], e.asTerm(st, args[1]))
	case "(*sync.WaitGroup).Done":
		e.wgAdd(st, args[0], intT(-1))
	case "(*sync.WaitGroup).Wait":
		if st.thread != 0 {
			e.lockOblige(st, "no WaitGroup.Wait inside a worker", tFalse)
		}
		if st.pending() {
			e.lockOblige(st, "WaitGroup counts exactly the workers started, so Wait neither blocks forever nor returns early", Eq(e.wgGet(st), intT(0)))
		}
		st.gos = 0
	default:
		panic(unsupported(full))
	}
	k(st, nil)
	return true
}

func (s *State) pending() bool { return s.gos != 0 }

const wgKey = "F.sync.WaitGroup.pending"

// One wait group per operation.
func (e *Exec) wgRef(p Val) {
	k, r := muxOf(p)
	id := k + "|" + r.String()
	if e.wgID != "" && e.wgID != id {
		panic(unsupported("several wait groups in one operation"))
	}
	e.wgID = id
}

var wgRefT = intT(-8)

func (e *Exec) wgGet(st *State) *Term { return Select(e.heapGet(st, wgKey, sInt), wgRefT) }

func (e *Exec) wgAdd(st *State, p Val, n *Term) {
	e.wgRef(p)
	v := Add(e.wgGet(st), n)
	e.lockOblige(st, "WaitGroup counter stays nonnegative", Le(intT(0), v))
	e.heapWrite(st, wgKey, wgRefT, v)
}

func (e *Exec) acquire(st *State, p Val, mode int) {
	key, ref := muxOf(p)
	for _, l := range st.locks {
		if l.key == key {
			e.lockOblige(st, "lock is not already held when it is taken", Not(Eq(l.ref, ref)))
		}
	}
	for _, l := range st.outer {
		if l.key == key {
			e.lockOblige(st, "a worker does not take a lock its waiting parent holds", Not(Eq(l.ref, ref)))
		}
	}
	for _, l := range st.taken {
		if l.key == key {
			e.lockOblige(st, "operation is one critical section (the lock is taken once)", Not(Eq(l.ref, ref)))
		}
	}
	st.locks = append(st.locks, LockState{key: key, ref: ref, mode: mode})
	st.taken = append(st.taken, LockState{key: key, ref: ref, mode: mode})
}

func (e *Exec) release(st *State, p Val, mode int) {
	key, ref := muxOf(p)
	for pass := 0; pass < 2; pass++ {
		for i := len(st.locks) - 1; i >= 0; i-- {
			l := st.locks[i]
			if l.key != key || l.mode != mode || pass == 0 && l.ref != ref {
				continue
			}
			if pass == 1 {
				e.lockOblige(st, "lock released is the one held", Eq(l.ref, ref))
			}
			st.locks = append(append([]LockState(nil), st.locks[:i]...), st.locks[i+1:]...)
			return
		}
	}
	e.lockOblige(st, "lock released is held (in the same mode)", tFalse)
}

// holds: the current lockset contains the lock in a sufficient mode.
func (e *Exec) holds(st *State, key string, ref *Term, write bool) *Term {
	var alts []*Term
	for _, l := range st.locks {
		if l.key == key && (!write || l.mode == lockW) {
			alts = append(alts, Eq(l.ref, ref))
		}
	}
	return Or(alts...)
}

func (e *Exec) exitLocks(st *State) {
	if !e.tracking() {
		return
	}
	if lockSet(st) != e.entryLocks {
		e.lockOblige(st, "every lock taken is released on return", tFalse)
	}
	if st.pending() {
		e.lockOblige(st, "workers are waited for before returning", tFalse)
	}
}

func lockSet(st *State) string {
	var s []string
	for _, l := range st.locks {
		s = append(s, fmt.Sprintf("%s %d %d", l.key, l.ref.id, l.mode))
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

// loopLocks: one iteration leaves the lockset and the set of taken locks alone.
func (e *Exec) loopLocks(pre, st *State) {
	if !e.tracking() {
		return
	}
	if lockSet(pre) != lockSet(st) {
		e.lockOblige(st, "a loop iteration leaves the locks held as they were", tFalse)
	}
	if len(pre.taken) != len(st.taken) {
		e.lockOblige(st, "operation is one critical section (no lock is taken per iteration)", tFalse)
	}
}

// muxField is the path from an object of the type to the lock that guards it:
// as declared, or the mutex field it has.
func muxField(owner types.Type) string {
	if m, ok := specs.guardMux[typeName(owner)]; ok {
		return m
	}
	n, ok := owner.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return ""
	}
	s, ok := owner.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if isSync(s.Field(i).Type()) {
			return s.Field(i).Name()
		}
	}
	return ""
}

func isImmutable(owner types.Type, f string) bool { return specs.immutable[typeName(owner)+"."+f] }

// guardLock gives the lock that guards the fields of the object.
func (e *Exec) guardLock(st *State, owner types.Type, ref *Term) (string, *Term) {
	path := strings.Split(muxField(owner), ".")
	t := owner
	for _, f := range path[:len(path)-1] {
		s := t.Underlying().(*types.Struct)
		var ft types.Type
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				ft = s.Field(i).Type()
			}
		}
		if ft == nil {
			specFail("guarded: no field %s", f)
		}
		ref = e.asTerm(st, e.loadAt(st, fieldKey(t, f), ref, ft, false))
		t = ft.Underlying().(*types.Pointer).Elem()
	}
	return fieldKey(t, path[len(path)-1]), ref
}

func (e *Exec) access(st *State, p *PtrV, write bool) {
	if e.mode != "lock" || p.owner == nil || isSync(p.elem) {
		return
	}
	fresh := tFalse
	if e.entry != nil {
		fresh = Le(e.entry.alloc, p.ref)
	}
	what := "read"
	if write {
		what = "written"
	}
	name := typeName(p.owner) + "." + p.fname
	if muxField(p.owner) == "" {
		e.checkTag(st, p.ref, write, "access to field "+name)
		return
	}
	if isImmutable(p.owner, p.fname) {
		if write {
			e.lockOblige(st, name+" is not changed after construction", fresh)
		}
		return
	}
	key, ref := e.guardLock(st, p.owner, p.ref)
	e.lockOblige(st, fmt.Sprintf("%s is %s under the object's lock", name, what), Or(fresh, e.holds(st, key, ref, write)))
	if !write {
		v := e.loadAt(st, p.key, p.ref, p.elem, false)
		e.tag(v, &GuardInfo{key: key, ref: ref, what: name})
	}
}

func (e *Exec) tag(v Val, g *GuardInfo) {
	if e.tags == nil {
		e.tags = map[int]*GuardInfo{}
	}
	switch x := v.(type) {
	case *Term:
		if x.rat == nil && x != tTrue && x != tFalse && (x.sort == sInt || x.sort == sVal) {
			e.tags[x.id] = g
		}
	case *SliceV:
		if x.arr.rat == nil {
			e.tags[x.arr.id] = g
		}
	}
}

func (e *Exec) checkTag(st *State, t *Term, write bool, what string) {
	if g := e.tags[t.id]; g != nil {
		e.lockOblige(st, fmt.Sprintf("%s of %s under the object's lock", what, g.what), e.holds(st, g.key, g.ref, write))
	}
}

func (e *Exec) accessElem(st *State, p *PtrV, write bool) {
	if e.mode == "lock" {
		e.checkTag(st, p.arr, write, "element access")
	}
}

func (e *Exec) accessMap(st *State, v ssa.Value, r *Term, w bool) {
	if e.mode == "lock" {
		e.checkTag(st, r, w, "map access")
	}
	if st.thread != 0 {
		// a captured map
		if u, ok := v.(*ssa.UnOp); ok {
			if fv, ok := u.X.(*ssa.FreeVar); ok {
				e.sharedAccess(st, fv.Name(), true)
			}
		}
	}
}

func (e *Exec) lockedTerm(st *State, v SV) *Term { return tTrue }

// seedLocks: an Unsafe* operation is entered with the lock of its receiver.
func (e *Exec) seedLocks(st *State, env *Env) {
	if e.mode == "lock" {
		n := short(e.top.String())
		if le := specs.lockEntry[n]; le != 0 {
			recv := e.args[0].(*Term)
			owner := e.top.Params[0].Type().Underlying().(*types.Pointer).Elem()
			key, ref := e.guardLock(st, owner, recv)
			st.locks = append(st.locks, LockState{key: key, ref: ref, mode: le})
			st.taken = append(st.taken, st.locks...)
		}
		if len(e.args) > 0 && e.top.Signature.Recv() != nil {
			if r, ok := e.args[0].(*Term); ok {
				st.assume(Not(Eq(r, intT(0))))
				pt := e.top.Params[0].Type()
				if p, ok := pt.Underlying().(*types.Pointer); ok {
					e.assumeLockInv(st, env, r, p)
				}
			}
		}
	}
	if e.tracking() {
		st.assume(Eq(e.wgGet(st), intT(0)))
	}
	e.entryLocks = lockSet(st)
}

func (e *Exec) assumeLockInv(st *State, env *Env, r *Term, p *types.Pointer) {
	if inv := specs.lockInv[typeName(p.Elem())]; inv != nil {
		c := *env
		c.vars = map[string]SV{"self": {r, p}}
		st.assume(c.evalBool(st, inv))
	}
}

// ---------- opaque calls (mode lock) ----------

// methods of the dependencies' containers that only read
var readMethods = map[string]bool{"Len": true, "Size": true, "Front": true, "Back": true, "At": true, "Cap": true, "IsDisposed": true, "Error": true, "String": true}
var readPkgs = map[string]bool{"math": true, "fmt": true, "strings": true, "strconv": true, "errors": true, "github.com/pkg/errors": true}

var roMemo = map[*ssa.Function]int{}

// readOnly: the function (and what it calls) stores only to memory it
// allocated itself.
func readOnly(fn *ssa.Function) bool {
	if m, ok := roMemo[fn]; ok {
		return m != 2
	}
	if !inRepo(fn) {
		r := readMethods[fn.Name()]
		if o := fn.Origin(); o != nil {
			fn = o
		}
		if fn.Pkg != nil && readPkgs[fn.Pkg.Pkg.Path()] {
			r = true
		}
		return r
	}
	if fn.Blocks == nil {
		return false
	}
	roMemo[fn] = 1
	var local func(v ssa.Value, depth int) bool
	local = func(v ssa.Value, depth int) bool {
		if depth > 20 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			return true
		case *ssa.Const:
			return x.IsNil()
		case *ssa.FieldAddr:
			return local(x.X, depth+1)
		case *ssa.IndexAddr:
			return local(x.X, depth+1)
		case *ssa.Slice:
			return local(x.X, depth+1)
		case *ssa.ChangeType:
			return local(x.X, depth+1)
		case *ssa.Phi:
			for _, ed := range x.Edges {
				if ed != v && !local(ed, depth+4) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return local(x.Call.Args[0], depth+4)
			}
		case *ssa.UnOp:
			// a local variable all of whose stores are local
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a && !local(s.Val, depth+4) {
						return false
					}
					switch r.(type) {
					case *ssa.Store, *ssa.UnOp, *ssa.DebugRef:
					default:
						return false
					}
				}
				return true
			}
		}
		return false
	}
	ok := true
	call := func(c *ssa.CallCommon) {
		if b, is := c.Value.(*ssa.Builtin); is {
			switch b.Name() {
			case "append", "copy", "delete", "clear":
				ok = ok && local(c.Args[0], 0)
			}
			return
		}
		if c.IsInvoke() {
			ok = ok && invokeReadOnly(c)
			return
		}
		if f := c.StaticCallee(); f != nil {
			ok = ok && readOnly(f)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				ok = ok && local(x.Addr, 0)
			case *ssa.MapUpdate:
				ok = ok && local(x.Map, 0)
			case *ssa.Send, *ssa.Go:
				ok = false
			case *ssa.Call:
				call(&x.Call)
			case *ssa.Defer:
				call(&x.Call)
			}
		}
	}
	if !ok {
		roMemo[fn] = 2
	}
	return ok
}

// invokeReadOnly: every implementation in the repository only reads.
func invokeReadOnly(c *ssa.CallCommon) bool {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	n := 0
	for _, f := range allFuncs {
		if f.Name() != c.Method.Name() || f.Signature.Recv() == nil || f.Synthetic != "" || !inRepo(f) {
			continue
		}
		if types.Implements(f.Signature.Recv().Type(), it) {
			n++
			if !readOnly(f) {
				return false
			}
		}
	}
	return n > 0 || readMethods[c.Method.Name()]
}

var opaquePkgs = []string{"/quantile/ost", "/quantile/skiplist", "/quantile/heap", "/quantile/order", "/util/"}

func opaqueFn(fn *ssa.Function) bool {
	if !inRepo(fn) {
		return true
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	for _, p := range opaquePkgs {
		if strings.Contains(f.Pkg.Pkg.Path(), p) {
			return true
		}
	}
	return false
}

// opaque: a call about which only the locks matter. What was loaded from a
// guarded field may be passed on only under the lock; functions passed on are
// run on arbitrary arguments; memory other than immutable fields may change.
func (e *Exec) opaque(fr *Frame, st *State, name string, write bool, sig *types.Signature, args []Val, k Kont) {
	for _, a := range args {
		var t *Term
		switch x := a.(type) {
		case *Term:
			t = x
		case *SliceV:
			t = x.arr
		}
		if t != nil {
			e.checkTag(st, t, write, "call of "+name+" on what is held")
		}
	}
	for _, key := range sortedKeys(st.heap) {
		if specs.immutable[strings.TrimPrefix(key, "F.")] || key == wgKey {
			continue
		}
		st.heap[key] = freshT(key, st.heap[key].sort)
		for _, r := range e.recs {
			r.writes[key] = append(r.writes[key], nil)
		}
	}
	na := freshT("alloc", sInt)
	st.assume(Le(st.alloc, na))
	st.alloc = na
	for _, a := range args {
		f, ok := a.(*FuncV)
		if !ok || f.fn == nil || f.fn.Blocks == nil {
			continue
		}
		s2 := st.clone()
		var as []Val
		for i, p := range f.fn.Params {
			as = append(as, e.freshVal(s2, fmt.Sprintf("cbarg%d", i), p.Type()))
		}
		before := lockSet(s2)
		e.inline(fr, s2, f.fn, f.binds, as, func(s3 *State, res []Val) {
			if lockSet(s3) != before {
				e.lockOblige(s3, "a callback leaves the locks held as they were", tFalse)
			}
			if len(s3.taken) != len(s2.taken) {
				e.lockOblige(s3, "operation is one critical section (no lock is taken per callback)", tFalse)
			}
		})
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, e.freshVal(st, "res", sig.Results().At(i).Type()))
	}
	k(st, res)
}

// lockCall handles a call in mode lock; false means: execute the body.
func (e *Exec) lockCall(fr *Frame, st *State, fn *ssa.Function, name string, binds, args []Val, k Kont) bool {
	if le := specs.lockEntry[name]; le != 0 {
		recv := e.asTerm(st, args[0])
		owner := fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
		key, ref := e.guardLock(st, owner, recv)
		e.lockOblige(st, name+" is called with the lock held", e.holds(st, key, ref, le == lockW))
		e.callees[name] = true
		e.opaque(fr, st, name, false, fn.Signature, nil, k)
		return true
	}
	rec := false
	for _, s := range e.callStack {
		rec = rec || s == fn.String()
	}
	if rec || fn.Blocks == nil || opaqueFn(fn) {
		if len(binds) > 0 && !rec {
			return false
		}
		e.opaque(fr, st, name, !readOnly(fn), fn.Signature, args, k)
		return true
	}
	if len(e.callStack) > 8 {
		panic(unsupported("inlining too deep at " + name))
	}
	if fn.Signature.Recv() != nil && len(args) > 0 {
		if p, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			if r, ok := args[0].(*Term); ok {
				e.assumeLockInv(st, &Env{e: e, vars: map[string]SV{}}, r, p)
			}
		}
	}
	e.inlined[name] = true
	e.inline(fr, st, fn, binds, args, k)
	return true
}

// ---------- goroutines ----------

type goInfo struct {
	written map[string]bool     // captured variables some worker writes
	locks   map[string][]string // captured variable -> locks common to all accesses
	seen    map[string]bool
}

// bodyWrites: captured variables the closure writes (the variable itself, an
// entry of a captured map or an element of a captured slice).
func bodyWrites(fn *ssa.Function) map[string]bool {
	w := map[string]bool{}
	base := func(v ssa.Value) (string, bool) {
		for {
			switch x := v.(type) {
			case *ssa.FreeVar:
				return x.Name(), true
			case *ssa.UnOp:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.FieldAddr:
				return "", false // objects the worker reaches guard themselves
			default:
				return "", false
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if n, ok := base(in.Addr); ok {
					w[n] = true
				}
			case *ssa.MapUpdate:
				if n, ok := base(in.Map); ok {
					w[n] = true
				}
			}
		}
	}
	return w
}

// sharedAccess: a worker touches a captured variable that workers write.
func (e *Exec) sharedAccess(st *State, name string, write bool) {
	if st.thread == 0 || e.gi == nil || !e.gi.written[name] {
		return
	}
	var held []string
	for _, l := range st.locks {
		if l.mode == lockW {
			held = append(held, fmt.Sprintf("%s %d", l.key, l.ref.id))
		}
	}
	common := held
	if e.gi.seen[name] {
		common = nil
		for _, a := range e.gi.locks[name] {
			for _, b := range held {
				if a == b {
					common = append(common, a)
				}
			}
		}
	}
	e.gi.seen[name] = true
	e.gi.locks[name] = common
	if len(common) == 0 {
		e.lockOblige(st, "variable "+name+" shared by the workers is accessed under one common lock", tFalse)
	}
}

// cellAccess: loads and stores of variables that are shared with workers.
func (e *Exec) cellAccess(fr *Frame, st *State, addr ssa.Value, p Val, write bool) {
	if !e.tracking() {
		return
	}
	if fv, ok := addr.(*ssa.FreeVar); ok && st.thread != 0 && fr.gor {
		if isSyncPtr(fv.Type()) {
			return
		}
		e.sharedAccess(st, fv.Name(), write)
		return
	}
	if q, ok := p.(*PtrV); ok && q.kind == "cell" && st.thread == 0 && st.pending() {
		if n, ok := st.shared[q.cell]; ok {
			if write {
				e.lockOblige(st, "variable "+n+" is not changed while workers that captured it run", tFalse)
			} else if e.gi != nil && e.gi.written[n] {
				e.lockOblige(st, "variable "+n+" is not read while workers that write it run", tFalse)
			}
		}
	}
}

func isSyncPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isSync(p.Elem())
}

func (e *Exec) spawn(fr *Frame, st *State, c *ssa.CallCommon, fv Val, args []Val, k func(*State)) {
	f, ok := fv.(*FuncV)
	if !ok || f.fn == nil || f.fn.Blocks == nil {
		panic(unsupported("go statement on something else than a function literal"))
	}
	if !e.tracking() {
		panic(unsupported("go statement"))
	}
	if e.gi == nil {
		e.gi = &goInfo{written: map[string]bool{}, locks: map[string][]string{}, seen: map[string]bool{}}
	}
	for n := range bodyWrites(f.fn) {
		e.gi.written[n] = true
	}
	if st.shared == nil {
		st.shared = map[*Cell]string{}
	}
	sh := map[*Cell]string{}
	for a, b := range st.shared {
		sh[a] = b
	}
	for i, b := range f.binds {
		if q, ok := b.(*PtrV); ok && q.kind == "cell" && !isSyncPtr(f.fn.FreeVars[i].Type()) {
			sh[q.cell] = f.fn.FreeVars[i].Name()
		}
	}
	st.shared = sh
	locks, taken, thread, defers, outer := st.locks, st.taken, st.thread, st.defers, st.outer
	st.outer = append(append([]LockState(nil), outer...), locks...)
	st.locks, st.taken, st.defers = nil, nil, nil
	st.thread = thread + 1
	st.gos = 1
	pend := e.wgGet(st)
	e.inlineGo(fr, st, f.fn, f.binds, args, func(s *State, res []Val) {
		if len(s.locks) != 0 {
			e.lockOblige(s, "a worker releases every lock it takes", tFalse)
		}
		e.lockOblige(s, "a worker calls Done exactly once", Eq(e.wgGet(s), Sub(pend, intT(1))))
		s.locks, s.taken, s.thread, s.defers, s.outer = locks, taken, thread, defers, outer
		k(s)
	})
}

func (e *Exec) inlineGo(fr *Frame, st *State, fn *ssa.Function, binds, args []Val, k Kont) {
	nf := e.newFrame(fn, fr)
	nf.gor = true
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		nf.env[p] = binds[i]
	}
	saved, savedPos := e.callStack, e.curPos
	e.callStack = append(append([]string(nil), saved...), fn.String())
	e.inlined[short(fn.String())] = true
	e.execBody(nf, st, func(st *State, res []Val) {
		cs, cp := e.callStack, e.curPos
		e.callStack, e.curPos = saved, savedPos
		k(st, res)
		e.callStack, e.curPos = cs, cp
	})
	e.callStack, e.curPos = saved, savedPos
}

// loopShared: a loop that starts workers may already have started some; the
// variables they captured are those of the loop's closures.
func (e *Exec) loopShared(fr *Frame, l *Loop, h *State) {
	if !e.tracking() {
		return
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok {
				continue
			}
			h.gos = 1
			mc, ok := g.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			fn := mc.Fn.(*ssa.Function)
			if e.gi == nil {
				e.gi = &goInfo{written: map[string]bool{}, locks: map[string][]string{}, seen: map[string]bool{}}
			}
			for n := range bodyWrites(fn) {
				e.gi.written[n] = true
			}
			sh := map[*Cell]string{}
			for a, b := range h.shared {
				sh[a] = b
			}
			for i, bd := range mc.Bindings {
				if a, ok := bd.(*ssa.Alloc); ok && !l.body[a.Block()] && !isSyncPtr(a.Type()) {
					if q, ok := fr.env[a].(*PtrV); ok && q.kind == "cell" {
						sh[q.cell] = fn.FreeVars[i].Name()
					}
				}
			}
			h.shared = sh
		}
	}
}
