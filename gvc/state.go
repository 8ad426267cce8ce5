package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type SliceV struct{ arr, off, ln, cp *Term }
type StructV struct {
	typ types.Type
	f   []Val
}
type TupleV []Val
type Cell struct {
	id   int
	name string
	typ  types.Type
	fr   *Frame
}
type PtrV struct {
	kind  string // cell field elem chunk
	cell  *Cell
	path  []int
	ref   *Term
	key   string // heap key (field)
	owner types.Type
	fname string
	arr   *Term
	idx   *Term
	elem  types.Type
	guard *GuardInfo
}
type GuardInfo struct {
	key  string // lock key
	ref  *Term
	what string
}
type FuncV struct {
	fn    *ssa.Function
	binds []Val
	term  *Term
	typ   types.Type
}
type IterV struct {
	m       *Term
	mt      *types.Map
	vis     *Term // (Array K Bool)
	dom0    *Term
	loopVar *Cell
}

type Chunk struct {
	typ    string
	ref    *Term
	tree   *Term // folded if != nil
	fields map[string]Val
}

type LockState struct {
	key   string
	ref   *Term
	mode  int // 1 read 2 write
	count int
}

type deferred struct {
	fr   *Frame
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type State struct {
	heap   map[string]*Term
	cells  map[*Cell]Val
	path   []*Term
	pset   map[int]bool
	alloc  *Term
	chunks []*Chunk
	locks  []LockState
	taken  []LockState
	outer  []LockState // locks of the threads that wait for this one
	shared map[*Cell]string
	acq    map[string]int
	defers []deferred
	thread int
	gos    int
	trace  string
	events []Event
}

func newState() *State {
	return &State{heap: map[string]*Term{}, cells: map[*Cell]Val{}, pset: map[int]bool{}, alloc: varT("alloc@0", sInt), acq: map[string]int{}}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)), cells: make(map[*Cell]Val, len(s.cells)), alloc: s.alloc, thread: s.thread, gos: s.gos, trace: s.trace, events: s.events[:len(s.events):len(s.events)]}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.path = s.path[:len(s.path):len(s.path)]
	n.pset = make(map[int]bool, len(s.pset))
	for k := range s.pset {
		n.pset[k] = true
	}
	n.chunks = make([]*Chunk, len(s.chunks))
	for i, c := range s.chunks {
		d := *c
		if c.fields != nil {
			d.fields = make(map[string]Val, len(c.fields))
			for k, v := range c.fields {
				d.fields[k] = v
			}
		}
		n.chunks[i] = &d
	}
	n.locks = append([]LockState(nil), s.locks...)
	n.taken = append([]LockState(nil), s.taken...)
	n.shared = s.shared
	n.outer = s.outer
	n.defers = append([]deferred(nil), s.defers...)
	n.acq = map[string]int{}
	for k, v := range s.acq {
		n.acq[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == tTrue || s.pset[t.id] {
		return
	}
	if t.op == "app" && t.name == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if cs := conjuncts(t); len(cs) > 1 {
		for _, a := range cs {
			s.assume(a)
		}
		return
	}
	s.pset[t.id] = true
	s.path = append(s.path, t)
}

func (s *State) dead() bool {
	for _, t := range s.path {
		if t == tFalse {
			return true
		}
		if s.pset[Not(t).id] {
			return true
		}
	}
	return false
}

// ---------- sorts of Go types ----------

func sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsFloat != 0:
			return sReal
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Kind() == types.UnsafePointer:
			return sInt
		case u.Kind() == types.UntypedNil:
			return sVal
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return sInt
	case *types.Interface:
		return sVal
	case *types.Slice:
		return "slice"
	case *types.Struct:
		return "struct"
	case *types.Array:
		return "array"
	case *types.Tuple:
		return "tuple"
	}
	panic(unsupported(fmt.Sprintf("type %s", t)))
}

type unsupported string

var typeTags = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func tagOf(t types.Type) *Term {
	n := types.TypeString(t, nil)
	if k, ok := typeTags[n]; ok {
		return intT(k)
	}
	k := int64(len(typeTags) + 1)
	typeTags[n] = k
	tagTypes[k] = t
	return intT(k)
}

// ---------- heap access ----------

type Exec struct {
	discover      int    // inside modset discovery of a loop
	mode          string // "" or "lock"
	nan           bool
	top           *ssa.Function
	contract      *Contract
	entry         *State
	args          []Val
	obs           []*Oblig
	suppress      int
	recs          []*Recorder
	pathCount     int
	loopCtx       []*LoopCtx
	depth         int
	cellN         int
	uses          []string
	prefix        string
	heapSorts     map[string]string
	bvN           int
	retCount      int
	reach         int
	rw            bool // false: read-only tree mode
	sharedRd      map[string]bool
	notes         []string
	inlined       map[string]bool
	callees       map[string]bool
	exitState     []*State
	phase         string
	curPos        string
	houdiniProved int
	trivial       int
	callStack     []string
	tags          map[int]*GuardInfo
	gi            *goInfo
	wgID          string
	entryLocks    string
}

type Recorder struct {
	writes map[string][]*Term // key -> refs
	cells  map[*Cell]bool
	locks  bool
}

func (e *Exec) heapGet(st *State, key, srt string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	e.heapSorts[key] = srt
	t := varT(sanitize(key)+"@0", arr(sInt, srt))
	st.heap[key] = t
	return t
}

func (e *Exec) heapRead(st *State, key, srt string, ref *Term) *Term {
	return Select(e.heapGet(st, key, srt), ref)
}

func (e *Exec) heapWrite(st *State, key string, ref, v *Term) {
	h := e.heapGet(st, key, v.sort)
	st.heap[key] = Store(h, ref, v)
	for _, r := range e.recs {
		r.writes[key] = append(r.writes[key], ref)
	}
}

func (e *Exec) refFact(st *State, t *Term) {
	if t.hasBV || t.rat != nil {
		return
	}
	st.assume(Le(intT(0), t))
	st.assume(Lt(t, st.alloc))
}

// loadAt reads a value of type typ stored at heap key/ref.
func (e *Exec) loadAt(st *State, key string, ref *Term, typ types.Type, spec bool) Val {
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		s := &SliceV{e.heapRead(st, key+"#a", sInt, ref), e.heapRead(st, key+"#o", sInt, ref), e.heapRead(st, key+"#l", sInt, ref), e.heapRead(st, key+"#c", sInt, ref)}
		e.sliceFacts(st, s)
		return s
	case *types.Struct:
		v := &StructV{typ: typ}
		for i := 0; i < u.NumFields(); i++ {
			if isSync(u.Field(i).Type()) {
				v.f = append(v.f, nil)
				continue
			}
			v.f = append(v.f, e.loadAt(st, key+"."+u.Field(i).Name(), ref, u.Field(i).Type(), spec))
		}
		return v
	case *types.Signature:
		return &FuncV{term: e.heapRead(st, key, sInt, ref), typ: typ}
	case *types.Array:
		panic(unsupported("array value in heap " + key))
	}
	srt := sortOf(typ)
	t := e.heapRead(st, key, srt, ref)
	e.typeFact(st, t, typ)
	return t
}

func (e *Exec) typeFact(st *State, t *Term, typ types.Type) {
	switch u := typ.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		e.refFact(st, t)
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 && !t.hasBV {
			st.assume(Le(intT(0), t))
		}
	case *types.Interface:
		if !t.hasBV && t.op != "app" {
			st.assume(Imp(App("isVRef", sBool, t), And(Le(intT(0), App("vp", sInt, t)), Lt(App("vp", sInt, t), st.alloc))))
		}
	}
}

func (e *Exec) sliceFacts(st *State, s *SliceV) {
	if s.arr.hasBV {
		return
	}
	if s.ln.rat != nil && s.cp.rat != nil {
		return
	}
	e.refFact(st, s.arr)
	st.assume(Le(intT(0), s.off))
	st.assume(Le(intT(0), s.ln))
	st.assume(Le(s.ln, s.cp))
	st.assume(Imp(Eq(s.arr, intT(0)), Eq(s.cp, intT(0))))
}

func (e *Exec) storeAt(st *State, key string, ref *Term, typ types.Type, v Val) {
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		s := v.(*SliceV)
		e.heapWrite(st, key+"#a", ref, s.arr)
		e.heapWrite(st, key+"#o", ref, s.off)
		e.heapWrite(st, key+"#l", ref, s.ln)
		e.heapWrite(st, key+"#c", ref, s.cp)
		return
	case *types.Struct:
		s := v.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			if isSync(u.Field(i).Type()) {
				continue
			}
			e.storeField(st, typ, key+"."+u.Field(i).Name(), u.Field(i).Name(), ref, u.Field(i).Type(), s.f[i])
		}
		return
	case *types.Signature:
		e.heapWrite(st, key, ref, e.funcTerm(st, v.(*FuncV)))
		return
	}
	e.heapWrite(st, key, ref, e.asTerm(st, v))
}

func (e *Exec) storeField(st *State, owner types.Type, key, fname string, ref *Term, typ types.Type, v Val) {
	if fieldAddrEscapes[fieldKey(owner, fname)] {
		e.storeAt(st, ptrKey(typ), faddr(owner, fname, ref), typ, v)
		return
	}
	e.storeAt(st, key, ref, typ, v)
}

func ptrKey(t types.Type) string {
	if _, ok := t.Underlying().(*types.Slice); ok {
		return "P.slice." + typeName(t)
	}
	return "P." + sortOf(t)
}

func elemKey(t types.Type) string { return "E." + sanitize(typeName(t.Underlying())) }

// faddr is the address of a field whose address escapes.
func faddr(owner types.Type, f string, ref *Term) *Term {
	return App("fa", sInt, tagFor("fa."+typeName(owner)+"."+f), ref)
}

var faTags = map[string]int64{}

func tagFor(s string) *Term {
	if k, ok := faTags[s]; ok {
		return intT(k)
	}
	faTags[s] = int64(len(faTags) + 1)
	return intT(faTags[s])
}

// elements of slices are two-level arrays: E.<type>[arr][idx]
func (e *Exec) elemRead(st *State, arrRef, idx *Term, typ types.Type) Val {
	k := elemKey(typ)
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		g := func(x string) *Term {
			return Select(e.heapRead(st, k+x, arr(sInt, sInt), arrRef), idx)
		}
		s := &SliceV{g("#a"), g("#o"), g("#l"), g("#c")}
		e.sliceFacts(st, s)
		return s
	case *types.Signature:
		return &FuncV{term: Select(e.heapRead(st, k, arr(sInt, sInt), arrRef), idx), typ: typ}
	case *types.Struct:
		panic(unsupported("slice of structs " + u.String()))
	}
	srt := sortOf(typ)
	t := Select(e.heapRead(st, k, arr(sInt, srt), arrRef), idx)
	e.typeFact(st, t, typ)
	return t
}

func (e *Exec) elemWrite(st *State, arrRef, idx *Term, typ types.Type, v Val) {
	k := elemKey(typ)
	w := func(key string, t *Term) {
		h := e.heapGet(st, key, arr(sInt, t.sort))
		row := Select(h, arrRef)
		st.heap[key] = Store(h, arrRef, Store(row, idx, t))
		for _, r := range e.recs {
			r.writes[key] = append(r.writes[key], arrRef)
		}
	}
	switch typ.Underlying().(type) {
	case *types.Slice:
		s := v.(*SliceV)
		w(k+"#a", s.arr)
		w(k+"#o", s.off)
		w(k+"#l", s.ln)
		w(k+"#c", s.cp)
		return
	case *types.Signature:
		w(k, e.funcTerm(st, v.(*FuncV)))
		return
	}
	w(k, e.asTerm(st, v))
}

func elemKeys(typ types.Type) []string {
	k := elemKey(typ)
	if _, ok := typ.Underlying().(*types.Slice); ok {
		return []string{k + "#a", k + "#o", k + "#l", k + "#c"}
	}
	return []string{k}
}

func zeroRow(typ types.Type) map[string]*Term {
	k := elemKey(typ)
	if _, ok := typ.Underlying().(*types.Slice); ok {
		z := ConstArr(arr(sInt, sInt), intT(0))
		return map[string]*Term{k + "#a": z, k + "#o": z, k + "#l": z, k + "#c": z}
	}
	s := sortOf(typ)
	return map[string]*Term{k: ConstArr(arr(sInt, s), zeroTerm(s))}
}

func zeroTerm(s string) *Term {
	switch s {
	case sInt:
		return intT(0)
	case sReal:
		return realT(0)
	case sBool:
		return tFalse
	case sVal:
		return App("VNil", sVal)
	case sStr:
		return varT("str_empty", sStr)
	}
	panic(unsupported("zero of sort " + s))
}

func (e *Exec) zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{intT(0), intT(0), intT(0), intT(0)}
	case *types.Struct:
		v := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			if isSync(u.Field(i).Type()) {
				v.f = append(v.f, nil)
				continue
			}
			v.f = append(v.f, e.zeroVal(u.Field(i).Type()))
		}
		return v
	case *types.Signature:
		return &FuncV{term: intT(0), typ: t}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, e.zeroVal(u.At(i).Type()))
		}
		return tv
	case *types.Array:
		panic(unsupported("array value"))
	}
	if isSync(t) {
		return nil
	}
	return zeroTerm(sortOf(t))
}

// freshVal is an arbitrary value of a type.
func (e *Exec) freshVal(st *State, name string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := &SliceV{freshT(name+"_a", sInt), freshT(name+"_o", sInt), freshT(name+"_l", sInt), freshT(name+"_c", sInt)}
		e.sliceFacts(st, s)
		return s
	case *types.Struct:
		v := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			if isSync(u.Field(i).Type()) {
				v.f = append(v.f, nil)
				continue
			}
			v.f = append(v.f, e.freshVal(st, name+"_"+u.Field(i).Name(), u.Field(i).Type()))
		}
		return v
	case *types.Signature:
		return &FuncV{term: freshT(name, sInt), typ: t}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, e.freshVal(st, fmt.Sprintf("%s_%d", name, i), u.At(i).Type()))
		}
		return tv
	}
	if isSync(t) {
		return nil
	}
	x := freshT(name, sortOf(t))
	e.typeFact(st, x, t)
	return x
}

func (e *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, intT(1))
	return r
}

// allocObj allocates a zeroed object of a struct type.
func (e *Exec) allocObj(st *State, t types.Type) *Term {
	r := e.newRef(st)
	if o := specs.owned[typeName(t)]; o != nil {
		c := &Chunk{typ: typeName(t), ref: r, fields: map[string]Val{}}
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			c.fields[s.Field(i).Name()] = e.zeroVal(s.Field(i).Type())
		}
		st.chunks = append(st.chunks, c)
		return r
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		e.storeAt(st, "F."+typeName(t), r, t, e.zeroVal(t))
		// ghost fields start at their default
		tn := typeName(t)
		var ks []string
		for k, g := range specs.ghosts {
			if g.typ == tn {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			g := specs.ghosts[k]
			e.heapGet(st, "F."+tn+"."+g.name, g.sort)
			if isNum(g.sort) || g.sort == sBool {
				e.heapWrite(st, "F."+tn+"."+g.name, r, zeroTerm(g.sort))
			} else {
				e.heapWrite(st, "F."+tn+"."+g.name, r, freshT("g", g.sort))
			}
		}
	} else {
		e.storeAt(st, ptrKey(t), r, t, e.zeroVal(t))
	}
	return r
}

var funcIDs = map[string]int64{}

func (e *Exec) funcTerm(st *State, f *FuncV) *Term {
	if f.term != nil {
		return f.term
	}
	if len(f.binds) > 0 {
		// a closure stored in memory: opaque identity
		return freshT("closure", sInt)
	}
	n := f.fn.String()
	if _, ok := funcIDs[n]; !ok {
		funcIDs[n] = int64(1000 + len(funcIDs))
	}
	return intT(funcIDs[n])
}

// asTerm converts a scalar value to a term.
func (e *Exec) asTerm(st *State, v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *FuncV:
		return e.funcTerm(st, x)
	case *PtrV:
		panic(unsupported(fmt.Sprintf("interior pointer (%s %s) escapes", x.kind, x.key)))
	}
	panic(unsupported(fmt.Sprintf("value %T is not a scalar", v)))
}

// ---------- interface values ----------

func (e *Exec) box(st *State, v Val, t types.Type) *Term {
	tag := tagOf(t)
	switch t.Underlying().(type) {
	case *types.Interface:
		return e.asTerm(st, v)
	case *types.Slice:
		s := v.(*SliceV)
		return App("VSlice", sVal, tag, s.arr, s.off, s.ln, s.cp)
	case *types.Struct:
		return App("VRef", sVal, tag, freshT("boxed", sInt))
	case *types.Signature:
		return App("VInt", sVal, tag, e.funcTerm(st, v.(*FuncV)))
	}
	x := e.asTerm(st, v)
	switch x.sort {
	case sInt:
		if _, ok := t.Underlying().(*types.Basic); ok {
			return App("VInt", sVal, tag, x)
		}
		return App("VRef", sVal, tag, x)
	case sReal:
		return App("VReal", sVal, tag, x)
	case sBool:
		return App("VBool", sVal, tag, x)
	case sStr:
		return App("VStr", sVal, tag, x)
	}
	panic(unsupported("box " + x.sort))
}

// unbox returns (condition that v holds type t, the value).
func (e *Exec) unbox(st *State, v *Term, t types.Type) (*Term, Val) {
	tag := tagOf(t)
	sel := func(ctor, tagSel, valSel string, srt string) (*Term, *Term) {
		if v.op == "app" && v.name == ctor {
			return Eq(v.args[0], tag), v.args[1]
		}
		if v.op == "app" && isCtor(v.name) {
			return tFalse, freshT("junk", srt)
		}
		return And(App("is"+ctor, sBool, v), Eq(App(tagSel, sInt, v), tag)), App(valSel, srt, v)
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		if v.op == "app" && v.name == "VSlice" {
			return Eq(v.args[0], tag), &SliceV{v.args[1], v.args[2], v.args[3], v.args[4]}
		}
		s := &SliceV{App("vsl_a", sInt, v), App("vsl_o", sInt, v), App("vsl_l", sInt, v), App("vsl_c", sInt, v)}
		return And(App("isVSlice", sBool, v), Eq(App("vsl_t", sInt, v), tag)), s
	case *types.Basic:
		switch sortOf(t) {
		case sInt:
			return sel("VInt", "vi_t", "vi", sInt)
		case sReal:
			return sel("VReal", "vr_t", "vr", sReal)
		case sBool:
			return sel("VBool", "vb_t", "vb", sBool)
		case sStr:
			return sel("VStr", "vs_t", "vs", sStr)
		}
	case *types.Pointer, *types.Map:
		return sel("VRef", "vp_t", "vp", sInt)
	}
	panic(unsupported("type assertion to " + t.String()))
}
