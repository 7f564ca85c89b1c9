package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value.
type Value interface{}

type StructV struct {
	typ    types.Type
	fields []Value
}
type SeqV struct { // contents of an array or a slice's backing store
	t    *Term
	elem types.Type
}
type SliceV struct {
	nilc     *Term
	obj      *Obj
	off, len *Term
	elem     types.Type
	path     []Step // where the backing array lives inside obj (slices of arrays)
}
type PtrV struct {
	nilc *Term
	obj  *Obj
	path []Step
	elem types.Type
}
type MapV struct {
	nilc *Term
	obj  *Obj
	typ  *types.Map
}
type MapC struct { // contents of a map
	dom, val *Term
	typ      *types.Map
}
type IfaceV struct {
	nilc *Term
	dyn  types.Type // nil if unknown
	val  Value
	id   *Term
}
type FuncV struct {
	fn       *ssa.Function
	bindings []Value
	nilc     *Term
}
type TupleV struct{ vs []Value }
type BufC struct{ t *Term } // ghost content of bytes.Buffer / strings.Builder
type OpaqueV struct{ t *Term }
type RangeIter struct {
	kind string // "string" or "map"
	str  *Term
	m    MapV
	obj  *Obj // holds position (Int term) or visited set
}

type Step struct {
	kind  byte // 'f' field, 'i' index
	field int
	idx   *Term
}

// Obj is an allocation.
type Obj struct {
	id     int
	name   string
	typ    types.Type // type of the content
	init   Value      // initial content (lazily materialised for parameters)
	lazy   func() Value
	param  bool // reachable from the parameters on entry (frame conditions apply)
	origin *Origin
	alloc  ssa.Value // allocation site
	slice  bool      // backing store of a slice
	key    string    // stable identity across re-executions
	birth  int       // creation order; content of an older object materialised later inherits the age of its parent
	loopv  bool      // storage of a loop-carried slice variable
	loopp  bool      // ... whose entry value belongs to the caller
	det    bool      // read out of a stored value: not connected to its container, so never written
	opqm   bool      // map read out of a stored value
	mterm  *Term     // ... which is this
	over   int       // version of the container when this snapshot was taken
}
type Origin struct { // write-back target of a snapshot
	obj    *Obj
	path   []Step
	mapKey *Term // for map elements: obj is the map object
	kind   byte  // 'p' pointer snapshot, 's' slice snapshot
	typ    types.Type
}

// State maps objects to contents; copied on branch.
type State struct {
	m      map[*Obj]Value
	pc     []*Term // path condition + assumed facts
	writes *writeLog
	depth  int
	trace  []string
	loops  []*loopAct
	unroll map[string]int
	defers []deferred
	env    map[envKey]Value
	reif   map[*Obj]bool // objects whose content was copied into a container
	ver    map[*Obj]int  // number of writes to each container with snapshots
	joins  []*joinPt
	path   uint64       // identifies the branches taken
	snap   map[*Obj]int // version at which a written-through snapshot is current
}
type envKey struct {
	fr *Frame
	v  ssa.Value
}

func newState() *State                               { return &State{m: map[*Obj]Value{}, env: map[envKey]Value{}} }
func (s *State) set(fr *Frame, v ssa.Value, x Value) { s.env[envKey{fr, v}] = x }

type writeLog struct {
	objs map[*Obj]bool
}

func (s *State) clone() *State {
	n := &State{m: make(map[*Obj]Value, len(s.m)+4), pc: s.pc[:len(s.pc):len(s.pc)], writes: s.writes, depth: s.depth, trace: s.trace[:len(s.trace):len(s.trace)], loops: s.loops, unroll: s.unroll, defers: s.defers}
	for k, v := range s.m {
		n.m[k] = v
	}
	n.reif, n.ver, n.snap = s.reif, s.ver, s.snap
	n.path = s.path
	n.joins = s.joins[:len(s.joins):len(s.joins)]
	n.env = make(map[envKey]Value, len(s.env)+8)
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }
func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func under(t types.Type) types.Type { return t.Underlying() }
func isByteSlice(t types.Type) bool {
	if s, ok := under(t).(*types.Slice); ok {
		b, ok := under(s.Elem()).(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBoolT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func intRange(t types.Type) (rng, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return rng{}, false
	}
	k := b.Name()
	if b.Kind() == types.UntypedInt || b.Kind() == types.UntypedRune {
		k = "int"
	}
	r, ok := typeRanges[k]
	return r, ok
}
func intBits(t types.Type) (uint, bool) { // bits, signed
	b := under(t).(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}
func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}
func isBufferType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "bytes.Buffer" || s == "strings.Builder"
}

// ---- sorts ----
type sorter struct {
	tb    *TB
	stack map[string]bool
	cache map[string]string
}

const SOpaque = "Opq"
const SReal = "Flt"

func (x *Exec) sortOf(t types.Type) string {
	k := typeName(t)
	if s, ok := x.sortCache[k]; ok {
		return s
	}
	s := x.sortOf1(t, map[string]bool{})
	x.sortCache[k] = s
	return s
}
func (x *Exec) sortOf1(t types.Type, stack map[string]bool) string {
	if isBufferType(t) {
		return SBytes
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SBytes
		case u.Info()&types.IsFloat != 0:
			return SReal
		}
		return SOpaque
	case *types.Slice:
		return SeqOf(x.sortOf1(u.Elem(), stack))
	case *types.Array:
		return SeqOf(x.sortOf1(u.Elem(), stack))
	case *types.Interface:
		return SOpaque
	case *types.Struct:
		k := typeName(t)
		if stack[k] {
			return SOpaque
		}
		stack[k] = true
		defer delete(stack, k)
		nm := "S_" + sanitize(k)
		c := Ctor{Name: "mk_" + nm}
		for i := 0; i < u.NumFields(); i++ {
			c.Sels = append(c.Sels, nm+"__"+u.Field(i).Name())
			c.Sorts = append(c.Sorts, x.sortOf1(u.Field(i).Type(), stack))
		}
		if u.NumFields() == 0 {
			return SOpaque
		}
		// within a recursive group the fields may be approximated; keep the first complete version
		d := x.tb.dts.add(&Datatype{Name: nm, Ctors: []Ctor{c}})
		return d.Name
	case *types.Pointer:
		if _, ok := under(u.Elem()).(*types.Struct); ok && !isBufferType(u.Elem()) {
			k := typeName(u.Elem())
			if stack[k] {
				return SOpaque
			}
			in := x.sortOf1(u.Elem(), stack)
			if in == SOpaque {
				return SOpaque
			}
			nm := "P_" + in
			x.tb.dts.add(&Datatype{Name: nm, Ctors: []Ctor{{Name: "nil_" + nm}, {Name: "ptr_" + nm, Sels: []string{"val_" + nm}, Sorts: []string{in}}}})
			return nm
		}
		return SOpaque
	}
	return SOpaque
}

func (x *Exec) mapSorts(m *types.Map) (k, v string) {
	return x.sortOf(m.Key()), x.sortOf(m.Elem())
}

// ---- fresh values ----
func (x *Exec) freshTerm(t types.Type, name string) *Term {
	v := x.tb.Fresh(name, x.sortOf(t))
	if r, ok := intRange(t); ok {
		v.setRange(r)
	}
	return v
}
func (x *Exec) fresh(t types.Type, name string) Value {
	if isBufferType(t) {
		return BufC{x.tb.Fresh(name, SBytes)}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return OpaqueV{x.tb.Fresh(name, SOpaque)}
		}
		return x.freshTerm(t, name)
	case *types.Slice:
		o := x.newObj(name, t)
		o.slice = true
		c := x.tb.Fresh(name, x.sortOf(t))
		o.init = SeqV{c, u.Elem()}
		n := x.tb.Fresh(name+"_nil", SBool)
		x.fact(x.tb.Implies(n, x.tb.Eq(x.tb.Len(c), x.tb.Int(0))))
		return SliceV{nilc: n, obj: o, off: x.tb.Int(0), len: x.tb.Len(c), elem: u.Elem()}
	case *types.Array:
		c := x.tb.Fresh(name, x.sortOf(t))
		x.fact(x.tb.mk("=", SBool, "", nil, x.tb.Len(c), x.tb.Int(u.Len())))
		return SeqV{c, u.Elem()}
	case *types.Struct:
		sv := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fields = append(sv.fields, x.fresh(u.Field(i).Type(), name+"_"+u.Field(i).Name()))
		}
		return sv
	case *types.Pointer:
		o := x.newObj(name+"_p", u.Elem())
		el := u.Elem()
		pm := x.inParam
		o.lazy = func() Value {
			save := x.inParam
			x.inParam = pm
			defer func() { x.inParam = save }()
			return x.fresh(el, name)
		}
		return PtrV{nilc: x.tb.Fresh(name+"_nil", SBool), obj: o, elem: u.Elem()}
	case *types.Map:
		o := x.newObj(name+"_m", t)
		ks, vs := x.mapSorts(u)
		o.init = MapC{x.tb.Fresh(name+"_dom", ArrOf(ks, SBool)), x.tb.Fresh(name+"_val", ArrOf(ks, vs)), u}
		return MapV{nilc: x.tb.Fresh(name+"_nil", SBool), obj: o, typ: u}
	case *types.Interface:
		return IfaceV{nilc: x.tb.Fresh(name+"_nil", SBool), id: x.tb.Fresh(name, SOpaque)}
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, x.fresh(u.At(i).Type(), fmt.Sprintf("%s_%d", name, i)))
		}
		return tv
	}
	return OpaqueV{x.tb.Fresh(name, SOpaque)}
}

func (x *Exec) newObj(name string, t types.Type) *Obj {
	x.nobj++
	o := &Obj{id: x.nobj, birth: x.nobj, name: name, typ: t, param: x.inParam}
	if x.inParam {
		o.key = "param " + name
	} else if x.curKey != "" {
		o.key = x.curKey + "~" + name
	}
	if x.lazyOf != nil {
		o.birth = x.lazyOf.birth
		if o.key != "" && x.lazyOf.key != "" && o.key != x.lazyOf.key {
			x.lazyParent[o.key] = x.lazyOf.key
		}
	}
	if o.key != "" {
		x.objByKey[o.key] = append(x.objByKey[o.key], o)
	}
	return o
}

// ---- zero values ----
func (x *Exec) zero(t types.Type) Value {
	tb := x.tb
	if isBufferType(t) {
		return BufC{tb.Empty(SBytes)}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return tb.Int(0)
		case u.Info()&types.IsBoolean != 0:
			return tb.False()
		case u.Info()&types.IsString != 0:
			return tb.Empty(SBytes)
		case u.Info()&types.IsFloat != 0:
			return tb.App("flt0", SReal)
		}
		return OpaqueV{tb.App("opq0", SOpaque)}
	case *types.Slice:
		o := x.newObj("nil", t)
		o.slice = true
		o.init = SeqV{tb.Empty(x.sortOf(t)), u.Elem()}
		return SliceV{nilc: tb.True(), obj: o, off: tb.Int(0), len: tb.Int(0), elem: u.Elem()}
	case *types.Array:
		return SeqV{x.zeroSeq(u.Elem(), tb.Int(u.Len())), u.Elem()}
	case *types.Struct:
		sv := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fields = append(sv.fields, x.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Pointer:
		return PtrV{nilc: tb.True(), elem: u.Elem()}
	case *types.Map:
		o := x.newObj("nilmap", t)
		o.init = x.emptyMap(u)
		return MapV{nilc: tb.True(), obj: o, typ: u}
	case *types.Interface:
		return IfaceV{nilc: tb.True(), id: tb.App("opq0", SOpaque)}
	case *types.Signature:
		return FuncV{nilc: tb.True()}
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, x.zero(u.At(i).Type()))
		}
		return tv
	}
	return OpaqueV{tb.App("opq0", SOpaque)}
}
func (x *Exec) emptyMap(u *types.Map) MapC {
	ks, vs := x.mapSorts(u)
	return MapC{x.tb.ConstArr(ArrOf(ks, SBool), x.tb.False()), x.tb.Fresh("mapval", ArrOf(ks, vs)), u}
}

// zeroSeq(n): n zero elements
func (x *Exec) zeroSeq(elem types.Type, n *Term) *Term {
	tb := x.tb
	s := SeqOf(x.sortOf(elem))
	z := x.toTerm(x.zero(elem), elem, nil)
	if n.isInt() && n.Int64() <= 64 {
		var us []*Term
		for i := int64(0); i < n.Int64(); i++ {
			us = append(us, tb.Unit(z))
		}
		return tb.Concat(s, us...)
	}
	c := tb.Fresh("zeros", s)
	i := tb.BVar("i", SInt)
	x.fact(tb.mk("=", SBool, "", nil, tb.Len(c), n))
	x.fact(tb.Forall([]*Term{i}, tb.Implies(tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, n)), tb.Eq(x.nth(c, i, elem), z))))
	return c
}

func (x *Exec) nth(s, i *Term, elem types.Type) *Term {
	if b, ok := under(elem).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if b.Kind() == types.Uint8 {
			return x.tb.nthOp(s, i, "nthb", "")
		}
		return x.tb.nthOp(s, i, "nthi", b.Name())
	}
	return x.tb.nthOp(s, i, "nth", "")
}

// ---- reification ----
func (x *Exec) toTerm(v Value, t types.Type, st *State) *Term {
	tb := x.tb
	switch v := v.(type) {
	case *Term:
		return v
	case OpaqueV:
		return v.t
	case BufC:
		return v.t
	case SeqV:
		return v.t
	case SliceV:
		return x.view(v, st)
	case StructV:
		s := x.sortOf(v.typ)
		if s == SOpaque {
			return tb.Fresh("opq", SOpaque)
		}
		d := tb.dts.m[s]
		u := under(v.typ).(*types.Struct)
		var args []*Term
		for i, f := range v.fields {
			a := x.toTerm(f, u.Field(i).Type(), st)
			if a.Sort != d.Ctors[0].Sorts[i] {
				a = tb.Fresh("opq", d.Ctors[0].Sorts[i])
			}
			args = append(args, a)
		}
		return tb.MkDT(d, 0, args...)
	case PtrV:
		s := x.sortOf(t)
		if s == SOpaque {
			if v.nilc.IsTrue() {
				return tb.App("opq0", SOpaque)
			}
			return tb.App(fmt.Sprintf("ref_%d_%s", objID(v.obj), pathStr(v.path)), SOpaque)
		}
		d := tb.dts.m[s]
		nilT := tb.MkDT(d, 0)
		if v.nilc.IsTrue() {
			return nilT
		}
		c := x.load(st, v.obj, v.path)
		pt := tb.MkDT(d, 1, x.toTerm(c, under(t).(*types.Pointer).Elem(), st))
		return tb.Ite(v.nilc, nilT, pt)
	case IfaceV:
		if v.id != nil {
			return v.id
		}
		if v.dyn != nil && v.val != nil {
			vt := x.toTerm(v.val, v.dyn, st)
			id := tb.App("box_"+sanitize(typeName(v.dyn)), SOpaque, vt)
			x.fact(tb.Eq(tb.App("typeid", SInt, id), tb.Int(x.typeID(v.dyn))))
			x.fact(tb.Eq(tb.App("unbox_"+sanitize(typeName(v.dyn)), vt.Sort, id), vt))
			x.fact(tb.Not(tb.Eq(id, tb.App("opq0", SOpaque))))
			return id
		}
		return tb.Fresh("iface", SOpaque)
	case MapV:
		if v.obj.mterm != nil && (st == nil || st.m[v.obj] == nil) {
			return v.obj.mterm
		}
		return tb.App(fmt.Sprintf("mapref_%d", objID(v.obj)), SOpaque)
	case FuncV:
		return tb.Fresh("func", SOpaque)
	}
	unsup("toTerm %T", v)
	return nil
}
func objID(o *Obj) int {
	if o == nil {
		return 0
	}
	return o.id
}
func pathStr(p []Step) string {
	s := ""
	for _, q := range p {
		if q.kind == 'f' {
			s += fmt.Sprintf("f%d", q.field)
		} else {
			s += fmt.Sprintf("i%d", q.idx.ID)
		}
	}
	return s
}

func (x *Exec) fromTerm(tm *Term, t types.Type, org *Origin) Value {
	tb := x.tb
	if isBufferType(t) {
		return BufC{tm}
	}
	setR := func() {
		if r, ok := intRange(t); ok && tm.Lo == nil && (tm.Op == "dtsel" || tm.Op == "select" || tm.Op == "nth") {
			tm.setRange(r)
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		setR()
		if tm.Sort == SOpaque {
			return OpaqueV{tm}
		}
		return tm
	case *types.Slice:
		if tm.Sort == SOpaque {
			return x.fresh(t, "opqslice")
		}
		o := x.newObj("snap", t)
		o.slice = true
		o.init = SeqV{tm, u.Elem()}
		if org != nil {
			og := *org
			og.kind = 's'
			og.typ = t
			o.origin = &og
		}
		// nil-ness of a reified slice is not tracked: unknown, and nil implies empty
		n := tb.App("isnilslice_"+sanitize(tm.Sort), SBool, tm)
		if !tm.hasBV {
			x.fact(tb.Implies(n, tb.Eq(tb.Len(tm), tb.Int(0))))
		}
		return SliceV{nilc: n, obj: o, off: tb.Int(0), len: tb.Len(tm), elem: u.Elem()}
	case *types.Array:
		x.fact(tb.mk("=", SBool, "", nil, tb.Len(tm), tb.Int(u.Len())))
		return SeqV{tm, u.Elem()}
	case *types.Struct:
		if tm.Sort == SOpaque {
			return x.fresh(t, "opqstruct")
		}
		d := tb.dts.m[tm.Sort]
		sv := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fields = append(sv.fields, detach(x.fromTerm(tb.SelDT(d, 0, i, tm), u.Field(i).Type(), nil)))
		}
		return sv
	case *types.Pointer:
		if tm.Sort == SOpaque {
			o := x.newObj("opqp", u.Elem())
			el := u.Elem()
			o.lazy = func() Value { return x.fresh(el, "opqp") }
			return PtrV{nilc: tb.Eq(tm, tb.App("opq0", SOpaque)), obj: o, elem: u.Elem()}
		}
		d := tb.dts.m[tm.Sort]
		o := x.newObj("snapp", u.Elem())
		inner := tb.SelDT(d, 1, 0, tm)
		el := u.Elem()
		o.lazy = func() Value { return x.fromTerm(inner, el, nil) }
		if org != nil {
			og := *org
			og.kind = 'p'
			og.typ = t
			o.origin = &og
		}
		return PtrV{nilc: tb.IsCtor(d, 0, tm), obj: o, elem: u.Elem()}
	case *types.Interface:
		if tm.Op == "app" && len(tm.Name) > 4 && tm.Name[:4] == "box_" {
			return IfaceV{nilc: tb.False(), id: tm}
		}
		return IfaceV{nilc: tb.Eq(tm, tb.App("opq0", SOpaque)), id: tm}
	case *types.Map:
		if x.mapsUnstable {
			return x.fresh(t, "opqmap")
		}
		// the content of a map held inside a value is a function of that value as long as no such map is written
		o := x.newObj("opqmap", t)
		o.opqm, o.mterm = true, tm
		ks, vs := x.mapSorts(u)
		nm := sanitize(ks + "_" + vs)
		o.init = MapC{tb.App("odom_"+nm, ArrOf(ks, SBool), tm), tb.App("oval_"+nm, ArrOf(ks, vs), tm), u}
		return MapV{nilc: tb.App("onil_"+nm, SBool, tm), obj: o, typ: u}
	}
	return OpaqueV{tm}
}

// detach marks the storage of a value read out of a container by value.
func detach(v Value) Value {
	switch w := v.(type) {
	case PtrV:
		if w.obj != nil {
			w.obj.det = true
		}
	case SliceV:
		w.obj.det = true
	}
	return v
}

// stamp records the version of the container a snapshot was taken from.
func stamp(v Value, st *State) Value {
	if st == nil {
		return v
	}
	var o *Obj
	switch w := v.(type) {
	case PtrV:
		o = w.obj
	case SliceV:
		o = w.obj
	}
	if o != nil && o.origin != nil {
		o.over = st.ver[o.origin.obj]
	}
	return v
}

// markReified: o's content was copied into a container; later writes to it would not be seen there.
func (x *Exec) markReified(st *State, v Value) {
	var o *Obj
	switch w := v.(type) {
	case PtrV:
		o = w.obj
	case SliceV:
		o = w.obj
	case MapV:
		o = w.obj
	case StructV:
		for _, f := range w.fields {
			x.markReified(st, f)
		}
	case IfaceV:
		if w.val != nil {
			x.markReified(st, w.val)
		}
	}
	if o == nil || st.reif[o] {
		return
	}
	n := map[*Obj]bool{o: true}
	for k := range st.reif {
		n[k] = true
	}
	st.reif = n
	for _, a := range st.loops {
		if o.birth <= a.maxObj && o.key != "" && !a.li.reif[o.key] {
			a.li.reif[o.key] = true
			x.restart = true
		}
	}
}
func (st *State) snapVer(o *Obj) int {
	if v, ok := st.snap[o]; ok {
		return v
	}
	return o.over
}
func (st *State) setSnap(o *Obj, ver int) {
	n := map[*Obj]int{}
	for k, v := range st.snap {
		n[k] = v
	}
	n[o] = ver
	st.snap = n
}
func (st *State) bump(o *Obj) {
	n := map[*Obj]int{}
	for k, v := range st.ver {
		n[k] = v
	}
	n[o]++
	st.ver = n
}

// view of a slice as a sequence term
func (x *Exec) view(s SliceV, st *State) *Term {
	c := x.seqContent(s, st)
	return x.tb.Sub3(c, s.off, s.len)
}
func (x *Exec) seqContent(s SliceV, st *State) *Term {
	v := x.load(st, s.obj, s.path)
	switch v := v.(type) {
	case SeqV:
		return v.t
	case BufC:
		return v.t
	}
	unsup("seqContent %T", v)
	return nil
}

// ---- memory ----
func (x *Exec) content(st *State, o *Obj) Value {
	if st != nil {
		if o != nil && o.origin != nil && st.snapVer(o) != st.ver[o.origin.obj] {
			unsup("read through a pointer into a collection that was written since")
		}
		if v, ok := st.m[o]; ok {
			return v
		}
	}
	if o == nil {
		unsup("nil object")
	}
	if o.init == nil {
		if o.lazy == nil {
			unsup("object without content %s", o.name)
		}
		sk, sl := x.curKey, x.lazyOf
		x.curKey, x.lazyOf = o.key, o
		o.init = o.lazy()
		x.curKey, x.lazyOf = sk, sl
	}
	return o.init
}
func (x *Exec) load(st *State, o *Obj, path []Step) Value {
	v := x.content(st, o)
	for i, s := range path {
		v = stamp(x.project(v, s, o, path[:i+1]), st)
	}
	return v
}
func (x *Exec) project(v Value, s Step, o *Obj, pfx []Step) Value {
	if s.kind == 'f' {
		sv, ok := v.(StructV)
		if !ok {
			unsup("field of %T", v)
		}
		return sv.fields[s.field]
	}
	q, ok := v.(SeqV)
	if !ok {
		unsup("index of %T", v)
	}
	return x.fromTerm(x.nth(q.t, s.idx, q.elem), q.elem, &Origin{obj: o, path: append([]Step{}, pfx...)})
}
func (x *Exec) inject(v Value, path []Step, nv Value, st *State) Value {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	if s.kind == 'f' {
		sv, ok := v.(StructV)
		if !ok {
			unsup("store to field of %T", v)
		}
		n := StructV{typ: sv.typ, fields: append([]Value{}, sv.fields...)}
		n.fields[s.field] = x.inject(sv.fields[s.field], path[1:], nv, st)
		return n
	}
	q, ok := v.(SeqV)
	if !ok {
		unsup("store to index of %T", v)
	}
	tb := x.tb
	var inner Value
	if len(path) > 1 {
		inner = x.inject(x.fromTerm(x.nth(q.t, s.idx, q.elem), q.elem, nil), path[1:], nv, st)
	} else {
		inner = nv
	}
	e := x.toTerm(inner, q.elem, st)
	n := tb.Len(q.t)
	pre := tb.Sub3(q.t, tb.Int(0), s.idx)
	post := tb.Sub3(q.t, tb.Add(s.idx, tb.Int(1)), tb.Sub(tb.Sub(n, s.idx), tb.Int(1)))
	return SeqV{tb.Concat(q.t.Sort, pre, tb.Unit(e), post), q.elem}
}
func (x *Exec) store(st *State, o *Obj, path []Step, nv Value) {
	cur := Value(nil)
	if len(path) > 0 {
		cur = x.content(st, o)
	}
	st.m[o] = x.inject(cur, path, nv, st)
	if st.writes != nil {
		st.writes.objs[o] = true
	}
	if o.param {
		x.recordWrite(o, path)
	}
	if og := o.origin; og != nil {
		// write back through the snapshot's origin
		var v Value
		c := x.content(st, o)
		if og.kind == 's' {
			s := c.(SeqV)
			v = s.t
		} else {
			d := x.tb.dts.m[x.sortOf(og.typ)]
			v = x.tb.MkDT(d, 1, x.toTerm(c, o.typ, st))
		}
		if og.mapKey != nil {
			mc := x.content(st, og.obj).(MapC)
			mc.val = x.tb.Store(mc.val, og.mapKey, v.(*Term))
			st.m[og.obj] = mc
			if st.writes != nil {
				st.writes.objs[og.obj] = true
			}
			if og.obj.param {
				x.recordWrite(og.obj, nil)
			}
		} else {
			x.store(st, og.obj, og.path, v)
		}
	}
}

// fact records a universally valid fact; bound variables occurring free in it are quantified.
func (x *Exec) fact(t *Term) {
	if t.hasBV {
		free := map[*Term]bool{}
		seen := map[*Term]bool{}
		var bound []*Term
		var walk func(t *Term)
		walk = func(t *Term) {
			if !t.hasBV || seen[t] {
				return
			}
			seen[t] = true
			if t.Op == "bvar" {
				free[t] = true
			}
			bound = append(bound, t.Binders...)
			for _, a := range t.Args {
				walk(a)
			}
		}
		walk(t)
		for _, b := range bound {
			delete(free, b)
		}
		if len(free) > 0 {
			var vs []*Term
			for v := range free {
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
			t = x.tb.Forall(vs, t)
		}
	}
	x.facts = append(x.facts, t)
}
