package main

// Functions the engine executes itself instead of interpreting a body.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vroot = "github.com/henderiw/idxtable/verifx"
const ndPkg = vroot + "/nd."
const modelsPkg = vroot + "/models"

var intrinsics = map[string]intrinsic{}

func one(v Value) (Value, act) { return v, aDone }

func nop(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) { return nil, aDone }

func (vm *VM) input(name string, w uint8) *Term {
	n := fmt.Sprintf("%s.%d.%d", name, len(vm.inputs), w)
	t := vm.tb.Var(n, w)
	vm.inputs = append(vm.inputs, pathInput{name: name, t: t})
	return t
}

func cstr(v Value) string {
	s, ok := v.(string)
	if !ok {
		unsup("a name must be a constant string")
	}
	return s
}

func init() {
	for n, w := range map[string]uint8{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "Bool": 0} {
		w := w
		intrinsics[ndPkg+n] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
			return one(vm.input(cstr(args[0]), w))
		}
	}
	intrinsics[ndPkg+"Choice"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		n := vm.x.concretize(args[1].(*Term))
		if int64(n) <= 0 {
			panic(pathAbort{"choice of none"})
		}
		i := vm.x.choice(int(n))
		vm.inputs = append(vm.inputs, pathInput{name: cstr(args[0]), v: uint64(i)})
		return one(vm.tb.Const(64, uint64(i)))
	}
	intrinsics[ndPkg+"Assume"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		vm.x.assume(args[0].(*Term))
		return nil, aDone
	}
	intrinsics[ndPkg+"Assert"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		c := args[0].(*Term)
		vm.x.st.Reached++
		ok, m := vm.x.check(c)
		if !ok {
			r, m2 := vm.refine(vm.tb.Not(c), m)
			if r != Sat {
				return nil, aDone
			}
			vm.fail("assert", cstr(args[1]), vm.stack(g), m2)
		}
		return nil, aDone
	}
	intrinsics[ndPkg+"Reach"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		vm.reached[cstr(args[0])] = true
		return nil, aDone
	}
	intrinsics[ndPkg+"Observe"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		vm.obs = append(vm.obs, pathObs{cstr(args[0]), args[1].(*Term)})
		return nil, aDone
	}
	intrinsics[ndPkg+"Param"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		if v, ok := vm.params[cstr(args[0])]; ok {
			return one(vm.tb.Const(64, uint64(v)))
		}
		return one(args[1])
	}
	intrinsics[ndPkg+"MapOrder"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		old := vm.mapOrder
		vm.mapOrder = int(vm.x.concretize(args[0].(*Term)))
		return one(vm.tb.Const(64, uint64(old)))
	}
	intrinsics[ndPkg+"Concrete"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		t := args[0].(*Term)
		return one(vm.tb.Const(t.w, vm.x.concretize(t)))
	}
	intrinsics[ndPkg+"And"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		r := vm.tb.T
		for _, v := range args[0].(SliceV).a {
			r = vm.tb.And(r, v.(*Term))
		}
		return one(r)
	}
	intrinsics[ndPkg+"Or"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		r := vm.tb.F
		for _, v := range args[0].(SliceV).a {
			r = vm.tb.Or(r, v.(*Term))
		}
		return one(r)
	}
	ite := func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		return one(vm.tb.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term)))
	}
	intrinsics[ndPkg+"Ite"] = ite
	intrinsics[ndPkg+"IteB"] = ite
	intrinsics[ndPkg+"Go"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		vm.spawn(g, args[0], nil)
		return nil, aDone
	}
	intrinsics[ndPkg+"Wait"] = ndWait
	intrinsics[ndPkg+"AddrString"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		return one(&TagStr{v: copyVal(args[0])})
	}

	// netip
	intrinsics["net/netip.ParseAddr"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		if t, ok := args[0].(*TagStr); ok {
			if _, ok := t.v.(*StructV); ok {
				return one(Tuple{copyVal(t.v), Iface{}})
			}
		}
		return nil, aInterp
	}
	intrinsics["(net/netip.Addr).String"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		if hasSym(args[0]) {
			return one(&TagStr{v: copyVal(args[0])})
		}
		return nil, aInterp
	}
	intrinsics["unique.Make"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		var t types.Type
		if ci != nil {
			t = ci.instr.Common().Args[0].Type()
		}
		for _, u := range vm.uniqK {
			if (t == nil || types.Identical(u.t, t)) && vm.branch(vm.eq(u.v, args[0])) {
				return one(&StructV{f: []Value{u.p}})
			}
		}
		p := new(Value)
		*p = copyVal(args[0])
		vm.uniqK = append(vm.uniqK, uniqEnt{t, copyVal(args[0]), p})
		return one(&StructV{f: []Value{p}})
	}

	intrinsics["reflect.DeepEqual"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		return one(vm.deepEq(args[0], args[1]))
	}
	intrinsics["maps.clone"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		i := args[0].(Iface)
		m := i.v.(*MapV)
		if vm.raceOn {
			vm.raceAccess(&m.race, false, "map")
		}
		c := newMap()
		for _, e := range m.ents {
			n := &mapEntry{k: copyVal(e.k), v: copyVal(e.v), alive: true}
			c.ents = append(c.ents, n)
			c.n++
			if ck, ok := concKey(n.k); ok {
				c.cidx[ck] = n
			} else {
				c.sym = append(c.sym, n)
			}
		}
		return one(Iface{t: i.t, v: c})
	}

	// math/bits
	for n, w := range map[string]uint8{"8": 8, "16": 16, "32": 32, "64": 64, "": 64} {
		w := w
		intrinsics["math/bits.LeadingZeros"+n] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
			t := vm.tb.LeadingZeros(args[0].(*Term), 64)
			if vm.params["splitlz"] > 0 && !t.isConst() {
				t = vm.tb.Const(64, vm.x.concretize(t))
			}
			return one(t)
		}
		intrinsics["math/bits.TrailingZeros"+n] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
			return one(vm.tb.TrailingZeros(args[0].(*Term), 64))
		}
		intrinsics["math/bits.OnesCount"+n] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
			return one(vm.tb.OnesCount(args[0].(*Term), 64))
		}
		intrinsics["math/bits.Len"+n] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
			return one(vm.tb.Bin(OpSub, vm.tb.Const(64, uint64(w)), vm.tb.LeadingZeros(args[0].(*Term), 64)))
		}
	}

	// sync
	intrinsics["(*sync.Mutex).Lock"] = lockIntr(lkLock, false)
	intrinsics["(*sync.Mutex).Unlock"] = lockIntr(lkUnlock, false)
	intrinsics["(*sync.Mutex).TryLock"] = lockIntr(lkTry, false)
	intrinsics["(*sync.RWMutex).Lock"] = lockIntr(lkLock, true)
	intrinsics["(*sync.RWMutex).Unlock"] = lockIntr(lkUnlock, true)
	intrinsics["(*sync.RWMutex).RLock"] = lockIntr(lkRLock, true)
	intrinsics["(*sync.RWMutex).RUnlock"] = lockIntr(lkRUnlock, true)
	intrinsics["(*sync.RWMutex).TryLock"] = lockIntr(lkTry, true)
	intrinsics["(*sync.RWMutex).TryRLock"] = lockIntr(lkTryR, true)
	intrinsics["(*sync.WaitGroup).Add"] = wgAdd(false)
	intrinsics["(*sync.WaitGroup).Done"] = wgAdd(true)
	intrinsics["(*sync.WaitGroup).Wait"] = wgWait
	intrinsics["(*sync.Pool).Put"] = nop
	intrinsics["(*sync.Pool).Get"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		s := (*(args[0].(*Value))).(*StructV)
		f, _ := s.f[len(s.f)-1].(*Closure)
		if f == nil {
			return one(Iface{})
		}
		dst := -1
		if ci != nil {
			if v, ok := ci.instr.(ssa.Value); ok && v.Name() != "" {
				b := &ci.fr.fi.blocks[ci.fr.block].ins[ci.fr.pc]
				dst = b.dst
			}
		}
		return vm.invoke(g, f, nil, dst, ci)
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		p := "sync/atomic."
		intrinsics[p+"Load"+ty] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
			c := args[0].(*Value)
			if vm.atomicSync(g, c) {
				return nil, aBlocked
			}
			return one(copyVal(*c))
		}
		intrinsics[p+"Store"+ty] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
			c := args[0].(*Value)
			if vm.atomicSync(g, c) {
				return nil, aBlocked
			}
			storeInto(c, args[1])
			return nil, aDone
		}
		intrinsics[p+"Add"+ty] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
			c := args[0].(*Value)
			if vm.atomicSync(g, c) {
				return nil, aBlocked
			}
			*c = vm.tb.Bin(OpAdd, (*c).(*Term), args[1].(*Term))
			return one(*c)
		}
		intrinsics[p+"Swap"+ty] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
			c := args[0].(*Value)
			if vm.atomicSync(g, c) {
				return nil, aBlocked
			}
			o := *c
			storeInto(c, args[1])
			return one(o)
		}
		intrinsics[p+"CompareAndSwap"+ty] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
			c := args[0].(*Value)
			if vm.atomicSync(g, c) {
				return nil, aBlocked
			}
			if vm.branch(vm.eq(*c, args[1])) {
				storeInto(c, args[2])
				return one(vm.tb.T)
			}
			return one(vm.tb.F)
		}
	}
	intrinsics["(*sync/atomic.Value).Load"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		c := args[0].(*Value)
		if vm.atomicSync(g, c) {
			return nil, aBlocked
		}
		return one((*c).(*StructV).f[0])
	}
	intrinsics["(*sync/atomic.Value).Store"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		c := args[0].(*Value)
		if vm.atomicSync(g, c) {
			return nil, aBlocked
		}
		(*c).(*StructV).f[0] = args[1]
		return nil, aDone
	}

	// runtime and friends
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReleaseMerge"} {
		intrinsics[n] = nop
	}
	intrinsics["runtime.Gosched"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		if vm.point(g) {
			return nil, aBlocked
		}
		g.passed = false
		return nil, aDone
	}
	intrinsics["internal/abi.NoEscape"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		return one(args[0])
	}
	intrinsics["internal/abi.Escape"] = intrinsics["internal/abi.NoEscape"]
	intrinsics["internal/reflectlite.ValueOf"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		return one(&StructV{f: []Value{(*Value)(nil), args[0], vm.tb.Const(64, 0)}})
	}
	intrinsics["(internal/reflectlite.Value).Len"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		i := args[0].(*StructV).f[1].(Iface)
		switch x := i.v.(type) {
		case SliceV:
			return one(vm.tb.Const(64, uint64(len(x.a))))
		case *ArrayV:
			return one(vm.tb.Const(64, uint64(len(x.e))))
		case *MapV:
			return one(vm.tb.Const(64, uint64(x.n)))
		}
		unsup("reflect length of %T", i.v)
		return nil, aDone
	}
	intrinsics["internal/reflectlite.Swapper"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		i := args[0].(Iface)
		cell := new(Value)
		*cell = i
		m := vm.p.pkgs[modelsPkg].Func("swapperImpl")
		anon := m.AnonFuncs[0]
		return one(&Closure{fn: anon, env: []Value{cell}})
	}
	intrinsics[modelsPkg+".swapElems"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		s, ok := args[0].(Iface).v.(SliceV)
		if !ok {
			panic(goPanic{rt: "reflect: call of Swapper on non-slice"})
		}
		i, j := args[1].(*Term), args[2].(*Term)
		vm.bounds(i, len(s.a))
		vm.bounds(j, len(s.a))
		a, b := int(vm.x.concretize(i)), int(vm.x.concretize(j))
		if vm.raceOn {
			vm.raceCell(&s.a[a], true)
			vm.raceCell(&s.a[b], true)
		}
		x, y := copyVal(s.a[a]), copyVal(s.a[b])
		storeInto(&s.a[a], y)
		storeInto(&s.a[b], x)
		return nil, aDone
	}
	intrinsics[modelsPkg+".comparable_"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		i := args[0].(Iface)
		return one(vm.tb.Bool(i.t != nil && types.Comparable(i.t)))
	}
	intrinsics[modelsPkg+".kind"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		// 0 other, 1 signed, 2 unsigned, 3 string, 4 bool
		i := args[0].(Iface)
		k := 0
		if i.t != nil {
			if b, ok := i.t.Underlying().(*types.Basic); ok {
				switch {
				case b.Info()&types.IsUnsigned != 0:
					k = 2
				case b.Info()&types.IsInteger != 0:
					k = 1
				case b.Info()&types.IsString != 0:
					k = 3
				case b.Info()&types.IsBoolean != 0:
					k = 4
				}
			}
		}
		return one(vm.tb.Const(64, uint64(k)))
	}
	intrinsics[modelsPkg+".intOf"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		i := args[0].(Iface)
		w, signed, _ := intWidth(i.t)
		t := i.v.(*Term)
		if w == 64 {
			return one(t)
		}
		if signed {
			return one(vm.tb.SExt(t, 64))
		}
		return one(vm.tb.ZExt(t, 64))
	}
	under := func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) { return one(args[0].(Iface).v) }
	intrinsics[modelsPkg+".strOf"] = under
	intrinsics[modelsPkg+".boolOf"] = under
	intrinsics[modelsPkg+".typeName"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		i := args[0].(Iface)
		if i.t == nil {
			return one("<nil>")
		}
		return one(types.TypeString(i.t, func(p *types.Package) string { return p.Name() }))
	}
	intrinsics[modelsPkg+".opaque"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		return one(&TagStr{v: args[0]})
	}
	intrinsics[modelsPkg+".isOpaque"] = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
		_, ok := args[0].(*TagStr)
		return one(vm.tb.Bool(ok))
	}
}

func hasSym(v Value) bool {
	switch v := v.(type) {
	case *Term:
		return !v.isConst()
	case *StructV:
		for _, f := range v.f {
			if hasSym(f) {
				return true
			}
		}
	case *ArrayV:
		for _, f := range v.e {
			if hasSym(f) {
				return true
			}
		}
	}
	return false
}

// models are Go functions (package verifx/models) standing in for functions
// of the standard library that are assembly or use reflection.
var models = map[string]string{
	"internal/bytealg.IndexByte":           "IndexByte",
	"internal/bytealg.IndexByteString":     "IndexByteString",
	"internal/bytealg.Count":               "Count",
	"internal/bytealg.CountString":         "CountString",
	"internal/bytealg.Compare":             "Compare",
	"internal/bytealg.CompareString":       "CompareString",
	"internal/bytealg.Equal":               "Equal",
	"internal/bytealg.Index":               "Index",
	"internal/bytealg.IndexString":         "IndexString",
	"internal/bytealg.LastIndexByte":       "LastIndexByte",
	"internal/bytealg.LastIndexByteString": "LastIndexByteString",
	"internal/bytealg.MakeNoZero":          "MakeNoZero",
	"internal/stringslite.Clone":           "Clone",
	"strings.Clone":                        "Clone",
	"strings.Index":                        "IndexString",
	"bytes.Equal":                          "Equal",
	"fmt.Sprintf":                          "Sprintf",
	"fmt.Sprint":                           "Sprint",
	"fmt.Sprintln":                         "Sprintln",
	"fmt.Errorf":                           "Errorf",
	"fmt.Printf":                           "Printf",
	"fmt.Print":                            "Print",
	"fmt.Println":                          "Print",
	"fmt.Fprintf":                          "Fprintf",
	"fmt.Fprint":                           "Fprint",
	"fmt.Fprintln":                         "Fprintln",
	"errors.Is":                            "ErrorsIs",
	"runtime.fastrand":                     "Zero32",
}

func modelFor(p *Program, name string) (*ssa.Function, bool) {
	m, ok := models[name]
	if !ok {
		return nil, false
	}
	pk := p.pkgs[modelsPkg]
	if pk == nil {
		unsup("models package not loaded")
	}
	f := pk.Func(m)
	if f == nil {
		unsup("no model %s", m)
	}
	return f, true
}

// noopPkgs: every function returns zero values.
func noopPkg(path string) bool {
	return strings.HasPrefix(path, "k8s.io/klog") || path == "log" || strings.HasPrefix(path, "github.com/go-logr")
}
