package main

// Per-worker preparation of SSA functions for interpretation.

import (
	"fmt"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type okind uint8

const (
	oSlot okind = iota
	oConst
	oGlobal
	oFunc
)

type opnd struct {
	k   okind
	idx int
	v   Value
	g   *ssa.Global
}

type cins struct {
	in   ssa.Instruction
	dst  int // -1 none
	ops  []opnd
	glob []*ssa.Global // globals referenced
	aux  any
}

type cblock struct {
	phis  []*ssa.Phi
	phiOp [][]opnd // per phi, per pred
	phiD  []int
	ins   []cins
}

type fnInfo struct {
	fn     *ssa.Function
	name   string
	nslots int
	nparam int
	blocks []cblock
	inMod  bool
	intr   intrinsic
	model  *ssa.Function
	count  int64
}

type Program struct {
	prog    *ssa.Program
	modPath string
	pkgs    map[string]*ssa.Package
	inits   []*ssa.Package // packages of the module under test in dependency order
	msCache sync.Map
}

func (vm *VM) info(fn *ssa.Function) *fnInfo {
	if fi, ok := vm.infos[fn]; ok {
		return fi
	}
	fi := vm.compile(fn)
	vm.infos[fn] = fi
	return fi
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (vm *VM) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fnKey(fn)}
	if fn.Pkg != nil {
		fi.inMod = vm.p.isRepo(fn.Pkg.Pkg.Path())
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		fi.inMod = vm.p.isRepo(o.Pkg.Pkg.Path())
	}
	if in, ok := intrinsics[fi.name]; ok {
		fi.intr = in
		if fn.Blocks == nil {
			return fi
		}
	}
	if fi.intr == nil {
		if m, ok := modelFor(vm.p, fi.name); ok {
			fi.model = m
			return fi
		}
	}
	if fn.Pkg != nil && noopPkg(fn.Pkg.Pkg.Path()) && fn.Name() != "init" {
		fi.intr = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
			return vm.zeroResults(fn), aDone
		}
		return fi
	}
	if fn.Blocks == nil {
		fi.intr = func(vm *VM, g *Goro, args []Value, ci *callInfo) (Value, act) {
			unsup("function without Go body: %s", fi.name)
			return nil, aDone
		}
		return fi
	}
	slots := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) {
		slots[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	fi.nparam = n
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nslots = n
	mkop := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{k: oConst}
		}
		switch v := v.(type) {
		case *ssa.Const:
			var cv Value
			func() {
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(unsupported); ok {
							cv = u
							return
						}
						panic(r)
					}
				}()
				cv = vm.constVal(v)
			}()
			return opnd{k: oConst, v: cv}
		case *ssa.Global:
			return opnd{k: oGlobal, g: v}
		case *ssa.Function:
			return opnd{k: oFunc, v: &Closure{fn: v}}
		case *ssa.Builtin:
			return opnd{k: oFunc, v: &Closure{b: v}}
		}
		i, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %s in %s", v, fn))
		}
		return opnd{k: oSlot, idx: i}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				var os []opnd
				for _, e := range ph.Edges {
					os = append(os, mkop(e))
				}
				cb.phis = append(cb.phis, ph)
				cb.phiOp = append(cb.phiOp, os)
				cb.phiD = append(cb.phiD, slots[ph])
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			c := cins{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = slots[v]
			}
			var rands [12]*ssa.Value
			for _, r := range in.Operands(rands[:0]) {
				o := mkop(*r)
				if o.k == oGlobal {
					c.glob = append(c.glob, o.g)
				}
				c.ops = append(c.ops, o)
			}
			c.aux = prepAux(in)
			cb.ins = append(cb.ins, c)
		}
	}
	return fi
}

type binAux struct {
	w      uint8
	signed bool
	isInt  bool
	yw     uint8
	ysig   bool
	op     token.Token
	f32    bool
}

type convAux struct {
	from, to types.Type
}

func prepAux(in ssa.Instruction) any {
	switch in := in.(type) {
	case *ssa.BinOp:
		a := &binAux{op: in.Op}
		a.w, a.signed, a.isInt = intWidth(in.X.Type())
		a.yw, a.ysig, _ = intWidth(in.Y.Type())
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			a.f32 = true
		}
		return a
	case *ssa.UnOp:
		a := &binAux{op: in.Op}
		a.w, a.signed, a.isInt = intWidth(in.X.Type())
		return a
	case *ssa.MakeInterface:
		return in.X.Type()
	case *ssa.Alloc:
		return in.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.MakeSlice:
		return in.Type().Underlying().(*types.Slice).Elem()
	}
	return nil
}
