package h

import (
	"github.com/patrickhuber/go-wasm/address"
	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/instance"
	"github.com/patrickhuber/go-wasm/runtime"
	"github.com/patrickhuber/go-wasm/zz_verif/vx"
)

// rtFunc is a function of any type index with up to 2 locals.
func rtFunc() *api.Func {
	f := &api.Func{Type: api.TypeIndex(vx.U32("type")), Body: &api.Expression{}}
	for k := vx.Choice("locals", 2); k > 0; k-- {
		f.Locals = append(f.Locals, api.I32Type)
	}
	return f
}

// rtModule is a module of up to 2 functions (3 in the thorough tier).
func rtModule() (*api.Module, []*api.Func) {
	m := &api.Module{}
	for k := vx.Choice("functions", 3+more()); k > 0; k-- {
		m.Funcs = append(m.Funcs, rtFunc())
	}
	return m, append([]*api.Func(nil), m.Funcs...)
}

// rtSame tells whether the store holds the function, as it is or with its context.
func rtSame(f instance.Function, want *api.Func, was api.Func) bool {
	switch f := f.(type) {
	case *api.Func:
		return f == want || vx.DeepEqual(*f, was)
	case api.Func:
		return vx.DeepEqual(f, was)
	case *instance.ModuleFunction:
		return f.Code == want || vx.DeepEqual(*f.Code, was)
	}
	return false
}

// checkInstance requires that the functions have been added behind the n old ones.
func checkInstance(s *runtime.Store, n int, mi *runtime.ModuleInstance, fs []*api.Func, was []api.Func) {
	vx.Assert(len(s.Funcs) == n+len(fs), "the store has not grown by the functions of the module")
	vx.Assert(len(mi.FunctionAddresses) == len(fs), "there is not one address for each function")
	for i := range fs {
		a := int(mi.FunctionAddresses[i])
		vx.Assert(a >= n && a < len(s.Funcs), "a function address is not in the new part of the store")
		vx.Assert(rtSame(s.Funcs[a], fs[i], was[i]), "the store holds another function at the address")
		for j := 0; j < i; j++ {
			vx.Assert(mi.FunctionAddresses[j] != mi.FunctionAddresses[i], "two functions share an address")
		}
	}
}

func copies(fs []*api.Func) []api.Func {
	var r []api.Func
	for _, f := range fs {
		r = append(r, *f)
	}
	return r
}

// C27_Functions: up to 3 modules are instantiated one after the other in a store that holds
// 0 to 2 functions.
func C27_Functions() {
	s := &runtime.Store{}
	old := vx.Choice("old", 3)
	spare := vx.Choice("spare", 2)
	s.Funcs = make([]instance.Function, old, old+3*spare)
	var before []instance.Function
	for i := range s.Funcs {
		s.Funcs[i] = &instance.HostCodeFunction{}
	}
	before = append(before, s.Funcs...)
	type done struct {
		n   int
		mi  *runtime.ModuleInstance
		fs  []*api.Func
		was []api.Func
	}
	var all []done
	for k := 1 + vx.Choice("modules", 2+more()); k > 0; k-- {
		m, fs := rtModule()
		was := copies(fs)
		n := len(s.Funcs)
		var mi *runtime.ModuleInstance
		var err error
		vx.NoPanic("instantiating a module", func() { mi, err = runtime.NewModuleInstance(s, m) })
		vx.Assert(err == nil, "instantiating a module fails")
		vx.Assert(len(s.Funcs) == n+len(fs), "the store has not grown by the functions of the module")
		all = append(all, done{n, mi, fs, was})
	}
	for i := range before {
		vx.Assert(s.Funcs[i] == before[i], "a function that was in the store has changed")
	}
	end := len(s.Funcs)
	for _, d := range all {
		rest := s.Funcs
		s.Funcs = s.Funcs[:d.n+len(d.fs)]
		checkInstance(s, d.n, d.mi, d.fs, d.was)
		s.Funcs = rest
	}
	vx.Assert(end == len(s.Funcs), "the store changed")
	vx.Cover("instances")
}

// C27_Exports: exports of functions under any names of 0 to 2 characters: each is found
// under its name and leads to its function, other names are not found, and an export of a
// function that does not exist, or of nothing, is an error that leaves the store alone.
func C27_Exports() {
	s := &runtime.Store{}
	old := vx.Choice("old", 2)
	for i := 0; i < old; i++ {
		s.Funcs = append(s.Funcs, &instance.HostCodeFunction{})
	}
	m, fs := rtModule()
	was := copies(fs)
	var names []string
	var idx []uint32
	bad := false
	for k := vx.Choice("exports", 3); k > 0; k-- {
		n := vx.Str("name", vx.Choice("len", 3))
		i := vx.U32("index")
		m.Exports = append(m.Exports, api.Export{Name: n, Description: &api.FuncExportDescription{FuncIdx: api.FuncIndex(i)}})
		for _, o := range names {
			vx.Assume(o != n)
		}
		names = append(names, n)
		idx = append(idx, i)
		bad = vx.Or(bad, uint64(i) >= uint64(len(fs)))
	}
	if len(names) > 0 && vx.Choice("what", 2) == 1 {
		m.Exports[len(names)-1].Description = nil
		bad = true
	}
	var mi *runtime.ModuleInstance
	var err error
	vx.NoPanic("instantiating a module", func() { mi, err = runtime.NewModuleInstance(s, m) })
	if err != nil {
		vx.Assert(bad, "instantiating a module fails")
		vx.Assert(len(s.Funcs) == old, "a module that is refused leaves functions in the store")
		vx.Cover("refused")
		return
	}
	vx.Assert(!bad, "an export of an unknown function is accepted")
	checkInstance(s, old, mi, fs, was)
	for k, n := range names {
		e, ok := mi.GetExport(n)
		vx.Assert(ok, "an export is not found")
		vx.Assert(e.Name == n, "another export is found")
		a, isFn := e.Value.(address.Function)
		vx.Assert(isFn, "an export of a function is something else")
		i := int(idx[k])
		vx.Assert(a == mi.FunctionAddresses[vx.Concrete(uint64(i))], "an export leads to another function")
		vx.Cover("export")
	}
	other := vx.Str("other", vx.Choice("len", 3))
	known := false
	for _, n := range names {
		known = vx.Or(known, n == other)
	}
	_, ok := mi.GetExport(other)
	vx.Assert(ok == known, "an export that does not exist is found")
}

// C27_Types: the instance has the function types of the module, in order.
func C27_Types() {
	m := &api.Module{}
	n := vx.Choice("types", 4)
	kinds := []api.ValType{api.I32Type, api.I64Type, api.F32Type, api.F64Type}
	var want []api.FuncType
	for i := 0; i < n; i++ {
		t := api.FuncType{}
		for k := vx.Choice("parameters", 2); k > 0; k-- {
			t.Parameters.Types = append(t.Parameters.Types, kinds[vx.Choice("kind", 4)])
		}
		m.Types = append(m.Types, &t)
		want = append(want, t)
	}
	mi, err := runtime.NewModuleInstance(&runtime.Store{}, m)
	vx.Assert(err == nil, "instantiating a module fails")
	vx.Assert(len(mi.Types) == n, "the instance has not the types of the module")
	for i := range want {
		vx.Assert(vx.DeepEqual(mi.Types[i], want[i]), "a type of the instance is another one")
	}
	vx.Cover("types")
}
