//verif:property C11
package helena_dialect

import "helena/core"

// goodScope: the maps of a scope exist and hold no absent values, and every
// local slot designates a local value.
func goodScope(s *Scope) bool {
	return s != nil && s.Context != nil && goodVars(s.Context.Constants) && goodVars(s.Context.Variables) &&
		goodCommands(s.Context.Commands) && goodSlots(s.localSlots, s.localValues)
}
func goodVars(m map[string]core.Value) bool {
	return m != nil && forallKey(func(k string) bool {
		v, ok := m[k]
		return !ok || v != nil
	})
}
func goodCommands(m map[string]core.CommandValue) bool { return m != nil }
func goodSlots(m map[string]uint, vs []core.Value) bool {
	return m == nil || forallKey(func(k string) bool {
		i, ok := m[k]
		return !ok || i < uint(len(vs))
	})
}

// apart: constants and variables are different maps.
func apart(s *Scope) bool {
	return !sameMap(s.Context.Constants, s.Context.Variables)
}

func isLocal(s *Scope, name string) bool {
	_, ok := s.localSlots[name]
	return s.localSlots != nil && ok
}
func isConst(s *Scope, name string) bool {
	_, ok := s.Context.Constants[name]
	return ok
}
func isVar(s *Scope, name string) bool {
	_, ok := s.Context.Variables[name]
	return ok
}

//verif:contract Scope.ResolveVariable
//verif:pure
func contract_ResolveVariable(s *Scope, name string) {
	requires(goodScope(s))
	v := s.ResolveVariable(name)
	if isLocal(s, name) {
		ensures("locals come first", identical(v, s.localValues[s.localSlots[name]]))
		return
	}
	if isConst(s, name) {
		ensures("then constants", identical(v, s.Context.Constants[name]))
		return
	}
	if isVar(s, name) {
		ensures("then variables", identical(v, s.Context.Variables[name]))
		return
	}
	ensures("else nothing", v == nil)
}

//verif:contract Scope.GetVariable
func contract_GetVariable(s *Scope, name core.Value, def core.Value) {
	requires(goodScope(s))
	requires(name != nil)
	r := s.GetVariable(name, def)
	if !isString(name) {
		ensures("bad name", isErr(r))
		return
	}
	v := s.ResolveVariable(stringOf(name))
	if v != nil {
		ensures("value", isOk(r, v))
	} else if def != nil {
		ensures("default", isOk(r, def))
	} else {
		ensures("unknown variable", isErr(r))
	}
}

func isOk(r core.Result, v core.Value) bool {
	return r.Code == core.ResultCode_OK && identical(r.Value, v)
}

//verif:contract Scope.checkNamedLocal
//verif:pure
func contract_checkNamedLocal(s *Scope, name string) {
	requires(goodScope(s))
	r := s.checkNamedLocal(name)
	ensures("existing local", implies(isLocal(s, name), isOk(r, core.NIL)))
	ensures("unknown local", implies(!isLocal(s, name), isErr(r)))
}

//verif:contract Scope.checkNamedConstant
//verif:pure
func contract_checkNamedConstant(s *Scope, name string) {
	requires(goodScope(s))
	r := s.checkNamedConstant(name)
	fresh := !isLocal(s, name) && !isConst(s, name) && !isVar(s, name)
	ensures("a new name can be a constant", implies(fresh, isOk(r, core.NIL)))
	ensures("an existing name cannot", implies(!fresh, isErr(r)))
}

//verif:contract Scope.checkNamedVariable
//verif:pure
func contract_checkNamedVariable(s *Scope, name string) {
	requires(goodScope(s))
	r := s.checkNamedVariable(name)
	can := !isLocal(s, name) && !isConst(s, name)
	ensures("neither local nor constant", implies(can, isOk(r, core.NIL)))
	ensures("locals and constants cannot be redefined", implies(!can, isErr(r)))
}

func setOnly(m map[string]core.Value, before map[string]core.Value, name string, v core.Value) bool {
	w, ok := m[name]
	return ok && identical(w, v) && forallKey(func(k string) bool {
		a, oka := m[k]
		b, okb := before[k]
		return k == name || oka == okb && identical(a, b)
	})
}
func sameVars(m map[string]core.Value, before map[string]core.Value) bool {
	return forallKey(func(k string) bool {
		a, oka := m[k]
		b, okb := before[k]
		return oka == okb && identical(a, b)
	})
}

//verif:contract Scope.SetNamedConstant
func contract_SetNamedConstant(s *Scope, name string, value core.Value) {
	requires(goodScope(s))
	requires(apart(s))
	requires(value != nil)
	fresh := !isLocal(s, name) && !isConst(s, name) && !isVar(s, name)
	before := snapMap(s.Context.Constants)
	modifies(s.Context.Constants)
	r := s.SetNamedConstant(name, value)
	if !fresh {
		ensures("constants are never redefined", isErr(r))
		ensures("nothing changes", sameVars(s.Context.Constants, before))
		return
	}
	ensures("gives the value", isOk(r, value))
	ensures("defines one constant", setOnly(s.Context.Constants, before, name, value))
	ensures("well formed", goodScope(s))
}

//verif:contract Scope.SetNamedVariable
func contract_SetNamedVariable(s *Scope, name string, value core.Value) {
	requires(goodScope(s))
	requires(apart(s))
	requires(value != nil)
	can := !isLocal(s, name) && !isConst(s, name)
	before := snapMap(s.Context.Variables)
	modifies(s.Context.Variables)
	r := s.SetNamedVariable(name, value)
	if !can {
		ensures("locals and constants keep their value", isErr(r))
		ensures("nothing changes", sameVars(s.Context.Variables, before))
		return
	}
	ensures("gives the value", isOk(r, value))
	ensures("sets one variable", setOnly(s.Context.Variables, before, name, value))
	ensures("well formed", goodScope(s))
}

//verif:contract Scope.SetNamedLocal
func contract_SetNamedLocal(s *Scope, name string, value core.Value) {
	requires(goodScope(s))
	before := snap(s.localValues)
	modifies(s.localValues)
	r := s.SetNamedLocal(name, value)
	if !isLocal(s, name) {
		ensures("unknown local", isErr(r))
		ensures("nothing changes", forall(0, len(before), func(i int) bool { return identical(s.localValues[i], before[i]) }))
		return
	}
	ensures("gives the value", isOk(r, value))
	slot := int(s.localSlots[name])
	ensures("sets one local", identical(s.localValues[slot], value) && forall(0, len(before), func(i int) bool { return i == slot || identical(s.localValues[i], before[i]) }))
}

//verif:contract Scope.ClearLocals
func contract_ClearLocals(s *Scope) {
	requires(s != nil)
	modifies(s.localValues)
	s.ClearLocals()
	ensures("no local keeps its value", forall(0, len(s.localValues), func(i int) bool { return s.localValues[i] == nil }))
}

//verif:contract Scope.DestructureConstant
func contract_DestructureConstant(s *Scope, name core.Value, value core.Value, check bool) {
	requires(goodScope(s))
	requires(apart(s))
	requires(name != nil && value != nil)
	requires(check || isString(name))
	before := snapMap(s.Context.Constants)
	modifies(s.Context.Constants)
	r := s.DestructureConstant(name, value, check)
	if check {
		ensures("checks only", sameVars(s.Context.Constants, before))
		if isString(name) {
			ensures("check", identical(r, s.checkNamedConstant(stringOf(name))))
		} else {
			ensures("bad name", isErr(r))
		}
		return
	}
	ensures("defines one constant", r.Code == core.ResultCode_OK && setOnly(s.Context.Constants, before, stringOf(name), value))
}

//verif:contract Scope.DestructureVariable
func contract_DestructureVariable(s *Scope, name core.Value, value core.Value, check bool) {
	requires(goodScope(s))
	requires(apart(s))
	requires(name != nil && value != nil)
	requires(check || isString(name))
	before := snapMap(s.Context.Variables)
	modifies(s.Context.Variables)
	r := s.DestructureVariable(name, value, check)
	if check {
		ensures("checks only", sameVars(s.Context.Variables, before))
		if isString(name) {
			ensures("check", identical(r, s.checkNamedVariable(stringOf(name))))
		} else {
			ensures("bad name", isErr(r))
		}
		return
	}
	ensures("sets one variable", r.Code == core.ResultCode_OK && setOnly(s.Context.Variables, before, stringOf(name), value))
}

//verif:contract Scope.DestructureLocal
func contract_DestructureLocal(s *Scope, name core.Value, value core.Value, check bool) {
	requires(goodScope(s))
	requires(name != nil && value != nil)
	requires(check || isString(name) && isLocal(s, stringOf(name)))
	before := snap(s.localValues)
	modifies(s.localValues)
	r := s.DestructureLocal(name, value, check)
	if check {
		ensures("checks only", forall(0, len(before), func(i int) bool { return identical(s.localValues[i], before[i]) }))
		if isString(name) {
			ensures("check", identical(r, s.checkNamedLocal(stringOf(name))))
		} else {
			ensures("bad name", isErr(r))
		}
		return
	}
	slot := int(s.localSlots[stringOf(name)])
	ensures("sets one local", r.Code == core.ResultCode_OK && identical(s.localValues[slot], value) && forall(0, len(before), func(i int) bool { return i == slot || identical(s.localValues[i], before[i]) }))
}

//verif:contract Scope.UnsetVariable
func contract_UnsetVariable(s *Scope, name core.Value, check bool) {
	requires(goodScope(s))
	requires(apart(s))
	requires(name != nil)
	before := snapMap(s.Context.Variables)
	known := isString(name) && !isLocal(s, stringOf(name)) && !isConst(s, stringOf(name)) && isVar(s, stringOf(name))
	modifies(s.Context.Variables)
	r := s.UnsetVariable(name, check)
	if !known {
		ensures("only variables can be unset", isErr(r))
	} else {
		ensures("variables can be unset", isOk(r, core.NIL))
	}
	if !known || check {
		ensures("nothing changes", sameVars(s.Context.Variables, before))
		return
	}
	n := stringOf(name)
	ensures("removes the variable", !isVar(s, n))
	ensures("keeps every other variable", forallKey(func(k string) bool {
		a, oka := s.Context.Variables[k]
		b, okb := before[k]
		return k == n || oka == okb && identical(a, b)
	}))
	ensures("well formed", goodScope(s))
}

//verif:contract NewRootScope
func contract_NewRootScope(options *ScopeOptions) {
	s := NewRootScope(options)
	ensures("well formed", goodScope(s) && apart(s))
	ensures("empty", forallKey(func(k string) bool { return !isConst(s, k) && !isVar(s, k) && !isLocal(s, k) && s.Context.Commands[k] == nil }))
	ensures("no parent", s.Context.parent == nil)
}

//verif:contract Scope.NewChildScope
func contract_NewChildScope(s *Scope) {
	requires(goodScope(s))
	c := s.NewChildScope()
	ensures("well formed", goodScope(c) && apart(c))
	ensures("sees none of the parent's variables", forallKey(func(k string) bool { return !isConst(c, k) && !isVar(c, k) && !isLocal(c, k) && c.Context.Commands[k] == nil }))
	ensures("child of the scope", c.Context.parent == s.Context && c.Context != s.Context)
}

//verif:contract Scope.NewLocalScope
func contract_NewLocalScope(s *Scope, slots map[string]uint, values []core.Value) {
	requires(goodScope(s))
	requires(slots == nil || values == nil || goodSlots(slots, values))
	requires(values != nil || slots == nil || forallKey(func(k string) bool {
		i, ok := slots[k]
		return !ok || i < uint(len(slots))
	}))
	c := s.NewLocalScope(slots, values)
	ensures("well formed", goodScope(c))
	ensures("shares the variables", c.Context == s.Context)
	ensures("its own locals", forallKey(func(k string) bool {
		_, ok := slots[k]
		return isLocal(c, k) == ok
	}))
	if slots != nil && values != nil {
		ensures("given values", sameSlice(c.localValues, values))
	} else {
		ensures("locals have no value yet", forall(0, len(c.localValues), func(i int) bool { return c.localValues[i] == nil }))
	}
}
