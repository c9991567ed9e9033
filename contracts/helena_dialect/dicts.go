//verif:property C09
package helena_dialect

import "helena/core"

type dictMap = map[string]core.Value

// hasKey: an entry is present.
func hasKey(m map[string]core.Value, k string) bool {
	_, ok := m[k]
	return ok
}
func sameEntry(m1 map[string]core.Value, m2 map[string]core.Value, k string) bool {
	v1, ok1 := m1[k]
	v2, ok2 := m2[k]
	return ok1 == ok2 && implies(ok1, identical(v1, v2))
}

// isDict: r is a dictionary whose map is m's content as described by f.
func dictOf(r core.Result) (map[string]core.Value, bool) {
	if r.Code != core.ResultCode_OK {
		return nil, false
	}
	v, ok := r.Value.(core.DictionaryValue)
	return v.Map, ok && v.Map != nil
}

// lastKey is the last position of key k among the keys vs[0], vs[2] … below n, or -1.
//
//verif:spec
func lastKey(vs []core.Value, n int, k string) int {
	if n < 2 {
		return -1
	}
	_, s := core.ValueToString(vs[n-2])
	if s == k {
		return n - 2
	}
	return lastKey(vs, n-2, k)
}

func okKey(v core.Value) bool {
	r, _ := core.ValueToString(v)
	return r.Code == core.ResultCode_OK
}

//verif:inv contract_valueToMap
func inv_valueToMap1(values []core.Value, i int) bool {
	return 0 <= i && i <= len(values) && i%2 == 0 && forall(0, i, func(k int) bool { return implies(k%2 == 0, okKey(values[k])) })
}

//verif:inv contract_valueToMap
func inv_valueToMap3(values []core.Value, i int, map_ map[string]core.Value) bool {
	return forallKey(func(k string) bool {
		return hasKey(map_, k) == (lastKey(values, i, k) >= 0)
	})
}

//verif:inv contract_valueToMap
func inv_valueToMap4(values []core.Value, i int, map_ map[string]core.Value) bool {
	return forallKey(func(k string) bool {
		p := lastKey(values, i, k)
		v, ok := map_[k]
		return implies(ok, v != nil && 0 <= p && p+1 < i && identical(v, values[p+1]))
	})
}

//verif:contract valueToMap
//verif:pure
func contract_valueToMap(value core.Value) {
	requires(value != nil)
	r, m := valueToMap(value)
	ensures("ok or error", r.Code == core.ResultCode_OK || r.Code == core.ResultCode_ERROR)
	ensures("a map when ok", implies(r.Code == core.ResultCode_OK, m != nil))
	ensures("no absent entries", implies(r.Code == core.ResultCode_OK, forallKey(func(k string) bool { return !hasKey(m, k) || m[k] != nil })))
	if d, ok := value.(core.DictionaryValue); ok {
		ensures("entries of the dictionary", r.Code == core.ResultCode_OK && forallKey(func(k string) bool { return sameEntry(m, d.Map, k) }))
		return
	}
	ra, vs := ValueToArray(value)
	if ra.Code != core.ResultCode_OK || len(vs)%2 != 0 {
		ensures("bad list", r.Code == core.ResultCode_ERROR)
		return
	}
	ensures("keys must be strings", implies(r.Code == core.ResultCode_OK, forall(0, len(vs), func(i int) bool { return implies(i%2 == 0, okKey(vs[i])) })))
	ensures("string keys are enough", implies(forall(0, len(vs), func(i int) bool { return implies(i%2 == 0, okKey(vs[i])) }), r.Code == core.ResultCode_OK))
	ensures("the last value of a key wins", implies(r.Code == core.ResultCode_OK, forallKey(func(k string) bool {
		p := lastKey(vs, len(vs), k)
		v, ok := m[k]
		return ok == (p >= 0) && (!ok || identical(v, vs[p+1]))
	})))
}

//verif:contract dictSizeCmd.Execute
func contract_dictSize(cmd dictSizeCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 2 {
		ensures("arity", isErr(r))
		return
	}
	rm, m := valueToMap(args[1])
	ensures("bad dictionary", implies(rm.Code != core.ResultCode_OK, isErr(r)))
	ensures("number of entries", implies(rm.Code == core.ResultCode_OK, isInt(r, int64(len(m)))))
}

//verif:contract dictHasCmd.Execute
func contract_dictHas(cmd dictHasCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 3 {
		ensures("arity", isErr(r))
		return
	}
	rm, m := valueToMap(args[1])
	rk, k := core.ValueToString(args[2])
	if rm.Code != core.ResultCode_OK || rk.Code != core.ResultCode_OK {
		ensures("bad operand", isErr(r))
		return
	}
	ensures("present", isBool(r, m[k] != nil))
}

//verif:contract dictGetCmd.Execute
func contract_dictGet(cmd dictGetCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 3 && len(args) != 4 {
		ensures("arity", isErr(r))
		return
	}
	rm, m := valueToMap(args[1])
	if rm.Code != core.ResultCode_OK {
		ensures("bad dictionary", isErr(r))
		return
	}
	if t, ok := args[2].(core.TupleValue); ok {
		if len(args) == 4 {
			ensures("no default with tuples", isErr(r))
			return
		}
		all := forall(0, len(t.Values), func(i int) bool {
			rk, k := core.ValueToString(t.Values[i])
			return rk.Code == core.ResultCode_OK && m[k] != nil
		})
		ensures("missing or bad key", implies(!all, isErr(r)))
		if all {
			v, ok := r.Value.(core.TupleValue)
			ensures("a tuple of the entries", r.Code == core.ResultCode_OK && ok && len(v.Values) == len(t.Values))
			ensures("in order", forall(0, len(t.Values), func(i int) bool {
				_, k := core.ValueToString(t.Values[i])
				return identical(v.Values[i], m[k])
			}))
		}
		return
	}
	rk, k := core.ValueToString(args[2])
	if rk.Code != core.ResultCode_OK {
		ensures("bad key", isErr(r))
	} else if m[k] != nil {
		ensures("the entry", r.Code == core.ResultCode_OK && identical(r.Value, m[k]))
	} else if len(args) == 4 {
		ensures("the default", r.Code == core.ResultCode_OK && identical(r.Value, args[3]))
	} else {
		ensures("unknown key", isErr(r))
	}
}

//verif:inv contract_dictGet
func inv_dictGet(values []core.Value, keys []core.Value, map_ map[string]core.Value, i int) bool {
	return len(values) == i+1 && forall(0, len(values), func(j int) bool {
		rk, k := core.ValueToString(keys[j])
		return rk.Code == core.ResultCode_OK && map_[k] != nil && identical(values[j], map_[k])
	})
}

//verif:contract dictAddCmd.Execute
func contract_dictAdd(cmd dictAddCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 4 {
		ensures("arity", isErr(r))
		return
	}
	rm, m := valueToMap(args[1])
	rk, key := core.ValueToString(args[2])
	if rm.Code != core.ResultCode_OK || rk.Code != core.ResultCode_OK {
		ensures("bad operand", isErr(r))
		return
	}
	m2, ok := dictOf(r)
	ensures("a dictionary", ok)
	ensures("the entry is set", hasKey(m2, key) && identical(m2[key], args[3]))
	ensures("other entries are kept", forallKey(func(k string) bool { return k == key || sameEntry(m2, m, k) }))
}

// removedKey: k is one of the keys args[2] … args[n-1].
//
//verif:spec
func removedKey(args []core.Value, n int, k string) bool {
	if n <= 2 {
		return false
	}
	_, s := core.ValueToString(args[n-1])
	return s == k || removedKey(args, n-1, k)
}

//verif:inv contract_dictRemove
func inv_dictRemove1(args []core.Value, i int) bool {
	return 2 <= i && i <= len(args) && forall(2, i, func(k int) bool { return okKey(args[k]) })
}

//verif:inv contract_dictRemove
func inv_dictRemove2(args []core.Value, i int, clone map[string]core.Value, map_ map[string]core.Value) bool {
	return forallKey(func(k string) bool {
		return (!hasKey(clone, k) || clone[k] != nil) && implies(removedKey(args, i, k), !hasKey(clone, k)) && implies(!removedKey(args, i, k), sameEntry(clone, map_, k))
	})
}

//verif:contract dictRemoveCmd.Execute
func contract_dictRemove(cmd dictRemoveCmd, args []core.Value, context any) {
	requires(okArgs(args))
	requires(len(args) >= 2)
	r := cmd.Execute(args, context)
	rm, m := valueToMap(args[1])
	bad := exists(2, len(args), func(i int) bool { return !okKey(args[i]) })
	if rm.Code != core.ResultCode_OK || bad {
		ensures("bad operand", isErr(r))
		return
	}
	m2, ok := dictOf(r)
	ensures("a dictionary", ok)
	if len(args) == 2 {
		ensures("nothing removed", forallKey(func(k string) bool { return sameEntry(m2, m, k) }))
		return
	}
	ensures("listed keys are gone", forallKey(func(k string) bool { return implies(removedKey(args, len(args), k), !hasKey(m2, k)) }))
	ensures("other entries are kept", forallKey(func(k string) bool { return implies(!removedKey(args, len(args), k), sameEntry(m2, m, k)) }))
}

func isDictArg(v core.Value) bool {
	r, _ := valueToMap(v)
	return r.Code == core.ResultCode_OK
}
func argHas(v core.Value, k string) bool {
	_, m := valueToMap(v)
	return hasKey(m, k)
}

// lastWith is the last of args[1] … args[n-1] which has key k, or 0.
//
//verif:spec
func lastWith(args []core.Value, n int, k string) int {
	if n <= 1 {
		return 0
	}
	if argHas(args[n-1], k) {
		return n - 1
	}
	return lastWith(args, n-1, k)
}

//verif:inv contract_dictMerge
func inv_dictMerge1(args []core.Value, i int) bool {
	return 2 <= i && i <= len(args) && forall(1, i, func(k int) bool { return isDictArg(args[k]) })
}

//verif:inv contract_dictMerge
func inv_dictMerge2(args []core.Value, i int, clone map[string]core.Value) bool {
	return forallKey(func(k string) bool {
		p := lastWith(args, i, k)
		_, m := valueToMap(args[p])
		return 0 <= p && p < i && hasKey(clone, k) == (p > 0) && implies(p > 0, hasKey(m, k) && clone[k] != nil && identical(clone[k], m[k]))
	})
}

//verif:contract dictMergeCmd.Execute
func contract_dictMerge(cmd dictMergeCmd, args []core.Value, context any) {
	requires(okArgs(args))
	requires(len(args) >= 2)
	r := cmd.Execute(args, context)
	if exists(1, len(args), func(k int) bool { return !isDictArg(args[k]) }) {
		ensures("bad first operand", implies(!isDictArg(args[1]), isErr(r)))
		ensures("bad only operand", implies(len(args) == 2, isErr(r)))
		ensures("bad operand", isErr(r))
		return
	}
	m2, ok := dictOf(r)
	ensures("a dictionary", ok)
	if len(args) == 2 {
		_, m := valueToMap(args[1])
		ensures("alone", forallKey(func(k string) bool { return sameEntry(m2, m, k) }))
	}
	ensures("the last dictionary with the key wins", implies(len(args) > 2, forallKey(func(k string) bool {
		p := lastWith(args, len(args), k)
		_, m := valueToMap(args[p])
		return hasKey(m2, k) == (p > 0) && implies(p > 0, identical(m2[k], m[k]))
	})))
}

// keyOf gives the string of a value, and whether it is one.
func keyOf(v core.Value) (string, bool) {
	s, ok := v.(core.StringValue)
	return s.Value, ok
}

//verif:inv contract_dictKeys
func inv_dictKeys(values []core.Value, map_ map[string]core.Value) bool {
	return len(values) == visitedCount() && forall(0, len(values), func(i int) bool {
		k, ok := keyOf(values[i])
		return ok && hasKey(map_, k) && visited(k)
	})
}

//verif:inv contract_dictKeys
func inv_dictKeys2(values []core.Value) bool {
	return forall(0, len(values), func(i int) bool {
		return forall(0, i, func(j int) bool {
			k, _ := keyOf(values[i])
			l, _ := keyOf(values[j])
			return k != l
		})
	})
}

func listOf(r core.Result) ([]core.Value, bool) {
	l, ok := r.Value.(core.ListValue)
	return l.Values, r.Code == core.ResultCode_OK && ok
}

//verif:contract dictKeysCmd.Execute
func contract_dictKeys(cmd dictKeysCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 2 {
		ensures("arity", isErr(r))
		return
	}
	rm, m := valueToMap(args[1])
	if rm.Code != core.ResultCode_OK {
		ensures("bad dictionary", isErr(r))
		return
	}
	vs, ok := listOf(r)
	ensures("a list of as many elements as there are entries", ok && len(vs) == len(m))
	ensures("every element is a key", forall(0, len(vs), func(i int) bool {
		k, ok := keyOf(vs[i])
		return ok && hasKey(m, k)
	}))
	ensures("no key is repeated", forall(0, len(vs), func(i int) bool {
		return forall(0, i, func(j int) bool {
			k, _ := keyOf(vs[i])
			l, _ := keyOf(vs[j])
			return k != l
		})
	}))
}

//verif:inv contract_dictValues
func inv_dictValues(values []core.Value) bool {
	return len(values) == visitedCount() && forall(0, len(values), func(i int) bool { return values[i] != nil })
}

//verif:contract dictValuesCmd.Execute
func contract_dictValues(cmd dictValuesCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 2 {
		ensures("arity", isErr(r))
		return
	}
	rm, m := valueToMap(args[1])
	if rm.Code != core.ResultCode_OK {
		ensures("bad dictionary", isErr(r))
		return
	}
	vs, ok := listOf(r)
	ensures("a list of as many elements as there are entries", ok && len(vs) == len(m))
}

//verif:inv contract_dictEntries
func inv_dictEntries(values []core.Value) bool {
	return len(values) == visitedCount() && forall(0, len(values), func(i int) bool { return ownEntry(values[i], values) })
}

func ownEntry(v core.Value, values []core.Value) bool {
	t, ok := v.(core.TupleValue)
	return ok && len(t.Values) == 2 && !inArray(t.Values, values) && allocated(t.Values)
}

//verif:contract dictEntriesCmd.Execute
func contract_dictEntries(cmd dictEntriesCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 2 {
		ensures("arity", isErr(r))
		return
	}
	rm, m := valueToMap(args[1])
	if rm.Code != core.ResultCode_OK {
		ensures("bad dictionary", isErr(r))
		return
	}
	vs, ok := listOf(r)
	ensures("a list of as many elements as there are entries", ok && len(vs) == len(m))
	ensures("every element is a pair", forall(0, len(vs), func(i int) bool {
		t, ok := vs[i].(core.TupleValue)
		return ok && len(t.Values) == 2
	}))
}
