//verif:property C16
package core

// The selections of a value are whatever its own methods answer: these
// relations hold between a value, a selector and an answer of that value. They
// are defined by the calls themselves, and nothing else is assumed about them.
//
//verif:opaque helena/core.selectsIndex helena/core.selectsKey helena/core.selectsRules helena/core.selects helena/core.applies
func selectsIndex(v any, index Value, code ResultCode, w Value) bool    { return v != nil }
func selectsKey(v any, key Value, code ResultCode, w Value) bool        { return v != nil }
func selectsRules(v any, rules []Value, code ResultCode, w Value) bool  { return v != nil }
func selects(v any, selector Selector, code ResultCode, w Value) bool   { return v != nil }
func applies(selector Selector, v Value, code ResultCode, w Value) bool { return v != nil }

//verif:iface core.IndexSelectable.SelectIndex
func contract_IndexSelectable(v IndexSelectable, index Value) Result {
	requires(index != nil)
	r := v.SelectIndex(index)
	ensures("a selection is a value", implies(r.Code == ResultCode_OK, r.Value != nil))
	ensures("definition", selectsIndex(v, index, r.Code, r.Value))
	return r
}

// keyed follows the selections by key that the function under verification
// asks for: it stays chained while they go through keys in order, each one
// asked of what the one before has selected, the first of the value given.
var keyed keyedRun

type keyedRun struct {
	keys    []Value
	steps   int
	chained bool
	last    Value
	code    ResultCode
}

func (*keyedRun) verifGhost() {}

//verif:iface core.KeySelectable.SelectKey
func contract_KeySelectable(v KeySelectable, key Value) Result {
	requires(key != nil)
	r := v.SelectKey(key)
	ensures("a selection is a value", implies(r.Code == ResultCode_OK, r.Value != nil))
	ensures("definition", selectsKey(v, key, r.Code, r.Value))
	keyed.chained = keyed.chained && keyed.code == ResultCode_OK && identical(any(v), any(keyed.last)) && 0 <= keyed.steps && keyed.steps < len(keyed.keys) && identical(key, keyed.keys[keyed.steps])
	keyed.steps++
	keyed.last, keyed.code = r.Value, r.Code
	return r
}

//verif:iface core.RulesSelectable.SelectRules
func contract_RulesSelectable(v RulesSelectable, rules []Value) Result {
	r := v.SelectRules(rules)
	ensures("a selection is a value", implies(r.Code == ResultCode_OK, r.Value != nil))
	ensures("definition", selectsRules(v, rules, r.Code, r.Value))
	return r
}

//verif:iface core.Selectable.Select
func contract_Selectable(v Selectable, selector Selector) Result {
	requires(selector != nil)
	r := v.Select(selector)
	ensures("a selection is a value", implies(r.Code == ResultCode_OK, r.Value != nil))
	ensures("definition", selects(v, selector, r.Code, r.Value))
	return r
}

//verif:iface core.Selector.Apply
func contract_Selector(selector Selector, v Value) Result {
	requires(v != nil)
	r := selector.Apply(v)
	ensures("a selection is a value", implies(r.Code == ResultCode_OK, r.Value != nil))
	ensures("definition", applies(selector, v, r.Code, r.Value))
	chain.whole = chain.whole && chain.code == ResultCode_OK && 0 <= chain.steps && chain.steps < len(chain.selectors) && identical(selector, chain.selectors[chain.steps]) && (chain.steps == 0 || identical(v, chain.last))
	chain.steps++
	chain.last, chain.code = r.Value, r.Code
	return r
}

// Selectors are made by their factories, which refuse empty ones.
//
//verif:typeinv
func inv_IndexedSelector(s IndexedSelector) bool { return s.Index != nil }

//verif:typeinv
func inv_KeyedSelector(s KeyedSelector) bool {
	return forall(0, len(s.Keys), func(i int) bool { return s.Keys[i] != nil })
}

//verif:typeinv
func inv_QualifiedValue(v QualifiedValue) bool {
	return v.Source != nil && forall(0, len(v.Selectors), func(i int) bool { return v.Selectors[i] != nil })
}

func isIndexSelectable(v Value) bool {
	_, ok := v.(IndexSelectable)
	return ok
}
func isKeySelectable(v Value) bool {
	_, ok := v.(KeySelectable)
	return ok
}
func isSelectable(v Value) bool {
	_, ok := v.(Selectable)
	return ok
}
func isRulesSelectable(v Value) bool {
	_, ok := v.(RulesSelectable)
	return ok
}

func isValueErr(r Result) bool { return r.Code == ResultCode_ERROR }

// ---- factories

//verif:contract CreateIndexedSelector
func contract_CreateIndexedSelector(index Value) {
	requires(index != nil)
	r, s := CreateIndexedSelector(index)
	_, isNil := index.(NilValue)
	ensures("no nil index", implies(isNil, r.Code == ResultCode_ERROR))
	ensures("holds the index", implies(!isNil, r.Code == ResultCode_OK && identical(s.Index, index)))
}

//verif:contract CreateKeyedSelector
func contract_CreateKeyedSelector(keys []Value) {
	r, s := CreateKeyedSelector(keys)
	ensures("no empty selector", implies(len(keys) == 0, r.Code == ResultCode_ERROR))
	ensures("holds the keys", implies(len(keys) != 0, r.Code == ResultCode_OK && sameSlice(s.Keys, keys)))
}

//verif:contract CreateGenericSelector
func contract_CreateGenericSelector(rules []Value) {
	r, s := CreateGenericSelector(rules)
	ensures("no empty selector", implies(len(rules) == 0, r.Code == ResultCode_ERROR))
	ensures("holds the rules", implies(len(rules) != 0, r.Code == ResultCode_OK && sameSlice(s.Rules, rules)))
}

// ---- primitive values

//verif:contract StringValue.SelectIndex
func contract_StringSelectIndex(value StringValue, index Value) {
	requires(index != nil)
	r := value.SelectIndex(index)
	ri, i := ValueToInteger(index)
	if ri.Code == ResultCode_OK && 0 <= i && i < int64(len(value.Value)) {
		sv, ok := r.Value.(StringValue)
		ensures("the byte", r.Code == ResultCode_OK && ok && len(sv.Value) == 1 && sv.Value[0] == value.Value[i])
	} else {
		ensures("bad index", isValueErr(r))
	}
}

//verif:contract ListValue.SelectIndex
func contract_ListSelectIndex(value ListValue, index Value) {
	requires(index != nil)
	r := value.SelectIndex(index)
	ri, i := ValueToInteger(index)
	if ri.Code == ResultCode_OK && 0 <= i && i < int64(len(value.Values)) {
		ensures("the element", r.Code == ResultCode_OK && identical(r.Value, value.Values[i]))
	} else {
		ensures("bad index", isValueErr(r))
	}
}

//verif:contract DictionaryValue.SelectKey
func contract_DictSelectKey(value DictionaryValue, key Value) {
	requires(key != nil)
	r := value.SelectKey(key)
	rk, k := ValueToString(key)
	if rk.Code != ResultCode_OK {
		ensures("bad key", isValueErr(r))
		return
	}
	v, ok := value.Map[k]
	ensures("unknown key", implies(!ok, isValueErr(r)))
	ensures("the entry", implies(ok, r.Code == ResultCode_OK && identical(r.Value, v)))
}

// ---- tuples select element by element

//verif:inv contract_TupleSelectIndex
func inv_tupleIndex(value TupleValue, index Value, values []Value, i int) bool {
	return len(values) == len(value.Values) && isFresh(values) && forall(0, i+1, func(k int) bool {
		return values[k] != nil && isIndexSelectable(value.Values[k]) && selectsIndex(value.Values[k], index, ResultCode_OK, values[k])
	})
}

//verif:contract TupleValue.SelectIndex
func contract_TupleSelectIndex(value TupleValue, index Value) {
	requires(index != nil)
	r := value.SelectIndex(index)
	if r.Code == ResultCode_OK {
		t, ok := r.Value.(TupleValue)
		ensures("a tuple of the same length", ok && len(t.Values) == len(value.Values))
		ensures("a new one", implies(len(t.Values) > 0, isFresh(t.Values)))
		ensures("element by element", forall(0, len(t.Values), func(k int) bool {
			return t.Values[k] != nil && selectsIndex(value.Values[k], index, ResultCode_OK, t.Values[k])
		}))
		ensures("every element is selectable", forall(0, len(t.Values), func(k int) bool { return isIndexSelectable(value.Values[k]) }))
	} else {
		ensures("the failure of an element", exists(0, len(value.Values), func(k int) bool {
			return (!isIndexSelectable(value.Values[k]) && isValueErr(r)) || selectsIndex(value.Values[k], index, r.Code, r.Value)
		}))
	}
}

//verif:inv contract_TupleSelectKey
func inv_tupleKey(value TupleValue, key Value, values []Value, i int) bool {
	return len(values) == len(value.Values) && isFresh(values) && forall(0, i+1, func(k int) bool {
		return values[k] != nil && isKeySelectable(value.Values[k]) && selectsKey(value.Values[k], key, ResultCode_OK, values[k])
	})
}

//verif:contract TupleValue.SelectKey
func contract_TupleSelectKey(value TupleValue, key Value) {
	requires(key != nil)
	modifies(&keyed)
	r := value.SelectKey(key)
	if r.Code == ResultCode_OK {
		t, ok := r.Value.(TupleValue)
		ensures("a tuple of the same length", ok && len(t.Values) == len(value.Values))
		ensures("a new one", implies(len(t.Values) > 0, isFresh(t.Values)))
		ensures("element by element", forall(0, len(t.Values), func(k int) bool {
			return t.Values[k] != nil && selectsKey(value.Values[k], key, ResultCode_OK, t.Values[k])
		}))
		ensures("every element is selectable", forall(0, len(t.Values), func(k int) bool { return isKeySelectable(value.Values[k]) }))
	} else {
		ensures("the failure of an element", exists(0, len(value.Values), func(k int) bool {
			return (!isKeySelectable(value.Values[k]) && isValueErr(r)) || selectsKey(value.Values[k], key, r.Code, r.Value)
		}))
	}
}

// applied: the answer of ApplySelector.
func applied(v Value, selector Selector, code ResultCode, w Value) bool {
	if isSelectable(v) {
		return selects(v, selector, code, w)
	}
	return applies(selector, v, code, w)
}

//verif:contract ApplySelector
func contract_ApplySelector(value Value, selector Selector) {
	requires(value != nil && selector != nil)
	modifies(&chain)
	r := ApplySelector(value, selector)
	ensures("the value's own selection comes first", applied(value, selector, r.Code, r.Value))
	ensures("a selection is a value", implies(r.Code == ResultCode_OK, r.Value != nil))
}

//verif:inv contract_TupleSelect
func inv_tupleSelect(value TupleValue, selector Selector, values []Value, i int) bool {
	return len(values) == len(value.Values) && isFresh(values) && forall(0, i+1, func(k int) bool {
		return values[k] != nil && applied(value.Values[k], selector, ResultCode_OK, values[k])
	})
}

//verif:contract TupleValue.Select
func contract_TupleSelect(value TupleValue, selector Selector) {
	requires(selector != nil && inv_TupleValue(value))
	modifies(&chain)
	r := value.Select(selector)
	if r.Code == ResultCode_OK {
		t, ok := r.Value.(TupleValue)
		ensures("a tuple of the same length", ok && len(t.Values) == len(value.Values))
		ensures("a new one", implies(len(t.Values) > 0, isFresh(t.Values)))
		ensures("element by element", forall(0, len(t.Values), func(k int) bool {
			return t.Values[k] != nil && applied(value.Values[k], selector, ResultCode_OK, t.Values[k])
		}))
	} else {
		ensures("the failure of an element", exists(0, len(value.Values), func(k int) bool {
			return applied(value.Values[k], selector, r.Code, r.Value)
		}))
	}
}

// ---- selectors

//verif:contract IndexedSelector.Apply
func contract_IndexedApply(selector IndexedSelector, value Value) {
	requires(value != nil && selector.Index != nil)
	r := selector.Apply(value)
	if isIndexSelectable(value) {
		ensures("the value's answer", selectsIndex(value, selector.Index, r.Code, r.Value))
	} else {
		ensures("not selectable", isValueErr(r))
	}
}

//verif:inv contract_KeyedApply
func inv_keyedApply(selector KeyedSelector, v Value, i int) bool {
	return v != nil && keyed.chained && keyed.code == ResultCode_OK && keyed.steps == i+1 && identical(keyed.last, v) && sameSlice(keyed.keys, selector.Keys)
}

// followKeys and sameAnswer serve executions of the contract only.
func followKeys(keys []Value, v Value) Result {
	for _, k := range keys {
		w, ok := v.(KeySelectable)
		if !ok {
			return ERROR("")
		}
		r := w.SelectKey(k)
		if r.Code != ResultCode_OK {
			return r
		}
		v = r.Value
	}
	return OK(v)
}
func sameAnswer(a, b Result) bool {
	return a.Code == b.Code && (a.Code != ResultCode_OK || identical(a.Value, b.Value))
}

//verif:contract KeyedSelector.Apply
func contract_KeyedApply(selector KeyedSelector, value Value) {
	requires(value != nil)
	requires(inv_KeyedSelector(selector))
	modifies(&keyed)
	keyed.chained, keyed.code, keyed.steps, keyed.last, keyed.keys = true, ResultCode_OK, 0, value, selector.Keys
	r := selector.Apply(value)
	if replaying() {
		ensures("each key in order", sameAnswer(r, followKeys(selector.Keys, old(func() Value { return value }))))
		return
	}
	ensures("each key is asked of what the one before selected", keyed.chained)
	if r.Code == ResultCode_OK {
		ensures("all keys", keyed.steps == len(selector.Keys))
		ensures("what the last one selects", identical(r.Value, keyed.last) && keyed.code == ResultCode_OK)
	} else if keyed.code != ResultCode_OK {
		ensures("the failure of the key", r.Code == keyed.code && identical(r.Value, keyed.last))
	} else {
		ensures("or what it is asked of has no keys", isValueErr(r) && keyed.steps < len(selector.Keys) && !isKeySelectable(keyed.last))
	}
}

//verif:contract GenericSelector.Apply
func contract_GenericApply(selector GenericSelector, value Value) {
	requires(value != nil)
	r := selector.Apply(value)
	if isSelectable(value) {
		ensures("own selection first", selects(value, selector, r.Code, r.Value))
	} else if isRulesSelectable(value) {
		ensures("then its rules", selectsRules(value, selector.Rules, r.Code, r.Value))
	} else {
		ensures("not selectable", isValueErr(r))
	}
}

//verif:contract SelectGeneric
func contract_SelectGeneric(value Value, selector GenericSelector) {
	requires(value != nil)
	r := SelectGeneric(value, selector)
	if isSelectable(value) {
		ensures("own selection first", selects(value, selector, r.Code, r.Value))
	} else if isRulesSelectable(value) {
		ensures("then its rules", selectsRules(value, selector.Rules, r.Code, r.Value))
	} else {
		ensures("not selectable", isValueErr(r))
	}
}

// ---- qualified values collect selectors

// extends: r is a new qualified value with one more selector.
func isQualified(r Result, source Value, n int) bool {
	q, ok := r.Value.(QualifiedValue)
	return r.Code == ResultCode_OK && ok && identical(q.Source, source) && len(q.Selectors) == n
}
func selectorsOf(r Result) []Selector {
	q, _ := r.Value.(QualifiedValue)
	return q.Selectors
}

//verif:contract QualifiedValue.Select
func contract_QualifiedSelect(value QualifiedValue, selector Selector) {
	requires(selector != nil && inv_QualifiedValue(value))
	r := value.Select(selector)
	n := len(value.Selectors)
	ensures("one more selector", isQualified(r, value.Source, n+1))
	s := selectorsOf(r)
	ensures("a new one", isFresh(s))
	ensures("the others stay", forall(0, n, func(i int) bool { return identical(s[i], value.Selectors[i]) }))
	ensures("then the new one", identical(s[n], selector))
}

//verif:contract QualifiedValue.SelectRules
func contract_QualifiedSelectRules(value QualifiedValue, rules []Value) {
	requires(inv_QualifiedValue(value))
	r := value.SelectRules(rules)
	n := len(value.Selectors)
	ensures("one more selector", isQualified(r, value.Source, n+1))
	s := selectorsOf(r)
	ensures("a new one", isFresh(s))
	ensures("the others stay", forall(0, n, func(i int) bool { return identical(s[i], value.Selectors[i]) }))
	g, ok := s[n].(GenericSelector)
	ensures("then the rules", ok && sameSlice(g.Rules, rules))
}

//verif:contract QualifiedValue.SelectIndex
func contract_QualifiedSelectIndex(value QualifiedValue, index Value) {
	requires(index != nil && inv_QualifiedValue(value))
	r := value.SelectIndex(index)
	n := len(value.Selectors)
	if _, isNil := index.(NilValue); isNil {
		ensures("no nil index", isValueErr(r))
		return
	}
	ensures("one more selector", isQualified(r, value.Source, n+1))
	s := selectorsOf(r)
	ensures("a new one", isFresh(s))
	ensures("the others stay", forall(0, n, func(i int) bool { return identical(s[i], value.Selectors[i]) }))
	x, ok := s[n].(IndexedSelector)
	ensures("then the index", ok && identical(x.Index, index))
}

//verif:contract QualifiedValue.SelectKey
func contract_QualifiedSelectKey(value QualifiedValue, key Value) {
	requires(key != nil && inv_QualifiedValue(value))
	r := value.SelectKey(key)
	n := len(value.Selectors)
	var last KeyedSelector
	merge := false
	if n > 0 {
		last, merge = value.Selectors[n-1].(KeyedSelector)
	}
	s := selectorsOf(r)
	ensures("a new one", isFresh(s))
	if merge {
		ensures("as many selectors", isQualified(r, value.Source, n))
		ensures("the others stay", forall(0, n-1, func(i int) bool { return identical(s[i], value.Selectors[i]) }))
		k, ok := s[n-1].(KeyedSelector)
		m := len(last.Keys)
		ensures("successive keys are merged", ok && len(k.Keys) == m+1 && isFresh(k.Keys))
		ensures("in order", forall(0, m, func(i int) bool { return identical(k.Keys[i], last.Keys[i]) }))
		ensures("the new key last", identical(k.Keys[m], key))
	} else {
		ensures("one more selector", isQualified(r, value.Source, n+1))
		ensures("the others stay", forall(0, n, func(i int) bool { return identical(s[i], value.Selectors[i]) }))
		k, ok := s[n].(KeyedSelector)
		ensures("the key", ok && len(k.Keys) == 1 && identical(k.Keys[0], key))
	}
}
