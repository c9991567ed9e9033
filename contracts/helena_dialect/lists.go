//verif:property C07
package helena_dialect

import "helena/core"

// ValueToArray gives the elements of lists and tuples as they are; scripts are
// evaluated once and cached.
//
//verif:contract ValueToArray
//verif:pure
func contract_ValueToArray(value core.Value) {
	requires(value != nil)
	r, vs := ValueToArray(value)
	if l, ok := value.(core.ListValue); ok {
		ensures("list elements", r.Code == core.ResultCode_OK && sameSlice(vs, l.Values))
	}
	if t, ok := value.(core.TupleValue); ok {
		ensures("tuple elements", r.Code == core.ResultCode_OK && sameSlice(vs, t.Values))
	}
	ensures("ok or error", r.Code == core.ResultCode_OK || r.Code == core.ResultCode_ERROR)
	t := value.Type()
	ensures("no other type is a list", implies(t != core.ValueType_LIST && t != core.ValueType_TUPLE && t != core.ValueType_SCRIPT, r.Code == core.ResultCode_ERROR))
	if s, ok := value.(core.ScriptValue); ok {
		ensures("the cache holds no absent element", forall(0, len(s.Cache.Values), func(i int) bool { return s.Cache.Values[i] != nil }))
	}
	ensures("no absent elements", implies(r.Code == core.ResultCode_OK, forall(0, len(vs), func(i int) bool { return vs[i] != nil })))
}

func isList(r core.Result, n int64, f func(i int) core.Value) bool {
	if r.Code != core.ResultCode_OK {
		return false
	}
	v, ok := r.Value.(core.ListValue)
	return ok && int64(len(v.Values)) == n && forall(0, len(v.Values), func(i int) bool { return identical(v.Values[i], f(i)) })
}

//verif:contract listLengthCmd.Execute
func contract_listLength(cmd listLengthCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 2 {
		ensures("arity", isErr(r))
		return
	}
	rs, s := ValueToArray(args[1])
	ensures("bad list", implies(rs.Code != core.ResultCode_OK, isErr(r)))
	ensures("length", implies(rs.Code == core.ResultCode_OK, isInt(r, int64(len(s)))))
}

//verif:contract listAtCmd.Execute
func contract_listAt(cmd listAtCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 3 && len(args) != 4 {
		ensures("arity", isErr(r))
		return
	}
	rs, s := ValueToArray(args[1])
	ri, i := core.ValueToInteger(args[2])
	if rs.Code != core.ResultCode_OK || ri.Code != core.ResultCode_OK {
		ensures("bad operand", isErr(r))
		return
	}
	if 0 <= i && i < int64(len(s)) {
		ensures("element", r.Code == core.ResultCode_OK && identical(r.Value, s[i]))
	} else if len(args) == 4 {
		ensures("default", r.Code == core.ResultCode_OK && identical(r.Value, args[3]))
	} else {
		ensures("out of range", isErr(r))
	}
}

//verif:contract listRangeCmd.Execute
func contract_listRange(cmd listRangeCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 3 && len(args) != 4 {
		ensures("arity", isErr(r))
		return
	}
	rs, s := ValueToArray(args[1])
	rf, f := core.ValueToInteger(args[2])
	if rs.Code != core.ResultCode_OK || rf.Code != core.ResultCode_OK {
		ensures("bad operand", isErr(r))
		return
	}
	n := int64(len(s))
	lo := headLen(f, n)
	if len(args) == 3 {
		ensures("tail", isList(r, n-lo, func(i int) core.Value { return s[lo+int64(i)] }))
		return
	}
	rl, l := core.ValueToInteger(args[3])
	if rl.Code != core.ResultCode_OK {
		ensures("bad last", isErr(r))
		return
	}
	hi := tailPos(f, l, n)
	ensures("range", isList(r, hi-lo, func(i int) core.Value { return s[lo+int64(i)] }))
}

// listTotal is the number of elements of args[1] … args[n-1].
//
//verif:spec
func listTotal(args []core.Value, n int) int {
	if n <= 1 {
		return 0
	}
	_, vs := ValueToArray(args[n-1])
	return listTotal(args, n-1) + len(vs)
}

// listPick is the argument that provides element p of the concatenation of args[1] … args[n-1].
//
//verif:spec
func listPick(args []core.Value, n int, p int) int {
	if n <= 1 {
		return 0
	}
	if p >= listTotal(args, n-1) {
		return n - 1
	}
	return listPick(args, n-1, p)
}

func listElem(args []core.Value, n int, p int) core.Value {
	k := listPick(args, n, p)
	_, vs := ValueToArray(args[k])
	return vs[p-listTotal(args, k)]
}

func isListValue(v core.Value) bool {
	r, _ := ValueToArray(v)
	return r.Code == core.ResultCode_OK
}

//verif:inv contract_listAppend
func inv_listAppend1(args []core.Value, i int) bool {
	return 2 <= i && i <= len(args) &&
		forall(1, i, func(k int) bool { return isListValue(args[k]) })
}

//verif:inv contract_listAppend
func inv_listAppend2(args []core.Value, i int, values2 []core.Value) bool {
	return len(values2) == listTotal(args, i)
}

//verif:inv contract_listAppend
func inv_listAppend3(args []core.Value, i int, values2 []core.Value) bool {
	return forall(0, len(values2), func(p int) bool {
		k := listPick(args, i, p)
		_, vs := ValueToArray(args[k])
		q := p - listTotal(args, k)
		return 1 <= k && k < i && 0 <= q && q < len(vs) && values2[p] != nil && identical(values2[p], vs[q])
	})
}

//verif:contract listAppendCmd.Execute
func contract_listAppend(cmd listAppendCmd, args []core.Value, context any) {
	requires(okArgs(args))
	requires(len(args) >= 2)
	r := cmd.Execute(args, context)
	if exists(1, len(args), func(k int) bool { return !isListValue(args[k]) }) {
		ensures("bad operand", isErr(r))
		return
	}
	ensures("concatenation", isList(r, int64(listTotal(args, len(args))), func(p int) core.Value { return listElem(args, len(args), p) }))
}

//verif:contract listRemoveCmd.Execute
func contract_listRemove(cmd listRemoveCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 4 {
		ensures("arity", isErr(r))
		return
	}
	rs, s := ValueToArray(args[1])
	rf, f := core.ValueToInteger(args[2])
	rl, l := core.ValueToInteger(args[3])
	if rs.Code != core.ResultCode_OK || rf.Code != core.ResultCode_OK || rl.Code != core.ResultCode_OK {
		ensures("bad operand", isErr(r))
		return
	}
	n := int64(len(s))
	h, t := headLen(f, n), tailPos(f, l, n)
	ensures("keeps head and tail", isList(r, h+n-t, func(i int) core.Value {
		if int64(i) < h {
			return s[i]
		}
		return s[int64(i)-h+t]
	}))
}

func isSplice(r core.Result, s []core.Value, h int64, ins []core.Value, t int64) bool {
	n := int64(len(s))
	m := int64(len(ins))
	return isList(r, h+m+n-t, func(i int) core.Value {
		if int64(i) < h {
			return s[i]
		}
		if int64(i) < h+m {
			return ins[int64(i)-h]
		}
		return s[int64(i)-h-m+t]
	})
}

//verif:contract listInsertCmd.Execute
func contract_listInsert(cmd listInsertCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 4 {
		ensures("arity", isErr(r))
		return
	}
	rs, s := ValueToArray(args[1])
	rf, f := core.ValueToInteger(args[2])
	rt, t := ValueToArray(args[3])
	if rs.Code != core.ResultCode_OK || rf.Code != core.ResultCode_OK || rt.Code != core.ResultCode_OK {
		ensures("bad operand", isErr(r))
		return
	}
	h := headLen(f, int64(len(s)))
	ensures("inserted between head and tail", isSplice(r, s, h, t, h))
}

//verif:contract listReplaceCmd.Execute
func contract_listReplace(cmd listReplaceCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 5 {
		ensures("arity", isErr(r))
		return
	}
	rs, s := ValueToArray(args[1])
	rf, f := core.ValueToInteger(args[2])
	rl, l := core.ValueToInteger(args[3])
	rt, t := ValueToArray(args[4])
	if rs.Code != core.ResultCode_OK || rf.Code != core.ResultCode_OK || rl.Code != core.ResultCode_OK || rt.Code != core.ResultCode_OK {
		ensures("bad operand", isErr(r))
		return
	}
	n := int64(len(s))
	ensures("replaces the range", isSplice(r, s, headLen(f, n), t, tailPos(f, l, n)))
}
