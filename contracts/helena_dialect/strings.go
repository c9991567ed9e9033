//verif:property C08
package helena_dialect

import "helena/core"

func okArgs(args []core.Value) bool {
	return forall(0, len(args), func(i int) bool { return args[i] != nil })
}
func clampLow(i int64) int64 {
	if i < 0 {
		return 0
	}
	return i
}
func isErr(r core.Result) bool { return r.Code == core.ResultCode_ERROR }
func isStr(r core.Result, s string) bool {
	if r.Code != core.ResultCode_OK {
		return false
	}
	v, ok := r.Value.(core.StringValue)
	return ok && v.Value == s
}
func isInt(r core.Result, i int64) bool {
	if r.Code != core.ResultCode_OK {
		return false
	}
	v, ok := r.Value.(core.IntegerValue)
	return ok && v.Value == i
}
func isBool(r core.Result, b bool) bool {
	if r.Code != core.ResultCode_OK {
		return false
	}
	v, ok := r.Value.(core.BooleanValue)
	return ok && v.Value == b
}

//verif:contract stringLengthCmd.Execute
func contract_stringLength(cmd stringLengthCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 2 {
		ensures("arity", isErr(r))
		return
	}
	rs, s := core.ValueToString(args[1])
	ensures("bad string", implies(rs.Code != core.ResultCode_OK, isErr(r)))
	ensures("length", implies(rs.Code == core.ResultCode_OK, isInt(r, int64(len(s)))))
}

//verif:contract stringRangeCmd.Execute
func contract_stringRange(cmd stringRangeCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 3 && len(args) != 4 {
		ensures("arity", isErr(r))
		return
	}
	rs, s := core.ValueToString(args[1])
	rf, f := core.ValueToInteger(args[2])
	if rs.Code != core.ResultCode_OK || rf.Code != core.ResultCode_OK {
		ensures("bad operand", isErr(r))
		return
	}
	n := int64(len(s))
	lo := clampLow(f)
	if len(args) == 3 {
		if lo >= n {
			ensures("past the end is empty", isStr(r, ""))
		} else {
			ensures("tail", isStr(r, s[lo:]))
		}
		return
	}
	rl, l := core.ValueToInteger(args[3])
	if rl.Code != core.ResultCode_OK {
		ensures("bad last", isErr(r))
		return
	}
	if lo >= n || l < lo {
		ensures("empty range", isStr(r, ""))
	} else if l >= n {
		ensures("range to end", isStr(r, s[lo:]))
	} else {
		ensures("inner range", isStr(r, s[lo:l+1]))
	}
}

// headLen and tailPos give the parts kept by remove, insert and replace.
func headLen(f, n int64) int64 {
	f = clampLow(f)
	if f > n {
		return n
	}
	return f
}
func tailPos(f, l, n int64) int64 {
	f = clampLow(f)
	if l < f {
		return headLen(f, n)
	}
	if l >= n {
		return n
	}
	return l + 1
}

//verif:contract stringRemoveCmd.Execute
func contract_stringRemove(cmd stringRemoveCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 4 {
		ensures("arity", isErr(r))
		return
	}
	rs, s := core.ValueToString(args[1])
	rf, f := core.ValueToInteger(args[2])
	rl, l := core.ValueToInteger(args[3])
	if rs.Code != core.ResultCode_OK || rf.Code != core.ResultCode_OK || rl.Code != core.ResultCode_OK {
		ensures("bad operand", isErr(r))
		return
	}
	n := int64(len(s))
	ensures("keeps head and tail", isStr(r, s[:headLen(f, n)]+s[tailPos(f, l, n):]))
}

//verif:contract stringInsertCmd.Execute
func contract_stringInsert(cmd stringInsertCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 4 {
		ensures("arity", isErr(r))
		return
	}
	rs, s := core.ValueToString(args[1])
	rf, f := core.ValueToInteger(args[2])
	rt, t := core.ValueToString(args[3])
	if rs.Code != core.ResultCode_OK || rf.Code != core.ResultCode_OK || rt.Code != core.ResultCode_OK {
		ensures("bad operand", isErr(r))
		return
	}
	h := headLen(f, int64(len(s)))
	ensures("inserted between head and tail", isStr(r, s[:h]+t+s[h:]))
}

//verif:contract stringReplaceCmd.Execute
func contract_stringReplace(cmd stringReplaceCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 5 {
		ensures("arity", isErr(r))
		return
	}
	rs, s := core.ValueToString(args[1])
	rf, f := core.ValueToInteger(args[2])
	rl, l := core.ValueToInteger(args[3])
	rt, t := core.ValueToString(args[4])
	if rs.Code != core.ResultCode_OK || rf.Code != core.ResultCode_OK || rl.Code != core.ResultCode_OK || rt.Code != core.ResultCode_OK {
		ensures("bad operand", isErr(r))
		return
	}
	n := int64(len(s))
	ensures("replaces the range", isStr(r, s[:headLen(f, n)]+t+s[tailPos(f, l, n):]))
}

//verif:contract binaryCmd.Execute
//verif:purefuncs
func contract_stringBinary(cmd binaryCmd, args []core.Value, context any) {
	requires(okArgs(args))
	requires(cmd.fn != nil)
	r := cmd.Execute(args, context)
	if len(args) != 3 {
		ensures("arity", isErr(r))
		return
	}
	r1, s1 := core.ValueToString(args[1])
	r2, s2 := core.ValueToString(args[2])
	if r1.Code == core.ResultCode_OK && r2.Code == core.ResultCode_OK {
		ensures("compares the strings", isBool(r, cmd.fn(s1, s2)))
	} else {
		ensures("bad operand", isErr(r))
	}
}

//verif:lemma
func lemma_stringOperators(a, b string) {
	ensures("equal", eqCmd.name == "==" && eqCmd.fn(a, b) == (a == b))
	ensures("not equal", neCmd.name == "!=" && neCmd.fn(a, b) == (a != b))
	ensures("less", ltCmd.name == "<" && ltCmd.fn(a, b) == (a < b))
	ensures("less or equal", leCmd.name == "<=" && leCmd.fn(a, b) == (a <= b))
	ensures("greater", gtCmd.name == ">" && gtCmd.fn(a, b) == (a > b))
	ensures("greater or equal", geCmd.name == ">=" && geCmd.fn(a, b) == (a >= b))
}

//verif:contract stringAtCmd.Execute
func contract_stringAt(cmd stringAtCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 3 && len(args) != 4 {
		ensures("arity", isErr(r))
		return
	}
	rs, s := core.ValueToString(args[1])
	ri, i := core.ValueToInteger(args[2])
	if rs.Code != core.ResultCode_OK || ri.Code != core.ResultCode_OK {
		ensures("bad operand", isErr(r))
		return
	}
	if 0 <= i && i < int64(len(s)) {
		v, ok := r.Value.(core.StringValue)
		ensures("the byte at the index", r.Code == core.ResultCode_OK && ok && len(v.Value) == 1 && v.Value[0] == s[i])
	} else if len(args) == 4 {
		ensures("the default", r.Code == core.ResultCode_OK && identical(r.Value, args[3]))
	} else {
		ensures("out of range", isErr(r))
	}
}

// concat appends the strings of args[2] … args[n-1] to s.
//
//verif:spec
func concat(s string, args []core.Value, n int) string {
	if n <= 2 {
		return s
	}
	return concat(s, args, n-1) + stringOf(args[n-1])
}

//verif:inv contract_stringAppend
func inv_stringAppend(args []core.Value, i int, str string, str2 string) bool {
	return 2 <= i && (i <= len(args) || i == 2) && str2 == concat(str, args, i)
}

//verif:inv contract_stringAppend
func inv_stringAppend2(args []core.Value, i int) bool {
	return forall(2, i, func(k int) bool { return isString(args[k]) })
}

//verif:contract stringAppendCmd.Execute
func contract_stringAppend(cmd stringAppendCmd, args []core.Value, context any) {
	requires(okArgs(args))
	requires(len(args) >= 2) // the ensemble always passes the subject
	r := cmd.Execute(args, context)
	if !forall(1, len(args), func(k int) bool { return isString(args[k]) }) {
		ensures("bad operand", isErr(r))
		return
	}
	ensures("concatenates the operands in order", isStr(r, concat(stringOf(args[1]), args, len(args))))
}
