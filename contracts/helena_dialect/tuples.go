//verif:property C16
package helena_dialect

import "helena/core"

// Namespaces select their variables by name.
//
//verif:contract namespaceMetacommandValue.SelectKey
func contract_namespaceSelectKey(value namespaceMetacommandValue, key core.Value) {
	requires(key != nil)
	requires(value.metacommand != nil && value.metacommand.namespace != nil && goodScope(value.metacommand.namespace.scope))
	r := value.SelectKey(key)
	if !isString(key) {
		ensures("bad name", isErr(r))
		return
	}
	v := value.metacommand.namespace.scope.ResolveVariable(stringOf(key))
	ensures("the variable", implies(v != nil, isOk(r, v)))
	ensures("unknown variable", implies(v == nil, isErr(r)))
}

//verif:contract tupleLengthCmd.Execute
func contract_tupleLength(cmd tupleLengthCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 2 {
		ensures("arity", isErr(r))
		return
	}
	rs, s := ValueToArray(args[1])
	ensures("bad tuple", implies(rs.Code != core.ResultCode_OK, isErr(r)))
	ensures("length", implies(rs.Code == core.ResultCode_OK, isInt(r, int64(len(s)))))
}

//verif:contract tupleAtCmd.Execute
func contract_tupleAt(cmd tupleAtCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) != 3 && len(args) != 4 {
		ensures("arity", isErr(r))
		return
	}
	rs, s := ValueToArray(args[1])
	ri, i := core.ValueToInteger(args[2])
	if rs.Code != core.ResultCode_OK || ri.Code != core.ResultCode_OK {
		ensures("bad operand", isErr(r))
		return
	}
	if 0 <= i && i < int64(len(s)) {
		ensures("element", r.Code == core.ResultCode_OK && identical(r.Value, s[i]))
	} else if len(args) == 4 {
		ensures("default", r.Code == core.ResultCode_OK && identical(r.Value, args[3]))
	} else {
		ensures("out of range", isErr(r))
	}
}

//verif:contract ValueToTuple
func contract_ValueToTuple(value core.Value) {
	requires(value != nil)
	r := ValueToTuple(value)
	t := value.Type()
	if t == core.ValueType_TUPLE {
		ensures("tuples as they are", isOk(r, value))
		return
	}
	if t != core.ValueType_LIST && t != core.ValueType_SCRIPT {
		ensures("no other type", isErr(r))
		return
	}
	rs, s := ValueToArray(value)
	if rs.Code != core.ResultCode_OK {
		ensures("bad script", isErr(r))
		return
	}
	v, ok := r.Value.(core.TupleValue)
	ensures("a tuple", r.Code == core.ResultCode_OK && ok && len(v.Values) == len(s))
	ensures("of the same elements", forall(0, len(s), func(i int) bool { return identical(v.Values[i], s[i]) }))
}
