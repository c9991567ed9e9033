//verif:property C13
package helena_dialect

import "helena/core"

// Compiling a script value gives a program that depends on the script only.
//
//verif:trusted (*helena/helena_dialect.Scope).CompileScriptValue
//verif:pure
func contract_trusted_CompileScriptValue(s *Scope, script core.ScriptValue) *core.Program {
	p := s.CompileScriptValue(script)
	ensures("compiled", p != nil)
	return p
}

func isScript(v core.Value) bool {
	_, ok := v.(core.ScriptValue)
	return ok
}
func isBoolean(v core.Value) bool {
	r, _ := core.ValueToBoolean(v)
	return r.Code == core.ResultCode_OK
}
func boolOf(v core.Value) bool {
	_, b := core.ValueToBoolean(v)
	return b
}

// runs: r asks to run the script, then to call the named function literal.
func runs(r core.Result, s *Scope, script core.Value, callback string) bool {
	c, ok := r.Value.(*ContinuationValue)
	sv, oks := script.(core.ScriptValue)
	return r.Code == core.ResultCode_YIELD && ok && c != nil && oks && c.Scope == s && c.Program == s.CompileScriptValue(sv) && isFunc(c.Callback, callback)
}

// runsLast: r asks to run the script and gives its result as is.
func runsLast(r core.Result, s *Scope, script core.Value) bool {
	c, ok := r.Value.(*ContinuationValue)
	sv, oks := script.(core.ScriptValue)
	return r.Code == core.ResultCode_YIELD && ok && c != nil && oks && c.Scope == s && c.Program == s.CompileScriptValue(sv) && c.Callback == nil && c.Data == nil
}
func dataOf(r core.Result) any {
	c, ok := r.Value.(*ContinuationValue)
	if !ok || c == nil {
		return nil
	}
	return c.Data
}

//verif:contract trueCmd.Execute
func contract_true(cmd trueCmd, args []core.Value, context any) {
	requires(okArgs(args))
	requires(len(args) >= 1)
	r := cmd.Execute(args, context)
	choice(r, args, true)
}

//verif:contract falseCmd.Execute
func contract_false(cmd falseCmd, args []core.Value, context any) {
	requires(okArgs(args))
	requires(len(args) >= 1)
	r := cmd.Execute(args, context)
	choice(r, args, false)
}

func choice(r core.Result, args []core.Value, b bool) {
	if len(args) == 1 {
		ensures("a boolean is its value", isBool(r, b))
		return
	}
	if !isString(args[1]) {
		ensures("bad subcommand", isErr(r))
		return
	}
	op := stringOf(args[1])
	if op == "subcommands" {
		ensures("subcommands arity", implies(len(args) != 2, isErr(r)))
		return
	}
	if op != "?" && op != "!?" {
		ensures("unknown subcommand", isErr(r))
		return
	}
	if len(args) != 3 && len(args) != 4 {
		ensures("arity", isErr(r))
		return
	}
	if (op == "?") == b {
		ensures("first branch", isOk(r, args[2]))
	} else if len(args) == 4 {
		ensures("second branch", isOk(r, args[3]))
	} else {
		ensures("no second branch", isOk(r, core.NIL))
	}
}

//verif:contract notCmdResult
func contract_notCmdResult(value core.Value) {
	requires(value != nil)
	r := notCmdResult(value)
	ensures("bad boolean", implies(!isBoolean(value), isErr(r)))
	ensures("negation", implies(isBoolean(value), isBool(r, !boolOf(value))))
}

//verif:contract notCmd.Execute
func contract_not(cmd notCmd, args []core.Value, scope *Scope) {
	requires(okArgs(args))
	requires(scope != nil)
	r := cmd.Execute(args, scope)
	if len(args) != 2 {
		ensures("arity", isErr(r))
	} else if isScript(args[1]) {
		ensures("runs the script", runs(r, scope, args[1], "notCmdCondition$1"))
	} else if !isBoolean(args[1]) {
		ensures("bad boolean", isErr(r))
	} else {
		ensures("negation", isBool(r, !boolOf(args[1])))
	}
}

//verif:contract notCmdCondition$1
func contract_notCallback(target ContinuationCallback, result core.Result, data any) {
	requires(result.Value != nil)
	r := target(result, data)
	if result.Code != core.ResultCode_OK {
		ensures("other results pass", identical(r, result))
		return
	}
	ensures("bad boolean", implies(!isBoolean(result.Value), isErr(r)))
	ensures("negation", implies(isBoolean(result.Value), isBool(r, !boolOf(result.Value))))
}

// stopAt is the first position from i on whose operand is a script, or is not
// the boolean b, or len(args).
//
//verif:spec
func stopAt(args []core.Value, i int, b bool) int {
	if i >= len(args) || isScript(args[i]) || !isBoolean(args[i]) || boolOf(args[i]) != b {
		return i
	}
	return stopAt(args, i+1, b)
}

// andOr: r is the outcome of && (b) or || (!b) on the operands from i on.
func andOr(r core.Result, s *Scope, args []core.Value, i int, b bool, callback string) bool {
	j := stopAt(args, i, b)
	if j >= len(args) {
		return isBool(r, b)
	}
	if isScript(args[j]) {
		st, ok := dataOf(r).(*andCmdState)
		return runs(r, s, args[j], callback) && ok && st != nil && owned(st) && st.scope == s && sameSlice(st.args, args) && st.i == j
	}
	if !isBoolean(args[j]) {
		return isErr(r)
	}
	return isBool(r, !b)
}

//verif:contract andCmdCondition
func contract_andCmdCondition(scope *Scope, args []core.Value, i int) {
	requires(okArgs(args))
	requires(scope != nil && 0 <= i && i < len(args))
	r := andCmdCondition(scope, args, i)
	ensures("and", andOr(r, scope, args, i, true, "andCmdCondition$1"))
}

//verif:contract andCmdNext
func contract_andCmdNext(value core.Value, scope *Scope, args []core.Value, i int) {
	requires(okArgs(args))
	requires(value != nil && scope != nil && 0 <= i && i < len(args))
	r := andCmdNext(value, scope, args, i)
	next(r, value, scope, args, i, true, "andCmdCondition$1")
}

func next(r core.Result, value core.Value, scope *Scope, args []core.Value, i int, b bool, callback string) {
	if !isBoolean(value) {
		ensures("bad boolean", isErr(r))
	} else if boolOf(value) != b {
		ensures("short cut", isBool(r, !b))
	} else {
		ensures("goes on", andOr(r, scope, args, i+1, b, callback))
	}
}

//verif:contract andCmd.Execute
func contract_and(cmd andCmd, args []core.Value, scope *Scope) {
	requires(okArgs(args))
	requires(scope != nil)
	r := cmd.Execute(args, scope)
	if len(args) < 2 {
		ensures("arity", isErr(r))
	} else {
		ensures("and", andOr(r, scope, args, 1, true, "andCmdCondition$1"))
	}
}

//verif:contract andCmdCondition$1
func contract_andCallback(target ContinuationCallback, result core.Result, state *andCmdState) {
	requires(result.Value != nil)
	requires(state != nil && owned(state) && state.scope != nil && okArgs(state.args) && 0 <= state.i && state.i < len(state.args))
	scope, args, i := state.scope, state.args, state.i
	modifies(state)
	r := target(result, state)
	ensures("gives the state back", released(state))
	if result.Code != core.ResultCode_OK {
		ensures("other results pass", identical(r, result))
		return
	}
	next(r, result.Value, scope, args, i, true, "andCmdCondition$1")
}

//verif:contract orCmdCondition
func contract_orCmdCondition(scope *Scope, args []core.Value, i int) {
	requires(okArgs(args))
	requires(scope != nil && 0 <= i && i < len(args))
	r := orCmdCondition(scope, args, i)
	ensures("or", andOr(r, scope, args, i, false, "orCmdCondition$1"))
}

//verif:contract orCmdNext
func contract_orCmdNext(value core.Value, scope *Scope, args []core.Value, i int) {
	requires(okArgs(args))
	requires(value != nil && scope != nil && 0 <= i && i < len(args))
	r := orCmdNext(value, scope, args, i)
	next(r, value, scope, args, i, false, "orCmdCondition$1")
}

//verif:contract orCmd.Execute
func contract_or(cmd orCmd, args []core.Value, scope *Scope) {
	requires(okArgs(args))
	requires(scope != nil)
	r := cmd.Execute(args, scope)
	if len(args) < 2 {
		ensures("arity", isErr(r))
	} else {
		ensures("or", andOr(r, scope, args, 1, false, "orCmdCondition$1"))
	}
}

//verif:contract orCmdCondition$1
func contract_orCallback(target ContinuationCallback, result core.Result, state *andCmdState) {
	requires(result.Value != nil)
	requires(state != nil && owned(state) && state.scope != nil && okArgs(state.args) && 0 <= state.i && state.i < len(state.args))
	scope, args, i := state.scope, state.args, state.i
	modifies(state)
	r := target(result, state)
	ensures("gives the state back", released(state))
	if result.Code != core.ResultCode_OK {
		ensures("other results pass", identical(r, result))
		return
	}
	next(r, result.Value, scope, args, i, false, "orCmdCondition$1")
}
