//verif:property C13
package helena_dialect

import "helena/core"

// word: the string an argument stands for ("" when it has none).
func word(v core.Value) string {
	_, s := core.ValueToString(v)
	return s
}

// ifForm: from position i on, args reads as elseif and else clauses.
//
//verif:spec
func ifForm(args []core.Value, i int) bool {
	if i >= len(args) {
		return i == len(args)
	}
	if !isString(args[i]) {
		return false
	}
	switch stringOf(args[i]) {
	case "elseif":
		return len(args)-i >= 3 && ifForm(args, i+3)
	case "else":
		return len(args)-i >= 2 && ifForm(args, i+2)
	}
	return false
}

//verif:inv contract_ifCheckArgs
func inv_ifCheckArgs(args []core.Value, i int) bool {
	return i >= 3 && (i <= len(args) || i == 3) && ifForm(args, 3) == ifForm(args, i)
}

//verif:contract ifCmd.checkArgs
func contract_ifCheckArgs(cmd ifCmd, args []core.Value) {
	requires(okArgs(args))
	requires(len(args) >= 1)
	r := cmd.checkArgs(args)
	good := len(args) >= 3 && ifForm(args, 3)
	ensures("well formed", implies(good, r.Code == core.ResultCode_OK))
	ensures("ill formed", implies(!good, isErr(r)))
}

// ifRest: the position of the clause that decides, from clause i on: the first
// one that is an else, or whose test is not the boolean false, or len(args).
//
//verif:spec
func ifRest(args []core.Value, i int) int {
	if i >= len(args) || word(args[i]) == "else" || isScript(args[i+1]) || !isBoolean(args[i+1]) || boolOf(args[i+1]) {
		return i
	}
	return ifRest(args, i+3)
}

// clauses: at position i there is a complete clause, followed by complete clauses.
func clauses(args []core.Value, i int) bool {
	if i >= len(args) {
		return i == len(args)
	}
	if word(args[i]) == "else" {
		return len(args)-i >= 2 && ifForm(args, i+2)
	}
	return len(args)-i >= 3 && ifForm(args, i+3)
}

// bodyOf: r runs the body, which has to be a script.
func bodyOf(r core.Result, s *Scope, body core.Value) bool {
	if !isScript(body) {
		return isErr(r)
	}
	return runsLast(r, s, body)
}

func ifOutcome(r core.Result, s *Scope, args []core.Value, i int) bool {
	j := ifRest(args, i)
	if j >= len(args) {
		return isOk(r, core.NIL)
	}
	if word(args[j]) == "else" {
		return bodyOf(r, s, args[j+1])
	}
	test := args[j+1]
	if isScript(test) {
		st, ok := dataOf(r).(*ifCmdState)
		return runs(r, s, test, "ifCmdTest$1") && ok && st != nil && owned(st) && st.scope == s && sameSlice(st.args, args) && st.i == j
	}
	if !isBoolean(test) {
		return isErr(r)
	}
	return bodyOf(r, s, args[j+2])
}

//verif:contract ifCmdTest
func contract_ifCmdTest(scope *Scope, args []core.Value, i int) {
	requires(okArgs(args))
	requires(scope != nil && 0 <= i && clauses(args, i))
	r := ifCmdTest(scope, args, i)
	ensures("the deciding clause decides", ifOutcome(r, scope, args, i))
}

//verif:contract ifCmdNext
func contract_ifCmdNext(value core.Value, scope *Scope, args []core.Value, i int) {
	requires(okArgs(args))
	requires(value != nil && scope != nil && 0 <= i && i < len(args) && clauses(args, i) && word(args[i]) != "else")
	r := ifCmdNext(value, scope, args, i)
	ifDecided(r, value, scope, args, i)
}

func ifDecided(r core.Result, value core.Value, scope *Scope, args []core.Value, i int) {
	if !isBoolean(value) {
		ensures("bad test", isErr(r))
	} else if boolOf(value) {
		ensures("body of the clause", bodyOf(r, scope, args[i+2]))
	} else {
		ensures("next clause", ifOutcome(r, scope, args, i+3))
	}
}

//verif:contract ifCmdBody
func contract_ifCmdBody(scope *Scope, args []core.Value, i int) {
	requires(okArgs(args))
	requires(scope != nil && 0 <= i && i < len(args) && clauses(args, i))
	r := ifCmdBody(scope, args, i)
	if word(args[i]) == "else" {
		ensures("else body", bodyOf(r, scope, args[i+1]))
	} else {
		ensures("body", bodyOf(r, scope, args[i+2]))
	}
}

//verif:contract ifCmdTest$1
func contract_ifCallback(target ContinuationCallback, result core.Result, state *ifCmdState) {
	requires(result.Value != nil)
	requires(state != nil && owned(state) && state.scope != nil && okArgs(state.args) && 0 <= state.i && state.i < len(state.args))
	requires(clauses(state.args, state.i) && word(state.args[state.i]) != "else")
	scope, args, i := state.scope, state.args, state.i
	modifies(state)
	r := target(result, state)
	ensures("gives the state back", released(state))
	if result.Code != core.ResultCode_OK {
		ensures("other results pass", identical(r, result))
		return
	}
	ifDecided(r, result.Value, scope, args, i)
}

//verif:contract ifCmd.Execute
func contract_if(cmd ifCmd, args []core.Value, scope *Scope) {
	requires(okArgs(args))
	requires(scope != nil && len(args) >= 1 && word(args[0]) != "else")
	r := cmd.Execute(args, scope)
	if len(args) < 3 || !ifForm(args, 3) {
		ensures("ill formed", isErr(r))
		return
	}
	ensures("the deciding clause decides", ifOutcome(r, scope, args, 0))
}

// goodWhile: the state of a running loop, which the running code owns.
func goodWhile(st *whileCmdState) bool {
	return st != nil && owned(st) && st.scope != nil && st.bodyProgram != nil && st.lastResult.Code == core.ResultCode_OK && st.lastResult.Value != nil
}

// runsProgram: r asks to run the program with the state, then to call the named
// function literal.
func runsProgram(r core.Result, s *Scope, p *core.Program, callback string) bool {
	c, ok := r.Value.(*ContinuationValue)
	return r.Code == core.ResultCode_YIELD && ok && c != nil && c.Scope == s && c.Program == p && isFunc(c.Callback, callback)
}
func hasWhile(r core.Result, st *whileCmdState) bool {
	d, ok := dataOf(r).(*whileCmdState)
	return ok && d == st
}

//verif:contract whileCmd.Execute
func contract_while(cmd whileCmd, args []core.Value, scope *Scope) {
	requires(okArgs(args))
	requires(scope != nil)
	r := cmd.Execute(args, scope)
	if len(args) != 3 {
		ensures("arity", isErr(r))
		return
	}
	test, body := args[1], args[2]
	sv, ok := body.(core.ScriptValue)
	if !ok {
		ensures("the body is a script", isErr(r))
		return
	}
	if !isScript(test) {
		if !isBoolean(test) {
			ensures("bad test", isErr(r))
			return
		}
		if !boolOf(test) {
			ensures("never runs", isOk(r, core.NIL))
			return
		}
		ensures("runs the body", runs(r, scope, body, "whileCmdLoop$1"))
	} else {
		ensures("runs the test", runs(r, scope, test, "whileCmdTest$1"))
	}
	st, ok := dataOf(r).(*whileCmdState)
	ensures("owns its state", ok && goodWhile(st))
	ensures("same scope", st.scope == scope)
	ensures("body", st.bodyProgram == scope.CompileScriptValue(sv))
	if tv, scripted := test.(core.ScriptValue); scripted {
		ensures("test", st.testProgram == scope.CompileScriptValue(tv))
	}
	ensures("no result yet", isOk(st.lastResult, core.NIL))
}

//verif:contract whileCmdLoop
func contract_whileCmdLoop(state *whileCmdState) {
	requires(goodWhile(state))
	r := whileCmdLoop(state)
	ensures("runs the body", runsProgram(r, state.scope, state.bodyProgram, "whileCmdLoop$1"))
	ensures("with the state", hasWhile(r, state))
}

// afterBody: what a body result does to a loop.
func afterBody(r core.Result, result core.Result, st *whileCmdState, last core.Result) {
	switch result.Code {
	case core.ResultCode_BREAK:
		ensures("break ends with the last result", identical(r, last))
		ensures("ends", released(st))
	case core.ResultCode_CONTINUE:
		ensures("continue keeps the last result", identical(st.lastResult, last))
	case core.ResultCode_OK:
		ensures("records the result", identical(st.lastResult, result))
	default:
		ensures("other results pass", identical(r, result))
		ensures("ends", released(st))
	}
}
func goesOn(result core.Result) bool {
	return result.Code == core.ResultCode_CONTINUE || result.Code == core.ResultCode_OK
}

//verif:contract whileCmdLoop$1
func contract_whileLoopCallback(target ContinuationCallback, result core.Result, state *whileCmdState) {
	requires(result.Value != nil)
	requires(goodWhile(state))
	scope, body, last := state.scope, state.bodyProgram, state.lastResult
	modifies(state)
	r := target(result, state)
	afterBody(r, result, state, last)
	if goesOn(result) {
		ensures("loops", runsProgram(r, scope, body, "whileCmdLoop$1"))
		ensures("with the state", hasWhile(r, state))
		ensures("still good", goodWhile(state))
		ensures("same body", state.scope == scope && state.bodyProgram == body)
	}
}

//verif:contract whileCmdTest
func contract_whileCmdTest(state *whileCmdState) {
	requires(goodWhile(state))
	requires(state.testProgram != nil)
	r := whileCmdTest(state)
	ensures("runs the test", runsProgram(r, state.scope, state.testProgram, "whileCmdTest$1"))
	ensures("with the state", hasWhile(r, state))
}

//verif:contract whileCmdTest$1
func contract_whileTestCallback(target ContinuationCallback, result core.Result, state *whileCmdState) {
	requires(result.Value != nil)
	requires(goodWhile(state))
	requires(state.testProgram != nil)
	scope, body, test, last := state.scope, state.bodyProgram, state.testProgram, state.lastResult
	modifies(state)
	r := target(result, state)
	if result.Code != core.ResultCode_OK {
		ensures("other results pass", identical(r, result))
		ensures("ends", released(state))
		return
	}
	if !isBoolean(result.Value) {
		ensures("bad test", isErr(r))
		ensures("ends", released(state))
		return
	}
	if !boolOf(result.Value) {
		ensures("ends with the last result", identical(r, last))
		ensures("ends", released(state))
		return
	}
	ensures("runs the body", runsProgram(r, scope, body, "whileCmdTest$1$1"))
	ensures("with the state", hasWhile(r, state))
	ensures("still good", goodWhile(state))
	ensures("same state", state.scope == scope && state.bodyProgram == body && state.testProgram == test && identical(state.lastResult, last))
}

//verif:contract whileCmdTest$1$1
func contract_whileBodyCallback(target ContinuationCallback, result core.Result, state *whileCmdState) {
	requires(result.Value != nil)
	requires(goodWhile(state))
	requires(state.testProgram != nil)
	scope, body, test, last := state.scope, state.bodyProgram, state.testProgram, state.lastResult
	modifies(state)
	r := target(result, state)
	afterBody(r, result, state, last)
	if goesOn(result) {
		ensures("tests again", runsProgram(r, scope, test, "whileCmdTest$1"))
		ensures("with the state", hasWhile(r, state))
		ensures("still good", goodWhile(state))
		ensures("same programs", state.scope == scope && state.bodyProgram == body && state.testProgram == test)
	}
}

// goodWhen: the state of a running selection, which the running code owns.
func goodWhen(st *whenCmdState) bool {
	return st != nil && owned(st) && st.scope != nil && (!st.hasCommand || st.command != nil) && okArgs(st.cases) && 0 <= st.i && st.i <= len(st.cases)+1
}

// whenRest: without a command, the position of the first clause from i on that
// is the default, or whose test is not the boolean false.
//
//verif:spec
func whenRest(cases []core.Value, i int) int {
	if i >= len(cases)-1 || !isBoolean(cases[i]) || isScript(cases[i]) || isTuple(cases[i]) || boolOf(cases[i]) {
		return i
	}
	return whenRest(cases, i+2)
}
func isTuple(v core.Value) bool {
	_, ok := v.(core.TupleValue)
	return ok
}

// hasWhen: r carries the state, which now designates clause i.
func hasWhen(r core.Result, st *whenCmdState, i int) bool {
	d, ok := dataOf(r).(*whenCmdState)
	return ok && d == st && owned(st) && st.i == i
}

// evaluates: the program evaluates the sentence made of the tuple's elements.
func evaluates(p *core.Program) (core.TupleValue, bool) {
	if p == nil || !sameSlice(p.OpCodes, compileTupleOpCodes) || len(p.Constants) != 1 {
		return core.TupleValue{}, false
	}
	t, ok := p.Constants[0].(core.TupleValue)
	return t, ok
}
func programOf(r core.Result) *core.Program {
	c, ok := r.Value.(*ContinuationValue)
	if !ok || c == nil {
		return nil
	}
	return c.Program
}

// prefixed: vs is the command followed by the test (or by its elements).
func prefixed(vs []core.Value, command, test core.Value) bool {
	t, ok := test.(core.TupleValue)
	if !ok {
		return len(vs) == 2 && identical(vs[0], command) && identical(vs[1], test)
	}
	return len(vs) == len(t.Values)+1 && identical(vs[0], command) &&
		forall(0, len(t.Values), func(k int) bool { return identical(vs[k+1], t.Values[k]) })
}

// tested: r is the outcome of clause i for a known command.
func tested(r core.Result, st *whenCmdState, s *Scope, command core.Value, cases []core.Value, i int) {
	test := cases[i]
	t, ok := evaluates(programOf(r))
	ensures("runs the test", runsProgram(r, s, programOf(r), "whenCmdTest$1") && hasWhen(r, st, i))
	ensures("the test is a sentence", ok)
	ensures("command and test", prefixed(t.Values, command, test))
}

// chosen: r is the outcome of the clauses from i on, without a command.
func chosen(r core.Result, st *whenCmdState, s *Scope, cases []core.Value, i int) bool {
	j := whenRest(cases, i)
	if j >= len(cases) {
		return isOk(r, core.NIL) && released(st)
	}
	if j == len(cases)-1 {
		return bodyOf(r, s, cases[j]) && released(st)
	}
	test := cases[j]
	if isScript(test) {
		return runs(r, s, test, "whenCmdTest$1") && hasWhen(r, st, j)
	}
	if isTuple(test) {
		t, ok := evaluates(programOf(r))
		return runsProgram(r, s, programOf(r), "whenCmdTest$1") && hasWhen(r, st, j) && ok && sameSlice(t.Values, test.(core.TupleValue).Values)
	}
	if !isBoolean(test) {
		return isErr(r) && released(st)
	}
	return bodyOf(r, s, cases[j+1]) && released(st)
}

// outcome: r is the outcome of the clauses from i on.
func outcome(r core.Result, st *whenCmdState, s *Scope, hasCommand bool, command core.Value, cases []core.Value, i int) {
	if !hasCommand {
		ensures("the deciding clause decides", chosen(r, st, s, cases, i))
		return
	}
	if i >= len(cases) {
		ensures("no clause is left", isOk(r, core.NIL) && released(st))
	} else if i == len(cases)-1 {
		ensures("default", bodyOf(r, s, cases[i]) && released(st))
	} else if isScript(command) {
		ensures("runs the command", runs(r, s, command, "whenCmdCommand$1") && hasWhen(r, st, i))
	} else {
		tested(r, st, s, command, cases, i)
	}
}
func sameWhen(st *whenCmdState, s *Scope, hasCommand bool, command core.Value, cases []core.Value) {
	ensures("same selection", implies(owned(st), st.scope == s && st.hasCommand == hasCommand && identical(st.command, command) && sameSlice(st.cases, cases)))
	ensures("still good", implies(owned(st), goodWhen(st)))
}

//verif:contract whenCmdCommand
func contract_whenCmdCommand(state *whenCmdState) {
	requires(goodWhen(state))
	scope, hasCommand, command, cases, i := state.scope, state.hasCommand, state.command, state.cases, state.i
	modifies(state)
	r := whenCmdCommand(state)
	outcome(r, state, scope, hasCommand, command, cases, i)
	sameWhen(state, scope, hasCommand, command, cases)
}

//verif:contract whenCmdTest
func contract_whenCmdTest(command core.Value, state *whenCmdState) {
	requires(goodWhen(state))
	requires(state.i < len(state.cases)-1 && command != nil)
	scope, hasCommand, command0, cases, i := state.scope, state.hasCommand, state.command, state.cases, state.i
	modifies(state)
	r := whenCmdTest(command, state)
	if hasCommand {
		tested(r, state, scope, command, cases, i)
	} else {
		ensures("the deciding clause decides", chosen(r, state, scope, cases, i))
	}
	sameWhen(state, scope, hasCommand, command0, cases)
}

//verif:contract whenCmdBody
func contract_whenCmdBody(state *whenCmdState) {
	requires(goodWhen(state))
	requires(state.i < len(state.cases))
	scope, cases, i := state.scope, state.cases, state.i
	modifies(state)
	r := whenCmdBody(state)
	if i == len(cases)-1 {
		ensures("default", bodyOf(r, scope, cases[i]))
	} else {
		ensures("body of the clause", bodyOf(r, scope, cases[i+1]))
	}
	ensures("gives the state back", released(state))
}

//verif:contract whenCmdCommand$1
func contract_whenCommandCallback(target ContinuationCallback, result core.Result, state *whenCmdState) {
	requires(result.Value != nil)
	requires(goodWhen(state))
	requires(state.i < len(state.cases)-1 && state.hasCommand)
	scope, hasCommand, command, cases, i := state.scope, state.hasCommand, state.command, state.cases, state.i
	modifies(state)
	r := target(result, state)
	if result.Code != core.ResultCode_OK {
		ensures("other results pass", identical(r, result))
		ensures("ends", released(state))
		return
	}
	tested(r, state, scope, result.Value, cases, i)
	sameWhen(state, scope, hasCommand, command, cases)
}

//verif:contract whenCmdTest$1
func contract_whenTestCallback(target ContinuationCallback, result core.Result, state *whenCmdState) {
	requires(result.Value != nil)
	requires(goodWhen(state))
	requires(state.i < len(state.cases)-1)
	scope, hasCommand, command, cases, i := state.scope, state.hasCommand, state.command, state.cases, state.i
	modifies(state)
	r := target(result, state)
	if result.Code != core.ResultCode_OK {
		ensures("other results pass", identical(r, result))
		ensures("ends", released(state))
		return
	}
	if !isBoolean(result.Value) {
		ensures("bad test", isErr(r))
		ensures("ends", released(state))
		return
	}
	if boolOf(result.Value) {
		ensures("body of the clause", bodyOf(r, scope, cases[i+1]))
		ensures("ends", released(state))
		return
	}
	outcome(r, state, scope, hasCommand, command, cases, i+2)
	sameWhen(state, scope, hasCommand, command, cases)
}

//verif:contract whenCmd.Execute
func contract_when(cmd whenCmd, args []core.Value, scope *Scope) {
	requires(okArgs(args))
	requires(scope != nil)
	r := cmd.Execute(args, scope)
	if len(args) != 2 && len(args) != 3 {
		ensures("arity", isErr(r))
		return
	}
	bad, cases := ValueToArray(args[len(args)-1])
	if bad.Code != core.ResultCode_OK {
		ensures("bad cases", isErr(r))
		return
	}
	if len(cases) == 0 {
		ensures("no clause", isOk(r, core.NIL))
		return
	}
	st, ok := dataOf(r).(*whenCmdState)
	if len(args) == 2 {
		if ok && r.Code == core.ResultCode_YIELD {
			ensures("the deciding clause decides", chosen(r, st, scope, cases, 0))
		} else {
			ensures("the deciding clause decides at once", decidedAtOnce(r, scope, cases))
		}
		return
	}
	if len(cases) == 1 {
		ensures("default", bodyOf(r, scope, cases[0]))
	} else if isScript(args[1]) {
		ensures("runs the command", runs(r, scope, args[1], "whenCmdCommand$1") && hasWhen(r, st, 0))
	} else {
		tested(r, st, scope, args[1], cases, 0)
	}
}

func decidedAtOnce(r core.Result, s *Scope, cases []core.Value) bool {
	j := whenRest(cases, 0)
	if j >= len(cases) {
		return isOk(r, core.NIL)
	}
	if j == len(cases)-1 {
		return bodyOf(r, s, cases[j])
	}
	if isScript(cases[j]) || isTuple(cases[j]) {
		return false
	}
	if !isBoolean(cases[j]) {
		return isErr(r)
	}
	return bodyOf(r, s, cases[j+1])
}
