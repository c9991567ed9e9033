//verif:property C15
package helena_dialect

import "helena/core"

// A run of a process.
type ghostRun struct {
	process *Process
	result  core.Result
}

// ghost counts the processes that the command under verification runs, and
// keeps the first three runs.
var ghost ghostRuns

type ghostRuns struct {
	n          int
	r1, r2, r3 ghostRun
	back       *Process   // the process last given a value back
	value      core.Value // that value
}

func logRun(p *Process, r core.Result) {
	switch ghost.n {
	case 0:
		ghost.r1 = ghostRun{p, r}
	case 1:
		ghost.r2 = ghostRun{p, r}
	case 2:
		ghost.r3 = ghostRun{p, r}
	}
	ghost.n++
}
func runNo(k int) ghostRun {
	switch k {
	case 1:
		return ghost.r1
	case 2:
		return ghost.r2
	}
	return ghost.r3
}

// What a process runs; fixed when it is made.
//
//verif:opaque helena/helena_dialect.processScope
func processScope(p *Process) *Scope { return p.stack.stack[0].scope }

//verif:opaque helena/helena_dialect.processProgram
func processProgram(p *Process) *core.Program { return p.stack.stack[0].program }

//verif:trusted (*helena/helena_dialect.Scope).PrepareProcess
func contract_trusted_PrepareProcess(s *Scope, program *core.Program) *Process {
	p := s.PrepareProcess(program)
	ensures("new process", p != nil && processScope(p) == s && processProgram(p) == program)
	return p
}

// Running a process may do anything to scopes, but it leaves the states of
// suspended commands and the argument lists alone.
//
//verif:trusted (*helena/helena_dialect.Process).Run
func contract_trusted_Run(p *Process) core.Result {
	requires(p != nil)
	r := p.Run()
	logRun(p, r)
	ensures("value", r.Value != nil)
	if r.Code == core.ResultCode_CUSTOM {
		_, ok := r.Data.(core.CustomResultCode)
		ensures("custom code", ok)
	}
	ensures("known code", r.Code >= core.ResultCode_OK && r.Code <= core.ResultCode_CUSTOM)
	return r
}

//verif:trusted (*helena/helena_dialect.Process).YieldBack
func contract_trusted_YieldBack(p *Process, value core.Value) {
	requires(p != nil)
	p.YieldBack(value)
	ghost.back, ghost.value = p, value
}

// catchForm: from position i on, args reads as complete handlers.
//
//verif:spec
func catchForm(args []core.Value, i int) bool {
	if i >= len(args) {
		return i == len(args)
	}
	if !isString(args[i]) {
		return false
	}
	switch stringOf(args[i]) {
	case "return", "yield", "error":
		return len(args)-i >= 3 && isString(args[i+1]) && catchForm(args, i+3)
	case "break", "continue", "finally":
		return len(args)-i >= 2 && catchForm(args, i+2)
	}
	return false
}

func codeKeyword(code core.ResultCode) string {
	switch code {
	case core.ResultCode_RETURN:
		return "return"
	case core.ResultCode_YIELD:
		return "yield"
	case core.ResultCode_ERROR:
		return "error"
	case core.ResultCode_BREAK:
		return "break"
	case core.ResultCode_CONTINUE:
		return "continue"
	}
	return ""
}

// handlerAt: the position of the first handler with that keyword, or len(args).
//
//verif:spec
func handlerAt(args []core.Value, i int, keyword string) int {
	if i >= len(args) {
		return i
	}
	k := word(args[i])
	if k == keyword {
		return i
	}
	if k == "return" || k == "yield" || k == "error" {
		return handlerAt(args, i+3, keyword)
	}
	return handlerAt(args, i+2, keyword)
}

//verif:inv contract_catchCheckArgs
func inv_catchCheckArgs(args []core.Value, i int) bool {
	return i >= 2 && (i <= len(args) || i == 2) && catchForm(args, 2) == catchForm(args, i)
}

//verif:contract catchCmd.checkArgs
func contract_catchCheckArgs(cmd catchCmd, args []core.Value) {
	requires(okArgs(args))
	requires(len(args) >= 1)
	r := cmd.checkArgs(args)
	good := len(args) >= 2 && catchForm(args, 2)
	ensures("well formed", implies(good, r.Code == core.ResultCode_OK))
	ensures("ill formed", implies(!good, isErr(r)))
}

//verif:inv contract_findHandlerIndex
func inv_findHandlerIndex(code core.ResultCode, args []core.Value, i int) bool {
	return i >= 2 && i <= len(args) && catchForm(args, i) && handlerAt(args, 2, codeKeyword(code)) == handlerAt(args, i, codeKeyword(code))
}

//verif:variant contract_findHandlerIndex
func var_findHandlerIndex(args []core.Value, i int) int { return len(args) - i }

//verif:contract catchCmd.findHandlerIndex
//verif:pure
func contract_findHandlerIndex(cmd catchCmd, code core.ResultCode, args []core.Value) {
	requires(okArgs(args))
	requires(len(args) >= 2 && catchForm(args, 2))
	i := cmd.findHandlerIndex(code, args)
	ensures("handler of the code", i == handlerAt(args, 2, codeKeyword(code)))
	ensures("in range", 2 <= i && i <= len(args))
	ensures("none without keyword", implies(codeKeyword(code) == "", i == len(args)))
	if i < len(args) {
		ensures("complete", len(args)-i >= 2 && implies(code == core.ResultCode_RETURN || code == core.ResultCode_YIELD || code == core.ResultCode_ERROR, len(args)-i >= 3))
	}
}

//verif:inv contract_findFinallyIndex
func inv_findFinallyIndex(args []core.Value, i int) bool {
	return i >= 2 && i <= len(args) && catchForm(args, i) && handlerAt(args, 2, "finally") == handlerAt(args, i, "finally")
}

//verif:variant contract_findFinallyIndex
func var_findFinallyIndex(args []core.Value, i int) int { return len(args) - i }

//verif:contract catchCmd.findFinallyIndex
//verif:pure
func contract_findFinallyIndex(cmd catchCmd, args []core.Value) {
	requires(okArgs(args))
	requires(len(args) >= 2 && catchForm(args, 2))
	i := cmd.findFinallyIndex(args)
	ensures("finally handler", i == handlerAt(args, 2, "finally"))
	ensures("in range", 2 <= i && i <= len(args))
	ensures("complete", implies(i < len(args), len(args)-i >= 2))
}

// goodCatch: the state of a catch under way.
func goodCatch(st *catchState) bool {
	return st != nil && okArgs(st.args) && len(st.args) >= 3 && catchForm(st.args, 2) &&
		st.step >= catchStateStep_beforeBody && st.step <= catchStateStep_inFinally &&
		(st.step == catchStateStep_beforeBody || st.bodyProcess != nil) &&
		(st.step != catchStateStep_inHandler || st.process != nil && keptResult(st.bodyResult)) &&
		(st.step != catchStateStep_inFinally || st.process != nil && keptResult(st.result))
}
func keptResult(r core.Result) bool {
	return goodResult(r) && (r.Code != core.ResultCode_YIELD || r.Data == nil)
}
func goodResult(r core.Result) bool {
	_, ok := r.Data.(core.CustomResultCode)
	return r.Value != nil && r.Code >= core.ResultCode_OK && r.Code <= core.ResultCode_CUSTOM && (r.Code != core.ResultCode_CUSTOM || ok)
}

// suspended: r yields the value and the state, which waits in that step.
func suspended(r core.Result, st *catchState, value core.Value, step catchStateStep) bool {
	d, ok := r.Data.(*catchState)
	return r.Code == core.ResultCode_YIELD && identical(r.Value, value) && ok && d == st && st.step == step && goodCatch(st)
}

// runsIn: the process runs the script in the scope.
func runsIn(p *Process, s *Scope, script core.Value) bool {
	sv, ok := script.(core.ScriptValue)
	return ok && p != nil && processScope(p) == s && processProgram(p) == s.CompileScriptValue(sv)
}

// runsWith: the process runs the script in a scope of its own, in which the name
// (and no other local) has the value.
func runsWith(p *Process, s *Scope, script core.Value, name string, value core.Value) bool {
	if p == nil {
		return false
	}
	sub := processScope(p)
	return sub != nil && runsIn(p, sub, script) && sub.Context == s.Context && onlyLocal(sub, name, value)
}
func onlyLocal(s *Scope, name string, value core.Value) bool {
	return s.localSlots != nil && len(s.localValues) == 1 && identical(s.localValues[0], value) && forallKey(func(k string) bool {
		i, ok := s.localSlots[k]
		return ok == (k == name) && i == 0
	})
}
func takesValue(code core.ResultCode) bool {
	return code == core.ResultCode_RETURN || code == core.ResultCode_YIELD || code == core.ResultCode_ERROR
}

// ofBody: what the command keeps of the body's result: the state of a suspended
// command belongs to that command.
func ofBody(b core.Result) core.Result {
	if b.Code == core.ResultCode_YIELD {
		b.Data = nil
	}
	return b
}

// caught: the outcome once the body gave b; the next run is number k.
func caught(r core.Result, st *catchState, s *Scope, b core.Result, k int) bool {
	args := st.args
	i := handlerAt(args, 2, codeKeyword(b.Code))
	if i >= len(args) {
		return finished(r, st, s, b, k)
	}
	if takesValue(b.Code) {
		if !isScript(args[i+2]) {
			return isErr(r) && ghost.n == k-1
		}
		return ghost.n >= k && runsWith(runNo(k).process, s, args[i+2], word(args[i+1]), b.Value) && handled(r, st, s, b, k)
	}
	if !isScript(args[i+1]) {
		return isErr(r) && ghost.n == k-1
	}
	return ghost.n >= k && runsIn(runNo(k).process, s, args[i+1]) && handled(r, st, s, b, k)
}

// handled: the outcome of the handler, run number k, when the body gave b.
func handled(r core.Result, st *catchState, s *Scope, b core.Result, k int) bool {
	h := runNo(k).result
	switch h.Code {
	case core.ResultCode_OK:
		return finished(r, st, s, h, k+1)
	case core.ResultCode_YIELD:
		return suspended(r, st, h.Value, catchStateStep_inHandler) && st.process == runNo(k).process && identical(st.bodyResult, b) && ghost.n == k
	case core.ResultCode_CUSTOM:
		if h.Data.(core.CustomResultCode) == passResultCode {
			if b.Code == core.ResultCode_YIELD {
				return suspended(r, st, b.Value, catchStateStep_inBody) && ghost.n == k
			}
			return finished(r, st, s, b, k+1)
		}
	}
	return identical(r, h) && ghost.n == k
}

// finished: the outcome when the command is about to give f; the next run is number k.
func finished(r core.Result, st *catchState, s *Scope, f core.Result, k int) bool {
	args := st.args
	i := handlerAt(args, 2, "finally")
	if i >= len(args) {
		return identical(r, f) && ghost.n == k-1
	}
	if !isScript(args[i+1]) {
		return isErr(r) && ghost.n == k-1
	}
	return ghost.n >= k && runsIn(runNo(k).process, s, args[i+1]) && cleaned(r, st, f, k)
}

// cleaned: the outcome of the finally handler, run number k, when the command is
// about to give f.
func cleaned(r core.Result, st *catchState, f core.Result, k int) bool {
	h := runNo(k).result
	switch h.Code {
	case core.ResultCode_OK:
		return identical(r, f) && ghost.n == k
	case core.ResultCode_YIELD:
		return suspended(r, st, h.Value, catchStateStep_inFinally) && st.process == runNo(k).process && identical(st.result, f) && ghost.n == k
	}
	return identical(r, h) && ghost.n == k
}

// What run requires, and what it does from each of the steps it is called in.
//
//verif:contract catchCmd.run
//verif:unroll 8
//verif:noreplay
func contract_catchRun(cmd catchCmd, state *catchState, scope *Scope) {
	requires(goodScope(scope))
	requires(goodCatch(state))
	requires(state.step == catchStateStep_beforeBody && ghost.n == 0)
	args := state.args
	modifies(state, &ghost)
	r := cmd.run(state, scope)
	if d, ok := r.Data.(*catchState); ok && r.Code == core.ResultCode_YIELD {
		ensures("waits in its own state", d == state)
	}
	ensures("same arguments", sameSlice(state.args, args))
	if !isScript(args[1]) {
		ensures("the body is a script", isErr(r) && ghost.n == 0)
		return
	}
	ensures("runs the body", ghost.n >= 1 && runsIn(ghost.r1.process, scope, args[1]))
	ensures("remembers the body", implies(state.step == catchStateStep_inBody, state.bodyProcess == ghost.r1.process))
	ensures("catches", caught(r, state, scope, ofBody(ghost.r1.result), 2))
}

// ... and once resumed: from the body, from a handler, or from the finally handler.
//
//verif:contract catchCmd.run
//verif:unroll 8
//verif:noreplay
func contract_catchRunAgain(cmd catchCmd, state *catchState, scope *Scope) {
	requires(goodScope(scope))
	requires(resumable(state))
	requires(ghost.n == 0)
	step, args, body, process, b, f := state.step, state.args, state.bodyProcess, state.process, state.bodyResult, state.result
	back, value := ghost.back, ghost.value
	modifies(state, &ghost)
	r := cmd.run(state, scope)
	if d, ok := r.Data.(*catchState); ok && r.Code == core.ResultCode_YIELD {
		ensures("waits in its own state", d == state)
	}
	ensures("same arguments", sameSlice(state.args, args))
	ensures("gives back nothing", ghost.back == back && identical(ghost.value, value))
	switch step {
	case catchStateStep_inBody:
		ensures("resumes the body", ghost.n >= 1 && ghost.r1.process == body)
		ensures("remembers the body", state.bodyProcess == body)
		ensures("catches", caught(r, state, scope, ofBody(ghost.r1.result), 2))
	case catchStateStep_inHandler:
		ensures("resumes the handler", ghost.n >= 1 && ghost.r1.process == process)
		ensures("remembers the body", state.bodyProcess == body)
		ensures("handles", handled(r, state, scope, b, 1))
	default:
		ensures("resumes the finally handler", ghost.n >= 1 && ghost.r1.process == process)
		ensures("cleans up", cleaned(r, state, f, 1))
	}
}

// resumable: a catch waits in the body, in a handler or in the finally handler.
func resumable(st *catchState) bool {
	return goodCatch(st) && (st.step == catchStateStep_inBody || st.step == catchStateStep_inHandler || st.step == catchStateStep_inFinally)
}

// The command itself: it checks its arguments, and goes through the steps; with
// only a body, it gives the body's outcome as a tuple.
//
//verif:contract catchCmd.Execute
//verif:unroll 8
//verif:noreplay
func contract_catchExecute(cmd catchCmd, args []core.Value, context any) {
	scope, ok := context.(*Scope)
	requires(ok && goodScope(scope))
	requires(okArgs(args) && len(args) >= 1)
	requires(ghost.n == 0)
	modifies(&ghost)
	r := cmd.Execute(args, context)
	if len(args) < 2 || !catchForm(args, 2) {
		ensures("ill formed", isErr(r) && ghost.n == 0)
		return
	}
	if !isScript(args[1]) {
		ensures("the body is a script", isErr(r) && ghost.n == 0)
		return
	}
	ensures("runs the body", ghost.n >= 1 && runsIn(ghost.r1.process, scope, args[1]))
	b := ghost.r1.result
	if len(args) == 2 {
		ensures("runs nothing else", ghost.n == 1)
		t, ok := r.Value.(core.TupleValue)
		ensures("gives a tuple", r.Code == core.ResultCode_OK && ok && len(t.Values) >= 1 && isString(t.Values[0]) && stringOf(t.Values[0]) == core.RESULT_CODE_NAME(b))
		if b.Code == core.ResultCode_OK || takesValue(b.Code) {
			ensures("with the value", len(t.Values) == 2 && identical(t.Values[1], b.Value))
		} else {
			ensures("without value", len(t.Values) == 1)
		}
		return
	}
	if r.Code == core.ResultCode_YIELD {
		if st, ok := r.Data.(*catchState); ok {
			ensures("state of its own", isFresh(st))
			ensures("keeps the arguments", sameSlice(st.args, args))
			ensures("catches", caught(r, st, scope, ofBody(b), 2))
		}
	}
}

// Resuming gives the value to the process that waits, and goes on from there; a
// catch that waits for nothing (its body yielded and it had no handler) gives it.
//
//verif:contract catchCmd.Resume
//verif:use contract_catchRunAgain
//verif:unroll 8
//verif:noreplay
func contract_catchResume(cmd catchCmd, result core.Result, context any) {
	scope, ok := context.(*Scope)
	requires(ok && goodScope(scope))
	requires(result.Value != nil && ghost.n == 0)
	st, ok := result.Data.(*catchState)
	requires(!ok || resumable(st))
	if !ok {
		modifies(&ghost)
		r := cmd.Resume(result, context)
		ensures("is over", r.Code == core.ResultCode_OK && identical(r.Value, result.Value) && ghost.n == 0)
		return
	}
	step, body, process, args := st.step, st.bodyProcess, st.process, st.args
	b, f := st.bodyResult, st.result
	modifies(st, &ghost)
	r := cmd.Resume(result, context)
	ensures("same arguments", sameSlice(st.args, args))
	ensures("gives the value", identical(ghost.value, result.Value))
	switch step {
	case catchStateStep_inBody:
		ensures("to the body", ghost.back == body && ghost.n >= 1 && ghost.r1.process == body)
		ensures("catches", caught(r, st, scope, ofBody(ghost.r1.result), 2))
	case catchStateStep_inHandler:
		ensures("to the handler", ghost.back == process && ghost.n >= 1 && ghost.r1.process == process)
		ensures("handles", handled(r, st, scope, b, 1))
	case catchStateStep_inFinally:
		ensures("to the finally handler", ghost.back == process && ghost.n >= 1 && ghost.r1.process == process)
		ensures("cleans up", cleaned(r, st, f, 1))
	}
}

//verif:contract passCmd.Execute
func contract_passExecute(cmd passCmd, args []core.Value, context any) {
	requires(okArgs(args))
	r := cmd.Execute(args, context)
	if len(args) == 1 {
		ensures("passes", core.IsCustomResult(r, passResultCode))
	} else {
		ensures("arity", isErr(r))
	}
}
