//verif:property C05
package core

// goodState: frames start within the stack, in order, the first at its base,
// and each has its own result.
func goodState(s *ProgramState) bool {
	n := len(s.frames)
	return n >= 1 && len(s.frameResults) == n && s.frames[0] == 0 && s.frames[n-1] <= len(s.stack) && framesInOrder(s)
}
func framesInOrder(s *ProgramState) bool {
	return forall(0, len(s.frames), func(i int) bool {
		return 0 <= s.frames[i] && forall(i, len(s.frames), func(j int) bool { return s.frames[i] <= s.frames[j] })
	})
}

//verif:contract NewProgramState
func contract_NewProgramState() {
	s := NewProgramState()
	ensures("new state", s != nil && isFresh(s) && goodState(s))
	ensures("one empty frame", len(s.frames) == 1 && len(s.stack) == 0)
	ensures("at the start", s.PC == 0 && s.CC == 0 && s.Result.Code == ResultCode_OK && identical(s.Result.Value, Value(NIL)))
	ensures("arrays of its own", isFresh(s.frames) && isFresh(s.frameResults))
}

//verif:contract ProgramState.Reset
func contract_Reset(s *ProgramState) {
	requires(s != nil && goodState(s))
	modifies(s, s.frames, s.frameResults)
	s.Reset()
	ensures("well formed", goodState(s))
	ensures("one empty frame", len(s.frames) == 1 && len(s.stack) == 0 && len(s.LastFrame) == 0)
	ensures("at the start", s.PC == 0 && s.CC == 0 && s.Command == nil && s.Result.Code == ResultCode_OK && identical(s.Result.Value, Value(NIL)))
	ensures("no result left", s.frameResults[0].Code == ResultCode_OK && identical(s.frameResults[0].Value, Value(NIL)) && s.frameResults[0].Data == nil)
}

//verif:contract ProgramState.SetResult
func contract_SetResult(s *ProgramState, result Result) {
	requires(s != nil && goodState(s))
	modifies(s, s.frameResults)
	before := snap(s.frameResults)
	stack, frames := s.stack, s.frames
	s.SetResult(result)
	n := len(before)
	ensures("the stack stays", sameSlice(s.stack, stack) && len(s.stack) == len(stack) && sameSlice(s.frames, frames) && len(s.frames) == len(frames))
	ensures("the result", s.Result.Code == result.Code && identical(s.Result.Value, result.Value))
	ensures("of this frame", len(s.frameResults) == n && s.frameResults[n-1].Code == result.Code && identical(s.frameResults[n-1].Value, result.Value))
	ensures("outer frames keep theirs", forall(0, n-1, func(i int) bool {
		return s.frameResults[i].Code == before[i].Code && identical(s.frameResults[i].Value, before[i].Value)
	}))
}

//verif:contract ProgramState.OpenFrame
func contract_OpenFrame(s *ProgramState) {
	requires(s != nil && goodState(s))
	modifies(s, s.frames, s.frameResults)
	stack, frames, results := s.stack, snap(s.frames), snap(s.frameResults)
	pc, cc := s.PC, s.CC
	s.OpenFrame()
	n := len(frames)
	ensures("well formed", goodState(s))
	ensures("one more frame", len(s.frames) == n+1)
	ensures("an empty one", s.frames[n] == len(s.stack))
	ensures("with no result", s.frameResults[n].Code == ResultCode_OK && identical(s.frameResults[n].Value, Value(NIL)))
	ensures("the stack stays", sameSlice(s.stack, stack) && len(s.stack) == len(stack))
	ensures("outer frames stay", forall(0, n, func(i int) bool { return s.frames[i] == frames[i] }))
	ensures("with their results", forall(0, n, func(i int) bool {
		return s.frameResults[i].Code == results[i].Code && identical(s.frameResults[i].Value, results[i].Value)
	}))
	ensures("counters stay", s.PC == pc && s.CC == cc)
}

//verif:contract ProgramState.CloseFrame
func contract_CloseFrame(s *ProgramState) {
	requires(s != nil && goodState(s))
	requires(len(s.frames) >= 2)
	modifies(s)
	stack, frames, results := s.stack, s.frames, s.frameResults
	pc, cc := s.PC, s.CC
	s.CloseFrame()
	n := len(frames)
	start := frames[n-1]
	ensures("well formed", goodState(s))
	ensures("one frame less", len(s.frames) == n-1 && len(s.frameResults) == n-1)
	ensures("the values of the frame", len(s.LastFrame) == len(stack)-start)
	ensures("in order", forall(0, len(s.LastFrame), func(i int) bool { return identical(s.LastFrame[i], stack[start+i]) }))
	ensures("the others stay", len(s.stack) == start && (start == 0 || sameSlice(s.stack, stack[:start])))
	ensures("outer frames stay", sameSlice(s.frames, frames[:n-1]) && sameSlice(s.frameResults, results[:n-1]))
	ensures("counters stay", s.PC == pc && s.CC == cc)
}

//verif:contract ProgramState.Empty
func contract_Empty(s *ProgramState) {
	requires(s != nil && goodState(s))
	ensures("no value in the frame", s.Empty() == (len(s.stack) == s.frames[len(s.frames)-1]))
}

//verif:contract ProgramState.Push
func contract_Push(s *ProgramState, value Value) {
	requires(s != nil && goodState(s))
	modifies(s, s.stack)
	stack, frames := snap(s.stack), s.frames
	pc, cc := s.PC, s.CC
	s.Push(value)
	n := len(stack)
	ensures("well formed", goodState(s))
	ensures("one more value", len(s.stack) == n+1 && identical(s.stack[n], value))
	ensures("the others stay", forall(0, n, func(i int) bool { return identical(s.stack[i], stack[i]) }))
	ensures("frames stay", sameSlice(s.frames, frames) && len(s.frames) == len(frames))
	ensures("counters stay", s.PC == pc && s.CC == cc)
}

//verif:contract ProgramState.Pop
func contract_Pop(s *ProgramState) {
	requires(s != nil && goodState(s))
	requires(len(s.stack) > s.frames[len(s.frames)-1])
	modifies(s)
	stack, frames := s.stack, s.frames
	pc, cc := s.PC, s.CC
	v := s.Pop()
	n := len(stack)
	ensures("well formed", goodState(s))
	ensures("the last value", identical(v, stack[n-1]))
	ensures("the others stay", len(s.stack) == n-1 && (n == 1 || sameSlice(s.stack, stack[:n-1])))
	ensures("frames stay", sameSlice(s.frames, frames) && len(s.frames) == len(frames))
	ensures("counters stay", s.PC == pc && s.CC == cc)
}

//verif:contract ProgramState.Expand
func contract_Expand(s *ProgramState) {
	requires(s != nil && goodState(s))
	requires(len(s.stack) > s.frames[len(s.frames)-1])
	requires(s.stack[len(s.stack)-1] != nil)
	t, isTuple := s.stack[len(s.stack)-1].(TupleValue)
	requires(!isTuple || !inArray(t.Values, s.stack))
	modifies(s, s.stack)
	stack, frames := snap(s.stack), s.frames
	pc, cc := s.PC, s.CC
	s.Expand()
	n := len(stack)
	ensures("well formed", goodState(s))
	ensures("other values stay", forall(0, n-1, func(i int) bool { return identical(s.stack[i], stack[i]) }))
	if isTuple {
		ensures("as many as the tuple has", len(s.stack) == n-1+len(t.Values))
		ensures("the elements in order", forall(0, len(t.Values), func(i int) bool { return identical(s.stack[n-1+i], t.Values[i]) }))
	} else {
		ensures("others as they are", len(s.stack) == n && identical(s.stack[n-1], stack[n-1]))
	}
	ensures("frames stay", sameSlice(s.frames, frames) && len(s.frames) == len(frames))
	ensures("counters stay", s.PC == pc && s.CC == cc)
}

// ---- resolution

// resolves: what a variable resolver answers; defined by its calls.
//
//verif:opaque helena/core.variableOf
func variableOf(r VariableResolver, name string, v Value) bool { return r != nil }

//verif:iface core.VariableResolver.Resolve
func contract_VariableResolver(r VariableResolver, name string) Value {
	v := r.Resolve(name)
	ensures("definition", variableOf(r, name, v))
	return v
}

//verif:contract Executor.resolveVariable
func contract_resolveVariable(executor *Executor, name string) {
	requires(executor != nil)
	r := executor.resolveVariable(name)
	if executor.VariableResolver == nil {
		ensures("no resolver", r.Code == ResultCode_ERROR)
		return
	}
	ensures("ok or error", r.Code == ResultCode_OK || r.Code == ResultCode_ERROR)
	ensures("the variable", implies(r.Code == ResultCode_OK, r.Value != nil && variableOf(executor.VariableResolver, name, r.Value)))
	ensures("unknown variable", implies(r.Code == ResultCode_ERROR, variableOf(executor.VariableResolver, name, nil)))
}

// Displaying values only makes texts for messages.
//
//verif:opaque helena/core.DisplayList
//verif:opaque helena/core.resolvesTo helena/core.qualifiedTo helena/core.commandOf helena/core.selectorOf
func resolvesTo(e *Executor, source Value, code ResultCode, w Value) bool { return e != nil }
func qualifiedTo(e *Executor, q QualifiedValue, code ResultCode, w Value) bool {
	return e != nil
}
func commandOf(r CommandResolver, name Value, c Command) bool { return r != nil }
func selectorOf(r SelectorResolver, rules []Value, code ResultCode, s Selector) bool {
	return r != nil
}

//verif:iface core.CommandResolver.Resolve
func contract_CommandResolver(r CommandResolver, name Value) Command {
	c := r.Resolve(name)
	ensures("definition", commandOf(r, name, c))
	return c
}

//verif:iface core.SelectorResolver.Resolve
func contract_SelectorResolver(r SelectorResolver, rules []Value) (Result, Selector) {
	c, s := r.Resolve(rules)
	ensures("definition", selectorOf(r, rules, c.Code, s))
	return c, s
}

//verif:contract Executor.resolveCommand
func contract_resolveCommand(executor *Executor, cmdname Value) {
	requires(executor != nil && cmdname != nil)
	r, c := executor.resolveCommand(cmdname)
	if executor.CommandResolver == nil {
		ensures("no resolver", r.Code == ResultCode_ERROR)
		return
	}
	ensures("ok or error", r.Code == ResultCode_OK || r.Code == ResultCode_ERROR)
	ensures("the command", implies(r.Code == ResultCode_OK, c != nil && commandOf(executor.CommandResolver, cmdname, c)))
	ensures("unknown command", implies(r.Code == ResultCode_ERROR, commandOf(executor.CommandResolver, cmdname, nil)))
}

//verif:contract Executor.resolveSelector
func contract_resolveSelector(executor *Executor, rules []Value) {
	requires(executor != nil)
	requires(forall(0, len(rules), func(i int) bool { return rules[i] != nil }))
	r, s := executor.resolveSelector(rules)
	if executor.SelectorResolver == nil {
		ensures("no resolver", r.Code == ResultCode_ERROR)
		return
	}
	ensures("the selector", implies(r.Code == ResultCode_OK, s != nil && selectorOf(executor.SelectorResolver, rules, ResultCode_OK, s)))
}

// chain follows the selectors that the function under verification applies: it
// stays whole while each one, in order, is applied to what the one before gave.
var chain selectorChain

type selectorChain struct {
	selectors []Selector
	steps     int
	whole     bool
	last      Value
	code      ResultCode
}

func (*selectorChain) verifGhost() {}

//verif:inv contract_resolveQualified
func inv_resolveQualified(executor *Executor, qualified QualifiedValue, result Result, i int) bool {
	return result.Code == ResultCode_OK && result.Value != nil && chain.code == ResultCode_OK && chain.whole && chain.steps == i+1 && sameSlice(chain.selectors, qualified.Selectors)
}

//verif:inv contract_resolveQualified
func inv_resolveQualified2(result Result) bool {
	return chain.steps == 0 || identical(chain.last, result.Value)
}

//verif:inv contract_resolveQualified
func inv_resolveQualified3(executor *Executor, qualified QualifiedValue, result Result) bool {
	return implies(chain.steps == 0, resolvesTo(executor, qualified.Source, ResultCode_OK, result.Value))
}

//verif:contract Executor.resolveQualified
func contract_resolveQualified(executor *Executor, qualified QualifiedValue) {
	requires(executor != nil && inv_QualifiedValue(qualified))
	modifies(&chain)
	chain.selectors, chain.steps, chain.whole, chain.code = qualified.Selectors, 0, true, ResultCode_OK
	r := executor.resolveQualified(qualified)
	defines(qualifiedTo(executor, qualified, r.Code, r.Value))
	if replaying() {
		return
	}
	ensures("each selector, in order, applies to what the one before gave", chain.whole)
	if r.Code == ResultCode_OK {
		ensures("all of them", chain.steps == len(qualified.Selectors))
		ensures("what the last one gives", chain.steps == 0 || identical(r.Value, chain.last))
	}
	if chain.steps == 0 {
		ensures("no selector: the source", resolvesTo(executor, qualified.Source, r.Code, r.Value))
	} else {
		ensures("the answer of the last one", r.Code == chain.code && identical(r.Value, chain.last))
	}
	ensures("a value", implies(r.Code == ResultCode_OK, r.Value != nil))
}

//verif:inv contract_resolveTuple
func inv_resolveTuple1(values []Value, tuple TupleValue) bool {
	return len(values) == len(tuple.Values) && isFresh(values)
}

//verif:inv contract_resolveTuple
func inv_resolveTuple2(executor *Executor, tuple TupleValue, values []Value, i int) bool {
	return forall(0, i+1, func(k int) bool {
		return values[k] != nil && resolvesTo(executor, tuple.Values[k], ResultCode_OK, values[k])
	})
}

//verif:contract Executor.resolveTuple
func contract_resolveTuple(executor *Executor, tuple TupleValue) {
	requires(executor != nil && inv_TupleValue(tuple))
	modifies(&chain)
	r := executor.resolveTuple(tuple)
	defines(resolvesTo(executor, tuple, r.Code, r.Value))
	if r.Code == ResultCode_OK {
		t, ok := r.Value.(TupleValue)
		ensures("a tuple of the same length", ok && len(t.Values) == len(tuple.Values))
		ensures("a new one", implies(len(t.Values) > 0, isFresh(t.Values)))
		ensures("element by element", forall(0, len(t.Values), func(k int) bool {
			return t.Values[k] != nil && resolvesTo(executor, tuple.Values[k], ResultCode_OK, t.Values[k])
		}))
	} else {
		ensures("the failure of an element", exists(0, len(tuple.Values), func(k int) bool { return resolvesTo(executor, tuple.Values[k], r.Code, r.Value) }))
	}
}

//verif:contract Executor.ResolveValue
func contract_ResolveValue(executor *Executor, source Value) {
	requires(executor != nil && source != nil)
	modifies(&chain)
	selectors := chain.selectors
	r := executor.ResolveValue(source)
	chain.selectors, chain.steps, chain.whole, chain.code = selectors, 0, true, ResultCode_OK
	defines(resolvesTo(executor, source, r.Code, r.Value))
	ensures("a value", implies(r.Code == ResultCode_OK, r.Value != nil))
	if tuple, ok := source.(TupleValue); ok && r.Code == ResultCode_OK {
		v, isTuple := r.Value.(TupleValue)
		ensures("a tuple of the same length", isTuple && len(v.Values) == len(tuple.Values))
		ensures("element by element", forall(0, len(v.Values), func(k int) bool {
			return v.Values[k] != nil && resolvesTo(executor, tuple.Values[k], ResultCode_OK, v.Values[k])
		}))
	}
	if q, ok := source.(QualifiedValue); ok {
		ensures("the source with its selectors applied", qualifiedTo(executor, q, r.Code, r.Value))
	}
	t := source.Type()
	if t != ValueType_TUPLE && t != ValueType_QUALIFIED {
		rs, name := ValueToString(source)
		ensures("bad name", implies(rs.Code != ResultCode_OK, r.Code == ResultCode_ERROR))
		if rs.Code == ResultCode_OK {
			ensures("the variable", implies(r.Code == ResultCode_OK, variableOf(executor.VariableResolver, name, r.Value)))
			ensures("ok or error", r.Code == ResultCode_OK || r.Code == ResultCode_ERROR)
			ensures("unknown variable", implies(r.Code == ResultCode_ERROR && executor.VariableResolver != nil, variableOf(executor.VariableResolver, name, nil)))
		}
	}
}
