package core

//verif:volatile core.ScriptValueCache
//verif:opaque strconv.ParseInt strconv.ParseFloat strconv.FormatInt strconv.FormatFloat fmt.Sprint fmt.Sprintf strconv.Itoa strings.Repeat

// Values implemented outside the verified packages identify themselves as
// commands or custom values.
//
//verif:iface core.Value.Type opaque-only
//verif:pure
func contract_Value_Type(v Value) ValueType {
	t := v.Type()
	ensures("foreign values are commands or custom values", t == ValueType_COMMAND || t == ValueType_CUSTOM)
	return t
}

// A program compiled from a sentence list leaves one tuple when it succeeds.
//
//verif:opaque helena/core.yieldsTuple
func yieldsTuple(p *Program) bool { return p != nil }

//verif:trusted (helena/core.Compiler).CompileSentences
func contract_trusted_CompileSentences(compiler Compiler, sentences []Sentence) *Program {
	p := compiler.CompileSentences(sentences)
	ensures("compiled", p != nil && yieldsTuple(p))
	return p
}

// An executor without resolvers can run no command: it changes nothing that
// its caller can see.
//
//verif:trusted (*helena/core.Executor).Execute
func contract_trusted_Execute(executor *Executor, program *Program, state *ProgramState) Result {
	requires(executor.VariableResolver == nil && executor.CommandResolver == nil && executor.SelectorResolver == nil)
	requires(program != nil && state == nil)
	r := executor.Execute(program, state)
	if yieldsTuple(program) && r.Code == ResultCode_OK {
		_, ok := r.Value.(TupleValue)
		ensures("tuple", ok)
	}
	return r
}

// Script values are made by the constructors, which attach a cache.
//
//verif:typeinv
func inv_ScriptValue(v ScriptValue) bool {
	return v.Cache != nil && forall(0, len(v.Cache.Values), func(i int) bool { return v.Cache.Values[i] != nil })
}

// Collections hold no absent values.
//
//verif:typeinv
func inv_ListValue(v ListValue) bool {
	return forall(0, len(v.Values), func(i int) bool { return v.Values[i] != nil })
}

//verif:typeinv
func inv_TupleValue(v TupleValue) bool {
	return forall(0, len(v.Values), func(i int) bool { return v.Values[i] != nil })
}

//verif:typeinv
func inv_DictionaryValue(v DictionaryValue) bool {
	return v.Map != nil && forallKey(func(k string) bool {
		w, ok := v.Map[k]
		return !ok || w != nil
	})
}
