//verif:property C20
package helena_dialect

import "helena/core"

func isNum(r core.Result, f float64) bool {
	return r.Code == core.ResultCode_OK && identical(r.Value, floatToValue(f))
}

func floatOf(v core.Value) float64 {
	_, f := core.ValueToFloat(v)
	return f
}
func isFloat(v core.Value) bool {
	r, _ := core.ValueToFloat(v)
	return r.Code == core.ResultCode_OK
}
func stringOf(v core.Value) string {
	_, s := core.ValueToString(v)
	return s
}
func isString(v core.Value) bool {
	r, _ := core.ValueToString(v)
	return r.Code == core.ResultCode_OK
}

// lastTerm is the product that ends the expression args[0] … args[n-1], with its sign.
//
//verif:spec
func lastTerm(args []core.Value, n int) float64 {
	if n <= 1 {
		return floatOf(args[0])
	}
	op := stringOf(args[n-2])
	if op == "+" {
		return floatOf(args[n-1])
	}
	if op == "-" {
		return -floatOf(args[n-1])
	}
	if op == "*" {
		return lastTerm(args, n-2) * floatOf(args[n-1])
	}
	return lastTerm(args, n-2) / floatOf(args[n-1])
}

// earlierTerms is the sum of the terms before it.
//
//verif:spec
func earlierTerms(args []core.Value, n int) float64 {
	if n <= 1 {
		return 0.0
	}
	op := stringOf(args[n-2])
	if op == "+" || op == "-" {
		return earlierTerms(args, n-2) + lastTerm(args, n-2)
	}
	return earlierTerms(args, n-2)
}

func isArith(s string) bool { return s == "+" || s == "-" || s == "*" || s == "/" }

func okTerm(args []core.Value, i int) bool {
	return isString(args[i]) && isArith(stringOf(args[i])) && isFloat(args[i+1])
}

//verif:inv contract_arithmetics
func inv_arithmetics1(args []core.Value, i int) bool {
	return 1 <= i && i <= len(args) && i%2 == 1 && forall(1, i, func(k int) bool { return implies(k%2 == 1, okTerm(args, k)) })
}

//verif:inv contract_arithmetics
func inv_arithmetics2(args []core.Value, i int, total float64, last float64) bool {
	return identical(total, earlierTerms(args, i)) && identical(last, lastTerm(args, i))
}

//verif:contract arithmetics
//verif:pure
func contract_arithmetics(args []core.Value, operand1 float64) {
	requires(okArgs(args))
	requires(len(args) >= 1)
	requires(isFloat(args[0]) && identical(operand1, floatOf(args[0])))
	r := arithmetics(args, operand1)
	if len(args)%2 == 0 {
		ensures("a missing operand is an error", isErr(r))
		return
	}
	if !forall(1, len(args), func(k int) bool { return implies(k%2 == 1, okTerm(args, k)) }) {
		ensures("a bad operator or operand is an error", isErr(r))
		return
	}
	ensures("products bind tighter than sums, from left to right", isNum(r, earlierTerms(args, len(args))+lastTerm(args, len(args))))
}

//verif:contract numberCommand.Execute
func contract_number(cmd numberCommand, args []core.Value, context any) {
	requires(okArgs(args))
	requires(len(args) >= 1)
	r := cmd.Execute(args, context)
	if !isFloat(args[0]) {
		ensures("not a number", isErr(r))
		return
	}
	a := floatOf(args[0])
	if len(args) == 1 {
		ensures("a number is its value", isNum(r, a))
		return
	}
	if !isString(args[1]) {
		ensures("bad operator", isErr(r))
		return
	}
	op := stringOf(args[1])
	if isArith(op) {
		ensures("arithmetic", identical(r, arithmetics(args, a)))
		return
	}
	if op == "subcommands" {
		ensures("subcommands arity", implies(len(args) != 2, isErr(r)))
		return
	}
	if op == "==" || op == "!=" || op == "<" || op == "<=" || op == ">" || op == ">=" {
		if len(args) != 3 || !isFloat(args[2]) {
			ensures("comparison of bad operands", isErr(r))
			return
		}
		b := floatOf(args[2])
		ensures("equal", implies(op == "==", isBool(r, a == b)))
		ensures("not equal", implies(op == "!=", isBool(r, a != b)))
		ensures("less", implies(op == "<", isBool(r, a < b)))
		ensures("less or equal", implies(op == "<=", isBool(r, a <= b)))
		ensures("greater", implies(op == ">", isBool(r, a > b)))
		ensures("greater or equal", implies(op == ">=", isBool(r, a >= b)))
		return
	}
	ensures("unknown operator", isErr(r))
}

//verif:contract floatToValue
//verif:pure
func contract_floatToValue(f float64) {
	v := floatToValue(f)
	i := int64(f)
	if float64(i) == f {
		n, ok := v.(core.IntegerValue)
		ensures("whole numbers are integers", ok && n.Value == i)
	} else {
		x, ok := v.(core.RealValue)
		ensures("other numbers are reals", ok && identical(x.Value, f))
	}
}
