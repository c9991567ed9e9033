//verif:property C10
package core

import "strconv"

// text: the string form of a value, if it has one.
func hasText(v Value) bool {
	switch w := v.(type) {
	case StringValue, BooleanValue, IntegerValue, RealValue:
		return true
	case ScriptValue:
		return w.Source != nil
	}
	return false
}
func textOf(v Value) string {
	switch w := v.(type) {
	case StringValue:
		return w.Value
	case BooleanValue:
		if w.Value {
			return "true"
		}
		return "false"
	case IntegerValue:
		return strconv.FormatInt(w.Value, 10)
	case RealValue:
		return strconv.FormatFloat(w.Value, 'g', -1, 64)
	case ScriptValue:
		if w.Source != nil {
			return *w.Source
		}
	}
	return ""
}
func failed(r Result) bool    { return r.Code == ResultCode_ERROR }
func succeeded(r Result) bool { return r.Code == ResultCode_OK }
func is(r Result, v Value) bool {
	return r.Code == ResultCode_OK && identical(r.Value, v)
}

//verif:contract ValueToString
//verif:inline
func contract_ValueToString(value Value) {
	requires(value != nil)
	r, s := ValueToString(value)
	ensures("the string form", implies(hasText(value), succeeded(r) && s == textOf(value)))
	ensures("no string form", implies(!hasText(value), failed(r)))
}

//verif:contract ValueToStringOrDefault
//verif:inline
func contract_ValueToStringOrDefault(value Value, def string) {
	requires(value != nil)
	r, s := ValueToStringOrDefault(value, def)
	ensures("never fails", succeeded(r))
	ensures("the string form", implies(hasText(value), s == textOf(value)))
	ensures("or the default", implies(!hasText(value), s == def))
}

//verif:contract StringValueFromValue
//verif:inline
func contract_StringValueFromValue(value Value) {
	requires(value != nil)
	r, v := StringValueFromValue(value)
	ensures("the string form", implies(hasText(value), v.Value == textOf(value)))
	if hasText(value) {
		s, ok := r.Value.(StringValue)
		ensures("as the result", succeeded(r) && ok && s.Value == v.Value)
	}
	ensures("no string form", implies(!hasText(value), failed(r)))
}

func hasInteger(v Value) bool {
	if _, ok := v.(IntegerValue); ok {
		return true
	}
	if !hasText(v) {
		return false
	}
	_, err := strconv.ParseInt(textOf(v), 10, 64)
	return err == nil
}
func integerOf(v Value) int64 {
	if i, ok := v.(IntegerValue); ok {
		return i.Value
	}
	n, _ := strconv.ParseInt(textOf(v), 10, 64)
	return n
}

//verif:contract ValueToInteger
//verif:inline
func contract_ValueToInteger(value Value) {
	requires(value != nil)
	r, i := ValueToInteger(value)
	ensures("the integer", implies(hasInteger(value), succeeded(r) && i == integerOf(value)))
	ensures("no integer", implies(!hasInteger(value), failed(r)))
}

//verif:contract IntegerValueFromValue
//verif:inline
func contract_IntegerValueFromValue(value Value) {
	requires(value != nil)
	r, v := IntegerValueFromValue(value)
	if hasInteger(value) {
		i, ok := r.Value.(IntegerValue)
		ensures("the integer", succeeded(r) && ok && i.Value == integerOf(value) && v.Value == i.Value)
	} else {
		ensures("no integer", failed(r))
	}
}

//verif:contract StringIsInteger
//verif:inline
func contract_StringIsInteger(value string) {
	_, err := strconv.ParseInt(value, 10, 64)
	ensures("what converts", StringIsInteger(value) == (err == nil))
}

func hasFloat(v Value) bool {
	switch v.(type) {
	case RealValue, IntegerValue:
		return true
	}
	if !hasText(v) {
		return false
	}
	_, err := strconv.ParseFloat(textOf(v), 64)
	return err == nil
}
func floatOf(v Value) float64 {
	switch w := v.(type) {
	case RealValue:
		return w.Value
	case IntegerValue:
		return float64(w.Value)
	}
	n, _ := strconv.ParseFloat(textOf(v), 64)
	return n
}

//verif:contract ValueToFloat
//verif:inline
func contract_ValueToFloat(value Value) {
	requires(value != nil)
	r, f := ValueToFloat(value)
	ensures("the number", implies(hasFloat(value), succeeded(r) && identical(f, floatOf(value))))
	ensures("no number", implies(!hasFloat(value), failed(r)))
}

//verif:contract RealValueFromValue
//verif:inline
func contract_RealValueFromValue(value Value) {
	requires(value != nil)
	r, v := RealValueFromValue(value)
	if hasFloat(value) {
		f, ok := r.Value.(RealValue)
		ensures("the number", succeeded(r) && ok && identical(f.Value, floatOf(value)) && identical(v.Value, f.Value))
	} else {
		ensures("no number", failed(r))
	}
}

//verif:contract StringIsNumber
//verif:inline
func contract_StringIsNumber(value string) {
	_, err := strconv.ParseFloat(value, 64)
	ensures("what converts", StringIsNumber(value) == (err == nil))
}

func hasBoolean(v Value) bool {
	if _, ok := v.(BooleanValue); ok {
		return true
	}
	return hasText(v) && (textOf(v) == "true" || textOf(v) == "false")
}
func booleanOf(v Value) bool {
	if b, ok := v.(BooleanValue); ok {
		return b.Value
	}
	return textOf(v) == "true"
}

//verif:contract ValueToBoolean
//verif:inline
func contract_ValueToBoolean(value Value) {
	requires(value != nil)
	r, b := ValueToBoolean(value)
	ensures("the boolean", implies(hasBoolean(value), succeeded(r) && b == booleanOf(value)))
	ensures("no boolean", implies(!hasBoolean(value), failed(r)))
}

//verif:contract BooleanValueFromValue
//verif:inline
func contract_BooleanValueFromValue(value Value) {
	requires(value != nil)
	r, v := BooleanValueFromValue(value)
	if hasBoolean(value) {
		b, ok := r.Value.(BooleanValue)
		ensures("the boolean", succeeded(r) && ok && b.Value == booleanOf(value) && v.Value == b.Value)
	} else {
		ensures("no boolean", failed(r))
	}
}

//verif:contract ValueToValues
//verif:inline
func contract_ValueToValues(value Value) {
	requires(value != nil)
	r, vs := ValueToValues(value)
	switch w := value.(type) {
	case ListValue:
		ensures("the elements of a list", succeeded(r) && sameSlice(vs, w.Values) && len(vs) == len(w.Values))
	case TupleValue:
		ensures("the elements of a tuple", succeeded(r) && sameSlice(vs, w.Values) && len(vs) == len(w.Values))
	default:
		ensures("nothing else", failed(r))
	}
}

//verif:contract ListValueFromValue
//verif:inline
func contract_ListValueFromValue(value Value) {
	requires(value != nil)
	r, v := ListValueFromValue(value)
	switch w := value.(type) {
	case ListValue:
		ensures("the list itself", is(r, value) && sameSlice(v.Values, w.Values))
	case TupleValue:
		l, ok := r.Value.(ListValue)
		ensures("the elements of a tuple", succeeded(r) && ok && sameSlice(l.Values, w.Values) && sameSlice(v.Values, w.Values))
	default:
		ensures("nothing else", failed(r))
	}
}
