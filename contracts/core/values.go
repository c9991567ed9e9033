//verif:property C06
package core

//verif:contract StringAtOrDefault
func contract_StringAtOrDefault(value string, index Value, def Value) {
	requires(index != nil)
	ir, i := ValueToInteger(index)
	r := StringAtOrDefault(value, index, def)
	ensures("bad index is an error", implies(ir.Code != ResultCode_OK, r.Code == ResultCode_ERROR))
	if ir.Code == ResultCode_OK && 0 <= i && i < int64(len(value)) {
		sv, ok := r.Value.(StringValue)
		ensures("in range gives the byte", r.Code == ResultCode_OK && ok && len(sv.Value) == 1 && sv.Value[0] == value[i])
	}
	ensures("out of range gives the default", implies(ir.Code == ResultCode_OK && !(0 <= i && i < int64(len(value))) && def != nil, r.Code == ResultCode_OK && identical(r.Value, def)))
	ensures("out of range without default is an error", implies(ir.Code == ResultCode_OK && !(0 <= i && i < int64(len(value))) && def == nil, r.Code == ResultCode_ERROR))
}

//verif:contract ListAtOrDefault
func contract_ListAtOrDefault(values []Value, index Value, def Value) {
	requires(index != nil)
	ir, i := ValueToInteger(index)
	r := ListAtOrDefault(values, index, def)
	ensures("bad index is an error", implies(ir.Code != ResultCode_OK, r.Code == ResultCode_ERROR))
	if ir.Code == ResultCode_OK && 0 <= i && i < int64(len(values)) {
		ensures("in range gives the element", r.Code == ResultCode_OK && identical(r.Value, values[i]))
	}
	ensures("out of range gives the default", implies(ir.Code == ResultCode_OK && !(0 <= i && i < int64(len(values))) && def != nil, r.Code == ResultCode_OK && identical(r.Value, def)))
	ensures("out of range without default is an error", implies(ir.Code == ResultCode_OK && !(0 <= i && i < int64(len(values))) && def == nil, r.Code == ResultCode_ERROR))
}
