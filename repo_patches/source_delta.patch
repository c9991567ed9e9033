From 5165014028ebc1009c19b0e6ac22dc39e01acf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:52 +0000
Subject: [PATCH 01/10] fix: integer overflow on the last index of string/list
 range, remove and replace

An upper bound equal to the largest integer wrapped around to a negative
index, which made range panic and remove/replace duplicate elements.
---
 src/helena_dialect/lists.go   | 6 +++---
 src/helena_dialect/strings.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index d5532af..7fcaec1 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -108,7 +108,7 @@ func (listRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.LIST([]core.Value{}))
 		}
-		return core.OK(core.LIST(values[first:min(last+1, length)]))
+		return core.OK(core.LIST(values[first:min(last, length-1)+1]))
 	}
 }
 func (listRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -164,7 +164,7 @@ func (listRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := values[0:min(first, length)]
-	tail := values[min(max(first, last+1), length):]
+	tail := values[min(max(first, min(last, length-1)+1), length):]
 	newValues := make([]core.Value, 0, len(head)+len(tail))
 	newValues = append(append(newValues, head...), tail...)
 	return core.OK(core.LIST(newValues))
@@ -234,7 +234,7 @@ func (listReplaceCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := values[0:min(first, length)]
-	tail := values[min(max(first, last+1), length):]
+	tail := values[min(max(first, min(last, length-1)+1), length):]
 	result2, insert := ValueToArray(args[4])
 	if result2.Code != core.ResultCode_OK {
 		return result2
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index a21609b..027c0c7 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -105,7 +105,7 @@ func (stringRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.STR(""))
 		}
-		return core.OK(core.STR(str[first:min(last+1, length)]))
+		return core.OK(core.STR(str[first:min(last, length-1)+1]))
 	}
 }
 func (stringRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -161,7 +161,7 @@ func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := str[0:min(first, length)]
-	tail := str[min(max(first, last+1), length):]
+	tail := str[min(max(first, min(last, length-1)+1), length):]
 	return core.OK(core.STR(head + tail))
 }
 func (stringRemoveCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -227,7 +227,7 @@ func (stringReplaceCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := str[0:min(first, length)]
-	tail := str[min(max(first, last+1), length):]
+	tail := str[min(max(first, min(last, length-1)+1), length):]
 	result2, insert := core.ValueToString(args[4])
 	if result2.Code != core.ResultCode_OK {
 		return result2
-- 
2.43.0


From b4f930d0d5a8fab2a7a46ee23935ab0633d5cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 02/10] fix: string/list remove accepted and ignored a fifth
 argument

---
 src/helena_dialect/lists.go   | 2 +-
 src/helena_dialect/strings.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index 7fcaec1..e5eea3c 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -146,7 +146,7 @@ const LIST_REMOVE_SIGNATURE = "list value remove first last"
 type listRemoveCmd struct{}
 
 func (listRemoveCmd) Execute(args []core.Value, _ any) core.Result {
-	if len(args) != 4 && len(args) != 5 {
+	if len(args) != 4 {
 		return ARITY_ERROR(LIST_REMOVE_SIGNATURE)
 	}
 	result, values := ValueToArray(args[1])
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index 027c0c7..f486856 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -143,7 +143,7 @@ const STRING_REMOVE_SIGNATURE = "string value remove first last"
 type stringRemoveCmd struct{}
 
 func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
-	if len(args) != 4 && len(args) != 5 {
+	if len(args) != 4 {
 		return ARITY_ERROR(STRING_REMOVE_SIGNATURE)
 	}
 	result, str := core.ValueToString(args[1])
@@ -165,7 +165,7 @@ func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 	return core.OK(core.STR(head + tail))
 }
 func (stringRemoveCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 5 {
+	if len(args) > 4 {
 		return ARITY_ERROR(STRING_REMOVE_SIGNATURE)
 	}
 	return core.OK(core.STR(STRING_REMOVE_SIGNATURE))
-- 
2.43.0


From 460331401c8aa688ad72b71fdfe87342485a4aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:01 +0000
Subject: [PATCH 03/10] fix: comparison operators panicked on uncomparable
 values

The identity shortcut compared interface values whose dynamic types may be
uncomparable (script, list, tuple...), which panics at run time; the operands
are now only compared by string (resp. numeric) value.
---
 src/helena_dialect/lists.go        |  2 +-
 src/helena_dialect/numbers.go      | 16 ++++++----------
 src/helena_dialect/strings.go      | 22 +++++++++-------------
 src/picol_dialect/picol_dialect.go |  4 ++--
 4 files changed, 18 insertions(+), 26 deletions(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index e5eea3c..85b94ce 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -108,7 +108,7 @@ func (listRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.LIST([]core.Value{}))
 		}
-		return core.OK(core.LIST(values[first:min(last, length-1)+1]))
+		return core.OK(core.LIST(values[first : min(last, length-1)+1]))
 	}
 }
 func (listRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
diff --git a/src/helena_dialect/numbers.go b/src/helena_dialect/numbers.go
index 7b2b8ae..0fa7c31 100644
--- a/src/helena_dialect/numbers.go
+++ b/src/helena_dialect/numbers.go
@@ -126,16 +126,12 @@ func arithmetics(args []core.Value, operand1 float64) core.Result {
 
 func binaryOp(
 	operator string,
-	whenEqual bool,
 	fn func(op1 float64, op2 float64) bool,
 ) func(args []core.Value, operand1 float64) core.Result {
 	return func(args []core.Value, operand1 float64) core.Result {
 		if len(args) != 3 {
 			return OPERATOR_ARITY_ERROR(operator)
 		}
-		if args[0] == args[2] {
-			return core.OK(core.BOOL(whenEqual))
-		}
 		result, operand2 := core.ValueToFloat(args[2])
 		if result.Code != core.ResultCode_OK {
 			return result
@@ -144,12 +140,12 @@ func binaryOp(
 	}
 }
 
-var eqOp = binaryOp("==", true, func(op1 float64, op2 float64) bool { return op1 == op2 })
-var neOp = binaryOp("!=", false, func(op1 float64, op2 float64) bool { return op1 != op2 })
-var gtOp = binaryOp(">", false, func(op1 float64, op2 float64) bool { return op1 > op2 })
-var geOp = binaryOp(">=", true, func(op1 float64, op2 float64) bool { return op1 >= op2 })
-var ltOp = binaryOp("<", false, func(op1 float64, op2 float64) bool { return op1 < op2 })
-var leOp = binaryOp("<=", true, func(op1 float64, op2 float64) bool { return op1 <= op2 })
+var eqOp = binaryOp("==", func(op1 float64, op2 float64) bool { return op1 == op2 })
+var neOp = binaryOp("!=", func(op1 float64, op2 float64) bool { return op1 != op2 })
+var gtOp = binaryOp(">", func(op1 float64, op2 float64) bool { return op1 > op2 })
+var geOp = binaryOp(">=", func(op1 float64, op2 float64) bool { return op1 >= op2 })
+var ltOp = binaryOp("<", func(op1 float64, op2 float64) bool { return op1 < op2 })
+var leOp = binaryOp("<=", func(op1 float64, op2 float64) bool { return op1 <= op2 })
 
 func floatToValue(f float64) core.Value {
 	i := int64(f)
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index f486856..8686bfc 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -105,7 +105,7 @@ func (stringRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.STR(""))
 		}
-		return core.OK(core.STR(str[first:min(last, length-1)+1]))
+		return core.OK(core.STR(str[first : min(last, length-1)+1]))
 	}
 }
 func (stringRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -251,18 +251,14 @@ func STRING_OPERATOR_ARITY_ERROR(operator string) core.Result {
 }
 
 type binaryCmd struct {
-	name      string
-	whenEqual bool
-	fn        func(op1 string, op2 string) bool
+	name string
+	fn   func(op1 string, op2 string) bool
 }
 
 func (cmd binaryCmd) Execute(args []core.Value, context any) core.Result {
 	if len(args) != 3 {
 		return STRING_OPERATOR_ARITY_ERROR(cmd.name)
 	}
-	if args[1] == args[2] {
-		return core.OK(core.BOOL(cmd.whenEqual))
-	}
 	result1, operand1 := core.ValueToString(args[1])
 	if result1.Code != core.ResultCode_OK {
 		return result1
@@ -280,12 +276,12 @@ func (cmd binaryCmd) Help(args []core.Value, options core.CommandHelpOptions, co
 	return core.OK(core.STR(STRING_OPERATOR_SIGNATURE(cmd.name)))
 }
 
-var eqCmd = binaryCmd{"==", true, func(op1 string, op2 string) bool { return op1 == op2 }}
-var neCmd = binaryCmd{"!=", false, func(op1 string, op2 string) bool { return op1 != op2 }}
-var gtCmd = binaryCmd{">", false, func(op1 string, op2 string) bool { return op1 > op2 }}
-var geCmd = binaryCmd{">=", true, func(op1 string, op2 string) bool { return op1 >= op2 }}
-var ltCmd = binaryCmd{"<", false, func(op1 string, op2 string) bool { return op1 < op2 }}
-var leCmd = binaryCmd{"<=", true, func(op1 string, op2 string) bool { return op1 <= op2 }}
+var eqCmd = binaryCmd{"==", func(op1 string, op2 string) bool { return op1 == op2 }}
+var neCmd = binaryCmd{"!=", func(op1 string, op2 string) bool { return op1 != op2 }}
+var gtCmd = binaryCmd{">", func(op1 string, op2 string) bool { return op1 > op2 }}
+var geCmd = binaryCmd{">=", func(op1 string, op2 string) bool { return op1 >= op2 }}
+var ltCmd = binaryCmd{"<", func(op1 string, op2 string) bool { return op1 < op2 }}
+var leCmd = binaryCmd{"<=", func(op1 string, op2 string) bool { return op1 <= op2 }}
 
 func registerStringCommands(scope *Scope) {
 	command := newStringCommand(scope)
diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 7b6c833..43e4cdd 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -186,11 +186,11 @@ func compareValuesCmd(
 
 var eqCmd = compareValuesCmd(
 	"==",
-	func(op1 core.Value, op2 core.Value) bool { return op1 == op2 || asString(op1) == asString(op2) },
+	func(op1 core.Value, op2 core.Value) bool { return asString(op1) == asString(op2) },
 )
 var neCmd = compareValuesCmd(
 	"!=",
-	func(op1 core.Value, op2 core.Value) bool { return op1 != op2 && asString(op1) != asString(op2) },
+	func(op1 core.Value, op2 core.Value) bool { return asString(op1) != asString(op2) },
 )
 
 func compareNumbersCmd(
-- 
2.43.0


From 5d33c74b1e812409c843c1df1a1bf8b23d608558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:57 +0000
Subject: [PATCH 04/10] fix: string indexing returned a re-encoded character
 for non-ASCII bytes

---
 src/core/values.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/values.go b/src/core/values.go
index 22f9fa2..36b6e07 100644
--- a/src/core/values.go
+++ b/src/core/values.go
@@ -394,7 +394,7 @@ func StringAtOrDefault(value string, index Value, def Value) Result {
 			return ERROR(`index out of range "` + fmt.Sprint(i) + `"`)
 		}
 	}
-	return OK(StringValue{string(value[i])})
+	return OK(StringValue{value[i : i+1]})
 }
 
 func (value StringValue) Display(_ DisplayFunction) string {
-- 
2.43.0


From 7e589c49b77653a64be22e4e84679158f9ecac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 05/10] fix: control and logic commands read their pooled state
 after releasing it

---
 src/helena_dialect/controls.go | 29 ++++++++++++++++++-----------
 src/helena_dialect/logic.go    |  6 ++++--
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 537d40c..8086622 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -145,8 +145,9 @@ func loopCmdNextIteration(state *loopCmdState) core.Result {
 }
 func loopCmdNextSource(state *loopCmdState) core.Result {
 	if state.activeSources == 0 && len(state.sources) > 0 {
+		lastResult := state.lastResult
 		loopCmdStatePool.Put(state)
-		return state.lastResult
+		return lastResult
 	}
 	state.iSource++
 	if state.iSource >= len(state.sources) {
@@ -191,8 +192,9 @@ func loopCmdBody(state *loopCmdState) core.Result {
 		state := data.(*loopCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			loopCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -266,8 +268,9 @@ func whileCmdLoop(state *whileCmdState) core.Result {
 		state := data.(*whileCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -291,15 +294,17 @@ func whileCmdTest(state *whileCmdState) core.Result {
 			return result2
 		}
 		if !b {
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		}
 		return CreateContinuationValueWithCallback(state.scope, state.bodyProgram, state, func(result core.Result, data any) core.Result {
 			state := data.(*whileCmdState)
 			switch result.Code {
 			case core.ResultCode_BREAK:
+				lastResult := state.lastResult
 				whileCmdStatePool.Put(state)
-				return state.lastResult
+				return lastResult
 			case core.ResultCode_CONTINUE:
 			case core.ResultCode_OK:
 				state.lastResult = result
@@ -356,11 +361,12 @@ func ifCmdTest(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*ifCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			ifCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return ifCmdNext(result.Value, state.scope, state.args, state.i)
+			return ifCmdNext(result.Value, scope, args, i)
 		})
 	} else {
 		return ifCmdNext(test, scope, args, i)
@@ -550,18 +556,19 @@ func whenCmdTest(command core.Value, state *whenCmdState) core.Result {
 	})
 }
 func whenCmdBody(state *whenCmdState) core.Result {
+	scope, i, cases := state.scope, state.i, state.cases
 	whenCmdStatePool.Put(state)
 	var body core.Value
-	if state.i == len(state.cases)-1 {
-		body = state.cases[state.i]
+	if i == len(cases)-1 {
+		body = cases[i]
 	} else {
-		body = state.cases[state.i+1]
+		body = cases[i+1]
 	}
 	if body.Type() != core.ValueType_SCRIPT {
 		return core.ERROR("body must be a script")
 	}
-	program := state.scope.CompileScriptValue(body.(core.ScriptValue))
-	return CreateContinuationValue(state.scope, program)
+	program := scope.CompileScriptValue(body.(core.ScriptValue))
+	return CreateContinuationValue(scope, program)
 }
 func (whenCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
 	if len(args) > 3 {
diff --git a/src/helena_dialect/logic.go b/src/helena_dialect/logic.go
index 260f6a1..4551d56 100644
--- a/src/helena_dialect/logic.go
+++ b/src/helena_dialect/logic.go
@@ -251,11 +251,12 @@ func andCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return andCmdNext(result.Value, state.scope, state.args, state.i)
+			return andCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
@@ -300,11 +301,12 @@ func orCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return orCmdNext(result.Value, state.scope, state.args, state.i)
+			return orCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
-- 
2.43.0


From 6cee4564e67c84771a1ffc5d4dfb7f0afe2059e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 06/10] fix: catch without handlers leaked continuations
 instead of running them

---
 src/helena_dialect/controls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 8086622..1f5f797 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -613,7 +613,7 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 			return core.ERROR("body must be a script")
 		}
 		program := scope.CompileScriptValue(body.(core.ScriptValue))
-		result := scope.Execute(program, nil)
+		result := scope.PrepareProcess(program).Run()
 		codeName := core.STR(core.RESULT_CODE_NAME(result))
 		switch result.Code {
 		case core.ResultCode_OK,
-- 
2.43.0


From b86409ac8b386ef2ca44a95b1e360366292f741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 07/10] fix: catch panicked on bodies and handlers that are no
 scripts

---
 src/helena_dialect/controls.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 1f5f797..889ed5a 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -647,8 +647,10 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 		case catchStateStep_beforeBody:
 			{
 				body := state.args[1]
-				// TODO check type
-				program := scope.CompileScriptValue(body.(core.ScriptValue)) // TODO check type
+				if body.Type() != core.ValueType_SCRIPT {
+					return core.ERROR("body must be a script")
+				}
+				program := scope.CompileScriptValue(body.(core.ScriptValue))
 				state.bodyProcess = scope.PrepareProcess(program)
 				state.step = catchStateStep_inBody
 			}
@@ -676,20 +678,26 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 					{
 						_, varname := core.ValueToString(state.args[i+1])
 						handler := state.args[i+2]
+						if handler.Type() != core.ValueType_SCRIPT {
+							return core.ERROR("handler must be a script")
+						}
 						subscope := scope.NewLocalScope(
 							map[string]uint{varname: 0},
 							[]core.Value{state.bodyResult.Value},
 						)
 						program := subscope.CompileScriptValue(
 							handler.(core.ScriptValue),
-						) // TODO check type
+						)
 						state.process = subscope.PrepareProcess(program)
 					}
 				case core.ResultCode_BREAK,
 					core.ResultCode_CONTINUE:
 					{
 						handler := state.args[i+1]
-						program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+						if handler.Type() != core.ValueType_SCRIPT {
+							return core.ERROR("handler must be a script")
+						}
+						program := scope.CompileScriptValue(handler.(core.ScriptValue))
 						state.process = scope.PrepareProcess(program)
 					}
 				default:
@@ -724,7 +732,10 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 					return state.result
 				}
 				handler := state.args[i+1]
-				program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+				if handler.Type() != core.ValueType_SCRIPT {
+					return core.ERROR("handler must be a script")
+				}
+				program := scope.CompileScriptValue(handler.(core.ScriptValue))
 				state.process = scope.PrepareProcess(program)
 				state.step = catchStateStep_inFinally
 			}
-- 
2.43.0


From 04bb5dd82e471f5c44d3905e948490710776e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 08/10] fix: resuming a catch whose body yielded without
 handler panicked

---
 src/helena_dialect/controls.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 889ed5a..a770f38 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -629,7 +629,11 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 }
 func (cmd catchCmd) Resume(result core.Result, context any) core.Result {
 	scope := context.(*Scope)
-	state := result.Data.(*catchState)
+	state, ok := result.Data.(*catchState)
+	if !ok {
+		// Body yielded with no handler: the command is over, like the body
+		return core.OK(result.Value)
+	}
 	if state.step == catchStateStep_inBody {
 		state.bodyProcess.YieldBack(result.Value)
 	} else {
-- 
2.43.0


From 86674fd7ff796cb4472190a1ee668ad6f61a2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 09/10] fix: catch took over the state of a command that
 yielded within its body

---
 src/helena_dialect/controls.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index a770f38..b234cb7 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -661,6 +661,10 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 		case catchStateStep_inBody:
 			{
 				state.bodyResult = state.bodyProcess.Run()
+				if state.bodyResult.Code == core.ResultCode_YIELD {
+					// State data belong to the command that yielded within body
+					state.bodyResult.Data = nil
+				}
 				state.step = catchStateStep_beforeHandler
 			}
 		case catchStateStep_beforeHandler:
-- 
2.43.0


From 3399cd9a5cdf2bedf01ad992f322d853ed0d7d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 10/10] fix: unrecognized escapes of non-ASCII characters were
 re-encoded byte by byte

---
 src/core/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tokenizer.go b/src/core/tokenizer.go
index 4e0c325..73b3817 100644
--- a/src/core/tokenizer.go
+++ b/src/core/tokenizer.go
@@ -165,7 +165,7 @@ func (tokenizer *Tokenizer) Next() *Token {
 					emittedToken = tokenizer.addToken(TokenType_CONTINUATION, position, &literal)
 					break
 				}
-				escape := string(e) // Default value for unrecognized sequences
+				escape := string([]byte{e}) // Default value for unrecognized sequences
 				if isEscape(e) {
 					escape = string(getEscape(e))
 				} else if isOctal(e) {
-- 
2.43.0

