From b6523c360e13c6a4d91a4bef608c6414e89ed4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 01/54] fix: G115 accept in-range constants converted to 64-bit
 unsigned types

The upper bound (1<<64)-1 was computed as a signed integer, which is -1, so
every constant converted to uint64 or uint was reported.
---
 analyzers/conversion_overflow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 42e1867..01b148c 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -205,7 +205,7 @@ func isConstantInRange(constVal *ssa.Const, dstType string) bool {
 	if dstInt.signed {
 		return value >= -(1<<(dstInt.size-1)) && value <= (1<<(dstInt.size-1))-1
 	}
-	return value >= 0 && value <= (1<<dstInt.size)-1
+	return value >= 0 && uint(value) <= dstInt.max
 }
 
 func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
-- 
2.43.0


From c0a04794514212138f7323a922343b54b3d2db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 02/54] fix: G115 range checks hold only where they dominate
 the conversion, with exact bounds

---
 analyzers/conversion_overflow.go | 362 +++++++++++--------------------
 1 file changed, 131 insertions(+), 231 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 01b148c..5a65c43 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -15,13 +15,12 @@
 package analyzers
 
 import (
-	"cmp"
 	"fmt"
+	"go/constant"
 	"go/token"
 	"math"
 	"regexp"
 	"strconv"
-	"strings"
 
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
@@ -37,21 +36,10 @@ type integer struct {
 	max    uint
 }
 
-type rangeResult struct {
-	minValue             int
-	maxValue             uint
-	explicitPositiveVals []uint
-	explicitNegativeVals []int
-	isRangeCheck         bool
-	convertFound         bool
-}
-
-type branchResults struct {
-	minValue             *int
-	maxValue             *uint
-	explicitPositiveVals []uint
-	explicitNegativeVals []int
-	convertFound         bool
+// valueRange is an interval of values. An upper bound below zero is represented as zero.
+type valueRange struct {
+	min int
+	max uint
 }
 
 func newConversionOverflowAnalyzer(id string, description string) *analysis.Analyzer {
@@ -258,217 +246,162 @@ func hasExplicitRangeCheck(instr *ssa.Convert, dstType string) bool {
 		return false
 	}
 
-	minValue := srcInt.min
-	maxValue := srcInt.max
-	explicitPositiveVals := []uint{}
-	explicitNegativeVals := []int{}
-
-	if minValue > dstInt.min && maxValue < dstInt.max {
+	if srcInt.min > dstInt.min && srcInt.max < dstInt.max {
 		return true
 	}
 
-	visitedIfs := make(map[*ssa.If]bool)
-	for _, block := range instr.Parent().Blocks {
-		for _, blockInstr := range block.Instrs {
-			switch v := blockInstr.(type) {
-			case *ssa.If:
-				result := getResultRange(v, instr, visitedIfs)
-				if result.isRangeCheck {
-					minValue = max(minValue, result.minValue)
-					maxValue = min(maxValue, result.maxValue)
-					explicitPositiveVals = append(explicitPositiveVals, result.explicitPositiveVals...)
-					explicitNegativeVals = append(explicitNegativeVals, result.explicitNegativeVals...)
-				}
-			case *ssa.Call:
-				// These function return an int of a guaranteed size.
-				if v != instr.X {
-					continue
-				}
-				if fn, isBuiltin := v.Call.Value.(*ssa.Builtin); isBuiltin {
-					switch fn.Name() {
-					case "len", "cap":
-						minValue = 0
-					}
-				}
-			}
+	values := valueRange{min: srcInt.min, max: srcInt.max}
 
-			if explicitValsInRange(explicitPositiveVals, explicitNegativeVals, dstInt) {
-				return true
-			} else if minValue >= dstInt.min && maxValue <= dstInt.max {
-				return true
-			}
+	// The builtins len and cap never return a negative value.
+	if call, ok := instr.X.(*ssa.Call); ok {
+		if fn, isBuiltin := call.Call.Value.(*ssa.Builtin); isBuiltin && (fn.Name() == "len" || fn.Name() == "cap") {
+			values.min = 0
 		}
 	}
-	return false
-}
 
-// getResultRange is a recursive function that walks the branches of the if statement to find the range of the variable.
-func getResultRange(ifInstr *ssa.If, instr *ssa.Convert, visitedIfs map[*ssa.If]bool) rangeResult {
-	if visitedIfs[ifInstr] {
-		return rangeResult{minValue: math.MinInt, maxValue: math.MaxUint}
+	// Every path to the conversion enters each of the blocks that dominate it, so the checks made on
+	// all the edges into such a block hold for the converted value.
+	for block := instr.Block(); block != nil; block = block.Idom() {
+		values = values.intersect(rangeOnEntry(block, instr.X))
 	}
-	visitedIfs[ifInstr] = true
 
-	cond := ifInstr.Cond
-	binOp, ok := cond.(*ssa.BinOp)
-	if !ok || !isRangeCheck(binOp, instr.X) {
-		return rangeResult{minValue: math.MinInt, maxValue: math.MaxUint}
-	}
-
-	result := rangeResult{
-		minValue:     math.MinInt,
-		maxValue:     math.MaxUint,
-		isRangeCheck: true,
+	// An empty range means that the conversion is never reached.
+	if values.max <= math.MaxInt && values.min > int(values.max) {
+		return true
 	}
+	return values.min >= dstInt.min && values.max <= dstInt.max
+}
 
-	thenBounds := walkBranchForConvert(ifInstr.Block().Succs[0], instr, visitedIfs)
-	elseBounds := walkBranchForConvert(ifInstr.Block().Succs[1], instr, visitedIfs)
+func (r valueRange) intersect(o valueRange) valueRange {
+	return valueRange{min: max(r.min, o.min), max: min(r.max, o.max)}
+}
 
-	updateResultFromBinOp(&result, binOp, instr, thenBounds.convertFound)
+func (r valueRange) union(o valueRange) valueRange {
+	return valueRange{min: min(r.min, o.min), max: max(r.max, o.max)}
+}
 
-	if thenBounds.convertFound {
-		result.convertFound = true
-		result.minValue = maxWithPtr(result.minValue, thenBounds.minValue)
-		result.maxValue = minWithPtr(result.maxValue, thenBounds.maxValue)
-	} else if elseBounds.convertFound {
-		result.convertFound = true
-		result.minValue = maxWithPtr(result.minValue, elseBounds.minValue)
-		result.maxValue = minWithPtr(result.maxValue, elseBounds.maxValue)
+// rangeOnEntry returns the range of the values which x can have when the given block is entered,
+// according to the conditions that lead into the block.
+func rangeOnEntry(block *ssa.BasicBlock, x ssa.Value) valueRange {
+	all := valueRange{min: math.MinInt, max: math.MaxUint}
+	if len(block.Preds) == 0 {
+		return all
+	}
+	result := valueRange{min: math.MaxInt, max: 0}
+	for _, pred := range block.Preds {
+		ifInstr, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
+		if !ok || pred.Succs[0] == pred.Succs[1] {
+			return all
+		}
+		result = result.union(rangeFromCondition(ifInstr.Cond, x, block == pred.Succs[0]))
 	}
-
-	result.explicitPositiveVals = append(result.explicitPositiveVals, thenBounds.explicitPositiveVals...)
-	result.explicitNegativeVals = append(result.explicitNegativeVals, thenBounds.explicitNegativeVals...)
-	result.explicitPositiveVals = append(result.explicitPositiveVals, elseBounds.explicitPositiveVals...)
-	result.explicitNegativeVals = append(result.explicitNegativeVals, elseBounds.explicitNegativeVals...)
-
 	return result
 }
 
-// updateResultFromBinOp updates the rangeResult based on the BinOp instruction and the location of the Convert instruction.
-func updateResultFromBinOp(result *rangeResult, binOp *ssa.BinOp, instr *ssa.Convert, successPathConvert bool) {
-	x, y := binOp.X, binOp.Y
-	operandsFlipped := false
-
-	compareVal, op := getRealValueFromOperation(instr.X)
-
-	// Handle FieldAddr
-	if fieldAddr, ok := compareVal.(*ssa.FieldAddr); ok {
-		compareVal = fieldAddr
-	}
+// rangeFromCondition returns the range of the values of x for which the condition has the given outcome.
+func rangeFromCondition(cond ssa.Value, x ssa.Value, outcome bool) valueRange {
+	result := valueRange{min: math.MinInt, max: math.MaxUint}
 
-	if !isSameOrRelated(x, compareVal) {
-		y = x
-		operandsFlipped = true
+	binOp, ok := cond.(*ssa.BinOp)
+	if !ok || !isRangeCheck(binOp, x) {
+		return result
 	}
 
-	constVal, ok := y.(*ssa.Const)
-	if !ok {
-		return
+	op := binOp.Op
+	operand, other := binOp.X, binOp.Y
+	if !isSameOrRelated(operand, x) {
+		operand, other = other, operand
+		op = flipOperands(op)
 	}
-	// TODO: constVal.Value nil check avoids #1229 panic but seems to be hiding a bug in the code above or in x/tools/go/ssa.
-	if constVal.Value == nil {
-		// log.Fatalf("[gosec] constVal.Value is nil flipped=%t, constVal=%#v, binOp=%#v", operandsFlipped, constVal, binOp)
-		return
+	if !outcome {
+		op = negate(op)
 	}
-	switch binOp.Op {
-	case token.LEQ, token.LSS:
-		updateMinMaxForLessOrEqual(result, constVal, binOp.Op, operandsFlipped, successPathConvert)
-	case token.GEQ, token.GTR:
-		updateMinMaxForGreaterOrEqual(result, constVal, binOp.Op, operandsFlipped, successPathConvert)
-	case token.EQL:
-		if !successPathConvert {
-			break
-		}
-		updateExplicitValues(result, constVal)
-	case token.NEQ:
-		if successPathConvert {
-			break
-		}
-		updateExplicitValues(result, constVal)
-	}
-
-	if op == "neg" {
-		minVal := result.minValue
-		maxVal := result.maxValue
 
-		if minVal >= 0 {
-			result.maxValue = uint(minVal)
-		}
-		if maxVal <= math.MaxInt {
-			result.minValue = int(maxVal)
-		}
+	constVal, ok := other.(*ssa.Const)
+	if !ok || constVal.Value == nil {
+		return result
 	}
-}
 
-func updateExplicitValues(result *rangeResult, constVal *ssa.Const) {
-	if strings.Contains(constVal.String(), "-") {
-		result.explicitNegativeVals = append(result.explicitNegativeVals, int(constVal.Int64()))
+	isNegative := constant.Sign(constVal.Value) < 0
+	var minVal int
+	var maxVal uint
+	if isNegative {
+		minVal = int(constVal.Int64())
 	} else {
-		result.explicitPositiveVals = append(result.explicitPositiveVals, uint(constVal.Uint64()))
+		maxVal = uint(constVal.Uint64())
+		minVal = int(min(maxVal, math.MaxInt))
 	}
-}
 
-func updateMinMaxForLessOrEqual(result *rangeResult, constVal *ssa.Const, op token.Token, operandsFlipped bool, successPathConvert bool) {
-	// If the success path has a conversion and the operands are not flipped, then the constant value is the maximum value.
-	if successPathConvert && !operandsFlipped {
-		result.maxValue = uint(constVal.Uint64())
-		if op == token.LEQ {
-			result.maxValue--
+	switch op {
+	case token.LEQ:
+		result.max = maxVal
+	case token.LSS:
+		if maxVal > 0 {
+			maxVal--
 		}
-	} else {
-		result.minValue = int(constVal.Int64())
-		if op == token.GTR {
-			result.minValue++
+		result.max = maxVal
+	case token.GEQ:
+		result.min = minVal
+	case token.GTR:
+		if minVal < math.MaxInt {
+			minVal++
 		}
+		result.min = minVal
+	case token.EQL:
+		result.min = minVal
+		result.max = maxVal
 	}
-}
 
-func updateMinMaxForGreaterOrEqual(result *rangeResult, constVal *ssa.Const, op token.Token, operandsFlipped bool, successPathConvert bool) {
-	// If the success path has a conversion and the operands are not flipped, then the constant value is the minimum value.
-	if successPathConvert && !operandsFlipped {
-		result.minValue = int(constVal.Int64())
-		if op == token.GEQ {
-			result.minValue++
+	// The check is made on the negated value or the negated value is converted.
+	_, operandOp := getRealValueFromOperation(operand)
+	_, xOp := getRealValueFromOperation(x)
+	if (operandOp == "neg") != (xOp == "neg") {
+		negated := valueRange{min: math.MinInt, max: math.MaxUint}
+		if result.max <= math.MaxInt {
+			negated.min = -int(result.max)
 		}
-	} else {
-		result.maxValue = uint(constVal.Uint64())
-		if op == token.LSS {
-			result.maxValue--
+		if result.min >= 0 {
+			negated.max = 0
+		} else if result.min > math.MinInt {
+			negated.max = uint(-result.min)
 		}
+		return negated
 	}
+	return result
 }
 
-// walkBranchForConvert walks the branch of the if statement to find the range of the variable and where the conversion is.
-func walkBranchForConvert(block *ssa.BasicBlock, instr *ssa.Convert, visitedIfs map[*ssa.If]bool) branchResults {
-	bounds := branchResults{}
-
-	for _, blockInstr := range block.Instrs {
-		switch v := blockInstr.(type) {
-		case *ssa.If:
-			result := getResultRange(v, instr, visitedIfs)
-			bounds.convertFound = bounds.convertFound || result.convertFound
-
-			if result.isRangeCheck {
-				bounds.minValue = toPtr(maxWithPtr(result.minValue, bounds.minValue))
-				bounds.maxValue = toPtr(minWithPtr(result.maxValue, bounds.maxValue))
-				bounds.explicitPositiveVals = append(bounds.explicitPositiveVals, result.explicitPositiveVals...)
-				bounds.explicitNegativeVals = append(bounds.explicitNegativeVals, result.explicitNegativeVals...)
-			}
-		case *ssa.Call:
-			if v == instr.X {
-				if fn, isBuiltin := v.Call.Value.(*ssa.Builtin); isBuiltin && (fn.Name() == "len" || fn.Name() == "cap") {
-					bounds.minValue = toPtr(0)
-				}
-			}
-		case *ssa.Convert:
-			if v == instr {
-				bounds.convertFound = true
-				return bounds
-			}
-		}
-	}
+// flipOperands returns the operator for which "y op x" is the same as "x tok y".
+func flipOperands(tok token.Token) token.Token {
+	switch tok {
+	case token.LSS:
+		return token.GTR
+	case token.LEQ:
+		return token.GEQ
+	case token.GTR:
+		return token.LSS
+	case token.GEQ:
+		return token.LEQ
+	}
+	return tok
+}
 
-	return bounds
+// negate returns the operator for which "x op y" is the same as "!(x tok y)".
+func negate(tok token.Token) token.Token {
+	switch tok {
+	case token.LSS:
+		return token.GEQ
+	case token.LEQ:
+		return token.GTR
+	case token.GTR:
+		return token.LEQ
+	case token.GEQ:
+		return token.LSS
+	case token.EQL:
+		return token.NEQ
+	case token.NEQ:
+		return token.EQL
+	}
+	return tok
 }
 
 func isRangeCheck(v ssa.Value, x ssa.Value) bool {
@@ -489,11 +422,16 @@ func isRangeCheck(v ssa.Value, x ssa.Value) bool {
 func getRealValueFromOperation(v ssa.Value) (ssa.Value, string) {
 	switch v := v.(type) {
 	case *ssa.UnOp:
-		if v.Op == token.SUB {
-			val, _ := getRealValueFromOperation(v.X)
+		switch v.Op {
+		case token.SUB:
+			val, op := getRealValueFromOperation(v.X)
+			if op == "neg" {
+				return val, ""
+			}
 			return val, "neg"
+		case token.MUL:
+			return getRealValueFromOperation(v.X)
 		}
-		return getRealValueFromOperation(v.X)
 	case *ssa.FieldAddr:
 		return v, "field"
 	case *ssa.Alloc:
@@ -519,41 +457,3 @@ func isSameOrRelated(a, b ssa.Value) bool {
 
 	return false
 }
-
-func explicitValsInRange(explicitPosVals []uint, explicitNegVals []int, dstInt integer) bool {
-	if len(explicitPosVals) == 0 && len(explicitNegVals) == 0 {
-		return false
-	}
-
-	for _, val := range explicitPosVals {
-		if val > dstInt.max {
-			return false
-		}
-	}
-
-	for _, val := range explicitNegVals {
-		if val < dstInt.min {
-			return false
-		}
-	}
-
-	return true
-}
-
-func minWithPtr[T cmp.Ordered](a T, b *T) T {
-	if b == nil {
-		return a
-	}
-	return min(a, *b)
-}
-
-func maxWithPtr[T cmp.Ordered](a T, b *T) T {
-	if b == nil {
-		return a
-	}
-	return max(a, *b)
-}
-
-func toPtr[T any](a T) *T {
-	return &a
-}
-- 
2.43.0


From aa6af45df73dd4d7d3e2c5194f5c2193ef3977e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 03/54] fix: G115 parsed values need a fitting bit size on
 every path; bit size 0 is the size of int

---
 analyzers/conversion_overflow.go | 76 +++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 30 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 5a65c43..8526cda 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -197,41 +197,57 @@ func isConstantInRange(constVal *ssa.Const, dstType string) bool {
 }
 
 func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
-	// Traverse the SSA instructions to find the original variable.
-	original := instr.X
-	for {
-		switch v := original.(type) {
-		case *ssa.Call:
-			if v.Call.StaticCallee() != nil && (v.Call.StaticCallee().Name() == "ParseInt" || v.Call.StaticCallee().Name() == "ParseUint") {
-				if len(v.Call.Args) == 3 {
-					if bitSize, ok := v.Call.Args[2].(*ssa.Const); ok {
-						signed := v.Call.StaticCallee().Name() == "ParseInt"
-						bitSizeValue, err := strconv.Atoi(bitSize.Value.String())
-						if err != nil {
-							return false
-						}
-						dstInt, err := parseIntType(dstType)
-						if err != nil {
-							return false
-						}
+	dstInt, err := parseIntType(dstType)
+	if err != nil {
+		return false
+	}
+	return isParsedInRange(instr.X, dstInt, map[ssa.Value]bool{})
+}
 
-						// we're good if:
-						// - signs match and bit size is <= than destination
-						// - parsing unsigned and bit size is < than destination
-						isSafe := (bitSizeValue <= dstInt.size && signed == dstInt.signed) ||
-							(bitSizeValue < dstInt.size && !signed)
-						return isSafe
+// isParsedInRange traverses the SSA values to find the original variable, which has to be parsed with a
+// bit size that fits the destination on each path.
+func isParsedInRange(original ssa.Value, dstInt integer, visited map[ssa.Value]bool) bool {
+	if visited[original] {
+		return true
+	}
+	visited[original] = true
+
+	switch v := original.(type) {
+	case *ssa.Call:
+		if v.Call.StaticCallee() != nil && (v.Call.StaticCallee().Name() == "ParseInt" || v.Call.StaticCallee().Name() == "ParseUint") {
+			if len(v.Call.Args) == 3 {
+				if bitSize, ok := v.Call.Args[2].(*ssa.Const); ok {
+					signed := v.Call.StaticCallee().Name() == "ParseInt"
+					bitSizeValue, err := strconv.Atoi(bitSize.Value.String())
+					if err != nil {
+						return false
+					}
+					// the bit size 0 stands for the size of int and uint
+					if bitSizeValue == 0 {
+						bitSizeValue = strconv.IntSize
 					}
+
+					// we're good if:
+					// - signs match and bit size is <= than destination
+					// - parsing unsigned and bit size is < than destination
+					isSafe := (bitSizeValue <= dstInt.size && signed == dstInt.signed) ||
+						(bitSizeValue < dstInt.size && !signed)
+					return isSafe
 				}
 			}
-			return false
-		case *ssa.Phi:
-			original = v.Edges[0]
-		case *ssa.Extract:
-			original = v.Tuple
-		default:
-			return false
 		}
+		return false
+	case *ssa.Phi:
+		for _, edge := range v.Edges {
+			if !isParsedInRange(edge, dstInt, visited) {
+				return false
+			}
+		}
+		return true
+	case *ssa.Extract:
+		return isParsedInRange(v.Tuple, dstInt, visited)
+	default:
+		return false
 	}
 }
 
-- 
2.43.0


From a04c34fecb416b0a9ce134db53a9cde48cec5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 04/54] fix: file permission rules judge os.ModePerm by its
 bits under any import name and accept numeric limits

---
 rules/fileperms.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/rules/fileperms.go b/rules/fileperms.go
index bf2a959..72bbd7f 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -17,6 +17,8 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"os"
+	"slices"
 	"strconv"
 
 	"github.com/securego/gosec/v2"
@@ -41,6 +43,8 @@ func getConfiguredMode(conf map[string]interface{}, configKey string, defaultMod
 		switch value := value.(type) {
 		case int64:
 			mode = value
+		case float64: // the type of the numbers in a JSON configuration
+			mode = int64(value)
 		case string:
 			if m, e := strconv.ParseInt(value, 0, 64); e != nil {
 				mode = defaultMode
@@ -61,7 +65,11 @@ func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, err
 	for _, pkg := range r.pkgs {
 		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched {
 			modeArg := callexpr.Args[len(callexpr.Args)-1]
-			if mode, err := gosec.GetInt(modeArg); err == nil && !modeIsSubset(mode, r.mode) || isOsPerm(modeArg) {
+			mode, err := gosec.GetInt(modeArg)
+			if isOsPerm(modeArg, c) {
+				mode, err = int64(os.ModePerm), nil
+			}
+			if err == nil && !modeIsSubset(mode, r.mode) {
 				return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
 		}
@@ -69,12 +77,12 @@ func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, err
 	return nil, nil
 }
 
-// isOsPerm check if the provide ast node contains a os.PermMode symbol
-func isOsPerm(n ast.Node) bool {
-	if node, ok := n.(*ast.SelectorExpr); ok {
+// isOsPerm checks if the provided ast node is the os.ModePerm symbol
+func isOsPerm(n ast.Node, c *gosec.Context) bool {
+	if node, ok := n.(*ast.SelectorExpr); ok && node.Sel != nil && node.Sel.Name == "ModePerm" {
 		if identX, ok := node.X.(*ast.Ident); ok {
-			if identX.Name == "os" && node.Sel != nil && node.Sel.Name == "ModePerm" {
-				return true
+			if names, ok := gosec.GetImportedNames("os", c); ok {
+				return slices.Contains(names, identX.Name)
 			}
 		}
 	}
-- 
2.43.0


From 5e93ffc68aa63f81576c180e47008b011667375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 05/54] fix: G402 judge each TLS configuration on its own
 settings and do not crash on unresolved versions

---
 rules/tls.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 65a0b5a..660eb87 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -118,20 +118,15 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 						}
 					}
 				}
+				if obj == nil {
+					return nil
+				}
 				if vs, ok := obj.Decl.(*ast.ValueSpec); ok && len(vs.Values) > 0 {
 					if s, ok := vs.Values[0].(*ast.SelectorExpr); ok {
-						x := s.X.(*ast.Ident).Name
-						sel := s.Sel.Name
-
-						for _, imp := range c.Pkg.Imports() {
-							if imp.Name() == x {
-								tObj := imp.Scope().Lookup(sel)
-								if cst, ok := tObj.(*types.Const); ok {
-									// ..got the value check if this can be translated
-									if minVersion, err := strconv.ParseInt(cst.Val().String(), 0, 64); err == nil {
-										t.actualMinVersion = minVersion
-									}
-								}
+						if cst, ok := c.Info.ObjectOf(s.Sel).(*types.Const); ok {
+							// ..got the value check if this can be translated
+							if minVersion, err := strconv.ParseInt(cst.Val().String(), 0, 64); err == nil {
+								t.actualMinVersion = minVersion
 							}
 						}
 					}
@@ -212,15 +207,15 @@ func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, e
 	if complit, ok := n.(*ast.CompositeLit); ok && complit.Type != nil {
 		actualType := c.Info.TypeOf(complit.Type)
 		if actualType != nil && actualType.String() == t.requiredType {
+			// the versions seen in other literals and assignments do not matter for this literal
+			t.resetVersion()
 			for _, elt := range complit.Elts {
 				issue := t.processTLSConf(elt, c)
 				if issue != nil {
 					return issue, nil
 				}
 			}
-			issue := t.checkVersion(complit, c)
-			t.resetVersion()
-			return issue, nil
+			return t.checkVersion(complit, c), nil
 		}
 	} else {
 		if assign, ok := n.(*ast.AssignStmt); ok && len(assign.Lhs) > 0 {
-- 
2.43.0


From 49a8d1e71f0128292a25de09a1ef012a6da78b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 06/54] fix: in-source suppressions apply exactly to the ranges
 they annotate

---
 analyzer.go | 44 ++++++++++++++------------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 34ac82b..3fa3bb8 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -91,46 +91,30 @@ func (i ignores) add(file string, line string, suppressions map[string]issue.Sup
 	if _, ok := i[file]; ok {
 		is = i[file]
 	}
-	found := false
 	start, end := i.parseLine(line)
-	for _, ig := range is {
-		if ig.start <= start && ig.end >= end {
-			found = true
-			for r, s := range suppressions {
-				ss, ok := ig.suppressions[r]
-				if !ok {
-					ss = []issue.SuppressionInfo{}
-				}
-				ss = append(ss, s)
-				ig.suppressions[r] = ss
-			}
-			break
-		}
+	ig := ignore{
+		start:        start,
+		end:          end,
+		suppressions: map[string][]issue.SuppressionInfo{},
 	}
-	if !found {
-		ig := ignore{
-			start:        start,
-			end:          end,
-			suppressions: map[string][]issue.SuppressionInfo{},
-		}
-		for r, s := range suppressions {
-			ig.suppressions[r] = []issue.SuppressionInfo{s}
-		}
-		is = append(is, ig)
+	for r, s := range suppressions {
+		ig.suppressions[r] = []issue.SuppressionInfo{s}
 	}
-	i[file] = is
+	i[file] = append(is, ig)
 }
 
+// get returns the suppressions of all the ignores which overlap the given line or range of lines.
 func (i ignores) get(file string, line string) map[string][]issue.SuppressionInfo {
 	start, end := i.parseLine(line)
-	if is, ok := i[file]; ok {
-		for _, i := range is {
-			if i.start <= start && i.end >= end || start <= i.start && end >= i.end {
-				return i.suppressions
+	suppressions := map[string][]issue.SuppressionInfo{}
+	for _, ig := range i[file] {
+		if ig.start <= start && ig.end >= end || start <= ig.start && end >= ig.end {
+			for r, s := range ig.suppressions {
+				suppressions[r] = append(suppressions[r], s...)
 			}
 		}
 	}
-	return map[string][]issue.SuppressionInfo{}
+	return suppressions
 }
 
 // The Context is populated with data parsed from the source code as it is scanned.
-- 
2.43.0


From 12b103f06c4a75691d9acc1f91e228eec01eb886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 07/54] fix: honour every suppression directive of a node, in
 source order

---
 analyzer.go | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 3fa3bb8..866c8c1 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -28,6 +28,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -543,8 +544,8 @@ func (gosec *Analyzer) AppendError(file string, err error) {
 	gosec.errors[file] = errors
 }
 
-// ignore a node (and sub-tree) if it is tagged with a nosec tag comment
-func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
+// ignore a node (and sub-tree) if it is tagged with nosec tag comments. It returns the rules ignored by each of them.
+func (gosec *Analyzer) ignore(n ast.Node) []map[string]issue.SuppressionInfo {
 	if gosec.ignoreNosec {
 		return nil
 	}
@@ -567,6 +568,7 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 		noSecAlternativeTag = NoSecTag(noSecAlternativeTag)
 	}
 
+	var directives []map[string]issue.SuppressionInfo
 	for _, group := range groups {
 		found, args := findNoSecDirective(group, noSecDefaultTag, noSecAlternativeTag)
 		if !found {
@@ -602,9 +604,9 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 		if len(matches) == 0 {
 			ignores[aliasOfAllRules] = suppression
 		}
-		return ignores
+		directives = append(directives, ignores)
 	}
-	return nil
+	return directives
 }
 
 // findNoSecDirective checks if the comment group contains `#nosec` or `//gosec:disable` directive.
@@ -661,23 +663,34 @@ func (gosec *Analyzer) Visit(n ast.Node) ast.Visitor {
 }
 
 func (gosec *Analyzer) updateIgnores() {
+	nodes := make([]ast.Node, 0, len(gosec.context.Comments))
 	for n := range gosec.context.Comments {
+		nodes = append(nodes, n)
+	}
+	// Visit the nodes from the outermost to the innermost, in the order of the source.
+	sort.SliceStable(nodes, func(i, j int) bool {
+		if nodes[i].Pos() != nodes[j].Pos() {
+			return nodes[i].Pos() < nodes[j].Pos()
+		}
+		return nodes[i].End() > nodes[j].End()
+	})
+	for _, n := range nodes {
 		gosec.updateIgnoredRulesForNode(n)
 	}
 }
 
 func (gosec *Analyzer) updateIgnoredRulesForNode(n ast.Node) {
-	ignoredRules := gosec.ignore(n)
-	if len(ignoredRules) > 0 {
-		if gosec.context.Ignores == nil {
-			gosec.context.Ignores = newIgnores()
-		}
-		line := issue.GetLine(gosec.context.FileSet.File(n.Pos()), n)
-		gosec.context.Ignores.add(
-			gosec.context.FileSet.File(n.Pos()).Name(),
-			line,
-			ignoredRules,
-		)
+	directives := gosec.ignore(n)
+	if len(directives) == 0 {
+		return
+	}
+	if gosec.context.Ignores == nil {
+		gosec.context.Ignores = newIgnores()
+	}
+	file := gosec.context.FileSet.File(n.Pos())
+	line := issue.GetLine(file, n)
+	for _, ignoredRules := range directives {
+		gosec.context.Ignores.add(file.Name(), line, ignoredRules)
 	}
 }
 
-- 
2.43.0


From 07ab09b66ea33ee2c22dc212fac598e9dbc3afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 08/54] fix: take suppression arguments from the directive
 itself and match custom tags literally

---
 analyzer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 866c8c1..d754fc6 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -633,9 +633,12 @@ func findNoSecDirective(group *ast.CommentGroup, noSecDefaultTag, noSecAlternati
 func findNoSecTag(group *ast.CommentGroup, tag string) (bool, string) {
 	comment := strings.TrimSpace(group.Text())
 
-	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+tag).MatchString(comment) {
-		// Discard what's in front of the nosec tag.
-		return true, strings.SplitN(comment, tag, 2)[1]
+	// Discard what's in front of the nosec tag.
+	if args, found := strings.CutPrefix(comment, tag); found {
+		return true, args
+	}
+	if loc := regexp.MustCompile("\n *" + regexp.QuoteMeta(tag)).FindStringIndex(comment); loc != nil {
+		return true, comment[loc[1]:]
 	}
 
 	return false, ""
-- 
2.43.0


From 6ab092081716cfbaa05a9e0e804ee164297444f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 09/54] fix: recognise calls by the package they refer to and
 not by the spelling of its name

---
 call_list.go       | 34 +++++++++++++++++---------
 helpers.go         | 59 ++++++++++++++++++++++++++++++++++------------
 import_tracker.go  |  4 ++--
 rules/blocklist.go |  3 +--
 rules/subproc.go   | 14 ++++-------
 5 files changed, 75 insertions(+), 39 deletions(-)

diff --git a/call_list.go b/call_list.go
index 4f2d6c5..5ae0ee6 100644
--- a/call_list.go
+++ b/call_list.go
@@ -72,23 +72,25 @@ func (c CallList) ContainsPointer(selector, indent string) bool {
 // ContainsPkgCallExpr resolves the call expression name and type, and then further looks
 // up the package path for that type. Finally, it determines if the call exists within the call list
 func (c CallList) ContainsPkgCallExpr(n ast.Node, ctx *Context, stripVendor bool) *ast.CallExpr {
-	selector, ident, err := GetCallInfo(n, ctx)
-	if err != nil {
+	call, ok := n.(*ast.CallExpr)
+	if !ok {
 		return nil
 	}
 
 	// Selector can have two forms:
-	// 1. A short name if a module function is called (expr.Name).
-	// E.g., "big" if called function from math/big.
+	// 1. The import path of the package if a module function is called.
+	// E.g., "math/big" if called function from math/big.
 	// 2. A full name if a structure function is called (TypeOf(expr)).
 	// E.g., "math/big.Rat" if called function of Rat structure from math/big.
-	if !strings.ContainsRune(selector, '.') {
-		// Use only explicit path (optionally strip vendor path prefix) to reduce conflicts
-		path, ok := GetImportPath(selector, ctx)
-		if !ok {
+	var selector, ident string
+	if pkg, name, ok := calledPackage(call, ctx); ok {
+		selector, ident = packagePath(pkg), name
+	} else {
+		var err error
+		selector, ident, err = GetCallInfo(call, ctx)
+		if err != nil || !strings.ContainsRune(selector, '.') {
 			return nil
 		}
-		selector = path
 	}
 
 	if stripVendor {
@@ -106,7 +108,17 @@ func (c CallList) ContainsPkgCallExpr(n ast.Node, ctx *Context, stripVendor bool
 // ContainsCallExpr resolves the call expression name and type, and then determines
 // if the call exists with the call list
 func (c CallList) ContainsCallExpr(n ast.Node, ctx *Context) *ast.CallExpr {
-	selector, ident, err := GetCallInfo(n, ctx)
+	call, ok := n.(*ast.CallExpr)
+	if !ok {
+		return nil
+	}
+	if pkg, name, ok := calledPackage(call, ctx); ok {
+		if !c.Contains(pkg.Name(), name) && !c.Contains(packagePath(pkg), name) {
+			return nil
+		}
+		return call
+	}
+	selector, ident, err := GetCallInfo(call, ctx)
 	if err != nil {
 		return nil
 	}
@@ -114,5 +126,5 @@ func (c CallList) ContainsCallExpr(n ast.Node, ctx *Context) *ast.CallExpr {
 		return nil
 	}
 
-	return n.(*ast.CallExpr)
+	return call
 }
diff --git a/helpers.go b/helpers.go
index 33e2b4a..f32b24d 100644
--- a/helpers.go
+++ b/helpers.go
@@ -43,30 +43,59 @@ const envGoModVersion = "GOSECGOVERSION"
 //
 //	node, matched := MatchCallByPackage(n, ctx, "math/rand", "Read")
 func MatchCallByPackage(n ast.Node, c *Context, pkg string, names ...string) (*ast.CallExpr, bool) {
-	importedNames, found := GetImportedNames(pkg, c)
-	if !found {
-		return nil, false
-	}
-
 	if callExpr, ok := n.(*ast.CallExpr); ok {
-		packageName, callName, err := GetCallInfo(callExpr, c)
-		if err != nil {
+		called, callName, ok := calledPackage(callExpr, c)
+		if !ok || packagePath(called) != pkg {
 			return nil, false
 		}
-		for _, in := range importedNames {
-			if packageName != in {
-				continue
-			}
-			for _, name := range names {
-				if callName == name {
-					return callExpr, true
-				}
+		for _, name := range names {
+			if callName == name {
+				return callExpr, true
 			}
 		}
 	}
 	return nil, false
 }
 
+// calledPackage returns the imported package whose function is called and the
+// name of that function. It follows what the called identifier refers to and
+// not how it is spelled.
+func calledPackage(call *ast.CallExpr, c *Context) (*types.Package, string, bool) {
+	fun := ast.Unparen(call.Fun)
+	switch index := fun.(type) {
+	case *ast.IndexExpr:
+		fun = ast.Unparen(index.X)
+	case *ast.IndexListExpr:
+		fun = ast.Unparen(index.X)
+	}
+	switch fn := fun.(type) {
+	case *ast.SelectorExpr:
+		if ident, ok := fn.X.(*ast.Ident); ok {
+			if name, ok := c.Info.Uses[ident].(*types.PkgName); ok {
+				return name.Imported(), fn.Sel.Name, true
+			}
+		}
+	case *ast.Ident:
+		// A function of another package is only named directly after a dot import.
+		switch obj := c.Info.Uses[fn].(type) {
+		case *types.Func, *types.TypeName:
+			if obj.Pkg() != nil && obj.Pkg() != c.Pkg {
+				return obj.Pkg(), fn.Name, true
+			}
+		}
+	}
+	return nil, "", false
+}
+
+// packagePath returns the path a package is imported with, also when it is vendored.
+func packagePath(pkg *types.Package) string {
+	path := pkg.Path()
+	if vendorIdx := strings.LastIndex("/"+path, "/"+vendorPath); vendorIdx >= 0 {
+		path = path[vendorIdx+len(vendorPath):]
+	}
+	return path
+}
+
 // MatchCompLit will match an ast.CompositeLit based on the supplied type
 func MatchCompLit(n ast.Node, ctx *Context, required string) *ast.CompositeLit {
 	if complit, ok := n.(*ast.CompositeLit); ok {
diff --git a/import_tracker.go b/import_tracker.go
index 0d9ebfe..05e7fb0 100644
--- a/import_tracker.go
+++ b/import_tracker.go
@@ -19,7 +19,7 @@ import (
 	"strings"
 )
 
-var versioningPackagePattern = regexp.MustCompile(`v[0-9]+$`)
+var versioningPackagePattern = regexp.MustCompile(`^v[0-9]+$`)
 
 // ImportTracker is used to normalize the packages that have been imported
 // by a source file. It is able to differentiate between plain imports, aliased
@@ -52,7 +52,7 @@ func (t *ImportTracker) TrackPackages(pkgs ...*types.Package) {
 
 // TrackImport tracks imports.
 func (t *ImportTracker) TrackImport(imported *ast.ImportSpec) {
-	importPath := strings.Trim(imported.Path.Value, `"`)
+	importPath := strings.Trim(imported.Path.Value, "\"`")
 	if imported.Name != nil {
 		if imported.Name.Name != "_" {
 			// Aliased import
diff --git a/rules/blocklist.go b/rules/blocklist.go
index a4376b1..c474b1a 100644
--- a/rules/blocklist.go
+++ b/rules/blocklist.go
@@ -29,8 +29,7 @@ type blocklistedImport struct {
 
 func unquote(original string) string {
 	cleaned := strings.TrimSpace(original)
-	cleaned = strings.TrimLeft(cleaned, `"`)
-	return strings.TrimRight(cleaned, `"`)
+	return strings.Trim(cleaned, "\"`")
 }
 
 func (r *blocklistedImport) ID() string {
diff --git a/rules/subproc.go b/rules/subproc.go
index 1e2ceda..c2205ed 100644
--- a/rules/subproc.go
+++ b/rules/subproc.go
@@ -25,6 +25,7 @@ import (
 type subprocess struct {
 	issue.MetaData
 	gosec.CallList
+	contextCalls gosec.CallList
 }
 
 func (r *subprocess) ID() string {
@@ -99,19 +100,12 @@ func (r *subprocess) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 // isContext checks whether or not the node is a CommandContext call or not
 // This is required in order to skip the first argument from the check.
 func (r *subprocess) isContext(n ast.Node, ctx *gosec.Context) bool {
-	selector, indent, err := gosec.GetCallInfo(n, ctx)
-	if err != nil {
-		return false
-	}
-	if selector == "exec" && indent == "CommandContext" {
-		return true
-	}
-	return false
+	return r.contextCalls.ContainsPkgCallExpr(n, ctx, false) != nil
 }
 
 // NewSubproc detects cases where we are forking out to an external process
 func NewSubproc(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
-	rule := &subprocess{issue.MetaData{ID: id}, gosec.NewCallList()}
+	rule := &subprocess{issue.MetaData{ID: id}, gosec.NewCallList(), gosec.NewCallList()}
 	rule.Add("os/exec", "Command")
 	rule.Add("os/exec", "CommandContext")
 	rule.Add("syscall", "Exec")
@@ -119,5 +113,7 @@ func NewSubproc(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	rule.Add("syscall", "StartProcess")
 	rule.Add("golang.org/x/sys/execabs", "Command")
 	rule.Add("golang.org/x/sys/execabs", "CommandContext")
+	rule.contextCalls.Add("os/exec", "CommandContext")
+	rule.contextCalls.Add("golang.org/x/sys/execabs", "CommandContext")
 	return rule, []ast.Node{(*ast.CallExpr)(nil)}
 }
-- 
2.43.0


From 067e36021c59f1670755c945bc850eaddaf489b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 10/54] fix: resolve constants, parentheses and multiple
 declarations the same way in all argument checks

---
 helpers.go        | 40 ++++++++++-----------------
 resolve.go        | 20 ++++++++++++++
 rules/readfile.go |  5 ++--
 rules/sql.go      | 70 +++++++++++++++++++++++++++++++----------------
 rules/ssrf.go     |  2 +-
 5 files changed, 85 insertions(+), 52 deletions(-)

diff --git a/helpers.go b/helpers.go
index f32b24d..414cfe7 100644
--- a/helpers.go
+++ b/helpers.go
@@ -148,6 +148,10 @@ func GetStringRecursive(n ast.Node) (string, error) {
 		return strconv.Unquote(node.Value)
 	}
 
+	if expr, ok := n.(*ast.ParenExpr); ok {
+		return GetStringRecursive(expr.X)
+	}
+
 	if expr, ok := n.(*ast.BinaryExpr); ok {
 		x, err := GetStringRecursive(expr.X)
 		if err != nil {
@@ -313,15 +317,12 @@ func GetBinaryExprOperands(be *ast.BinaryExpr) []ast.Node {
 	var traverse func(be *ast.BinaryExpr)
 	result := []ast.Node{}
 	traverse = func(be *ast.BinaryExpr) {
-		if lhs, ok := be.X.(*ast.BinaryExpr); ok {
-			traverse(lhs)
-		} else {
-			result = append(result, be.X)
-		}
-		if rhs, ok := be.Y.(*ast.BinaryExpr); ok {
-			traverse(rhs)
-		} else {
-			result = append(result, be.Y)
+		for _, operand := range []ast.Expr{ast.Unparen(be.X), ast.Unparen(be.Y)} {
+			if nested, ok := operand.(*ast.BinaryExpr); ok {
+				traverse(nested)
+			} else {
+				result = append(result, operand)
+			}
 		}
 	}
 	traverse(be)
@@ -442,22 +443,11 @@ func ConcatString(n *ast.BinaryExpr) (string, bool) {
 // FindVarIdentities returns array of all variable identities in a given binary expression
 func FindVarIdentities(n *ast.BinaryExpr, c *Context) ([]*ast.Ident, bool) {
 	identities := []*ast.Ident{}
-	// sub expressions are found in X object, Y object is always the last term
-	if rightOperand, ok := n.Y.(*ast.Ident); ok {
-		obj := c.Info.ObjectOf(rightOperand)
-		if _, ok := obj.(*types.Var); ok && !TryResolve(rightOperand, c) {
-			identities = append(identities, rightOperand)
-		}
-	}
-	if leftOperand, ok := n.X.(*ast.BinaryExpr); ok {
-		if leftIdentities, ok := FindVarIdentities(leftOperand, c); ok {
-			identities = append(identities, leftIdentities...)
-		}
-	} else {
-		if leftOperand, ok := n.X.(*ast.Ident); ok {
-			obj := c.Info.ObjectOf(leftOperand)
-			if _, ok := obj.(*types.Var); ok && !TryResolve(leftOperand, c) {
-				identities = append(identities, leftOperand)
+	for _, operand := range GetBinaryExprOperands(n) {
+		if ident, ok := operand.(*ast.Ident); ok {
+			obj := c.Info.ObjectOf(ident)
+			if _, ok := obj.(*types.Var); ok && !TryResolve(ident, c) {
+				identities = append(identities, ident)
 			}
 		}
 	}
diff --git a/resolve.go b/resolve.go
index a201b8d..3f57501 100644
--- a/resolve.go
+++ b/resolve.go
@@ -20,6 +20,21 @@ func resolveIdent(n *ast.Ident, c *Context) bool {
 	if n.Obj == nil || n.Obj.Kind != ast.Var {
 		return true
 	}
+	switch decl := n.Obj.Decl.(type) {
+	case *ast.ValueSpec:
+		// the variable has one of the values if each is declared with its own
+		for i, name := range decl.Names {
+			if name.Name == n.Name && len(decl.Names) == len(decl.Values) {
+				return TryResolve(decl.Values[i], c)
+			}
+		}
+	case *ast.AssignStmt:
+		for i, lhs := range decl.Lhs {
+			if name, ok := lhs.(*ast.Ident); ok && name.Name == n.Name && len(decl.Lhs) == len(decl.Rhs) {
+				return TryResolve(decl.Rhs[i], c)
+			}
+		}
+	}
 	if node, ok := n.Obj.Decl.(ast.Node); ok {
 		return TryResolve(node, c)
 	}
@@ -75,6 +90,9 @@ func resolveCallExpr(_ *ast.CallExpr, _ *Context) bool {
 // all values contained within to a known constant. It is used to check for any
 // unknown values in compound expressions.
 func TryResolve(n ast.Node, c *Context) bool {
+	if expr, ok := n.(ast.Expr); ok && c != nil && c.Info != nil && c.Info.Types[expr].Value != nil {
+		return true
+	}
 	switch node := n.(type) {
 	case *ast.BasicLit:
 		return true
@@ -88,6 +106,8 @@ func TryResolve(n ast.Node, c *Context) bool {
 		return resolveAssign(node, c)
 	case *ast.CallExpr:
 		return resolveCallExpr(node, c)
+	case *ast.ParenExpr:
+		return TryResolve(node.X, c)
 	case *ast.BinaryExpr:
 		return resolveBinExpr(node, c)
 	}
diff --git a/rules/readfile.go b/rules/readfile.go
index da6b9c9..c696c04 100644
--- a/rules/readfile.go
+++ b/rules/readfile.go
@@ -95,8 +95,9 @@ func (r *readfile) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if node := r.clean.ContainsPkgCallExpr(n, c, false); node != nil {
 		r.trackFilepathClean(n)
 		return nil, nil
-	} else if node := r.ContainsPkgCallExpr(n, c, false); node != nil {
-		for _, arg := range node.Args {
+	} else if node := r.ContainsPkgCallExpr(n, c, false); node != nil && len(node.Args) > 0 {
+		// only the first argument is a path
+		for _, arg := range node.Args[:1] {
 			// handles path joining functions in Arg
 			// eg. os.Open(filepath.Join("/tmp/", file))
 			if callExpr, ok := arg.(*ast.CallExpr); ok {
diff --git a/rules/sql.go b/rules/sql.go
index 61222bf..ab379c0 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -102,7 +102,7 @@ func (s *sqlStrConcat) ID() string {
 // This method assumes you've already verified that the branch contains SQL syntax
 func (s *sqlStrConcat) findInjectionInBranch(ctx *gosec.Context, branch []ast.Expr) *ast.BinaryExpr {
 	for _, node := range branch {
-		be, ok := node.(*ast.BinaryExpr)
+		be, ok := ast.Unparen(node).(*ast.BinaryExpr)
 		if !ok {
 			continue
 		}
@@ -110,15 +110,9 @@ func (s *sqlStrConcat) findInjectionInBranch(ctx *gosec.Context, branch []ast.Ex
 		operands := gosec.GetBinaryExprOperands(be)
 
 		for _, op := range operands {
-			if _, ok := op.(*ast.BasicLit); ok {
-				continue
+			if !s.isConstOperand(op, ctx) {
+				return be
 			}
-
-			if ident, ok := op.(*ast.Ident); ok && s.checkObject(ident, ctx) {
-				continue
-			}
-
-			return be
 		}
 	}
 	return nil
@@ -139,6 +133,40 @@ func (s *sqlStrConcat) checkObject(n *ast.Ident, c *gosec.Context) bool {
 	return false
 }
 
+// isConstOperand tells whether an operand of a concatenation is constant
+func (s *sqlStrConcat) isConstOperand(op ast.Node, ctx *gosec.Context) bool {
+	if expr, ok := op.(ast.Expr); ok && ctx.Info.Types[expr].Value != nil {
+		return true
+	}
+	ident, ok := op.(*ast.Ident)
+	return ok && s.checkObject(ident, ctx)
+}
+
+// declaredValues returns the values an identifier is declared with, only its
+// own one if each of several identifiers is declared with its own value
+func declaredValues(id *ast.Ident) []ast.Expr {
+	if id.Obj == nil {
+		return nil
+	}
+	switch decl := id.Obj.Decl.(type) {
+	case *ast.ValueSpec:
+		for i, name := range decl.Names {
+			if name.Name == id.Name && len(decl.Names) == len(decl.Values) {
+				return decl.Values[i : i+1]
+			}
+		}
+		return decl.Values
+	case *ast.AssignStmt:
+		for i, lhs := range decl.Lhs {
+			if name, ok := lhs.(*ast.Ident); ok && name.Name == id.Name && len(decl.Lhs) == len(decl.Rhs) {
+				return decl.Rhs[i : i+1]
+			}
+		}
+		return decl.Rhs
+	}
+	return nil
+}
+
 // checkQuery verifies if the query parameters is a string concatenation
 func (s *sqlStrConcat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issue.Issue, error) {
 	query, err := findQueryArg(call, ctx)
@@ -146,7 +174,7 @@ func (s *sqlStrConcat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issu
 		return nil, err
 	}
 
-	if be, ok := query.(*ast.BinaryExpr); ok {
+	if be, ok := ast.Unparen(query).(*ast.BinaryExpr); ok {
 		operands := gosec.GetBinaryExprOperands(be)
 		if start, ok := operands[0].(*ast.BasicLit); ok {
 			if str, e := gosec.GetString(start); e == nil {
@@ -155,22 +183,19 @@ func (s *sqlStrConcat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issu
 				}
 			}
 			for _, op := range operands[1:] {
-				if _, ok := op.(*ast.BasicLit); ok {
-					continue
+				if !s.isConstOperand(op, ctx) {
+					return ctx.NewIssue(be, s.ID(), s.What, s.Severity, s.Confidence), nil
 				}
-				if op, ok := op.(*ast.Ident); ok && s.checkObject(op, ctx) {
-					continue
-				}
-				return ctx.NewIssue(be, s.ID(), s.What, s.Severity, s.Confidence), nil
 			}
 		}
 	}
 
 	// Handle the case where an injection occurs as an infixed string concatenation, ie "SELECT * FROM foo WHERE name = '" + os.Args[0] + "' AND 1=1"
-	if id, ok := query.(*ast.Ident); ok {
+	if id, ok := ast.Unparen(query).(*ast.Ident); ok {
 		var match bool
-		for _, str := range gosec.GetIdentStringValuesRecursive(id) {
-			if s.MatchPatterns(str) {
+		values := declaredValues(id)
+		for _, value := range values {
+			if str, err := gosec.GetStringRecursive(value); err == nil && s.MatchPatterns(str) {
 				match = true
 				break
 			}
@@ -180,11 +205,8 @@ func (s *sqlStrConcat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issu
 			return nil, nil
 		}
 
-		switch decl := id.Obj.Decl.(type) {
-		case *ast.AssignStmt:
-			if injection := s.findInjectionInBranch(ctx, decl.Rhs); injection != nil {
-				return ctx.NewIssue(injection, s.ID(), s.What, s.Severity, s.Confidence), nil
-			}
+		if injection := s.findInjectionInBranch(ctx, values); injection != nil {
+			return ctx.NewIssue(injection, s.ID(), s.What, s.Severity, s.Confidence), nil
 		}
 	}
 
diff --git a/rules/ssrf.go b/rules/ssrf.go
index dbf0108..f323e95 100644
--- a/rules/ssrf.go
+++ b/rules/ssrf.go
@@ -27,7 +27,7 @@ func (r *ssrf) ResolveVar(n *ast.CallExpr, c *gosec.Context) bool {
 			obj := c.Info.ObjectOf(ident)
 			if _, ok := obj.(*types.Var); ok {
 				scope := c.Pkg.Scope()
-				if scope != nil && scope.Lookup(ident.Name) != nil {
+				if scope != nil && obj.Parent() == scope {
 					// a URL defined in a variable at package scope can be changed at any time
 					return true
 				}
-- 
2.43.0


From 78944b64709d8b9836d462ea120cf5bcfbb5b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 11/54] fix: G101 match assigned values with the name they are
 assigned to

---
 rules/hardcoded_credentials.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index c10d18b..1591732 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -234,15 +234,13 @@ func (r *credentials) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error
 }
 
 func (r *credentials) matchAssign(assign *ast.AssignStmt, ctx *gosec.Context) (*issue.Issue, error) {
-	for _, i := range assign.Lhs {
+	for index, i := range assign.Lhs {
 		if ident, ok := i.(*ast.Ident); ok {
 			// First check LHS to find anything being assigned to variables whose name appears to be a cred
-			if r.pattern.MatchString(ident.Name) {
-				for _, e := range assign.Rhs {
-					if val, err := gosec.GetString(e); err == nil {
-						if r.ignoreEntropy || (!r.ignoreEntropy && r.isHighEntropyString(val)) {
-							return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
-						}
+			if index < len(assign.Rhs) && r.pattern.MatchString(ident.Name) {
+				if val, err := gosec.GetString(assign.Rhs[index]); err == nil {
+					if r.ignoreEntropy || (!r.ignoreEntropy && r.isHighEntropyString(val)) {
+						return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
 					}
 				}
 			}
-- 
2.43.0


From 56fd93c38e43c70e21d439453a3905910395f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 12/54] fix: do not crash on calls with multi-value or missing
 arguments, constant nonces and recursive nonce parameters

---
 analyzers/hardcoded_nonce.go | 26 ++++++++++++++++++--------
 rules/decompression-bomb.go  |  2 +-
 rules/integer_overflow.go    |  2 +-
 rules/rsa.go                 |  2 +-
 rules/tempfiles.go           |  2 +-
 5 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index c9c5395..b55334e 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -63,7 +63,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 		if arg == nil {
 			continue
 		}
-		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "")
+		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "", map[*ssa.Parameter]bool{})
 		if err != nil {
 			return issues, fmt.Errorf("raising issue error: %w", err)
 		}
@@ -73,7 +73,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 }
 
 func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Function,
-	pass *analysis.Pass, issueDescription string,
+	pass *analysis.Pass, issueDescription string, visited map[*ssa.Parameter]bool,
 ) ([]*issue.Issue, error) {
 	if issueDescription == "" {
 		issueDescription = defaultIssueDescription
@@ -124,7 +124,10 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 		// }
 		// save parameter position, by checking the name of the variable used in
 		// tracked functions and comparing it with the name of the arg
-		if valType.Parent() != nil {
+		// a parameter that a recursive function passes on to itself has no further origin
+		if valType.Parent() != nil && !visited[valType] {
+			visited[valType] = true
+			defer delete(visited, valType)
 			trackedFunctions := make(map[string][]int)
 			for index, funcArgs := range valType.Parent().Params {
 				if funcArgs.Name() == valType.Name() && funcArgs.Type() == valType.Type() {
@@ -139,7 +142,7 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 				if arg == nil {
 					continue
 				}
-				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription)
+				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription, visited)
 				allIssues = append(allIssues, issues...)
 			}
 		}
@@ -196,14 +199,21 @@ func isFuncContainsCryptoRand(funcCall *ssa.Function) (bool, error) {
 	return false, nil
 }
 
+// varKey identifies a value; constants and globals have no parent.
+func varKey(value ssa.Value) string {
+	key := value.Name() + value.Type().String() + value.String()
+	if parent := value.Parent(); parent != nil {
+		key += parent.String()
+	}
+	return key
+}
+
 func addToVarsMap(value ssa.Value, mapToAddTo map[string]*ssa.Value) {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
-	mapToAddTo[key] = &value
+	mapToAddTo[varKey(value)] = &value
 }
 
 func isContainedInMap(value ssa.Value, mapToCheck map[string]*ssa.Value) bool {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
-	_, contained := mapToCheck[key]
+	_, contained := mapToCheck[varKey(value)]
 	return contained
 }
 
diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index 7e57f1a..c1b46cd 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -69,7 +69,7 @@ func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issu
 			}
 		}
 	case *ast.CallExpr:
-		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil {
+		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil && len(n.Args) > 1 {
 			if idt, ok := n.Args[1].(*ast.Ident); ok {
 				if _, ok := readerVarObj[idt.Obj]; ok {
 					// Detect io.Copy(x, r)
diff --git a/rules/integer_overflow.go b/rules/integer_overflow.go
index 1d57906..af1f296 100644
--- a/rules/integer_overflow.go
+++ b/rules/integer_overflow.go
@@ -59,7 +59,7 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 			}
 		}
 	case *ast.CallExpr:
-		if fun, ok := n.Fun.(*ast.Ident); ok {
+		if fun, ok := n.Fun.(*ast.Ident); ok && len(n.Args) > 0 {
 			if fun.Name == "int32" || fun.Name == "int16" {
 				if idt, ok := n.Args[0].(*ast.Ident); ok {
 					if _, ok := atoiVarObj[idt.Obj]; ok {
diff --git a/rules/rsa.go b/rules/rsa.go
index 331e7fc..0d89f28 100644
--- a/rules/rsa.go
+++ b/rules/rsa.go
@@ -33,7 +33,7 @@ func (w *weakKeyStrength) ID() string {
 }
 
 func (w *weakKeyStrength) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
-	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil {
+	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil && len(callExpr.Args) > 1 {
 		if bits, err := gosec.GetInt(callExpr.Args[1]); err == nil && bits < (int64)(w.bits) {
 			return c.NewIssue(n, w.ID(), w.What, w.Severity, w.Confidence), nil
 		}
diff --git a/rules/tempfiles.go b/rules/tempfiles.go
index 6fef52a..ac2af08 100644
--- a/rules/tempfiles.go
+++ b/rules/tempfiles.go
@@ -50,7 +50,7 @@ func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.
 		}
 		return nil
 	}
-	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil {
+	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil && len(ce.Args) > 0 {
 		return t.findTempDirArgs(n, c, ce.Args[0])
 	}
 	return nil
-- 
2.43.0


From 5b4bbdaab30cda89b155f8b352f6125d9bdcb933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 13/54] fix: give G307 findings a CWE

---
 issue/issue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/issue/issue.go b/issue/issue.go
index b7c804e..87e43eb 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -77,6 +77,7 @@ var ruleToCWE = map[string]string{
 	"G304": "22",
 	"G305": "22",
 	"G306": "276",
+	"G307": "276",
 	"G401": "328",
 	"G402": "295",
 	"G403": "310",
-- 
2.43.0


From 8302b5274dc44399bcbc9f39be7c371f725f1108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 14/54] fix: SARIF results refer to their rules by their final
 index, and rules are listed once

---
 report/sarif/formatter.go | 54 +++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index f47c250..f001d5e 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -32,9 +32,7 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 			}
 		}
 
-		rule := parseSarifRule(issue)
-		var ruleIndex int
-		rules, ruleIndex = addRuleInOrder(rules, rule)
+		rules = addRuleInOrder(rules, parseSarifRule(issue))
 
 		location, err := parseSarifLocation(issue, rootPaths)
 		if err != nil {
@@ -43,7 +41,7 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 
 		result := NewResult(
 			issue.RuleID,
-			ruleIndex,
+			0, // set once all rules are known
 			getSarifLevel(issue.Severity.String()),
 			issue.What,
 			buildSarifSuppressions(issue.Suppressions),
@@ -53,6 +51,14 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 		results = append(results, result)
 	}
 
+	ruleIndexes := make(map[string]int, len(rules))
+	for i, rule := range rules {
+		ruleIndexes[rule.ID] = i
+	}
+	for _, result := range results {
+		result.RuleIndex = ruleIndexes[result.RuleID]
+	}
+
 	sort.SliceStable(cweTaxa, func(i, j int) bool { return cweTaxa[i].ID < cweTaxa[j].ID })
 
 	tool := NewTool(buildSarifDriver(rules, data.GosecVersion))
@@ -67,24 +73,16 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 		WithRuns(run), nil
 }
 
-// addRuleInOrder inserts a rule into the rules slice keeping the rules IDs order, it returns the new rules
-// slice and the position where the rule was inserted
-func addRuleInOrder(rules []*ReportingDescriptor, rule *ReportingDescriptor) ([]*ReportingDescriptor, int) {
-	position := 0
-	for i, r := range rules {
-		if r.ID < rule.ID {
-			continue
-		}
-		if r.ID == rule.ID {
-			return rules, i
-		}
-		position = i
-		break
+// addRuleInOrder inserts a rule into the rules slice keeping the rules IDs order, unless the rule is already there
+func addRuleInOrder(rules []*ReportingDescriptor, rule *ReportingDescriptor) []*ReportingDescriptor {
+	position := sort.Search(len(rules), func(i int) bool { return rules[i].ID >= rule.ID })
+	if position < len(rules) && rules[position].ID == rule.ID {
+		return rules
 	}
 	rules = append(rules, nil)
 	copy(rules[position+1:], rules[position:])
 	rules[position] = rule
-	return rules, position
+	return rules
 }
 
 // parseSarifRule return SARIF rule field struct
@@ -108,23 +106,23 @@ func parseSarifRule(i *issue.Issue) *ReportingDescriptor {
 		DefaultConfiguration: &ReportingConfiguration{
 			Level: getSarifLevel(i.Severity.String()),
 		},
-		Relationships: []*ReportingDescriptorRelationship{
-			buildSarifReportingDescriptorRelationship(i.Cwe),
-		},
+		Relationships: buildSarifReportingDescriptorRelationships(i.Cwe),
 	}
 }
 
-func buildSarifReportingDescriptorRelationship(weakness *cwe.Weakness) *ReportingDescriptorRelationship {
+func buildSarifReportingDescriptorRelationships(weakness *cwe.Weakness) []*ReportingDescriptorRelationship {
 	if weakness == nil {
 		return nil
 	}
-	return &ReportingDescriptorRelationship{
-		Target: &ReportingDescriptorReference{
-			ID:            weakness.ID,
-			GUID:          uuid3(weakness.SprintID()),
-			ToolComponent: NewToolComponentReference(cwe.Acronym),
+	return []*ReportingDescriptorRelationship{
+		{
+			Target: &ReportingDescriptorReference{
+				ID:            weakness.ID,
+				GUID:          uuid3(weakness.SprintID()),
+				ToolComponent: NewToolComponentReference(cwe.Acronym),
+			},
+			Kinds: []string{"superset"},
 		},
-		Kinds: []string{"superset"},
 	}
 }
 
-- 
2.43.0


From f21df9278a74a8a31f679f713449a503621e894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:10 +0000
Subject: [PATCH 15/54] fix: report paths relative to the innermost root that
 contains the file

---
 helpers.go                | 15 +++++++++++++++
 report/sarif/formatter.go |  7 +------
 report/sonar/formatter.go | 15 ++-------------
 3 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/helpers.go b/helpers.go
index 414cfe7..f5133c1 100644
--- a/helpers.go
+++ b/helpers.go
@@ -518,6 +518,21 @@ func RootPath(root string) (string, error) {
 	return filepath.Abs(root)
 }
 
+// RelativePath returns the path of a file relative to the innermost of the roots that contain it,
+// and whether there is such a root.
+func RelativePath(file string, roots []string) (string, bool) {
+	var relative string
+	found := false
+	for _, root := range roots {
+		path, ok := strings.CutPrefix(file, strings.TrimSuffix(root, "/")+"/")
+		if ok && (!found || len(path) < len(relative)) {
+			relative = path
+			found = true
+		}
+	}
+	return relative, found
+}
+
 // GoVersion returns parsed version of Go mod version and fallback to runtime version if not found.
 func GoVersion() (int, int, int) {
 	if env, ok := os.LookupEnv(envGoModVersion); ok {
diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index f001d5e..40d9793 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -181,12 +181,7 @@ func parseSarifLocation(i *issue.Issue, rootPaths []string) (*Location, error) {
 }
 
 func parseSarifArtifactLocation(i *issue.Issue, rootPaths []string) *ArtifactLocation {
-	var filePath string
-	for _, rootPath := range rootPaths {
-		if strings.HasPrefix(i.File, rootPath) {
-			filePath = strings.Replace(i.File, rootPath+"/", "", 1)
-		}
-	}
+	filePath, _ := gosec.RelativePath(i.File, rootPaths)
 	return NewArtifactLocation(filePath)
 }
 
diff --git a/report/sonar/formatter.go b/report/sonar/formatter.go
index d635d9d..dbaff8b 100644
--- a/report/sonar/formatter.go
+++ b/report/sonar/formatter.go
@@ -17,9 +17,8 @@ const (
 func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error) {
 	si := &Report{Issues: []*Issue{}}
 	for _, issue := range data.Issues {
-		sonarFilePath := parseFilePath(issue, rootPaths)
-
-		if sonarFilePath == "" {
+		sonarFilePath, ok := gosec.RelativePath(issue.File, rootPaths)
+		if !ok {
 			continue
 		}
 
@@ -37,16 +36,6 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 	return si, nil
 }
 
-func parseFilePath(issue *issue.Issue, rootPaths []string) string {
-	var sonarFilePath string
-	for _, rootPath := range rootPaths {
-		if strings.HasPrefix(issue.File, rootPath) {
-			sonarFilePath = strings.Replace(issue.File, rootPath+"/", "", 1)
-		}
-	}
-	return sonarFilePath
-}
-
 func parseTextRange(issue *issue.Issue) (*TextRange, error) {
 	lines := strings.Split(issue.Line, "-")
 	startLine, err := strconv.Atoi(lines[0])
-- 
2.43.0


From 0f66c5491e45f4bf6a053ef592afdccf71b34a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:10 +0000
Subject: [PATCH 16/54] fix: rendering a report no longer removes suppressed
 issues from the next ones

---
 report/formatter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/report/formatter.go b/report/formatter.go
index 3e83dc6..90c0769 100644
--- a/report/formatter.go
+++ b/report/formatter.go
@@ -55,7 +55,10 @@ const (
 func CreateReport(w io.Writer, format string, enableColor bool, rootPaths []string, data *gosec.ReportInfo) error {
 	var err error
 	if format != "json" && format != "sarif" {
-		data.Issues = filterOutSuppressedIssues(data.Issues)
+		// the data is shared with the other reports of the scan
+		filtered := *data
+		filtered.Issues = filterOutSuppressedIssues(data.Issues)
+		data = &filtered
 	}
 	switch format {
 	case "json":
-- 
2.43.0


From 8097653127718e778cbb33980c264f947e70117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:10 +0000
Subject: [PATCH 17/54] fix: escape the whole text of JUnit failures

---
 report/junit/formatter.go | 3 +--
 report/junit/types.go     | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/report/junit/formatter.go b/report/junit/formatter.go
index 3b974fd..c27a7d2 100644
--- a/report/junit/formatter.go
+++ b/report/junit/formatter.go
@@ -1,7 +1,6 @@
 package junit
 
 import (
-	"html"
 	"strconv"
 
 	"github.com/securego/gosec/v2"
@@ -17,7 +16,7 @@ func generatePlaintext(issue *issue.Issue) string {
 		"[" + issue.File + ":" + issue.Line + "] - " +
 		issue.What + " (Confidence: " + strconv.Itoa(int(issue.Confidence)) +
 		", Severity: " + strconv.Itoa(int(issue.Severity)) +
-		", CWE: " + cweID + ")\n" + "> " + html.EscapeString(issue.Code) +
+		", CWE: " + cweID + ")\n" + "> " + issue.Code +
 		"\n Autofix: " + issue.Autofix
 }
 
diff --git a/report/junit/types.go b/report/junit/types.go
index bac3218..f19e763 100644
--- a/report/junit/types.go
+++ b/report/junit/types.go
@@ -29,5 +29,5 @@ type Testcase struct {
 type Failure struct {
 	XMLName xml.Name `xml:"failure"`
 	Message string   `xml:"message,attr"`
-	Text    string   `xml:",innerxml"`
+	Text    string   `xml:",chardata"`
 }
-- 
2.43.0


From 8d4a8411dc0295dba98ca2bc737b3d237d59d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 18/54] fix: the default path of -r is a root of the reported
 paths

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 2753ea4..c483603 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -499,7 +499,7 @@ func main() {
 	}
 
 	// Create output report
-	rootPaths := getRootPaths(flag.Args())
+	rootPaths := getRootPaths(paths)
 
 	reportInfo := gosec.NewReportInfo(issues, metrics, errors).WithVersion(Version)
 
-- 
2.43.0


From 1e399719605d228fb75d730ff923405317845ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 19/54] fix: exit status ignores shown nosec issues and honours
 scan errors in quiet mode

---
 cmd/gosec/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index c483603..501a862 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -337,7 +337,7 @@ func filterIssues(issues []*issue.Issue, severity issue.Score, confidence issue.
 	for _, issue := range issues {
 		if issue.Severity >= severity && issue.Confidence >= confidence {
 			result = append(result, issue)
-			if (!issue.NoSec || !*flagShowIgnored) && len(issue.Suppressions) == 0 {
+			if !issue.NoSec && len(issue.Suppressions) == 0 {
 				trueIssues++
 			}
 		}
@@ -348,7 +348,7 @@ func filterIssues(issues []*issue.Issue, severity issue.Score, confidence issue.
 func exit(issues []*issue.Issue, errors map[string][]gosec.Error, noFail bool) {
 	nsi := 0
 	for _, issue := range issues {
-		if len(issue.Suppressions) == 0 {
+		if !issue.NoSec && len(issue.Suppressions) == 0 {
 			nsi++
 		}
 	}
@@ -494,7 +494,7 @@ func main() {
 	}
 
 	// Exit quietly if nothing was found
-	if len(issues) == 0 && *flagQuiet {
+	if len(issues) == 0 && len(errors) == 0 && *flagQuiet {
 		os.Exit(0)
 	}
 
-- 
2.43.0


From ff48282706a816645f83b5146a1fb41f3a2a0336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 20/54] fix: use the AI API key given as a flag when the
 environment has none

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 501a862..a154c7d 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -505,7 +505,7 @@ func main() {
 
 	// Call AI request to solve the issues
 	aiAPIKey := os.Getenv(aiAPIKeyEnv)
-	if aiAPIKeyEnv == "" {
+	if aiAPIKey == "" {
 		aiAPIKey = *flagAiAPIKey
 	}
 	if *flagAiAPIProvider != "" && aiAPIKey != "" {
-- 
2.43.0


From f804da8ce1be4cfa3be558d15e23d9cbe9e4ae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 21/54] fix: apply the build tags to every scanned package

---
 analyzer.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index d754fc6..8f9a90a 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -321,9 +321,7 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 	// step 1/3 create build context.
 	buildD := build.Default
 	// step 2/3: add build tags to get env dependent files into basePackage.
-	gosec.mu.Lock()
 	buildD.BuildTags = conf.BuildFlags
-	gosec.mu.Unlock()
 	basePackage, err := buildD.ImportDir(pkgPath, build.ImportComment)
 	if err != nil {
 		return []*packages.Package{}, fmt.Errorf("importing dir %q: %w", pkgPath, err)
@@ -346,11 +344,12 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 		}
 	}
 
-	// step 3/3 remove build tags from conf to proceed build correctly.
+	// step 3/3 remove build tags from a copy of conf (it is shared by all packages) to proceed build correctly.
+	loadConf := *conf
+	loadConf.BuildFlags = nil
 	gosec.mu.Lock()
-	conf.BuildFlags = nil
 	defer gosec.mu.Unlock()
-	pkgs, err := packages.Load(conf, packageFiles...)
+	pkgs, err := packages.Load(&loadConf, packageFiles...)
 	if err != nil {
 		return []*packages.Package{}, fmt.Errorf("loading files from package %q: %w", pkgPath, err)
 	}
-- 
2.43.0


From 606ae2202786668470abacc3e47028de864ab9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 22/54] fix: scan with one worker when the concurrency is not
 positive

---
 analyzer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 8f9a90a..2628ef4 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -279,7 +279,7 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 		jobs <- pkgPath
 	}
 
-	for i := 0; i < gosec.concurrency; i++ {
+	for i := 0; i < max(gosec.concurrency, 1); i++ {
 		wg.Add(1)
 		go worker(jobs, results, quit)
 	}
-- 
2.43.0


From 8238ef3d8d7ca7c8de990c1b150ddfec7ed658aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 23/54] fix: keep options set after reading a document without
 an object of globals

---
 config.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/config.go b/config.go
index fc355d8..67cac64 100644
--- a/config.go
+++ b/config.go
@@ -55,15 +55,20 @@ func (c Config) keyToGlobalOptions(key string) GlobalOption {
 }
 
 func (c Config) convertGlobals() {
-	if globals, ok := c[Globals]; ok {
-		if settings, ok := globals.(map[string]interface{}); ok {
-			validGlobals := map[GlobalOption]string{}
-			for k, v := range settings {
-				validGlobals[c.keyToGlobalOptions(k)] = fmt.Sprintf("%v", v)
-			}
-			c[Globals] = validGlobals
+	globals, ok := c[Globals]
+	if !ok {
+		return
+	}
+	if _, ok := globals.(map[GlobalOption]string); ok {
+		return
+	}
+	validGlobals := map[GlobalOption]string{}
+	if settings, ok := globals.(map[string]interface{}); ok {
+		for k, v := range settings {
+			validGlobals[c.keyToGlobalOptions(k)] = fmt.Sprintf("%v", v)
 		}
 	}
+	c[Globals] = validGlobals
 }
 
 // ReadFrom implements the io.ReaderFrom interface. This
-- 
2.43.0


From a661077347175d87fe4159e713197614e4d76e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 24/54] fix: a disabled "nosec" option is not the name of the
 directive

---
 analyzer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 2628ef4..e61870d 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -555,7 +555,7 @@ func (gosec *Analyzer) ignore(n ast.Node) []map[string]issue.SuppressionInfo {
 
 	// Checks if an alternative for #nosec is set and, if not, uses the default.
 	noSecDefaultTag, err := gosec.config.GetGlobal(Nosec)
-	if err != nil {
+	if err != nil || noSecDefaultTag == "" || noSecDefaultTag == "false" || noSecDefaultTag == "disabled" {
 		noSecDefaultTag = NoSecTag(string(Nosec))
 	} else {
 		noSecDefaultTag = NoSecTag(noSecDefaultTag)
-- 
2.43.0


From 70c7e5331410715be3eb268ce0623e3680b90e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:15 +0000
Subject: [PATCH 25/54] fix: ignore malformed sections for G101 and G111 and
 negative truncation

---
 rules/directory-traversal.go   | 3 +--
 rules/hardcoded_credentials.go | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/rules/directory-traversal.go b/rules/directory-traversal.go
index 47bcb2d..5631d23 100644
--- a/rules/directory-traversal.go
+++ b/rules/directory-traversal.go
@@ -44,8 +44,7 @@ func (r *traversal) matchCallExpr(assign *ast.CallExpr, ctx *gosec.Context) (*is
 // NewDirectoryTraversal attempts to find the use of http.Dir("/")
 func NewDirectoryTraversal(id string, conf gosec.Config) (gosec.Rule, []ast.Node) {
 	pattern := `http\.Dir\("\/"\)|http\.Dir\('\/'\)`
-	if val, ok := conf[id]; ok {
-		conf := val.(map[string]interface{})
+	if conf, ok := conf[id].(map[string]interface{}); ok {
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
 				pattern = cfgPattern
diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index 1591732..ad705b3 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -340,8 +340,7 @@ func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.No
 	perCharThreshold := 3.0
 	ignoreEntropy := false
 	truncateString := 16
-	if val, ok := conf[id]; ok {
-		conf := val.(map[string]interface{})
+	if conf, ok := conf[id].(map[string]interface{}); ok {
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
 				pattern = cfgPattern
@@ -369,7 +368,7 @@ func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.No
 		}
 		if configTruncate, ok := conf["truncate"]; ok {
 			if cfgTruncate, ok := configTruncate.(string); ok {
-				if parsedInt, err := strconv.Atoi(cfgTruncate); err == nil {
+				if parsedInt, err := strconv.Atoi(cfgTruncate); err == nil && parsedInt >= 0 {
 					truncateString = parsedInt
 				}
 			}
-- 
2.43.0


From 952f1b6d2dc9d8c85dd4f32ac66e4dd7080e5975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 26/54] fix: exclude directories by their names and not by
 parts of them

---
 helpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index f5133c1..01694ac 100644
--- a/helpers.go
+++ b/helpers.go
@@ -505,7 +505,8 @@ func isExcluded(str string, excludes []*regexp.Regexp) bool {
 func ExcludedDirsRegExp(excludedDirs []string) []*regexp.Regexp {
 	var exps []*regexp.Regexp
 	for _, excludedDir := range excludedDirs {
-		str := fmt.Sprintf(`([\\/])?%s([\\/])?`, strings.ReplaceAll(filepath.ToSlash(excludedDir), "/", `\/`))
+		dir := strings.TrimSuffix(filepath.ToSlash(excludedDir), "/")
+		str := fmt.Sprintf(`(^|[\\/])(%s)([\\/]|$)`, strings.ReplaceAll(strings.TrimPrefix(dir, "/"), "/", `\/`))
 		r := regexp.MustCompile(str)
 		exps = append(exps, r)
 	}
-- 
2.43.0


From a49cd25990d9537bbe8f1420ef921c4648d2c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:37 +0000
Subject: [PATCH 27/54] fix: analyse a directory once, however often it is
 requested

---
 analyzer.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index e61870d..4e72063 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -247,6 +247,7 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 		err     error
 	}
 
+	packagePaths = uniquePaths(packagePaths)
 	results := make(chan result)
 	jobs := make(chan string, len(packagePaths))
 	quit := make(chan struct{})
@@ -310,6 +311,23 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 	return nil
 }
 
+// uniquePaths drops the paths of directories that are listed before, however they are written.
+func uniquePaths(paths []string) []string {
+	var result []string
+	seen := map[string]bool{}
+	for _, p := range paths {
+		abspath, err := filepath.Abs(p)
+		if err != nil {
+			abspath = p
+		}
+		if !seen[abspath] {
+			seen[abspath] = true
+			result = append(result, p)
+		}
+	}
+	return result
+}
+
 func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.Package, error) {
 	abspath, err := GetPkgAbsPath(pkgPath)
 	if err != nil {
-- 
2.43.0


From 97936f27f9a8c8c2be7512efb9d5f161460bc38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:29 +0000
Subject: [PATCH 28/54] fix: analyse the files of a package once when its tests
 are scanned too

---
 analyzer.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 4e72063..b405f20 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -371,7 +371,24 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 	if err != nil {
 		return []*packages.Package{}, fmt.Errorf("loading files from package %q: %w", pkgPath, err)
 	}
-	return pkgs, nil
+	return withoutTested(pkgs), nil
+}
+
+// withoutTested drops the packages which are also there extended by their test files.
+func withoutTested(pkgs []*packages.Package) []*packages.Package {
+	extended := map[string]*packages.Package{}
+	for _, pkg := range pkgs {
+		if other, ok := extended[pkg.PkgPath]; !ok || len(pkg.Syntax) > len(other.Syntax) {
+			extended[pkg.PkgPath] = pkg
+		}
+	}
+	result := []*packages.Package{}
+	for _, pkg := range pkgs {
+		if extended[pkg.PkgPath] == pkg {
+			result = append(result, pkg)
+		}
+	}
+	return result
 }
 
 // CheckRules runs analysis on the given package.
-- 
2.43.0


From e489d268429782d6f3dadb5fd66a5ba793c53083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 29/54] fix: do not analyse the working directory in place of a
 package that has only tests

---
 analyzer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index b405f20..943f5c4 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -362,6 +362,12 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 		}
 	}
 
+	if len(packageFiles) == 0 {
+		// without files the package of the working directory would be loaded
+		gosec.logger.Printf("Skipping: %s. No files to analyse.", abspath)
+		return []*packages.Package{}, nil
+	}
+
 	// step 3/3 remove build tags from a copy of conf (it is shared by all packages) to proceed build correctly.
 	loadConf := *conf
 	loadConf.BuildFlags = nil
-- 
2.43.0


From 1ca0145250cd05e13c654c3069dffded5cfbf3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 30/54] fix: report a candidate without content instead of
 crashing

Gemini leaves the content out of a candidate that it has blocked.
---
 autofix/ai.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autofix/ai.go b/autofix/ai.go
index 3535f7e..a2884a3 100644
--- a/autofix/ai.go
+++ b/autofix/ai.go
@@ -67,7 +67,7 @@ func (w *genAIGenerativeModelWrapper) GenerateContent(ctx context.Context, promp
 		return "", errors.New("no autofix returned by gemini")
 	}
 
-	if len(resp.Candidates[0].Content.Parts) == 0 {
+	if content := resp.Candidates[0].Content; content == nil || len(content.Parts) == 0 {
 		return "", errors.New("nothing found in the first autofix returned by gemini")
 	}
 
-- 
2.43.0


From 65e9553f1af1afc833223f2cd257d4978683e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 31/54] fix: forget the errors of earlier scans when the
 analyzer is reset

---
 analyzer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analyzer.go b/analyzer.go
index 943f5c4..dc71a76 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -785,6 +785,7 @@ func (gosec *Analyzer) Reset() {
 	gosec.context = &Context{}
 	gosec.issues = make([]*issue.Issue, 0, 16)
 	gosec.stats = &Metrics{}
+	gosec.errors = make(map[string][]Error)
 	gosec.ruleset = NewRuleSet()
 	gosec.analyzerSet = analyzers.NewAnalyzerSet()
 }
-- 
2.43.0


From 893847155845d46f6646625c7b679a6d9d779a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 32/54] fix: forget the loops of earlier files when looking for
 aliased loop variables

Their end positions belong to other file sets, so whether the address of a
variable after its loop was reported depended on the packages scanned before.
---
 rules/implicit_aliasing.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rules/implicit_aliasing.go b/rules/implicit_aliasing.go
index ee2358c..0561261 100644
--- a/rules/implicit_aliasing.go
+++ b/rules/implicit_aliasing.go
@@ -54,6 +54,13 @@ func (r *implicitAliasing) Match(n ast.Node, c *gosec.Context) (*issue.Issue, er
 	}
 
 	switch node := n.(type) {
+	case *ast.File:
+		// Positions and loops of other files do not matter, least of all those of other packages
+		// whose positions are counted on their own.
+		r.aliases = make(map[*ast.Object]struct{})
+		r.rightBrace = token.NoPos
+		r.acceptableAlias = make([]*ast.UnaryExpr, 0)
+
 	case *ast.RangeStmt:
 		// When presented with a range statement, get the underlying Object bound to
 		// by assignment and add it to our set (r.aliases) of objects to check for.
@@ -129,7 +136,7 @@ func NewImplicitAliasing(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 			Confidence: issue.Medium,
 			What:       "Implicit memory aliasing in for loop.",
 		},
-	}, []ast.Node{(*ast.RangeStmt)(nil), (*ast.UnaryExpr)(nil), (*ast.ReturnStmt)(nil)}
+	}, []ast.Node{(*ast.File)(nil), (*ast.RangeStmt)(nil), (*ast.UnaryExpr)(nil), (*ast.ReturnStmt)(nil)}
 }
 
 /*
-- 
2.43.0


From 4f81b1df8da0ad8fd6012fe58d7bd75806c4d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:15 +0000
Subject: [PATCH 33/54] fix: recognise methods by the type of every receiver

The receiver of a call was only resolved when it was a variable of the same
file, a field or the result of a function declared there. Queries through a
database handle that another file declares were not checked, and writes to the
elements of a slice of buffers were reported as unhandled errors.
---
 helpers.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 01694ac..357765b 100644
--- a/helpers.go
+++ b/helpers.go
@@ -203,7 +203,8 @@ func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
 		case *ast.SelectorExpr:
 			switch expr := fn.X.(type) {
 			case *ast.Ident:
-				if expr.Obj != nil && expr.Obj.Kind == ast.Var {
+				// the variable may be declared in another file, where the parser does not find it
+				if _, ok := ctx.Info.ObjectOf(expr).(*types.Var); ok || expr.Obj != nil && expr.Obj.Kind == ast.Var {
 					t := ctx.Info.TypeOf(expr)
 					if t != nil {
 						return t.String(), fn.Sel.Name, nil
@@ -247,6 +248,10 @@ func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
 					}
 				}
 			}
+			// the receiver is some other expression, like an element of a slice
+			if t := ctx.Info.TypeOf(fn.X); t != nil {
+				return t.String(), fn.Sel.Name, nil
+			}
 		case *ast.Ident:
 			return ctx.Pkg.Name(), fn.Name, nil
 		}
-- 
2.43.0


From 1bdb93bad58a20d7ba7e035c9ac1427c8cd3cae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:15 +0000
Subject: [PATCH 34/54] fix: look for unhandled errors at their own positions
 in assignments

In 'x, _ = 1, f()' the blank identifier is the second one, and a call without
an error ended the search. Calls in parentheses were not looked at.
---
 rules/errors.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rules/errors.go b/rules/errors.go
index 2786426..82e8d08 100644
--- a/rules/errors.go
+++ b/rules/errors.go
@@ -55,11 +55,15 @@ func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 	case *ast.AssignStmt:
 		cfg := ctx.Config
 		if enabled, err := cfg.IsGlobalEnabled(gosec.Audit); err == nil && enabled {
-			for _, expr := range stmt.Rhs {
-				if callExpr, ok := expr.(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(expr, ctx) == nil {
+			for i, expr := range stmt.Rhs {
+				if callExpr, ok := ast.Unparen(expr).(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(callExpr, ctx) == nil {
 					pos := returnsError(callExpr, ctx)
+					if pos >= 0 && len(stmt.Rhs) > 1 {
+						// each value is assigned to the variable at its own position
+						pos = i
+					}
 					if pos < 0 || pos >= len(stmt.Lhs) {
-						return nil, nil
+						continue
 					}
 					if id, ok := stmt.Lhs[pos].(*ast.Ident); ok && id.Name == "_" {
 						return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
@@ -68,7 +72,7 @@ func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 			}
 		}
 	case *ast.ExprStmt:
-		if callExpr, ok := stmt.X.(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(stmt.X, ctx) == nil {
+		if callExpr, ok := ast.Unparen(stmt.X).(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(callExpr, ctx) == nil {
 			pos := returnsError(callExpr, ctx)
 			if pos >= 0 {
 				return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
-- 
2.43.0


From 5c0086c0a548ae7d67ccde69fa6ebe0af417b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:15 +0000
Subject: [PATCH 35/54] fix: report unhandled errors whose type is an alias of
 error

---
 rules/errors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules/errors.go b/rules/errors.go
index 82e8d08..82601f6 100644
--- a/rules/errors.go
+++ b/rules/errors.go
@@ -33,11 +33,11 @@ func (r *noErrorCheck) ID() string {
 
 func returnsError(callExpr *ast.CallExpr, ctx *gosec.Context) int {
 	if tv := ctx.Info.TypeOf(callExpr); tv != nil {
-		switch t := tv.(type) {
+		switch t := types.Unalias(tv).(type) {
 		case *types.Tuple:
 			for pos := 0; pos < t.Len(); pos++ {
 				variable := t.At(pos)
-				if variable != nil && variable.Type().String() == "error" {
+				if variable != nil && types.Unalias(variable.Type()).String() == "error" {
 					return pos
 				}
 			}
-- 
2.43.0


From e0af48dc5e7f9359f27b3d189b16f02c88288647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 36/54] fix: track the variables of G109 and G110 by what they
 refer to

Variables that another file declares were all taken for the same one, and in
'x, r := 1, flate.NewReader(in)' the first one was taken for the reader.
---
 rules/decompression-bomb.go | 20 +++++++++++---------
 rules/integer_overflow.go   | 15 ++++++++-------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index c1b46cd..62357d3 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -17,6 +17,7 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"go/types"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -42,36 +43,37 @@ func containsReaderCall(node ast.Node, ctx *gosec.Context, list gosec.CallList)
 }
 
 func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	var readerVarObj map[*ast.Object]struct{}
+	var readerVarObj map[types.Object]struct{}
 
 	// To check multiple lines, ctx.PassedValues is used to store temporary data.
 	if _, ok := ctx.PassedValues[d.ID()]; !ok {
-		readerVarObj = make(map[*ast.Object]struct{})
+		readerVarObj = make(map[types.Object]struct{})
 		ctx.PassedValues[d.ID()] = readerVarObj
-	} else if pv, ok := ctx.PassedValues[d.ID()].(map[*ast.Object]struct{}); ok {
+	} else if pv, ok := ctx.PassedValues[d.ID()].(map[types.Object]struct{}); ok {
 		readerVarObj = pv
 	} else {
-		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[*ast.Object]struct{}, but %T", d.ID(), ctx.PassedValues[d.ID()])
+		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[types.Object]struct{}, but %T", d.ID(), ctx.PassedValues[d.ID()])
 	}
 
 	// io.Copy is a common function.
 	// To reduce false positives, This rule detects code which is used for compressed data only.
 	switch n := node.(type) {
 	case *ast.AssignStmt:
-		for _, expr := range n.Rhs {
+		for i, expr := range n.Rhs {
 			if callExpr, ok := expr.(*ast.CallExpr); ok && containsReaderCall(callExpr, ctx, d.readerCalls) {
-				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Name != "_" {
+				// If the call is the only value, the reader is the first of its results.
+				if idt, ok := n.Lhs[i].(*ast.Ident); ok && idt.Name != "_" {
 					// Example:
 					//  r, _ := zlib.NewReader(buf)
-					//  Add r's Obj to readerVarObj map
-					readerVarObj[idt.Obj] = struct{}{}
+					//  Add the variable to the readerVarObj map
+					readerVarObj[ctx.Info.ObjectOf(idt)] = struct{}{}
 				}
 			}
 		}
 	case *ast.CallExpr:
 		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil && len(n.Args) > 1 {
 			if idt, ok := n.Args[1].(*ast.Ident); ok {
-				if _, ok := readerVarObj[idt.Obj]; ok {
+				if _, ok := readerVarObj[ctx.Info.ObjectOf(idt)]; ok {
 					// Detect io.Copy(x, r)
 					return ctx.NewIssue(n, d.ID(), d.What, d.Severity, d.Confidence), nil
 				}
diff --git a/rules/integer_overflow.go b/rules/integer_overflow.go
index af1f296..9cbe77a 100644
--- a/rules/integer_overflow.go
+++ b/rules/integer_overflow.go
@@ -17,6 +17,7 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"go/types"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -32,16 +33,16 @@ func (i *integerOverflowCheck) ID() string {
 }
 
 func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	var atoiVarObj map[*ast.Object]ast.Node
+	var atoiVarObj map[types.Object]ast.Node
 
 	// To check multiple lines, ctx.PassedValues is used to store temporary data.
 	if _, ok := ctx.PassedValues[i.ID()]; !ok {
-		atoiVarObj = make(map[*ast.Object]ast.Node)
+		atoiVarObj = make(map[types.Object]ast.Node)
 		ctx.PassedValues[i.ID()] = atoiVarObj
-	} else if pv, ok := ctx.PassedValues[i.ID()].(map[*ast.Object]ast.Node); ok {
+	} else if pv, ok := ctx.PassedValues[i.ID()].(map[types.Object]ast.Node); ok {
 		atoiVarObj = pv
 	} else {
-		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[*ast.Object]ast.Node, but %T", i.ID(), ctx.PassedValues[i.ID()])
+		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[types.Object]ast.Node, but %T", i.ID(), ctx.PassedValues[i.ID()])
 	}
 
 	// strconv.Atoi is a common function.
@@ -53,8 +54,8 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Name != "_" {
 					// Example:
 					//  v, _ := strconv.Atoi("1111")
-					// Add v's Obj to atoiVarObj map
-					atoiVarObj[idt.Obj] = n
+					// Add the variable to the atoiVarObj map
+					atoiVarObj[ctx.Info.ObjectOf(idt)] = n
 				}
 			}
 		}
@@ -62,7 +63,7 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 		if fun, ok := n.Fun.(*ast.Ident); ok && len(n.Args) > 0 {
 			if fun.Name == "int32" || fun.Name == "int16" {
 				if idt, ok := n.Args[0].(*ast.Ident); ok {
-					if _, ok := atoiVarObj[idt.Obj]; ok {
+					if _, ok := atoiVarObj[ctx.Info.ObjectOf(idt)]; ok {
 						// Detect int32(v) and int16(v)
 						return ctx.NewIssue(n, i.ID(), i.What, i.Severity, i.Confidence), nil
 					}
-- 
2.43.0


From 8d2902da7dfdd223a1887efd732f3700ad1bf91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:22 +0000
Subject: [PATCH 37/54] fix: track declared variables for G109 and G110

---
 rules/decompression-bomb.go | 10 +++++++++-
 rules/integer_overflow.go   | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index 62357d3..2916d17 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -70,6 +70,14 @@ func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issu
 				}
 			}
 		}
+	case *ast.ValueSpec:
+		for i, expr := range n.Values {
+			if callExpr, ok := expr.(*ast.CallExpr); ok && containsReaderCall(callExpr, ctx, d.readerCalls) && n.Names[i].Name != "_" {
+				// Example:
+				//  var r, _ = zlib.NewReader(buf)
+				readerVarObj[ctx.Info.ObjectOf(n.Names[i])] = struct{}{}
+			}
+		}
 	case *ast.CallExpr:
 		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil && len(n.Args) > 1 {
 			if idt, ok := n.Args[1].(*ast.Ident); ok {
@@ -109,5 +117,5 @@ func NewDecompressionBombCheck(id string, _ gosec.Config) (gosec.Rule, []ast.Nod
 		},
 		readerCalls: readerCalls,
 		copyCalls:   copyCalls,
-	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.CallExpr)(nil)}
+	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.ValueSpec)(nil), (*ast.CallExpr)(nil)}
 }
diff --git a/rules/integer_overflow.go b/rules/integer_overflow.go
index 9cbe77a..c6e4259 100644
--- a/rules/integer_overflow.go
+++ b/rules/integer_overflow.go
@@ -59,6 +59,14 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 				}
 			}
 		}
+	case *ast.ValueSpec:
+		for pos, expr := range n.Values {
+			if i.calls.ContainsPkgCallExpr(expr, ctx, false) != nil && n.Names[pos].Name != "_" {
+				// Example:
+				//  var v, _ = strconv.Atoi("1111")
+				atoiVarObj[ctx.Info.ObjectOf(n.Names[pos])] = n
+			}
+		}
 	case *ast.CallExpr:
 		if fun, ok := n.Fun.(*ast.Ident); ok && len(n.Args) > 0 {
 			if fun.Name == "int32" || fun.Name == "int16" {
@@ -87,5 +95,5 @@ func NewIntegerOverflowCheck(id string, _ gosec.Config) (gosec.Rule, []ast.Node)
 			What:       "Potential Integer overflow made by strconv.Atoi result conversion to int16/32",
 		},
 		calls: calls,
-	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.CallExpr)(nil)}
+	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.ValueSpec)(nil), (*ast.CallExpr)(nil)}
 }
-- 
2.43.0


From a61dabec4fcd8318463a5caf18eb2e6408d9ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:22 +0000
Subject: [PATCH 38/54] fix: recognise called functions in parentheses

---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 357765b..dc36aca 100644
--- a/helpers.go
+++ b/helpers.go
@@ -199,7 +199,7 @@ func GetCallObject(n ast.Node, ctx *Context) (*ast.CallExpr, types.Object) {
 func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
 	switch node := n.(type) {
 	case *ast.CallExpr:
-		switch fn := node.Fun.(type) {
+		switch fn := ast.Unparen(node.Fun).(type) {
 		case *ast.SelectorExpr:
 			switch expr := fn.X.(type) {
 			case *ast.Ident:
-- 
2.43.0


From 53841d2c40a897e21da1940c5dc732ef73e73b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 39/54] fix: check SQL queries wherever they are made

Only the statements 'x := db.Query(...)' and 'db.Query(...)' were looked at,
but not 'return db.Query(...)', conditions, declarations and, for
concatenations, 'db.QueryRow(...).Scan(...)'.
---
 rules/sql.go | 44 ++++++--------------------------------------
 1 file changed, 6 insertions(+), 38 deletions(-)

diff --git a/rules/sql.go b/rules/sql.go
index ab379c0..b3d6ced 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -215,19 +215,9 @@ func (s *sqlStrConcat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issu
 
 // Checks SQL query concatenation issues such as "SELECT * FROM table WHERE " + " ' OR 1=1"
 func (s *sqlStrConcat) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	switch stmt := n.(type) {
-	case *ast.AssignStmt:
-		for _, expr := range stmt.Rhs {
-			if sqlQueryCall, ok := expr.(*ast.CallExpr); ok && s.ContainsCallExpr(expr, ctx) != nil {
-				return s.checkQuery(sqlQueryCall, ctx)
-			}
-		}
-	case *ast.ExprStmt:
-		if sqlQueryCall, ok := stmt.X.(*ast.CallExpr); ok && s.ContainsCallExpr(stmt.X, ctx) != nil {
-			return s.checkQuery(sqlQueryCall, ctx)
-		}
+	if sqlQueryCall := s.ContainsCallExpr(n, ctx); sqlQueryCall != nil {
+		return s.checkQuery(sqlQueryCall, ctx)
 	}
-
 	return nil, nil
 }
 
@@ -253,7 +243,7 @@ func NewSQLStrConcat(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 			rule.Add(s, i)
 		}
 	}
-	return rule, []ast.Node{(*ast.AssignStmt)(nil), (*ast.ExprStmt)(nil)}
+	return rule, []ast.Node{(*ast.CallExpr)(nil)}
 }
 
 type sqlStrFormat struct {
@@ -366,30 +356,8 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 
 // Check SQL query formatting issues such as "fmt.Sprintf("SELECT * FROM foo where '%s', userInput)"
 func (s *sqlStrFormat) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	switch stmt := n.(type) {
-	case *ast.AssignStmt:
-		for _, expr := range stmt.Rhs {
-			if call, ok := expr.(*ast.CallExpr); ok {
-				selector, ok := call.Fun.(*ast.SelectorExpr)
-				if !ok {
-					continue
-				}
-				sqlQueryCall, ok := selector.X.(*ast.CallExpr)
-				if ok && s.ContainsCallExpr(sqlQueryCall, ctx) != nil {
-					issue, err := s.checkQuery(sqlQueryCall, ctx)
-					if err == nil && issue != nil {
-						return issue, err
-					}
-				}
-			}
-			if sqlQueryCall, ok := expr.(*ast.CallExpr); ok && s.ContainsCallExpr(expr, ctx) != nil {
-				return s.checkQuery(sqlQueryCall, ctx)
-			}
-		}
-	case *ast.ExprStmt:
-		if sqlQueryCall, ok := stmt.X.(*ast.CallExpr); ok && s.ContainsCallExpr(stmt.X, ctx) != nil {
-			return s.checkQuery(sqlQueryCall, ctx)
-		}
+	if sqlQueryCall := s.ContainsCallExpr(n, ctx); sqlQueryCall != nil {
+		return s.checkQuery(sqlQueryCall, ctx)
 	}
 	return nil, nil
 }
@@ -423,5 +391,5 @@ func NewSQLStrFormat(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	rule.noIssue.AddAll("os", "Stdout", "Stderr")
 	rule.noIssueQuoted.Add("github.com/lib/pq", "QuoteIdentifier")
 
-	return rule, []ast.Node{(*ast.AssignStmt)(nil), (*ast.ExprStmt)(nil)}
+	return rule, []ast.Node{(*ast.CallExpr)(nil)}
 }
-- 
2.43.0


From 61d28dbbeb48f9f00552e390f8441bb2fc9bf484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:56 +0000
Subject: [PATCH 40/54] fix: check formatted SQL queries that are passed on
 directly or declared with var

Only 'q := fmt.Sprintf(...); db.Query(q)' was checked, and in
'x, q := fmt.Sprintf(...), "SELECT 1"' the first value was taken for the query.
---
 rules/sql.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/rules/sql.go b/rules/sql.go
index b3d6ced..539f232 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -280,19 +280,20 @@ func (s *sqlStrFormat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issu
 		return nil, err
 	}
 
-	if ident, ok := query.(*ast.Ident); ok && ident.Obj != nil {
-		decl := ident.Obj.Decl
-		if assign, ok := decl.(*ast.AssignStmt); ok {
-			for _, expr := range assign.Rhs {
-				issue := s.checkFormatting(expr, ctx)
-				if issue != nil {
-					return issue, err
-				}
+	if query == nil {
+		return nil, nil
+	}
+	query = ast.Unparen(query)
+	if ident, ok := query.(*ast.Ident); ok {
+		for _, expr := range declaredValues(ident) {
+			if issue := s.checkFormatting(expr, ctx); issue != nil {
+				return issue, nil
 			}
 		}
+		return nil, nil
 	}
 
-	return nil, nil
+	return s.checkFormatting(query, ctx), nil
 }
 
 func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Issue {
-- 
2.43.0


From 16a64f5e7db54fb8e543b7196aac8bbbdf3e9bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:36 +0000
Subject: [PATCH 41/54] fix: judge formats and arguments of SQL queries by
 their constant values

A format given by a named constant was not looked at, and arguments that are
literals or constant expressions were taken for variables.
---
 rules/sql.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rules/sql.go b/rules/sql.go
index 539f232..f404961 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -17,6 +17,7 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"go/constant"
 	"regexp"
 
 	"github.com/securego/gosec/v2"
@@ -256,6 +257,9 @@ type sqlStrFormat struct {
 
 // see if we can figure out what it is
 func (s *sqlStrFormat) constObject(e ast.Expr, c *gosec.Context) bool {
+	if c.Info.Types[e].Value != nil {
+		return true
+	}
 	n, ok := e.(*ast.Ident)
 	if !ok {
 		return false
@@ -331,6 +335,10 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 		} else if arg, e := gosec.GetString(node.Args[argIndex]); e == nil {
 			formatter = arg
 		}
+		// a named constant, or an expression with one
+		if value := ctx.Info.Types[node.Args[argIndex]].Value; formatter == "" && value != nil && value.Kind() == constant.String {
+			formatter = constant.StringVal(value)
+		}
 		if len(formatter) <= 0 {
 			return nil
 		}
-- 
2.43.0


From 2f06cd8e2f28a9f3da57a4ebb99d7a6c632051bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:09 +0000
Subject: [PATCH 42/54] fix: judge bind addresses by their own constant value

---
 helpers.go    | 88 +++++++++++++++++++++++++++++++++++----------------
 rules/bind.go | 18 +++--------
 2 files changed, 65 insertions(+), 41 deletions(-)

diff --git a/helpers.go b/helpers.go
index dc36aca..e2fcb4d 100644
--- a/helpers.go
+++ b/helpers.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
 	"os"
@@ -178,6 +179,35 @@ func GetString(n ast.Node) (string, error) {
 	return "", fmt.Errorf("unexpected AST node type: %T", n)
 }
 
+// GetStringValues returns the string an expression stands for, if it is a
+// constant, or the constant string which the variable it names is declared with.
+func GetStringValues(expr ast.Expr, ctx *Context) []string {
+	expr = ast.Unparen(expr)
+	if value, ok := GetConstantString(expr, ctx); ok {
+		return []string{value}
+	}
+	values := []string{}
+	if ident, ok := expr.(*ast.Ident); ok {
+		for _, declared := range declaredValues(ident) {
+			if value, ok := GetConstantString(declared, ctx); ok {
+				values = append(values, value)
+			}
+		}
+	}
+	return values
+}
+
+// GetConstantString returns the value of an expression which is a constant
+// string, however it is composed.
+func GetConstantString(n ast.Node, ctx *Context) (string, bool) {
+	if expr, ok := n.(ast.Expr); ok {
+		if value := ctx.Info.Types[expr].Value; value != nil && value.Kind() == constant.String {
+			return constant.StringVal(value), true
+		}
+	}
+	return "", false
+}
+
 // GetCallObject returns the object and call expression and associated
 // object for a given AST node. nil, nil will be returned if the
 // object cannot be resolved.
@@ -261,45 +291,49 @@ func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
 }
 
 // GetCallStringArgsValues returns the values of strings arguments if they can be resolved
-func GetCallStringArgsValues(n ast.Node, _ *Context) []string {
+func GetCallStringArgsValues(n ast.Node, ctx *Context) []string {
 	values := []string{}
 	switch node := n.(type) {
 	case *ast.CallExpr:
 		for _, arg := range node.Args {
-			switch param := arg.(type) {
-			case *ast.BasicLit:
-				value, err := GetString(param)
-				if err == nil {
-					values = append(values, value)
-				}
-			case *ast.Ident:
-				values = append(values, GetIdentStringValues(param)...)
-			}
+			values = append(values, GetStringValues(arg, ctx)...)
 		}
 	}
 	return values
 }
 
-func getIdentStringValues(ident *ast.Ident, stringFinder func(ast.Node) (string, error)) []string {
-	values := []string{}
-	obj := ident.Obj
-	if obj != nil {
-		switch decl := obj.Decl.(type) {
-		case *ast.ValueSpec:
-			for _, v := range decl.Values {
-				value, err := stringFinder(v)
-				if err == nil {
-					values = append(values, value)
-				}
+// declaredValues returns the values an identifier is declared with, only its
+// own one if each of several identifiers is declared with its own value
+func declaredValues(ident *ast.Ident) []ast.Expr {
+	if ident.Obj == nil {
+		return nil
+	}
+	switch decl := ident.Obj.Decl.(type) {
+	case *ast.ValueSpec:
+		for i, name := range decl.Names {
+			if name.Name == ident.Name && len(decl.Names) == len(decl.Values) {
+				return decl.Values[i : i+1]
 			}
-		case *ast.AssignStmt:
-			for _, v := range decl.Rhs {
-				value, err := stringFinder(v)
-				if err == nil {
-					values = append(values, value)
-				}
+		}
+		return decl.Values
+	case *ast.AssignStmt:
+		for i, lhs := range decl.Lhs {
+			if name, ok := lhs.(*ast.Ident); ok && name.Name == ident.Name && len(decl.Lhs) == len(decl.Rhs) {
+				return decl.Rhs[i : i+1]
 			}
 		}
+		return decl.Rhs
+	}
+	return nil
+}
+
+func getIdentStringValues(ident *ast.Ident, stringFinder func(ast.Node) (string, error)) []string {
+	values := []string{}
+	for _, v := range declaredValues(ident) {
+		value, err := stringFinder(v)
+		if err == nil {
+			values = append(values, value)
+		}
 	}
 	return values
 }
diff --git a/rules/bind.go b/rules/bind.go
index fef760c..ab10b77 100644
--- a/rules/bind.go
+++ b/rules/bind.go
@@ -39,19 +39,9 @@ func (r *bindsToAllNetworkInterfaces) Match(n ast.Node, c *gosec.Context) (*issu
 		return nil, nil
 	}
 	if len(callExpr.Args) > 1 {
-		arg := callExpr.Args[1]
-		if bl, ok := arg.(*ast.BasicLit); ok {
-			if arg, err := gosec.GetString(bl); err == nil {
-				if r.pattern.MatchString(arg) {
-					return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
-				}
-			}
-		} else if ident, ok := arg.(*ast.Ident); ok {
-			values := gosec.GetIdentStringValues(ident)
-			for _, value := range values {
-				if r.pattern.MatchString(value) {
-					return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
-				}
+		for _, value := range gosec.GetStringValues(callExpr.Args[1], c) {
+			if r.pattern.MatchString(value) {
+				return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
 		}
 	} else if len(callExpr.Args) > 0 {
@@ -73,7 +63,7 @@ func NewBindsToAllNetworkInterfaces(id string, _ gosec.Config) (gosec.Rule, []as
 	calls.Add("crypto/tls", "Listen")
 	return &bindsToAllNetworkInterfaces{
 		calls:   calls,
-		pattern: regexp.MustCompile(`^(0.0.0.0|:).*$`),
+		pattern: regexp.MustCompile(`^((0\.0\.0\.0|\[::\])(:.*)?|:.*)$`),
 		MetaData: issue.MetaData{
 			ID:         id,
 			Severity:   issue.Medium,
-- 
2.43.0


From 1cbcb85910e3b7ddf700be34c07383b77395571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:44 +0000
Subject: [PATCH 43/54] fix: judge temporary paths by their constant value

---
 rules/tempfiles.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rules/tempfiles.go b/rules/tempfiles.go
index ac2af08..b27949a 100644
--- a/rules/tempfiles.go
+++ b/rules/tempfiles.go
@@ -34,8 +34,9 @@ func (t *badTempFile) ID() string {
 	return t.MetaData.ID
 }
 
-func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.Node) *issue.Issue {
-	if s, e := gosec.GetString(suspect); e == nil {
+func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.Expr) *issue.Issue {
+	suspect = ast.Unparen(suspect)
+	if s, ok := gosec.GetConstantString(suspect, c); ok {
 		if t.args.MatchString(s) {
 			return c.NewIssue(n, t.ID(), t.What, t.Severity, t.Confidence)
 		}
@@ -45,10 +46,7 @@ func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.
 		return c.NewIssue(n, t.ID(), t.What, t.Severity, t.Confidence)
 	}
 	if be, ok := suspect.(*ast.BinaryExpr); ok {
-		if ops := gosec.GetBinaryExprOperands(be); len(ops) != 0 {
-			return t.findTempDirArgs(n, c, ops[0])
-		}
-		return nil
+		return t.findTempDirArgs(n, c, be.X)
 	}
 	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil && len(ce.Args) > 0 {
 		return t.findTempDirArgs(n, c, ce.Args[0])
-- 
2.43.0


From 4ddffc74a27b59c8499edc15b29c25016fe59883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:25 +0000
Subject: [PATCH 44/54] fix: find served root directories by the package and
 the value, not their spelling

---
 rules/directory-traversal.go | 49 ++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/rules/directory-traversal.go b/rules/directory-traversal.go
index 5631d23..4b356b0 100644
--- a/rules/directory-traversal.go
+++ b/rules/directory-traversal.go
@@ -2,7 +2,9 @@ package rules
 
 import (
 	"go/ast"
+	"go/types"
 	"regexp"
+	"strconv"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -25,22 +27,47 @@ func (r *traversal) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error)
 	return nil, nil
 }
 
-func (r *traversal) matchCallExpr(assign *ast.CallExpr, ctx *gosec.Context) (*issue.Issue, error) {
-	for _, i := range assign.Args {
-		if basiclit, ok1 := i.(*ast.BasicLit); ok1 {
-			if fun, ok2 := assign.Fun.(*ast.SelectorExpr); ok2 {
-				if x, ok3 := fun.X.(*ast.Ident); ok3 {
-					str := x.Name + "." + fun.Sel.Name + "(" + basiclit.Value + ")"
-					if r.pattern.MatchString(str) {
-						return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
-					}
-				}
-			}
+func (r *traversal) matchCallExpr(call *ast.CallExpr, ctx *gosec.Context) (*issue.Issue, error) {
+	name, ok := calledName(call, ctx)
+	if !ok {
+		return nil, nil
+	}
+	for _, arg := range call.Args {
+		str := name + "("
+		if value, ok := gosec.GetConstantString(arg, ctx); ok {
+			str += strconv.Quote(value) + ")"
+		} else if lit, ok := arg.(*ast.BasicLit); ok {
+			str += lit.Value + ")"
+		} else {
+			continue
+		}
+		if r.pattern.MatchString(str) {
+			return ctx.NewIssue(call, r.ID(), r.What, r.Severity, r.Confidence), nil
 		}
 	}
 	return nil, nil
 }
 
+// calledName returns the qualified name of what is called. A function or type
+// of a package is qualified with the name of the package and not with the one
+// that it is imported as.
+func calledName(call *ast.CallExpr, ctx *gosec.Context) (string, bool) {
+	switch fun := ast.Unparen(call.Fun).(type) {
+	case *ast.SelectorExpr:
+		if x, ok := fun.X.(*ast.Ident); ok {
+			if pkg, ok := ctx.Info.Uses[x].(*types.PkgName); ok {
+				return pkg.Imported().Name() + "." + fun.Sel.Name, true
+			}
+			return x.Name + "." + fun.Sel.Name, true
+		}
+	case *ast.Ident:
+		if obj := ctx.Info.Uses[fun]; obj != nil && obj.Pkg() != nil && obj.Pkg() != ctx.Pkg {
+			return obj.Pkg().Name() + "." + fun.Name, true
+		}
+	}
+	return "", false
+}
+
 // NewDirectoryTraversal attempts to find the use of http.Dir("/")
 func NewDirectoryTraversal(id string, conf gosec.Config) (gosec.Rule, []ast.Node) {
 	pattern := `http\.Dir\("\/"\)|http\.Dir\('\/'\)`
-- 
2.43.0


From 854c3df1b871b14e9d1de8928f822c9c8c7b4f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:00 +0000
Subject: [PATCH 45/54] fix: recognise servers whose type is elided or an alias

---
 rules/slowloris.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rules/slowloris.go b/rules/slowloris.go
index 70db73f..1b2dfc2 100644
--- a/rules/slowloris.go
+++ b/rules/slowloris.go
@@ -16,6 +16,7 @@ package rules
 
 import (
 	"go/ast"
+	"go/types"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -48,7 +49,11 @@ func containsReadHeaderTimeout(node *ast.CompositeLit) bool {
 func (r *slowloris) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
 	switch node := n.(type) {
 	case *ast.CompositeLit:
-		actualType := ctx.Info.TypeOf(node.Type)
+		// the type may be elided within a literal of servers or of pointers to them
+		actualType := types.Unalias(ctx.Info.TypeOf(node))
+		if pointer, ok := actualType.(*types.Pointer); ok {
+			actualType = types.Unalias(pointer.Elem())
+		}
 		if actualType != nil && actualType.String() == "net/http.Server" {
 			if !containsReadHeaderTimeout(node) {
 				return ctx.NewIssue(node, r.ID(), r.What, r.Severity, r.Confidence), nil
-- 
2.43.0


From 184e5db167091a897361350d23b6fdfe1651824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:00 +0000
Subject: [PATCH 46/54] fix: treat constants like literals in HTML templates

---
 rules/templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/templates.go b/rules/templates.go
index 3d5f9a9..a3a4c62 100644
--- a/rules/templates.go
+++ b/rules/templates.go
@@ -33,7 +33,7 @@ func (t *templateCheck) ID() string {
 func (t *templateCheck) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil {
 		for _, arg := range node.Args {
-			if _, ok := arg.(*ast.BasicLit); !ok { // basic lits are safe
+			if c.Info.Types[arg].Value == nil { // constants are safe
 				return c.NewIssue(n, t.ID(), t.What, t.Severity, t.Confidence), nil
 			}
 		}
-- 
2.43.0


From 8cb0fa9ecc46ebd660a15118ec0512646e573ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:23 +0000
Subject: [PATCH 47/54] fix: follow every field of an archive entry into the
 joined path

---
 rules/archive.go | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/rules/archive.go b/rules/archive.go
index 9870474..a4ded1b 100644
--- a/rules/archive.go
+++ b/rules/archive.go
@@ -22,25 +22,14 @@ func (a *archive) ID() string {
 func (a *archive) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if node := a.calls.ContainsPkgCallExpr(n, c, false); node != nil {
 		for _, arg := range node.Args {
-			var argType types.Type
-			if selector, ok := arg.(*ast.SelectorExpr); ok {
-				argType = c.Info.TypeOf(selector.X)
-			} else if ident, ok := arg.(*ast.Ident); ok {
-				if ident.Obj != nil && ident.Obj.Kind == ast.Var {
-					decl := ident.Obj.Decl
-					if assign, ok := decl.(*ast.AssignStmt); ok {
-						if selector, ok := assign.Rhs[0].(*ast.SelectorExpr); ok {
-							argType = c.Info.TypeOf(selector.X)
-						}
-					}
-				}
+			arg = ast.Unparen(arg)
+			values := []ast.Expr{arg}
+			if ident, ok := arg.(*ast.Ident); ok {
+				values = declaredValues(ident)
 			}
-
-			if argType != nil {
-				for _, t := range a.argTypes {
-					if argType.String() == t {
-						return c.NewIssue(n, a.ID(), a.What, a.Severity, a.Confidence), nil
-					}
+			for _, value := range values {
+				if a.isEntryField(value, c) {
+					return c.NewIssue(n, a.ID(), a.What, a.Severity, a.Confidence), nil
 				}
 			}
 		}
@@ -48,6 +37,27 @@ func (a *archive) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	return nil, nil
 }
 
+// isEntryField tells whether the value is a field of an archive entry
+func (a *archive) isEntryField(value ast.Expr, c *gosec.Context) bool {
+	selector, ok := ast.Unparen(value).(*ast.SelectorExpr)
+	if !ok {
+		return false
+	}
+	entryType := types.Unalias(c.Info.TypeOf(selector.X))
+	if pointer, ok := entryType.(*types.Pointer); ok {
+		entryType = types.Unalias(pointer.Elem())
+	}
+	if entryType == nil {
+		return false
+	}
+	for _, t := range a.argTypes {
+		if entryType.String() == t {
+			return true
+		}
+	}
+	return false
+}
+
 // NewArchive creates a new rule which detects the file traversal when extracting zip/tar archives
 func NewArchive(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	calls := gosec.NewCallList()
@@ -55,7 +65,7 @@ func NewArchive(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	calls.Add("path", "Join")
 	return &archive{
 		calls:    calls,
-		argTypes: []string{"*archive/zip.File", "*archive/tar.Header"},
+		argTypes: []string{"archive/zip.File", "archive/zip.FileHeader", "archive/tar.Header"},
 		MetaData: issue.MetaData{
 			ID:         id,
 			Severity:   issue.Medium,
-- 
2.43.0


From e4c4d421cbef22882d601133772e6e5da380e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:58 +0000
Subject: [PATCH 48/54] fix: report fixed nonces only at the calls they are
 passed to

---
 analyzers/hardcoded_nonce.go | 52 +++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index b55334e..12366ea 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -18,7 +18,6 @@ import (
 	"errors"
 	"fmt"
 	"go/token"
-	"strings"
 
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
@@ -163,16 +162,17 @@ func iterateThroughReferrers(variable ssa.Value, funcsToTrack map[string][]int,
 	if refs == nil {
 		return gosecIssues, nil
 	}
-	// Go through all functions that use the given arg variable
+	// Go through all calls that use the given arg variable, also if it is used more than once
+	visited := map[ssa.Instruction]bool{}
 	for _, ref := range *refs {
+		call, ok := ref.(ssa.CallInstruction)
+		if !ok || visited[ref] {
+			continue
+		}
+		visited[ref] = true
 		// Iterate through the functions we are interested
-		for trackedFunc := range funcsToTrack {
-
-			// Split the functions we are interested in, by the '.' because we will use the function name to do the comparison
-			// MIGHT GIVE SOME FALSE POSITIVES THIS WAY
-			trackedFuncParts := strings.Split(trackedFunc, ".")
-			trackedFuncPartsName := trackedFuncParts[len(trackedFuncParts)-1]
-			if strings.Contains(ref.String(), trackedFuncPartsName) {
+		for trackedFunc, trackedArgsInfo := range funcsToTrack {
+			if arg := trackedArg(call.Common(), trackedFunc, trackedArgsInfo); arg == variable {
 				gosecIssues = append(gosecIssues, newIssue(analyzerID, issueDescription, fileSet, ref.Pos(), issue.High, issueConfidence))
 			}
 		}
@@ -232,22 +232,26 @@ func getArgsFromTrackedFunctions(ssaFuncs []*ssa.Function, trackedFunc map[strin
 func iterateTrackedFunctionsAndAddArgs(funcBlocInstr ssa.Instruction, trackedFunc map[string][]int, values map[string]*ssa.Value) {
 	if funcCall, ok := (funcBlocInstr).(*ssa.Call); ok {
 		for trackedFuncName, trackedFuncArgsInfo := range trackedFunc {
-			// only process functions that have the same number of arguments as the ones we track
-			if len(funcCall.Call.Args) == trackedFuncArgsInfo[0] {
-				tmpArg := funcCall.Call.Args[trackedFuncArgsInfo[1]]
-				// check if the function is called from an object or directly from the package
-				if funcCall.Call.Method != nil {
-					if methodFullname := funcCall.Call.Method.FullName(); methodFullname == trackedFuncName {
-						if !isContainedInMap(tmpArg, values) {
-							addToVarsMap(tmpArg, values)
-						}
-					}
-				} else if funcCall.Call.Value.String() == trackedFuncName {
-					if !isContainedInMap(tmpArg, values) {
-						addToVarsMap(tmpArg, values)
-					}
-				}
+			if arg := trackedArg(funcCall.Common(), trackedFuncName, trackedFuncArgsInfo); arg != nil && !isContainedInMap(arg, values) {
+				addToVarsMap(arg, values)
 			}
 		}
 	}
 }
+
+// trackedArg returns the argument that is tracked if the tracked function is called, otherwise nil.
+func trackedArg(call *ssa.CallCommon, trackedFuncName string, trackedFuncArgsInfo []int) ssa.Value {
+	// only process functions that have the same number of arguments as the ones we track
+	if len(call.Args) != trackedFuncArgsInfo[0] {
+		return nil
+	}
+	// check if the function is called from an object or directly from the package
+	calledName := call.Value.String()
+	if call.Method != nil {
+		calledName = call.Method.FullName()
+	}
+	if calledName != trackedFuncName {
+		return nil
+	}
+	return call.Args[trackedFuncArgsInfo[1]]
+}
-- 
2.43.0


From fe45bd8af1bd9cdc72d8d6364274f75fcfc00e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:16 +0000
Subject: [PATCH 49/54] fix: do not report nonces filled from crypto/rand or
 sliced from unknown data

---
 analyzers/hardcoded_nonce.go | 89 +++++++++++++++++++++++++++++++++---
 1 file changed, 82 insertions(+), 7 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index 12366ea..a07f66e 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"go/token"
+	"go/types"
 
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
@@ -82,6 +83,19 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 	var issues []*issue.Issue
 	switch valType := (val).(type) {
 	case *ssa.Slice:
+		base := sliceBase(valType)
+		if _, ok := base.Type().Underlying().(*types.Slice); ok {
+			// the origin of another slice is not known, except for parameters and converted strings
+			if param, ok := base.(*ssa.Parameter); ok {
+				return raiseIssue(param, funcsToTrack, ssaFuncs, pass, issueDescription, visited)
+			}
+			if _, ok := base.(*ssa.Convert); !ok {
+				break
+			}
+		}
+		if isFilledWithCryptoRand(base) {
+			break
+		}
 		issueDescription += " by passing hardcoded slice/array"
 		issues, err = iterateThroughReferrers(val, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.High)
 		allIssues = append(allIssues, issues...)
@@ -180,25 +194,86 @@ func iterateThroughReferrers(variable ssa.Value, funcsToTrack map[string][]int,
 	return gosecIssues, nil
 }
 
-// isFuncContainsCryptoRand checks whether a function contains a call to crypto/rand.Read in it's function body.
+// isFuncContainsCryptoRand checks whether a function contains a call in it's function body which fills a slice from crypto/rand.
 func isFuncContainsCryptoRand(funcCall *ssa.Function) (bool, error) {
 	if funcCall == nil {
 		return false, errors.New("passed ssa.Function object is nil")
 	}
 	for _, block := range funcCall.Blocks {
 		for _, instr := range block.Instrs {
-			if call, ok := instr.(*ssa.Call); ok {
-				if calledFunction, ok := call.Call.Value.(*ssa.Function); ok {
-					if calledFunction.Pkg != nil && calledFunction.Pkg.Pkg.Path() == "crypto/rand" && calledFunction.Name() == "Read" {
-						return true, nil
-					}
-				}
+			if call, ok := instr.(*ssa.Call); ok && filledByCryptoRand(call.Common()) != nil {
+				return true, nil
 			}
 		}
 	}
 	return false, nil
 }
 
+// sliceBase returns the array, slice or string that is sliced, however often.
+func sliceBase(slice *ssa.Slice) ssa.Value {
+	for {
+		inner, ok := slice.X.(*ssa.Slice)
+		if !ok {
+			return slice.X
+		}
+		slice = inner
+	}
+}
+
+// isFilledWithCryptoRand checks whether the array or slice, or a slice of it, is filled from crypto/rand.
+func isFilledWithCryptoRand(value ssa.Value) bool {
+	refs := value.Referrers()
+	if refs == nil {
+		return false
+	}
+	for _, ref := range *refs {
+		switch ref := ref.(type) {
+		case *ssa.Call:
+			if filledByCryptoRand(ref.Common()) == value {
+				return true
+			}
+		case *ssa.Slice:
+			if ref.X == value && isFilledWithCryptoRand(ref) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+// filledByCryptoRand returns the slice that a call fills from crypto/rand, or nil if it is another call.
+func filledByCryptoRand(call *ssa.CallCommon) ssa.Value {
+	if call.IsInvoke() {
+		if call.Method.Name() == "Read" && len(call.Args) == 1 && isCryptoRandReader(call.Value) {
+			return call.Args[0]
+		}
+		return nil
+	}
+	calledFunction, ok := call.Value.(*ssa.Function)
+	if !ok || calledFunction.Pkg == nil {
+		return nil
+	}
+	switch calledFunction.Pkg.Pkg.Path() + "." + calledFunction.Name() {
+	case "crypto/rand.Read":
+		return call.Args[0]
+	case "io.ReadFull", "io.ReadAtLeast":
+		if isCryptoRandReader(call.Args[0]) {
+			return call.Args[1]
+		}
+	}
+	return nil
+}
+
+// isCryptoRandReader checks whether the value is the reader of crypto/rand.
+func isCryptoRandReader(value ssa.Value) bool {
+	load, ok := value.(*ssa.UnOp)
+	if !ok || load.Op != token.MUL {
+		return false
+	}
+	global, ok := load.X.(*ssa.Global)
+	return ok && global.Pkg.Pkg.Path() == "crypto/rand" && global.Name() == "Reader"
+}
+
 // varKey identifies a value; constants and globals have no parent.
 func varKey(value ssa.Value) string {
 	key := value.Name() + value.Type().String() + value.String()
-- 
2.43.0


From b0f0e0ae1fed5871f1573e2fb801fc6b8ecbfa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:53 +0000
Subject: [PATCH 50/54] fix: take only the functions of strconv for parsing
 with a bit size (G115)

---
 analyzers/conversion_overflow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 8526cda..e4b6b71 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -214,10 +214,10 @@ func isParsedInRange(original ssa.Value, dstInt integer, visited map[ssa.Value]b
 
 	switch v := original.(type) {
 	case *ssa.Call:
-		if v.Call.StaticCallee() != nil && (v.Call.StaticCallee().Name() == "ParseInt" || v.Call.StaticCallee().Name() == "ParseUint") {
+		if callee := v.Call.StaticCallee(); callee != nil && (callee.String() == "strconv.ParseInt" || callee.String() == "strconv.ParseUint") {
 			if len(v.Call.Args) == 3 {
 				if bitSize, ok := v.Call.Args[2].(*ssa.Const); ok {
-					signed := v.Call.StaticCallee().Name() == "ParseInt"
+					signed := callee.Name() == "ParseInt"
 					bitSizeValue, err := strconv.Atoi(bitSize.Value.String())
 					if err != nil {
 						return false
-- 
2.43.0


From 24b7a86cd77a05ed297d9be6cf16ec882a1de5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:24 +0000
Subject: [PATCH 51/54] fix: judge every form of a TLS configuration by its
 constant settings (G402)

---
 rules/tls.go | 179 +++++++++++++++++++++++++--------------------------
 1 file changed, 87 insertions(+), 92 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 660eb87..d624f87 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -17,11 +17,10 @@
 package rules
 
 import (
-	"crypto/tls"
 	"fmt"
 	"go/ast"
+	"go/constant"
 	"go/types"
-	"strconv"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -53,12 +52,23 @@ func stringInSlice(a string, list []string) bool {
 func (t *insecureConfigTLS) processTLSCipherSuites(n ast.Node, c *gosec.Context) *issue.Issue {
 	if ciphers, ok := n.(*ast.CompositeLit); ok {
 		for _, cipher := range ciphers.Elts {
-			if ident, ok := cipher.(*ast.SelectorExpr); ok {
-				if !stringInSlice(ident.Sel.Name, t.goodCiphers) {
-					err := fmt.Sprintf("TLS Bad Cipher Suite: %s", ident.Sel.Name)
-					return c.NewIssue(ident, t.ID(), err, issue.High, issue.High)
+			if kve, ok := cipher.(*ast.KeyValueExpr); ok {
+				cipher = kve.Value
+			}
+			var name *ast.Ident
+			switch cipher := ast.Unparen(cipher).(type) {
+			case *ast.SelectorExpr:
+				name = cipher.Sel
+			case *ast.Ident:
+				// the package may be imported with a dot
+				if obj, ok := c.Info.ObjectOf(cipher).(*types.Const); ok && obj.Pkg() != nil && obj.Pkg().Path() == "crypto/tls" {
+					name = cipher
 				}
 			}
+			if name != nil && !stringInSlice(name.Name, t.goodCiphers) {
+				err := fmt.Sprintf("TLS Bad Cipher Suite: %s", name.Name)
+				return c.NewIssue(cipher, t.ID(), err, issue.High, issue.High)
+			}
 		}
 	}
 	return nil
@@ -71,13 +81,15 @@ func (t *insecureConfigTLS) processTLSConf(n ast.Node, c *gosec.Context) *issue.
 			return issue
 		}
 	} else if assign, ok := n.(*ast.AssignStmt); ok {
-		if len(assign.Lhs) < 1 || len(assign.Rhs) < 1 {
+		if len(assign.Lhs) != len(assign.Rhs) {
 			return nil
 		}
-		if selector, ok := assign.Lhs[0].(*ast.SelectorExpr); ok {
-			issue := t.processTLSConfVal(selector.Sel, assign.Rhs[0], c)
-			if issue != nil {
-				return issue
+		for i, lhs := range assign.Lhs {
+			if selector, ok := ast.Unparen(lhs).(*ast.SelectorExpr); ok && t.isConfig(selector.X, c) {
+				issue := t.processTLSConfVal(selector.Sel, assign.Rhs[i], c)
+				if issue != nil {
+					return issue
+				}
 			}
 		}
 	}
@@ -88,75 +100,33 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 	if ident, ok := key.(*ast.Ident); ok {
 		switch ident.Name {
 		case "InsecureSkipVerify":
-			if node, ok := value.(*ast.Ident); ok {
-				if node.Name != "false" {
-					return c.NewIssue(value, t.ID(), "TLS InsecureSkipVerify set true.", issue.High, issue.High)
-				}
-			} else {
+			skip, known := constantBool(value, c)
+			if _, ok := value.(*ast.Ident); ok && !known || skip {
+				return c.NewIssue(value, t.ID(), "TLS InsecureSkipVerify set true.", issue.High, issue.High)
+			} else if !known {
 				// TODO(tk): symbol tab look up to get the actual value
 				return c.NewIssue(value, t.ID(), "TLS InsecureSkipVerify may be true.", issue.High, issue.Low)
 			}
 
 		case "PreferServerCipherSuites":
-			if node, ok := value.(*ast.Ident); ok {
-				if node.Name == "false" {
+			prefer, known := constantBool(value, c)
+			if known {
+				if !prefer {
 					return c.NewIssue(value, t.ID(), "TLS PreferServerCipherSuites set false.", issue.Medium, issue.High)
 				}
-			} else {
+			} else if _, ok := value.(*ast.Ident); !ok {
 				// TODO(tk): symbol tab look up to get the actual value
 				return c.NewIssue(value, t.ID(), "TLS PreferServerCipherSuites may be false.", issue.Medium, issue.Low)
 			}
 
 		case "MinVersion":
-			if d, ok := value.(*ast.Ident); ok {
-				obj := d.Obj
-				if obj == nil {
-					for _, f := range c.PkgFiles {
-						obj = f.Scope.Lookup(d.Name)
-						if obj != nil {
-							break
-						}
-					}
-				}
-				if obj == nil {
-					return nil
-				}
-				if vs, ok := obj.Decl.(*ast.ValueSpec); ok && len(vs.Values) > 0 {
-					if s, ok := vs.Values[0].(*ast.SelectorExpr); ok {
-						if cst, ok := c.Info.ObjectOf(s.Sel).(*types.Const); ok {
-							// ..got the value check if this can be translated
-							if minVersion, err := strconv.ParseInt(cst.Val().String(), 0, 64); err == nil {
-								t.actualMinVersion = minVersion
-							}
-						}
-					}
-					if ival, ierr := gosec.GetInt(vs.Values[0]); ierr == nil {
-						t.actualMinVersion = ival
-					}
-				}
-			} else if ival, ierr := gosec.GetInt(value); ierr == nil {
-				t.actualMinVersion = ival
-			} else {
-				if se, ok := value.(*ast.SelectorExpr); ok {
-					if pkg, ok := se.X.(*ast.Ident); ok {
-						if ip, ok := gosec.GetImportPath(pkg.Name, c); ok && ip == "crypto/tls" {
-							t.actualMinVersion = t.mapVersion(se.Sel.Name)
-						}
-					}
-				}
+			if version, ok := t.versionOf(value, c); ok {
+				t.actualMinVersion = version
 			}
 
 		case "MaxVersion":
-			if ival, ierr := gosec.GetInt(value); ierr == nil {
-				t.actualMaxVersion = ival
-			} else {
-				if se, ok := value.(*ast.SelectorExpr); ok {
-					if pkg, ok := se.X.(*ast.Ident); ok {
-						if ip, ok := gosec.GetImportPath(pkg.Name, c); ok && ip == "crypto/tls" {
-							t.actualMaxVersion = t.mapVersion(se.Sel.Name)
-						}
-					}
-				}
+			if version, ok := t.versionOf(value, c); ok {
+				t.actualMaxVersion = version
 			}
 
 		case "CipherSuites":
@@ -169,19 +139,54 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 	return nil
 }
 
-func (t *insecureConfigTLS) mapVersion(version string) int64 {
-	var v int64
-	switch version {
-	case "VersionTLS13":
-		v = tls.VersionTLS13
-	case "VersionTLS12":
-		v = tls.VersionTLS12
-	case "VersionTLS11":
-		v = tls.VersionTLS11
-	case "VersionTLS10":
-		v = tls.VersionTLS10
+// versionOf returns the version that an expression stands for: a constant, or a variable declared with one.
+func (t *insecureConfigTLS) versionOf(value ast.Expr, c *gosec.Context) (int64, bool) {
+	if tv, ok := c.Info.Types[value]; ok && tv.Value != nil {
+		return constant.Int64Val(constant.ToInt(tv.Value))
+	}
+	ident, ok := ast.Unparen(value).(*ast.Ident)
+	if !ok {
+		return 0, false
+	}
+	obj := ident.Obj
+	if obj == nil {
+		for _, f := range c.PkgFiles {
+			obj = f.Scope.Lookup(ident.Name)
+			if obj != nil {
+				break
+			}
+		}
+	}
+	if obj == nil {
+		return 0, false
 	}
-	return v
+	if vs, ok := obj.Decl.(*ast.ValueSpec); ok && len(vs.Values) == len(vs.Names) {
+		for i, name := range vs.Names {
+			if name.Name == ident.Name {
+				if tv, ok := c.Info.Types[vs.Values[i]]; ok && tv.Value != nil {
+					return constant.Int64Val(constant.ToInt(tv.Value))
+				}
+			}
+		}
+	}
+	return 0, false
+}
+
+// constantBool returns the value of a constant expression, and whether it is one.
+func constantBool(value ast.Expr, c *gosec.Context) (bool, bool) {
+	if tv, ok := c.Info.Types[value]; ok && tv.Value != nil && tv.Value.Kind() == constant.Bool {
+		return constant.BoolVal(tv.Value), true
+	}
+	return false, false
+}
+
+// isConfig tells whether an expression is a configuration or points to one.
+func (t *insecureConfigTLS) isConfig(expr ast.Expr, c *gosec.Context) bool {
+	actualType := types.Unalias(c.Info.TypeOf(expr))
+	if pointer, ok := actualType.(*types.Pointer); ok {
+		actualType = types.Unalias(pointer.Elem())
+	}
+	return actualType != nil && actualType.String() == t.requiredType
 }
 
 func (t *insecureConfigTLS) checkVersion(n ast.Node, c *gosec.Context) *issue.Issue {
@@ -204,9 +209,9 @@ func (t *insecureConfigTLS) resetVersion() {
 }
 
 func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
-	if complit, ok := n.(*ast.CompositeLit); ok && complit.Type != nil {
-		actualType := c.Info.TypeOf(complit.Type)
-		if actualType != nil && actualType.String() == t.requiredType {
+	if complit, ok := n.(*ast.CompositeLit); ok {
+		// the type may be elided within a literal of configurations or of pointers to them
+		if t.isConfig(complit, c) {
 			// the versions seen in other literals and assignments do not matter for this literal
 			t.resetVersion()
 			for _, elt := range complit.Elts {
@@ -217,18 +222,8 @@ func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, e
 			}
 			return t.checkVersion(complit, c), nil
 		}
-	} else {
-		if assign, ok := n.(*ast.AssignStmt); ok && len(assign.Lhs) > 0 {
-			if selector, ok := assign.Lhs[0].(*ast.SelectorExpr); ok {
-				actualType := c.Info.TypeOf(selector.X)
-				if actualType != nil && actualType.String() == t.requiredType {
-					issue := t.processTLSConf(assign, c)
-					if issue != nil {
-						return issue, nil
-					}
-				}
-			}
-		}
+	} else if assign, ok := n.(*ast.AssignStmt); ok {
+		return t.processTLSConf(assign, c), nil
 	}
 	return nil, nil
 }
-- 
2.43.0


From 2c6888fe62098b32d54a9489b64a293697ab0661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:54 +0000
Subject: [PATCH 52/54] fix: look at every error among the results of a call
 (G104)

---
 rules/errors.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/rules/errors.go b/rules/errors.go
index 82601f6..d7fe07a 100644
--- a/rules/errors.go
+++ b/rules/errors.go
@@ -31,23 +31,25 @@ func (r *noErrorCheck) ID() string {
 	return r.MetaData.ID
 }
 
-func returnsError(callExpr *ast.CallExpr, ctx *gosec.Context) int {
+// returnsErrors gives the positions of the errors among the results of a call.
+func returnsErrors(callExpr *ast.CallExpr, ctx *gosec.Context) []int {
+	var positions []int
 	if tv := ctx.Info.TypeOf(callExpr); tv != nil {
 		switch t := types.Unalias(tv).(type) {
 		case *types.Tuple:
 			for pos := 0; pos < t.Len(); pos++ {
 				variable := t.At(pos)
 				if variable != nil && types.Unalias(variable.Type()).String() == "error" {
-					return pos
+					positions = append(positions, pos)
 				}
 			}
 		case *types.Named:
 			if t.String() == "error" {
-				return 0
+				positions = append(positions, 0)
 			}
 		}
 	}
-	return -1
+	return positions
 }
 
 func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
@@ -57,24 +59,24 @@ func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 		if enabled, err := cfg.IsGlobalEnabled(gosec.Audit); err == nil && enabled {
 			for i, expr := range stmt.Rhs {
 				if callExpr, ok := ast.Unparen(expr).(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(callExpr, ctx) == nil {
-					pos := returnsError(callExpr, ctx)
-					if pos >= 0 && len(stmt.Rhs) > 1 {
-						// each value is assigned to the variable at its own position
-						pos = i
-					}
-					if pos < 0 || pos >= len(stmt.Lhs) {
-						continue
-					}
-					if id, ok := stmt.Lhs[pos].(*ast.Ident); ok && id.Name == "_" {
-						return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
+					for _, pos := range returnsErrors(callExpr, ctx) {
+						if len(stmt.Rhs) > 1 {
+							// each value is assigned to the variable at its own position
+							pos = i
+						}
+						if pos >= len(stmt.Lhs) {
+							continue
+						}
+						if id, ok := stmt.Lhs[pos].(*ast.Ident); ok && id.Name == "_" {
+							return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
+						}
 					}
 				}
 			}
 		}
 	case *ast.ExprStmt:
 		if callExpr, ok := ast.Unparen(stmt.X).(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(callExpr, ctx) == nil {
-			pos := returnsError(callExpr, ctx)
-			if pos >= 0 {
+			if len(returnsErrors(callExpr, ctx)) > 0 {
 				return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
 		}
-- 
2.43.0


From 123d0ef19bea8c57f2953c8531d0606e44f15d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:20 +0000
Subject: [PATCH 53/54] fix: understand error positions in files whose path
 contains a colon

---
 analyzer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index dc71a76..9e0a0d9 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -542,6 +542,17 @@ func (gosec *Analyzer) ParseErrors(pkg *packages.Package) error {
 	}
 	for _, pkgErr := range pkg.Errors {
 		parts := strings.Split(pkgErr.Pos, ":")
+		// the line and the column are the last parts, the path of the file may contain colons as well
+		first := len(parts)
+		for first > 1 && first > len(parts)-2 {
+			if _, err := strconv.Atoi(parts[first-1]); err != nil {
+				break
+			}
+			first--
+		}
+		if first < len(parts) {
+			parts = append([]string{strings.Join(parts[:first], ":")}, parts[first:]...)
+		}
 		file := parts[0]
 		var err error
 		var line int
-- 
2.43.0


From 3ba1369e730f5d73c0150afc5a9e9b29ead75420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:42 +0000
Subject: [PATCH 54/54] fix: fail when a CSV report cannot be written

---
 report/csv/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/report/csv/writer.go b/report/csv/writer.go
index 40bb6a1..0b15715 100644
--- a/report/csv/writer.go
+++ b/report/csv/writer.go
@@ -10,7 +10,6 @@ import (
 // WriteReport write a report in csv format to the output writer
 func WriteReport(w io.Writer, data *gosec.ReportInfo) error {
 	out := csv.NewWriter(w)
-	defer out.Flush()
 	for _, issue := range data.Issues {
 		err := out.Write([]string{
 			issue.File,
@@ -25,5 +24,6 @@ func WriteReport(w io.Writer, data *gosec.ReportInfo) error {
 			return err
 		}
 	}
-	return nil
+	out.Flush()
+	return out.Error()
 }
-- 
2.43.0

