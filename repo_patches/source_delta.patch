From d67ea9de3c314aecb2ea8f46d34bf8eaf44d0623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:47 +0000
Subject: [PATCH 01/58] verif: VM step hook and stack-depth accessors behind
 build tag verif

---
 zygo/environment.go |  5 ++++-
 zygo/verif_off.go   |  7 +++++++
 zygo/verif_on.go    | 30 ++++++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 1 deletion(-)
 create mode 100644 zygo/verif_off.go
 create mode 100644 zygo/verif_on.go

diff --git a/zygo/environment.go b/zygo/environment.go
index f6f9d51..9df4bb6 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -893,7 +893,10 @@ func (env *Zlisp) Run() (Sexp, error) {
 			fmt.Printf("\n ====== in '%s', now running the above.\n",
 				env.curfunc.name)
 		}
-		err := instr.Execute(env)
+		err := env.verifStep()
+		if err == nil {
+			err = instr.Execute(env)
+		}
 		if err != nil {
 			env.restoreControlState(runState)
 			env.pc = functionSize(env.curfunc)
diff --git a/zygo/verif_off.go b/zygo/verif_off.go
new file mode 100644
index 0000000..895b485
--- /dev/null
+++ b/zygo/verif_off.go
@@ -0,0 +1,7 @@
+//go:build !verif
+
+package zygo
+
+// verifStep is the VM step hook used by external runtime monitors. In
+// ordinary builds it does nothing; see verif_on.go.
+func (env *Zlisp) verifStep() error { return nil }
diff --git a/zygo/verif_on.go b/zygo/verif_on.go
new file mode 100644
index 0000000..88c0ae2
--- /dev/null
+++ b/zygo/verif_on.go
@@ -0,0 +1,30 @@
+//go:build verif
+
+package zygo
+
+// This file is compiled only with the build tag 'verif'. It lets an external
+// runtime monitor observe the VM: a hook called before every instruction
+// (which may stop the evaluation by returning an error), and read access to
+// the depths of the interpreter's stacks.
+
+// VerifStepHook, when set, is called before each VM instruction is executed.
+// A non-nil error is returned from Run as the evaluation's error.
+var VerifStepHook func(env *Zlisp) error
+
+func (env *Zlisp) verifStep() error {
+	if VerifStepHook != nil {
+		return VerifStepHook(env)
+	}
+	return nil
+}
+
+// VerifDepths reports how many elements are on each of the VM's stacks.
+func (env *Zlisp) VerifDepths() (data, scope, addr, loop int) {
+	return env.datastack.Size(), env.linearstack.Size(),
+		env.addrstack.Size(), env.loopstack.Size()
+}
+
+// VerifCodeSize reports how many instructions the main program holds.
+func (env *Zlisp) VerifCodeSize() int {
+	return len(env.mainfunc.fun)
+}
-- 
2.43.0


From 303376b1381909dd7e22a63631edbb5ff1184a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 02/58] fix: compare numbers without overflowing subtraction,
 order NaN from either side, report integer division by zero

---
 zygo/comparisons.go  | 81 ++++++++++++++++++++++++--------------------
 zygo/numerictower.go | 25 ++++++++++++++
 2 files changed, 69 insertions(+), 37 deletions(-)

diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index 12da425..7434b88 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -33,50 +33,57 @@ func IsNaNFunction(name string) ZlispUserFunction {
 	}
 }
 
-func signumFloat(f float64) int {
-	if f > 0 {
+func signumInt(i int64) int {
+	if i > 0 {
 		return 1
 	}
-	if f < 0 {
+	if i < 0 {
 		return -1
 	}
 	return 0
 }
 
-func signumInt(i int64) int {
-	if i > 0 {
+// compareInt64s orders a and b without subtracting, which could overflow.
+func compareInt64s(a, b int64) int {
+	if a < b {
+		return -1
+	}
+	if a > b {
 		return 1
 	}
-	if i < 0 {
+	return 0
+}
+
+// compareFloat64s orders a and b; a NaN on either side
+// gives a result > 1: 2 for one NaN found, 3 for two.
+func compareFloat64s(a, b float64) int {
+	nanCount := 0
+	if math.IsNaN(a) {
+		nanCount++
+	}
+	if math.IsNaN(b) {
+		nanCount++
+	}
+	if nanCount > 0 {
+		return 1 + nanCount
+	}
+	if a < b {
 		return -1
 	}
+	if a > b {
+		return 1
+	}
 	return 0
 }
 
 func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		if math.IsNaN(f.Val) {
-			return 2, nil
-		}
-		return signumFloat(f.Val - float64(e.Val)), nil
+		return compareFloat64s(f.Val, float64(e.Val)), nil
 	case *SexpFloat:
-		nanCount := 0
-		if math.IsNaN(f.Val) {
-			nanCount++
-		}
-		if math.IsNaN(e.Val) {
-			nanCount++
-		}
-		if nanCount > 0 {
-			return 1 + nanCount, nil
-		}
-		return signumFloat(f.Val - e.Val), nil
+		return compareFloat64s(f.Val, e.Val), nil
 	case *SexpChar:
-		if math.IsNaN(f.Val) {
-			return 2, nil
-		}
-		return signumFloat(f.Val - float64(e.Val)), nil
+		return compareFloat64s(f.Val, float64(e.Val)), nil
 	}
 	errmsg := fmt.Sprintf("err 91: cannot compare %T to %T", f, expr)
 	return 0, errors.New(errmsg)
@@ -85,17 +92,17 @@ func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 func compareInt(i *SexpInt, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		return signumInt(i.Val - e.Val), nil
+		return compareInt64s(i.Val, e.Val), nil
 	case *SexpFloat:
-		return signumFloat(float64(i.Val) - e.Val), nil
+		return compareFloat64s(float64(i.Val), e.Val), nil
 	case *SexpChar:
-		return signumInt(i.Val - int64(e.Val)), nil
+		return compareInt64s(i.Val, int64(e.Val)), nil
 	case *SexpReflect:
 		r := reflect.Value(e.Val)
 		ifa := r.Interface()
 		switch z := ifa.(type) {
 		case *int64:
-			return signumInt(i.Val - *z), nil
+			return compareInt64s(i.Val, *z), nil
 		}
 		P("compareInt(): ifa = %v/%T", ifa, ifa)
 		P("compareInt(): r.Elem() = %v/%T", r.Elem(), r.Elem())
@@ -110,9 +117,9 @@ func compareInt(i *SexpInt, expr Sexp) (int, error) {
 func compareChar(c *SexpChar, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		return signumInt(int64(c.Val) - e.Val), nil
+		return compareInt64s(int64(c.Val), e.Val), nil
 	case *SexpFloat:
-		return signumFloat(float64(c.Val) - e.Val), nil
+		return compareFloat64s(float64(c.Val), e.Val), nil
 	case *SexpChar:
 		return signumInt(int64(c.Val) - int64(e.Val)), nil
 	}
@@ -312,18 +319,18 @@ func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
 func compareUint64(i *SexpUint64, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpUint64:
-		return signumUint64(i.Val - e.Val), nil
+		return compareUint64s(i.Val, e.Val), nil
 	}
 	errmsg := fmt.Sprintf("err 101: cannot compare %T to %T", i, expr)
 	return 0, errors.New(errmsg)
 }
 
-func signumUint64(i uint64) int {
-	if i > 0 {
-		return 1
-	}
-	if i < 0 {
+func compareUint64s(a, b uint64) int {
+	if a < b {
 		return -1
 	}
+	if a > b {
+		return 1
+	}
 	return 0
 }
diff --git a/zygo/numerictower.go b/zygo/numerictower.go
index 4012fd5..19da24e 100644
--- a/zygo/numerictower.go
+++ b/zygo/numerictower.go
@@ -20,10 +20,30 @@ const (
 
 var WrongType error = errors.New("operands have invalid type")
 
+var DivisionByZero error = errors.New("division by zero")
+
+// isIntegerZero is true for the integer, uint64 and char
+// divisors that Go would panic on.
+func isIntegerZero(x Sexp) bool {
+	switch v := x.(type) {
+	case *SexpInt:
+		return v.Val == 0
+	case *SexpUint64:
+		return v.Val == 0
+	case *SexpChar:
+		return v.Val == 0
+	}
+	return false
+}
+
 func IntegerDo(op IntegerOp, a, b Sexp) (Sexp, error) {
 	var ia *SexpInt
 	var ib *SexpInt
 
+	if op == Modulo && isIntegerZero(b) {
+		return SexpNull, DivisionByZero
+	}
+
 	switch i := a.(type) {
 	case *SexpInt:
 		ia = i
@@ -272,6 +292,11 @@ func NumericMatchTime(op NumericOp, a *SexpTime, b Sexp) (Sexp, error) {
 }
 
 func NumericDo(op NumericOp, a, b Sexp) (Sexp, error) {
+	if op == Div && isIntegerZero(b) {
+		if _, isFloat := a.(*SexpFloat); !isFloat {
+			return SexpNull, DivisionByZero
+		}
+	}
 	switch ta := a.(type) {
 	case *SexpFloat:
 		return NumericMatchFloat(op, ta, b)
-- 
2.43.0


From 3fa80e68477a26a2299fb8551541a0f706d86629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 03/58] fix: hash deletion removes the key and keeps the order
 list exact; range loops give each pass its own variables

---
 zygo/hashutils.go | 147 ++++++++++++++++++++++++++++++++--------------
 zygo/pratt.go     |  10 +++-
 zygo/repl.go      |   2 +-
 zygo/vm.go        |   4 +-
 4 files changed, 114 insertions(+), 49 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index b7ff70e..a6f6641 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -3,6 +3,7 @@ package zygo
 import (
 	"errors"
 	"fmt"
+	"hash"
 	"hash/fnv"
 	"reflect"
 	"strings"
@@ -58,11 +59,50 @@ func hashHelper(expr Sexp) (hashcode int, isList bool, err error) {
 	case *SexpPair:
 		return 0, true, nil
 	case *SexpArray:
-		return int(Blake2bUint64([]byte(e.SexpString(nil)))), false, nil
+		hasher := fnv.New64a()
+		hashArrayHelper(e, hasher)
+		return int(hasher.Sum64()), false, nil
 	}
 	return 0, false, fmt.Errorf("cannot hash type %T", expr)
 }
 
+// hashArrayHelper feeds the elements of an array key to hasher. It depends
+// only on the element values, never on how they print, so that keys which
+// compare equal hash alike whatever the pretty-print setting is.
+func hashArrayHelper(arr *SexpArray, hasher hash.Hash64) {
+	fmt.Fprintf(hasher, "[%d", len(arr.Val))
+	for _, elem := range arr.Val {
+		switch e := elem.(type) {
+		case *SexpArray:
+			hashArrayHelper(e, hasher)
+		case *SexpInt:
+			fmt.Fprintf(hasher, " n%g", float64(e.Val))
+		case *SexpChar:
+			fmt.Fprintf(hasher, " n%g", float64(e.Val))
+		case *SexpFloat:
+			fmt.Fprintf(hasher, " n%g", e.Val+0) // -0 equals 0
+		case *SexpStr:
+			fmt.Fprintf(hasher, " %q", e.S)
+		case *SexpSymbol:
+			fmt.Fprintf(hasher, " s%d", e.number)
+		default:
+			fmt.Fprintf(hasher, " ?")
+		}
+	}
+}
+
+// unwrapHashKey lets h[6] name the key 6: an array of one
+// element used as a key stands for that element.
+func unwrapHashKey(key Sexp) Sexp {
+	for {
+		arr, isArray := key.(*SexpArray)
+		if !isArray || len(arr.Val) != 1 {
+			return key
+		}
+		key = arr.Val[0]
+	}
+}
+
 func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 	//	Q("MakeHash called ")
 	//	for i := range args {
@@ -199,11 +239,6 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 		if sym.isDot {
 			return hash.DotPathHashGet(env, sym)
 		}
-
-	case *SexpArray:
-		if len(sym.Val) == 1 {
-			key = sym.Val[0]
-		}
 	}
 
 	// this is kind of a hack
@@ -223,6 +258,7 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 }
 
 func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sexp, error) {
+	key = unwrapHashKey(key)
 	hashval, err := HashExpression(env, key)
 	if err != nil {
 		return SexpNull, err
@@ -348,12 +384,7 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 	if _, isComment := val.(*SexpComment); isComment {
 		return fmt.Errorf("HashSet: val cannot be comment")
 	}
-	if arr, isArray := key.(*SexpArray); isArray {
-		na := len(arr.Val)
-		if na == 1 {
-			key = arr.Val[0] // let single number keys work: h[6]=10
-		}
-	}
+	key = unwrapHashKey(key) // let single number keys work: h[6]=10
 
 	err := hash.TypeCheckField(key, val)
 	if err != nil {
@@ -397,29 +428,46 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 }
 
 func (hash *SexpHash) HashDelete(key Sexp) error {
+	key = unwrapHashKey(key)
 	hashval, err := HashExpression(nil, key)
 	if err != nil {
 		return err
 	}
-	arr, ok := hash.Map[hashval]
 
 	// if it doesn't exist, no need to delete it
-	if !ok {
-		return nil
-	}
-
-	hash.NumKeys--
+	arr := hash.Map[hashval]
 	for i, pair := range arr {
 		res, err := hash.Env.Compare(pair.Head, key)
 		if err == nil && res == 0 {
-			hash.Map[hashval] = append(arr[0:i], arr[i+1:]...)
-			break
+			hash.removeFromKeyOrder(pair.Head)
+			hash.NumKeys--
+			if len(arr) == 1 {
+				delete(hash.Map, hashval)
+				return nil
+			}
+			rest := make([]*SexpPair, 0, len(arr)-1)
+			rest = append(rest, arr[:i]...)
+			rest = append(rest, arr[i+1:]...)
+			hash.Map[hashval] = rest
+			return nil
 		}
 	}
 
 	return nil
 }
 
+func (hash *SexpHash) removeFromKeyOrder(key Sexp) {
+	for i, k := range hash.KeyOrder {
+		res, err := hash.Env.Compare(k, key)
+		if err == nil && res == 0 {
+			order := make([]Sexp, 0, len(hash.KeyOrder)-1)
+			order = append(order, hash.KeyOrder[:i]...)
+			hash.KeyOrder = append(order, hash.KeyOrder[i+1:]...)
+			return
+		}
+	}
+}
+
 func HashCountKeys(hash *SexpHash) int {
 	var num int
 	for _, arr := range hash.Map {
@@ -440,43 +488,52 @@ func HashIsEmpty(hash *SexpHash) bool {
 	return true
 }
 
+// SetHashKeyOrder puts the keys named in keyOrd first, in that order. Names
+// that are not keys of the hash are ignored, and keys that are not named
+// keep their place behind the others: each live key appears exactly once.
 func SetHashKeyOrder(hash *SexpHash, keyOrd Sexp) error {
-	// truncate down to zero, then build back up correctly.
-	hash.KeyOrder = hash.KeyOrder[:0]
 
 	keys, isArr := keyOrd.(*SexpArray)
 	if !isArr {
 		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%#v'", keyOrd, keyOrd)
 	}
-	for _, key := range keys.Val {
-		hash.KeyOrder = append(hash.KeyOrder, key)
+	order := make([]Sexp, 0, len(hash.KeyOrder))
+	for _, want := range keys.Val {
+		for i, key := range hash.KeyOrder {
+			if key == nil {
+				continue
+			}
+			res, err := hash.Env.Compare(key, want)
+			if err == nil && res == 0 {
+				order = append(order, key)
+				hash.KeyOrder[i] = nil // placed
+				break
+			}
+		}
 	}
+	for _, key := range hash.KeyOrder {
+		if key != nil {
+			order = append(order, key)
+		}
+	}
+	hash.KeyOrder = order
 
 	return nil
 }
 
 func (hash *SexpHash) HashPairi(pos int) (*SexpPair, error) {
-	nk := hash.NumKeys
-	if pos > nk {
+	nk := len(hash.KeyOrder)
+	if pos < 0 || pos >= nk {
 		return &SexpPair{}, fmt.Errorf("hpair error: pos %d is beyond our key count %d",
 			pos, nk)
 	}
-	lenKeyOrder := len(hash.KeyOrder)
-	var err error
-	var key, val Sexp
-	found := false
-	for k := pos; k < lenKeyOrder; k++ {
-		key = hash.KeyOrder[k]
-		val, err = hash.HashGet(nil, key)
-
-		if err == nil {
-			found = true
-			break
-		}
-		// what about deleted keys? just skip to the next!
+	key := hash.KeyOrder[pos]
+	val, err := hash.HashGetDefault(nil, key, SexpEnd)
+	if err != nil {
+		return &SexpPair{}, err
 	}
-	if !found {
-		panic(fmt.Errorf("hpair internal error: could not get element at pos %d in lenKeyOrder=%d", pos, lenKeyOrder))
+	if val == SexpEnd {
+		return &SexpPair{}, fmt.Errorf("hpair internal error: could not get element at pos %d", pos)
 	}
 
 	return Cons(key, &SexpPair{Head: val, Tail: SexpNull}), nil
@@ -923,12 +980,12 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 		}
 	}
 	if displayHashInCurly {
-		if len(hash.Map) > 0 {
+		if onKey > 0 {
 			return str[:len(str)-1] + prettyEnd + origIndInner + "}"
 		}
 		return str + prettyEnd + origIndInner + "}"
 	}
-	if len(hash.Map) > 0 {
+	if onKey > 0 {
 		return str[:len(str)-1] + ")" + prettyEnd
 	}
 	return str + ")" + prettyEnd
@@ -958,7 +1015,7 @@ func compareHash(a *SexpHash, bs Sexp) (int, error) {
 func (p *SexpHash) CopyMap() *map[int][]*SexpPair {
 	cp := make(map[int][]*SexpPair)
 	for k, v := range p.Map {
-		cp[k] = v
+		cp[k] = append([]*SexpPair(nil), v...)
 	}
 	return &cp
 }
@@ -970,7 +1027,7 @@ func (p *SexpHash) CloneFrom(src *SexpHash) {
 	p.TypeName = src.TypeName
 	p.Map = *(src.CopyMap())
 
-	p.KeyOrder = src.KeyOrder
+	p.KeyOrder = append([]Sexp(nil), src.KeyOrder...)
 	p.GoStructFactory = src.GoStructFactory
 	p.NumKeys = src.NumKeys
 	p.GoMethods = src.GoMethods
diff --git a/zygo/pratt.go b/zygo/pratt.go
index e699833..6cf00a1 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -435,7 +435,13 @@ func lowerRangeBinding(env *Zlisp, targets []*SexpSymbol, define bool, sourceSym
 
 	pair := prattCall(env, "__rangePair", sourceSym, indexSym)
 	if define {
-		return prattCall(env, "mdef", targets[0], targets[1], pair)
+		// each pass gets its own variables: successive keys or values
+		// need not have the same type.
+		scoped := []Sexp{
+			env.MakeSymbol("newScope"),
+			prattCall(env, "mdef", targets[0], targets[1], pair),
+		}
+		return MakeList(append(scoped, body...))
 	}
 
 	pairSym := env.GenSymbol("__range_pair")
@@ -496,7 +502,7 @@ func lowerRangeFor(env *Zlisp, label *SexpSymbol, header []Sexp, body []Sexp) (S
 
 	binding := lowerRangeBinding(env, targets, op == ":=", sourceSym, indexSym, body)
 	forBody := []Sexp{binding}
-	if !(len(targets) == 2 && op == "=") {
+	if len(targets) == 1 {
 		forBody = append(forBody, body...)
 	}
 	forLoop := prattForList(env, label, control, forBody)
diff --git a/zygo/repl.go b/zygo/repl.go
index 652584a..1179426 100644
--- a/zygo/repl.go
+++ b/zygo/repl.go
@@ -404,7 +404,7 @@ func (env *Zlisp) StandardSetup() {
 	rangeMacro := `(defmac range [key value myhash & body]
   ^(let [n (len ~myhash)]
       (for [(def i 0) (< i n) (def i (+ i 1))]
-        (begin
+        (newScope
           (mdef (quote ~key) (quote ~value) (hpair ~myhash i))
           ~@body))))`
 	_, err = env.EvalString(rangeMacro)
diff --git a/zygo/vm.go b/zygo/vm.go
index 9cd6543..a81fc28 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -550,7 +550,9 @@ func (b BindlistInstr) Execute(env *Zlisp) error {
 	}
 
 	for i, bindThisSym := range b.syms {
-		env.LexicalBindSymbol(bindThisSym, arr[i])
+		if err := env.LexicalBindSymbol(bindThisSym, arr[i]); err != nil {
+			return err
+		}
 	}
 	env.pc++
 	return nil
-- 
2.43.0


From 848ac283a3cd45162a5a62eaaa36ab4dda21d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 04/58] fix: JSON encoder emits well-formed text for nil,
 strings, keys and floats; decode failures are errors

---
 zygo/functions.go |   7 +-
 zygo/hashutils.go |  36 +-----
 zygo/jsonmsgp.go  | 287 +++++++++++++++++++++++++++++++++++-----------
 3 files changed, 226 insertions(+), 104 deletions(-)

diff --git a/zygo/functions.go b/zygo/functions.go
index a79173c..421bcbc 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -1350,9 +1350,10 @@ func SimpleJSONStringFunction(env *Zlisp, name string, args []Sexp) (Sexp, error
 	if len(args) != 1 {
 		return SexpNull, WrongNargs
 	}
-	ps := NewPrintState()
-	ps.PrintJSON = true
-	s := args[0].SexpString(ps)
+	s, err := sexpToJson(args[0], false)
+	if err != nil {
+		return SexpNull, err
+	}
 	return &SexpStr{S: s}, nil
 }
 
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index a6f6641..54099ec 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -811,41 +811,7 @@ func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp,
 		return &SexpArray{Val: slice, Env: env}, nil
 
 	case map[string]interface{}:
-
-		//Q("depth %d found map[string]interface case: val = %#v\n", depth, val)
-		sortedMapKey, sortedMapVal := makeSortedSlicesFromMap(val)
-
-		pairs := make([]Sexp, 0)
-
-		typeName := "hash"
-		var keyOrd Sexp
-		foundzKeyOrder := false
-		for i := range sortedMapKey {
-			// special field storing the name of our record (defmap) type.
-			//Q("\n i=%d sortedMapVal type %T, value=%v\n", i, sortedMapVal[i], sortedMapVal[i])
-			//Q("\n i=%d sortedMapKey type %T, value=%v\n", i, sortedMapKey[i], sortedMapKey[i])
-			if sortedMapKey[i] == "zKeyOrder" {
-				keyOrd = decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, true)
-				foundzKeyOrder = true
-			} else if sortedMapKey[i] == "Atype" {
-				tn, isString := sortedMapVal[i].(string)
-				if isString {
-					typeName = string(tn)
-				}
-			} else {
-				sym := env.MakeSymbol(sortedMapKey[i])
-				pairs = append(pairs, sym)
-				ele := decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, preferSym)
-				pairs = append(pairs, ele)
-			}
-		}
-		hash, err := MakeHash(pairs, typeName, env)
-		if foundzKeyOrder {
-			err = SetHashKeyOrder(hash, keyOrd)
-			panicOn(err)
-		}
-		panicOn(err)
-		return hash, nil
+		return decodeGoToSexpHelper(val, depth, env, preferSym)
 
 	case []byte:
 		//Q("depth %d found []byte case: val = %#v\n", depth, val)
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index f2f505d..ef46351 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -5,8 +5,10 @@ import (
 	"fmt"
 	"github.com/shurcooL/go-goon"
 	"github.com/ugorji/go/codec"
+	"math"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 	"time"
 	"unsafe"
@@ -66,7 +68,10 @@ func JsonFunction(name string) ZlispUserFunction {
 
 		switch name {
 		case "json":
-			str := SexpToJson(args[0])
+			str, err := sexpToJson(args[0], true)
+			if err != nil {
+				return SexpNull, err
+			}
 			return &SexpRaw{Val: []byte(str)}, nil
 		case "unjson":
 			raw, isRaw := args[0].(*SexpRaw)
@@ -75,7 +80,10 @@ func JsonFunction(name string) ZlispUserFunction {
 			}
 			return JsonToSexp([]byte(raw.Val), env)
 		case "msgpack":
-			by, _ := SexpToMsgpack(args[0])
+			by, _, err := sexpToMsgpack(args[0])
+			if err != nil {
+				return SexpNull, err
+			}
 			return &SexpRaw{Val: []byte(by)}, nil
 		case "unmsgpack":
 			raw, isRaw := args[0].(*SexpRaw)
@@ -100,62 +108,181 @@ func JsonToSexp(json []byte, env *Zlisp) (Sexp, error) {
 
 // sexp -> json
 func SexpToJson(exp Sexp) string {
+	str, err := sexpToJson(exp, true)
+	panicOn(err)
+	return str
+}
+
+// sexpToJson renders exp as JSON text. With meta, hashes carry their
+// type name and key order under Atype and zKeyOrder.
+func sexpToJson(exp Sexp, meta bool) (string, error) {
+	w := &jsonWriter{meta: meta, open: make(map[Sexp]bool)}
+	if err := w.write(exp); err != nil {
+		return "", err
+	}
+	return w.out.String(), nil
+}
+
+type jsonWriter struct {
+	out  strings.Builder
+	meta bool
+	open map[Sexp]bool // containers being written
+}
+
+func (w *jsonWriter) enter(exp Sexp) error {
+	if w.open[exp] {
+		return fmt.Errorf("json error: value contains itself")
+	}
+	if len(w.open) >= 10000 {
+		return fmt.Errorf("json error: value nested too deeply")
+	}
+	w.open[exp] = true
+	return nil
+}
+
+func (w *jsonWriter) write(exp Sexp) error {
 	switch e := exp.(type) {
 	case *SexpHash:
-		return e.jsonHashHelper()
+		return w.writeHash(e)
 	case *SexpArray:
-		return e.jsonArrayHelper()
+		return w.writeArray(e, e.Val)
+	case *SexpPair:
+		vals, err := ListToArray(e)
+		if err != nil {
+			return fmt.Errorf("json error: %v", err)
+		}
+		return w.writeArray(e, vals)
+	case *SexpSentinel:
+		if e == SexpNull {
+			w.out.WriteString("null")
+			return nil
+		}
+	case *SexpBool:
+		w.out.WriteString(strconv.FormatBool(e.Val))
+		return nil
+	case *SexpInt:
+		w.out.WriteString(strconv.FormatInt(e.Val, 10))
+		return nil
+	case *SexpUint64:
+		w.out.WriteString(strconv.FormatUint(e.Val, 10))
+		return nil
+	case *SexpFloat:
+		if math.IsNaN(e.Val) || math.IsInf(e.Val, 0) {
+			return fmt.Errorf("json error: cannot represent %v", e.Val)
+		}
+		format := byte('f')
+		if math.Abs(e.Val) >= 1e15 {
+			format = 'e'
+		}
+		w.out.WriteString(strconv.FormatFloat(e.Val, format, -1, 64))
+		return nil
+	case *SexpStr:
+		w.writeString(e.S)
+		return nil
+	case *SexpChar:
+		w.writeString(string(e.Val))
+		return nil
 	case *SexpSymbol:
-		return `"` + e.name + `"`
-	default:
-		return exp.SexpString(nil)
+		w.writeString(e.name)
+		return nil
 	}
+	w.writeString(exp.SexpString(nil))
+	return nil
 }
 
-func (hash *SexpHash) jsonHashHelper() string {
-	str := fmt.Sprintf(`{"Atype":"%s", `, hash.TypeName)
-
-	ko := []string{}
-	n := len(hash.KeyOrder)
-	if n == 0 {
-		return str[:len(str)-2] + "}"
+func (w *jsonWriter) writeHash(hash *SexpHash) error {
+	if err := w.enter(hash); err != nil {
+		return err
 	}
+	defer delete(w.open, hash)
 
+	w.out.WriteString("{")
+	if w.meta {
+		w.out.WriteString(`"Atype":`)
+		w.writeString(hash.TypeName)
+	}
+	names := []string{}
 	for _, key := range hash.KeyOrder {
-		keyst := key.SexpString(nil)
-		ko = append(ko, keyst)
 		val, err := hash.HashGet(nil, key)
-		if err == nil {
-			str += `"` + keyst + `":`
-			str += string(SexpToJson(val)) + `, `
-		} else {
-			panic(err)
+		if err != nil {
+			return err
+		}
+		if w.meta || len(names) > 0 {
+			w.out.WriteString(", ")
+		}
+		name := jsonKeyName(key)
+		names = append(names, name)
+		w.writeString(name)
+		w.out.WriteString(":")
+		if err := w.write(val); err != nil {
+			return err
 		}
 	}
-
-	str += `"zKeyOrder":[`
-	for _, key := range ko {
-		str += `"` + key + `", `
-	}
-	if n > 0 {
-		str = str[:len(str)-2]
+	if w.meta && len(names) > 0 {
+		w.out.WriteString(`, "zKeyOrder":[`)
+		for i, name := range names {
+			if i > 0 {
+				w.out.WriteString(", ")
+			}
+			w.writeString(name)
+		}
+		w.out.WriteString("]")
 	}
-	str += "]}"
+	w.out.WriteString("}")
+	return nil
+}
 
-	//VPrintf("\n\n final ToJson() str = '%s'\n", str)
-	return str
+func jsonKeyName(key Sexp) string {
+	switch k := key.(type) {
+	case *SexpSymbol:
+		return k.name
+	case *SexpStr:
+		return k.S
+	case *SexpChar:
+		return string(k.Val)
+	}
+	return key.SexpString(nil)
 }
 
-func (arr *SexpArray) jsonArrayHelper() string {
-	if len(arr.Val) == 0 {
-		return "[]"
+func (w *jsonWriter) writeArray(exp Sexp, vals []Sexp) error {
+	if err := w.enter(exp); err != nil {
+		return err
+	}
+	defer delete(w.open, exp)
+
+	w.out.WriteString("[")
+	for i, v := range vals {
+		if i > 0 {
+			w.out.WriteString(", ")
+		}
+		if err := w.write(v); err != nil {
+			return err
+		}
 	}
+	w.out.WriteString("]")
+	return nil
+}
 
-	str := "[" + SexpToJson(arr.Val[0])
-	for _, sexp := range arr.Val[1:] {
-		str += ", " + SexpToJson(sexp)
+func (w *jsonWriter) writeString(s string) {
+	w.out.WriteByte('"')
+	for _, r := range s { // invalid UTF-8 comes out as U+FFFD
+		switch {
+		case r == '"' || r == '\\':
+			w.out.WriteByte('\\')
+			w.out.WriteRune(r)
+		case r == '\n':
+			w.out.WriteString(`\n`)
+		case r == '\t':
+			w.out.WriteString(`\t`)
+		case r == '\r':
+			w.out.WriteString(`\r`)
+		case r < 0x20 || r == 0x7f:
+			fmt.Fprintf(&w.out, `\u%04x`, r)
+		default:
+			w.out.WriteRune(r)
+		}
 	}
-	return str + "]"
+	w.out.WriteByte('"')
 }
 
 type msgpackHelper struct {
@@ -196,15 +323,24 @@ func init() {
 // translate to sexp -> json -> go -> msgpack
 // returns both the msgpack []bytes and the go intermediary
 func SexpToMsgpack(exp Sexp) ([]byte, interface{}) {
-
-	json := []byte(SexpToJson(exp))
-	iface, err := JsonToGo(json)
-	panicOn(err)
-	by, err := GoToMsgpack(iface)
+	by, iface, err := sexpToMsgpack(exp)
 	panicOn(err)
 	return by, iface
 }
 
+func sexpToMsgpack(exp Sexp) ([]byte, interface{}, error) {
+	json, err := sexpToJson(exp, true)
+	if err != nil {
+		return nil, nil, err
+	}
+	iface, err := JsonToGo([]byte(json))
+	if err != nil {
+		return nil, nil, err
+	}
+	by, err := GoToMsgpack(iface)
+	return by, iface, err
+}
+
 // json -> go
 func JsonToGo(json []byte) (interface{}, error) {
 	var iface interface{}
@@ -212,7 +348,7 @@ func JsonToGo(json []byte) (interface{}, error) {
 	decoder := codec.NewDecoderBytes(json, &msgpHelper.jh)
 	err := decoder.Decode(&iface)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	//VPrintf("\n decoded type : %T\n", iface)
 	//VPrintf("\n decoded value: %#v\n", iface)
@@ -271,44 +407,54 @@ func MsgpackToGo(msgp []byte) (interface{}, error) {
 // convert iface, which will typically be map[string]interface{},
 // into an s-expression
 func GoToSexp(iface interface{}, env *Zlisp) (Sexp, error) {
-	return decodeGoToSexpHelper(iface, 0, env, false), nil
+	return decodeGoToSexpHelper(iface, 0, env, false)
 }
 
-func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (s Sexp) {
+func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp, error) {
 
 	//VPrintf("decodeHelper() at depth %d, decoded type is %T\n", depth, r)
 	switch val := r.(type) {
 	case string:
 		//VPrintf("depth %d found string case: val = %#v\n", depth, val)
 		if preferSym {
-			return env.MakeSymbol(val)
+			return env.MakeSymbol(val), nil
 		}
-		return &SexpStr{S: val}
+		return &SexpStr{S: val}, nil
 
 	case int:
 		//VPrintf("depth %d found int case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}
+		return &SexpInt{Val: int64(val)}, nil
 
 	case int32:
 		//VPrintf("depth %d found int32 case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}
+		return &SexpInt{Val: int64(val)}, nil
 
 	case int64:
 		//VPrintf("depth %d found int64 case: val = %#v\n", depth, val)
-		return &SexpInt{Val: val}
+		return &SexpInt{Val: val}, nil
+
+	case uint64:
+		if val > math.MaxInt64 {
+			return &SexpUint64{Val: val}, nil
+		}
+		return &SexpInt{Val: int64(val)}, nil
 
 	case float64:
 		//VPrintf("depth %d found float64 case: val = %#v\n", depth, val)
-		return &SexpFloat{Val: val}
+		return &SexpFloat{Val: val}, nil
 
 	case []interface{}:
 		//VPrintf("depth %d found []interface{} case: val = %#v\n", depth, val)
 
 		slice := []Sexp{}
 		for i := range val {
-			slice = append(slice, decodeGoToSexpHelper(val[i], depth+1, env, preferSym))
+			ele, err := decodeGoToSexpHelper(val[i], depth+1, env, preferSym)
+			if err != nil {
+				return SexpNull, err
+			}
+			slice = append(slice, ele)
 		}
-		return &SexpArray{Val: slice, Env: env}
+		return &SexpArray{Val: slice, Env: env}, nil
 
 	case map[string]interface{}:
 
@@ -325,7 +471,11 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 			//VPrintf("\n i=%d sortedMapVal type %T, value=%v\n", i, sortedMapVal[i], sortedMapVal[i])
 			//VPrintf("\n i=%d sortedMapKey type %T, value=%v\n", i, sortedMapKey[i], sortedMapKey[i])
 			if sortedMapKey[i] == "zKeyOrder" {
-				keyOrd = decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, true)
+				var err error
+				keyOrd, err = decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, true)
+				if err != nil {
+					return SexpNull, err
+				}
 				foundzKeyOrder = true
 			} else if sortedMapKey[i] == "Atype" {
 				tn, isString := sortedMapVal[i].(string)
@@ -335,34 +485,41 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 			} else {
 				sym := env.MakeSymbol(sortedMapKey[i])
 				pairs = append(pairs, sym)
-				ele := decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, preferSym)
+				ele, err := decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, preferSym)
+				if err != nil {
+					return SexpNull, err
+				}
 				pairs = append(pairs, ele)
 			}
 		}
 		hash, err := MakeHash(pairs, typeName, env)
+		if err != nil {
+			return SexpNull, err
+		}
 		if foundzKeyOrder {
 			err = SetHashKeyOrder(hash, keyOrd)
-			panicOn(err)
+			if err != nil {
+				return SexpNull, err
+			}
 		}
-		panicOn(err)
-		return hash
+		return hash, nil
 
 	case []byte:
 		//VPrintf("depth %d found []byte case: val = %#v\n", depth, val)
 
-		return &SexpRaw{Val: val}
+		return &SexpRaw{Val: val}, nil
 
 	case nil:
-		return SexpNull
+		return SexpNull, nil
 
 	case bool:
-		return &SexpBool{Val: val}
+		return &SexpBool{Val: val}, nil
 
 	case *SexpReflect:
 		return decodeGoToSexpHelper(val.Val.Interface(), depth+1, env, preferSym)
 
 	case time.Time:
-		return &SexpTime{Tm: val}
+		return &SexpTime{Tm: val}, nil
 
 	default:
 		// do we have a struct for it?
@@ -373,10 +530,8 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 		} else {
 			fmt.Printf("TODO: known struct '%s' in GoToSexp(), val = %#v.  type = %T. TODO: make a record for it.\n", nm, val, val)
 		}
-		return SexpNull
+		return SexpNull, nil
 	}
-
-	return s
 }
 
 //msgp:ignore mapsorter KiSlice
-- 
2.43.0


From 9ad78d70bb74a081581c49d7956b7673b47a5fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 05/58] fix: JSON encoder writes small floats with an exponent,
 as the decoder misreads long fractions

---
 zygo/jsonmsgp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index ef46351..83b4c5f 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -171,7 +171,7 @@ func (w *jsonWriter) write(exp Sexp) error {
 			return fmt.Errorf("json error: cannot represent %v", e.Val)
 		}
 		format := byte('f')
-		if math.Abs(e.Val) >= 1e15 {
+		if abs := math.Abs(e.Val); abs != 0 && (abs < 1e-6 || abs >= 1e15) {
 			format = 'e'
 		}
 		w.out.WriteString(strconv.FormatFloat(e.Val, format, -1, 64))
-- 
2.43.0


From 2720a9271a22d34af1c1a8515177da8180961bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 06/58] fix: gensym skips names that are already interned

---
 zygo/environment.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 9df4bb6..e1a0e99 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -266,8 +266,13 @@ func (env *Zlisp) MakeSymbol(name string) *SexpSymbol {
 }
 
 func (env *Zlisp) GenSymbol(prefix string) *SexpSymbol {
-	symname := prefix + strconv.Itoa(env.nextsymbol)
-	return env.MakeSymbol(symname)
+	for {
+		symname := prefix + strconv.Itoa(env.nextsymbol)
+		if _, taken := env.symtable[symname]; !taken {
+			return env.MakeSymbol(symname)
+		}
+		env.nextsymbol++
+	}
 }
 
 func (env *Zlisp) CurrentFunctionSize() int {
-- 
2.43.0


From 1c6399c1dd986dcf9d579b7a3481157451ae565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 07/58] fix: reader state is explicit: Reset clears it, text
 end ends the last token, unfinished input asks for more

The lexer kept its buffer and state across Reset, and the parser lost
the last token of a piece, so what a text read as depended on earlier
texts and on how it was cut into pieces.
---
 zygo/lexer.go  | 118 ++++++++++-
 zygo/parser.go | 543 ++++++++++++++++++++++---------------------------
 2 files changed, 350 insertions(+), 311 deletions(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 58419cd..236a349 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -128,6 +128,8 @@ const (
 	LexerBuiltinOperator
 	LexerRuneLit
 	LexerRuneEscaped
+	LexerHexEscape // inside the digits of \x, \u or \U
+	LexerMinusDot  // saw "-." where a signed number may start
 )
 
 type Lexer struct {
@@ -146,6 +148,12 @@ type Lexer struct {
 
 	priori    int
 	priorRune [20]rune
+
+	// the \x, \u or \U escape being read
+	hexKind   rune
+	hexDigits int
+	hexVal    rune
+	hexReturn LexerState
 }
 
 func (lexer *Lexer) AppendToken(tok Token) {
@@ -194,12 +202,30 @@ func (lexer *Lexer) Linenum() int {
 }
 
 func (lex *Lexer) Reset() {
-	lex.stream = nil
-	lex.tokens = lex.tokens[:0]
-	lex.state = LexerNormal
-	lex.linenum = 1
-	lex.preBuiltinRune = 0
-	lex.buffer.Reset()
+	*lex = *NewLexer(lex.parser)
+}
+
+// atEnd returns a copy of the lexer that sees the text end here.
+func (lex *Lexer) atEnd(p *Parser, prefix []Token) *Lexer {
+	cp := *lex
+	cp.parser = p
+	cp.tokens = append(append([]Token{}, prefix...), lex.tokens...)
+	cp.buffer = bytes.NewBuffer(append([]byte{}, lex.buffer.Bytes()...))
+	// the end of the text terminates the last token just like a newline.
+	cp.stream = bytes.NewBufferString("\n")
+	cp.next = nil
+	return &cp
+}
+
+// unfinished reports whether the text so far ends within a literal.
+func (lex *Lexer) unfinished() bool {
+	switch lex.state {
+	case LexerStrLit, LexerStrEscaped, LexerBacktickString, LexerRuneLit,
+		LexerRuneEscaped, LexerHexEscape, LexerUnquote,
+		LexerCommentBlock, LexerCommentBlockAsterisk:
+		return true
+	}
+	return false
 }
 
 func (lex *Lexer) EmptyToken() Token {
@@ -216,7 +242,7 @@ func (lex *Lexer) Token(typ TokenType, str string) Token {
 
 var (
 	BoolRegex    = regexp.MustCompile("^(true|false)$")
-	Uint64Regex  = regexp.MustCompile("^(0x|0o)?[0-9a-fA-F]+ULL$")
+	Uint64Regex  = regexp.MustCompile("^(0x[0-9a-fA-F]+|0o[0-7]+|[0-9]+)ULL$")
 	DecimalRegex = regexp.MustCompile("^-?[0-9][_0-9]*$") // allow underscores now, like go1.13
 	HexRegex     = regexp.MustCompile("^0x[0-9a-fA-F]+$")
 	OctRegex     = regexp.MustCompile("^0o[0-7]+$")
@@ -285,6 +311,12 @@ func EscapeChar(char rune) (rune, error) {
 		return '\'', nil
 	case '#':
 		return '#', nil
+	case 'b':
+		return '\b', nil
+	case 'f':
+		return '\f', nil
+	case 'v':
+		return '\v', nil
 	}
 	return ' ', errors.New("invalid escape sequence")
 }
@@ -543,6 +575,9 @@ top:
 		return nil
 
 	case LexerStrEscaped:
+		if lexer.beginHexEscape(r, LexerStrLit) {
+			return nil
+		}
 		char, err := EscapeChar(r)
 		if err != nil {
 			return err
@@ -559,7 +594,10 @@ top:
 		if r == '\'' {
 			// closing single quote
 			lexer.buffer.WriteRune(r)
-			lexer.dumpBuffer()
+			err := lexer.dumpBuffer()
+			if err != nil {
+				return err
+			}
 			lexer.state = LexerNormal
 			return nil
 		}
@@ -567,6 +605,9 @@ top:
 		return nil
 
 	case LexerRuneEscaped:
+		if lexer.beginHexEscape(r, LexerRuneLit) {
+			return nil
+		}
 		char, err := EscapeChar(r)
 		if err != nil {
 			return err
@@ -580,10 +621,47 @@ top:
 			lexer.AppendToken(lexer.Token(TokenTildeAt, ""))
 		} else {
 			lexer.AppendToken(lexer.Token(TokenTilde, ""))
-			lexer.buffer.WriteRune(r)
+			lexer.state = LexerNormal
+			goto top // process the rune r in Normal mode
 		}
 		lexer.state = LexerNormal
 		return nil
+
+	case LexerHexEscape:
+		digit, err := strconv.ParseUint(string(r), 16, 8)
+		if err != nil {
+			return errors.New("invalid escape sequence")
+		}
+		lexer.hexVal = lexer.hexVal<<4 | rune(digit)
+		lexer.hexDigits--
+		if lexer.hexDigits > 0 {
+			return nil
+		}
+		lexer.state = lexer.hexReturn
+		if lexer.hexKind == 'x' && lexer.hexReturn == LexerStrLit {
+			return lexer.buffer.WriteByte(byte(lexer.hexVal))
+		}
+		if !utf8.ValidRune(lexer.hexVal) {
+			return errors.New("invalid escape sequence")
+		}
+		_, err = lexer.buffer.WriteRune(lexer.hexVal)
+		return err
+
+	case LexerMinusDot:
+		lexer.state = LexerNormal
+		if r >= '0' && r <= '9' {
+			_, err := lexer.buffer.WriteString("-.")
+			if err != nil {
+				return err
+			}
+			goto writeRuneToBuffer
+		}
+		lexer.AppendToken(lexer.Token(TokenSymbol, "-"))
+		_, err := lexer.buffer.WriteRune('.')
+		if err != nil {
+			return err
+		}
+		goto top
 	case LexerFreshAssignOrColon:
 		lexer.state = LexerNormal
 
@@ -640,6 +718,9 @@ top:
 					return err
 				}
 				return nil
+			} else if r == '.' {
+				lexer.state = LexerMinusDot
+				return nil
 			} else {
 				//Q("atom was not matched by FloatRegex: '%s'", atom)
 			}
@@ -820,6 +901,25 @@ writeRuneToBuffer:
 	return nil
 }
 
+// beginHexEscape starts a \xHH, \uHHHH or \UHHHHHHHH escape.
+func (lexer *Lexer) beginHexEscape(kind rune, returnTo LexerState) bool {
+	switch kind {
+	case 'x':
+		lexer.hexDigits = 2
+	case 'u':
+		lexer.hexDigits = 4
+	case 'U':
+		lexer.hexDigits = 8
+	default:
+		return false
+	}
+	lexer.hexKind = kind
+	lexer.hexVal = 0
+	lexer.hexReturn = returnTo
+	lexer.state = LexerHexEscape
+	return true
+}
+
 // extra should be 0 for 1 token lookahead;
 // extra can be 1 to load at least 2 tokens.
 func (lexer *Lexer) PeekNextToken(extra int) (tok Token, err error) {
diff --git a/zygo/parser.go b/zygo/parser.go
index b0b590d..13525ca 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -27,8 +27,16 @@ type Parser struct {
 
 	inBacktick bool
 	recur      int64
+
+	open   int     // brackets, raw strings and block comments not closed yet
+	prefix []Token // tokens of a top-level expression read so far, while open is 0
+	atEnd  bool    // there will be no more input
+	ended  bool    // the iterator has no more replies
 }
 
+// expressions nested deeper than this are refused.
+const maxParseNesting = 20000
+
 type ParserReply struct {
 	Expr []Sexp
 	Err  error
@@ -103,122 +111,136 @@ func (p *Parser) getRecur() int64 {
 	return p.recur
 }
 
-func (parser *Parser) ParseList(depth int, endTokenTyp TokenType) (sx Sexp, err error) {
-	parser.recur++
-	defer func() { parser.recur-- }()
-
-	lexer := parser.lexer
-	var tok Token
+// moreInput pauses until there is more input.
+func (p *Parser) moreInput() error {
+	if p.atEnd {
+		return ErrMoreInputNeeded
+	}
+	var reply *ParserReply
+	if p.open == 0 {
+		reply = p.textSoFar()
+	} else {
+		reply = &ParserReply{Expr: p.sendMe.Expr, Err: ErrMoreInputNeeded}
+	}
+	if !p.yield(reply) {
+		return ParserHaltRequested
+	}
+	return nil
+}
 
-tokFilled:
+// textSoFar is what the text means if it ends here. The lexer keeps its
+// state, as the last token may continue in the next piece of input.
+func (p *Parser) textSoFar() *ParserReply {
+	reply := &ParserReply{Expr: p.sendMe.Expr}
+	if p.lexer.unfinished() {
+		reply.Err = ErrMoreInputNeeded
+		return reply
+	}
+	last := &Parser{env: p.env, sendMe: &ParserReply{}, atEnd: true}
+	last.lexer = p.lexer.atEnd(last, p.prefix)
 	for {
-		tok, err = lexer.PeekNextToken(0)
-		//Q("\n ParseList(depth=%d) got lexer.PeekNextToken() -> tok='%v' err='%v'\n", depth, tok, err)
+		expr, err := last.ParseExpression(0)
 		if err != nil {
-			return SexpNull, err
+			reply.Err = err
+			return reply
 		}
-		if tok.typ != TokenEnd {
-			break tokFilled
-		}
-		// instead of returning UnexpectedEnd, we:
-		parser.sendMe.Err = ErrMoreInputNeeded
-		ok := parser.yield(parser.sendMe)
-		if !ok {
-			return SexpEnd, nil
+		if expr == SexpEnd {
+			return reply
 		}
-		//Q("\n ParseList(depth=%d) got back from parser.GetMoreInput(): '%v'\n", depth, err)
-
-		// have to still fill tok, so
-		// loop to the top to PeekNextToken
+		reply.Expr = append(reply.Expr[:len(reply.Expr):len(reply.Expr)], expr)
 	}
+}
 
-	// allow TokenRCurly to end a list too, for the JSON {} style hashes.
-	if tok.typ == endTokenTyp {
-		_, _ = lexer.GetNextToken()
-		return SexpNull, nil
+// parseOperand reads the expression that a prefix token applies to.
+func (parser *Parser) parseOperand(depth int, prefix Token) (Sexp, error) {
+	if parser.open == 0 {
+		parser.prefix = append(parser.prefix, prefix)
 	}
-
-	var start = &SexpPair{}
-
-	expr, err := parser.ParseExpression(depth + 1)
+	_, err := parser.ParserPeekNextToken(0)
 	if err != nil {
 		return SexpNull, err
 	}
+	return parser.ParseExpression(depth + 1)
+}
 
-	start.Head = expr
+// ParseList parses up to and including the end token.
+func (parser *Parser) ParseList(depth int, endTokenTyp TokenType) (sx Sexp, err error) {
+	parser.recur++
+	parser.open++
+	defer func() { parser.recur--; parser.open-- }()
 
-	tok, err = lexer.PeekNextToken(0)
-	if err != nil {
-		return SexpNull, err
-	}
+	lexer := parser.lexer
+	var first, last *SexpPair
 
-	// backslash '\' replaces dot '.'
-	if tok.typ == TokenBackslash {
-		// eat up the backslash
-		_, _ = lexer.GetNextToken()
-		expr, err = parser.ParseExpression(depth + 1)
+	for {
+		tok, err := parser.ParserPeekNextToken(0)
 		if err != nil {
 			return SexpNull, err
 		}
 
-		// eat up the end paren
-		tok, err = lexer.GetNextToken()
+		// allow TokenRCurly to end a list too, for the JSON {} style hashes.
+		if tok.typ == endTokenTyp {
+			_, _ = lexer.GetNextToken()
+			if first == nil {
+				return SexpNull, nil
+			}
+			return first, nil
+		}
+
+		// backslash '\' replaces dot '.'
+		if tok.typ == TokenBackslash && last != nil {
+			// eat up the backslash
+			_, _ = lexer.GetNextToken()
+			last.Tail, err = parser.parseOperand(depth, tok)
+			if err != nil {
+				return SexpNull, err
+			}
+
+			// eat up the end paren
+			tok, err = parser.ParserPeekNextToken(0)
+			if err != nil {
+				return SexpNull, err
+			}
+			_, _ = lexer.GetNextToken()
+			// make sure it was actually an end paren
+			if tok.typ != TokenRParen {
+				return SexpNull, errors.New("extra value in dotted pair")
+			}
+			return first, nil
+		}
+
+		expr, err := parser.ParseExpression(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
-		// make sure it was actually an end paren
-		if tok.typ != TokenRParen {
-			return SexpNull, errors.New("extra value in dotted pair")
+		pair := &SexpPair{Head: expr, Tail: SexpNull}
+		if last == nil {
+			first = pair
+		} else {
+			last.Tail = pair
 		}
-		start.Tail = expr
-		return start, nil
+		last = pair
 	}
-
-	expr, err = parser.ParseList(depth+1, endTokenTyp)
-	if err != nil {
-		return start, err
-	}
-	start.Tail = expr
-
-	return start, nil
 }
 
 func (parser *Parser) ParseArray(depth int) (Sexp, error) {
 	parser.recur++
-	defer func() { parser.recur-- }()
+	parser.open++
+	defer func() { parser.recur--; parser.open-- }()
 
 	lexer := parser.lexer
 	arr := make([]Sexp, 0, SliceDefaultCap)
 
-	var tok Token
-	var err error
 	for {
-	getTok:
-		for {
-			tok, err = lexer.PeekNextToken(0)
-			if err != nil {
-				return SexpEnd, err
-			}
-
-			if tok.typ == TokenComma {
-				// pop off the ,
-				_, _ = lexer.GetNextToken()
-				continue getTok
-			}
-
-			if tok.typ != TokenEnd {
-				break getTok
-			} else {
-				//instead of return SexpEnd, UnexpectedEnd
-				// we ask for more, and then loop
-				parser.sendMe.Err = ErrMoreInputNeeded
-				ok := parser.yield(parser.sendMe)
-				if !ok {
-					return SexpEnd, nil
-				}
-			}
+		tok, err := parser.ParserPeekNextToken(0)
+		if err != nil {
+			return SexpEnd, err
+		}
+		if tok.typ == TokenComma {
+			// pop off the ,
+			_, _ = lexer.GetNextToken()
+			continue
 		}
-
 		if tok.typ == TokenRSquare {
 			// pop off the ]
 			_, _ = lexer.GetNextToken()
@@ -235,9 +257,78 @@ func (parser *Parser) ParseArray(depth int) (Sexp, error) {
 	return &SexpArray{Val: arr, Env: parser.env}, nil
 }
 
+// parseCurly parses what follows a '{'. We allow `{ symbol: ` to initiate
+// a `(hash symbol:` so we can parse JSON type {} hashmaps.
+func (parser *Parser) parseCurly(depth int) (Sexp, error) {
+	parser.open++
+	defer func() { parser.open-- }()
+	lexer := parser.lexer
+
+	// skip past comments
+	at := 0
+	var tok Token
+	for {
+		_, err := parser.ParserPeekNextToken(at)
+		if err != nil {
+			return SexpNull, err
+		}
+		tok = lexer.tokens[at]
+		at++
+		if tok.typ != TokenComment && tok.typ != TokenBeginBlockComment &&
+			tok.typ != TokenEndBlockComment {
+			break
+		}
+	}
+
+	isHash := false
+	switch tok.typ {
+	case TokenSymbolColon:
+		// but not `{ label: for ...`
+		_, err := parser.ParserPeekNextToken(at)
+		if err != nil {
+			return SexpNull, err
+		}
+		second := lexer.tokens[at]
+		isHash = !(second.typ == TokenSymbol && second.str == "for")
+
+	case TokenRCurly:
+		for ; at > 0; at-- {
+			_, _ = lexer.GetNextToken() // dicard '}' and the comments before it
+		}
+		return MakeHash(nil, "hash", parser.env) // return empty hash
+
+	case TokenString:
+		// peek ahead past the string to see if we have ':' TokenColonOperator
+		// i.e. are we { "name": value }, as in JSON?
+		_, err := parser.ParserPeekNextToken(at)
+		if err != nil {
+			return SexpNull, err
+		}
+		isHash = lexer.tokens[at].typ == TokenColonOperator
+
+	case TokenBeginBacktickString:
+		// are we { `name`: value }, as in JSON but with backtick quoted string this time?
+		_, err := parser.ParserPeekNextToken(at + 1)
+		if err != nil {
+			return SexpNull, err
+		}
+		isHash = lexer.tokens[at].typ == TokenBacktickString &&
+			lexer.tokens[at+1].typ == TokenColonOperator
+	}
+
+	if isHash {
+		lexer.PrependToken(Token{typ: TokenSymbol, str: "hash"})
+		return parser.ParseList(depth+1, TokenRCurly)
+	}
+	return parser.ParseInfix(depth + 1)
+}
+
 func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	parser.recur++
 	defer func() { parser.recur-- }()
+	if parser.recur > maxParseNesting {
+		return SexpNull, errors.New("expression nested too deeply")
+	}
 
 	// defer func() {
 	// 	if res != nil {
@@ -264,118 +355,28 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		exp, err := parser.ParseArray(depth + 1)
 		return exp, err
 	case TokenLCurly:
-		// allow `{ symbol: ` to initiate a `(hash symbol:` so we can parse JSON type {} hashmaps.
-		tok2, err := parser.ParserPeekNextToken(0)
-		if err != nil {
-			return SexpNull, err
-		}
-
-		extra := 1
-		// skip past comments
-		for tok2.typ == TokenBeginBlockComment || tok2.typ == TokenComment {
-			if tok2.typ == TokenBeginBlockComment {
-				_, err = parser.ParserPeekNextToken(extra + 2)
-				if err != nil {
-					return SexpNull, err
-				}
-				// to discern the pattern:
-				//tok2 = lexer.tokens[extra]    // TokenComment
-				//tok3 := lexer.tokens[extra+1] // TokenEndBlockComment
-				//vv("tok2 = '%v' / '%#v' (extra=%v)", tok2.String(), tok2, extra)
-				//vv("tok3 = '%v' / '%#v'", tok3.String(), tok3)
-
-				tok2 = lexer.tokens[extra+2]
-				extra += 3
-			}
-			if tok2.typ == TokenComment {
-				_, err = parser.ParserPeekNextToken(extra)
-				if err != nil {
-					return SexpNull, err
-				}
-				//vv("tok2 = '%v' / '%#v'", tok2.String(), tok2)
-				tok2 = lexer.tokens[extra]
-				extra++
-			}
-		}
-
-		switch tok2.typ {
-		case TokenSymbolColon:
-			_, err = parser.ParserPeekNextToken(extra)
-			if err != nil {
-				return SexpNull, err
-			}
-			second := lexer.tokens[extra]
-			if second.typ == TokenSymbol && second.str == "for" {
-				break
-			}
-			//vv("saw TokenLCurly followed by TokenSymbolColon, tok2 = '%v', typ='%v'", tok2.String(), tok2.typ)
-			lexer.tokens = append([]Token{Token{typ: TokenSymbol, str: "hash"}}, lexer.tokens...)
-			exp, err := parser.ParseList(depth+1, TokenRCurly)
-			if err != nil {
-				return SexpNull, err
-			}
-			return exp, err
-		case TokenRCurly:
-			_, _ = lexer.GetNextToken()       // dicard '}'
-			return MakeHash(nil, "hash", env) // return empty hash
-		case TokenString:
-			// peek ahead past the string to see if we have ':' TokenColonOperator
-			_, _ = parser.ParserPeekNextToken(extra)
-
-			// are we { "name": value }, as in JSON?
-			second := lexer.tokens[extra]
-			if second.typ == TokenColonOperator {
-				//vv(`we see { "%v" : `, tok2.str)
-				lexer.tokens = append([]Token{Token{typ: TokenSymbol, str: "hash"}}, lexer.tokens...)
-				exp, err := parser.ParseList(depth+1, TokenRCurly)
-				if err != nil {
-					return SexpNull, err
-				}
-				return exp, err
-			}
-
-		case TokenBeginBacktickString:
-			// peek ahead past the string to see if we have ':' TokenColonOperator
-			_, _ = parser.ParserPeekNextToken(extra + 1)
-
-			// are we { `name`: value }, as in JSON but with backtick quoted string this time?
-			second := lexer.tokens[extra]
-			third := lexer.tokens[extra+1]
-
-			// if second is the keyname and third is ':', then create anonymous hash, like JSON.
-			if second.typ == TokenBacktickString && third.typ == TokenColonOperator {
-				lexer.tokens = append([]Token{Token{typ: TokenSymbol, str: "hash"}}, lexer.tokens...)
-				exp, err := parser.ParseList(depth+1, TokenRCurly)
-				if err != nil {
-					return SexpNull, err
-				}
-				return exp, err
-			}
-		}
-
-		exp, err := parser.ParseInfix(depth + 1)
-		return exp, err
+		return parser.parseCurly(depth)
 	case TokenQuote:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseOperand(depth, tok)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("quote"), expr}), nil
 	case TokenCaret:
 		// '^' is now our syntax-quote symbol, not TokenBacktick, to allow go-style `string literals`.
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseOperand(depth, tok)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("syntaxQuote"), expr}), nil
 	case TokenTilde:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseOperand(depth, tok)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("unquote"), expr}), nil
 	case TokenTildeAt:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseOperand(depth, tok)
 		if err != nil {
 			return SexpNull, err
 		}
@@ -437,7 +438,10 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		}
 		return &SexpInt{Val: i}, nil
 	case TokenChar:
-		return &SexpChar{Val: rune(tok.str[0])}, nil
+		for _, r := range tok.str {
+			return &SexpChar{Val: r}, nil
+		}
+		return SexpNull, errors.New("empty char literal")
 	case TokenString:
 		return &SexpStr{S: tok.str}, nil
 	case TokenBeginBacktickString:
@@ -451,7 +455,7 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		if tok.str == "NaN" {
 			f = NaN
 		} else {
-			f, err = strconv.ParseFloat(tok.str, SexpFloatSize)
+			f, err = strconv.ParseFloat(strings.ReplaceAll(tok.str, "_", ""), SexpFloatSize)
 			if err != nil {
 				return SexpNull, err
 			}
@@ -467,7 +471,13 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	case TokenSymbol:
 		if tok.str == "-" || tok.str == "+" {
 			// are we -Inf ?
+			if parser.open == 0 {
+				parser.prefix = append(parser.prefix, tok)
+			}
 			tok2, err := parser.ParserPeekNextToken(0)
+			if err == ErrMoreInputNeeded && parser.open == 0 {
+				return env.MakeSymbol(tok.str), nil // the text ends here
+			}
 			if err != nil {
 				return SexpEnd, err
 			}
@@ -527,33 +537,20 @@ func (p *Parser) ParseTokens() (sx []Sexp, err error) {
 		p.next, p.stop = iter.Pull(p.ParsingIter())
 	}
 
-	var reply *ParserReply
-	ok := true
-	for ok {
-		reply, ok = p.next()
-		if !ok {
-			// must start again
-			p.next = nil
-			p.stop()
-			p.stop = nil
-		}
-
-		if reply != nil {
-			err = reply.Err
-			for _, x := range reply.Expr {
-				if x != SexpEnd {
-					sx = append(sx, x)
-				}
-			}
-			if err != nil {
-				return
-			}
-		}
+	reply, ok := p.next()
+	if !ok || p.ended {
+		// must start again
+		p.Stop()
+	}
+	if reply != nil {
+		sx = append(sx, reply.Expr...)
+		err = reply.Err
 	}
-
 	return
 }
 
+// ParsingIter yields all expressions read so far each time the input
+// runs out, and when it cannot go on.
 func (p *Parser) ParsingIter() iter.Seq[*ParserReply] {
 
 	return func(yield func(reply *ParserReply) bool) {
@@ -562,15 +559,24 @@ func (p *Parser) ParsingIter() iter.Seq[*ParserReply] {
 		// down the stack (half way through a parse)
 		// and we need more input.
 		p.yield = yield
+		p.open = 0
+		p.recur = 0
+		p.ended = false
 
-		var expr Sexp
-		var err error
 		const depth0 int = 0
 		for {
-			expr, err = p.ParseExpression(depth0)
-			if err != nil || expr == SexpEnd {
-				p.sendMe.Err = err
-				yield(p.sendMe)
+			p.prefix = p.prefix[:0]
+			expr, err := p.ParseExpression(depth0)
+			switch {
+			case err == ParserHaltRequested:
+				return
+			case err != nil:
+				p.ended = true
+				yield(&ParserReply{Expr: p.sendMe.Expr, Err: err})
+				return
+			case expr == SexpEnd:
+				p.ended = true
+				yield(p.textSoFar())
 				return
 			}
 			p.sendMe.Expr = append(p.sendMe.Expr, expr)
@@ -582,43 +588,19 @@ func (p *Parser) ParsingIter() iter.Seq[*ParserReply] {
 var ErrShuttingDown error = fmt.Errorf("lexer shutting down")
 
 func (parser *Parser) ParseBlockComment(start *Token) (sx Sexp, err error) {
-	defer func() {
-		if sx != nil {
-			//Q("returning from ParseBlockComment with sx ='%v', err='%v'",
-			//	sx.SexpString(), err)
-		}
-	}()
+	parser.open++
+	defer func() { parser.open-- }()
+
 	lexer := parser.lexer
-	var tok Token
 	var block = &SexpComment{Block: true, Comment: start.str}
 
 	for {
-	tokFilled:
-		for {
-			tok, err = lexer.PeekNextToken(0)
-			if err != nil {
-				return SexpNull, err
-			}
-			if tok.typ != TokenEnd {
-				break tokFilled
-			}
-			parser.sendMe.Err = ErrMoreInputNeeded
-			ok := parser.yield(parser.sendMe)
-			if !ok {
-				return SexpEnd, nil
-			}
-			// have to still fill tok, so
-			// loop to the top to PeekNextToken
-		}
-
-		// consume it
-
-		//cons, err := lexer.GetNextToken()
-		_, err := lexer.GetNextToken()
+		tok, err := parser.ParserPeekNextToken(0)
 		if err != nil {
-			return nil, err
+			return SexpNull, err
 		}
-		//Q("parse block comment is consuming '%v'", cons)
+		// consume it
+		_, _ = lexer.GetNextToken()
 
 		switch tok.typ {
 		case TokenEndBlockComment:
@@ -627,79 +609,39 @@ func (parser *Parser) ParseBlockComment(start *Token) (sx Sexp, err error) {
 		case TokenComment:
 			block.Comment += tok.str
 		default:
-			panic("internal error: inside a block comment, we should only see TokenComment and TokenEndBlockComment tokens")
+			return SexpNull, fmt.Errorf("internal error: inside a block comment, we should only see TokenComment and TokenEndBlockComment tokens")
 		}
 	}
-	//return block, nil
 }
 
 func (parser *Parser) ParseBacktickString(start *Token) (sx Sexp, err error) {
-	lexer := parser.lexer
-	var tok Token
+	parser.open++
+	defer func() { parser.open-- }()
 
-	for {
-	tokFilled:
-		for {
-			tok, err = lexer.PeekNextToken(0)
-			if err != nil {
-				return SexpNull, err
-			}
-			if tok.typ != TokenEnd {
-				break tokFilled
-			}
-			parser.sendMe.Err = ErrMoreInputNeeded
-			ok := parser.yield(parser.sendMe)
-			if !ok {
-				return SexpEnd, nil
-			}
-			// have to still fill tok, so
-			// loop to the top to PeekNextToken
-		}
-
-		// consume it
-		_, err := lexer.GetNextToken()
-		if err != nil {
-			return nil, err
-		}
-
-		switch tok.typ {
-		case TokenBacktickString:
-			return &SexpStr{S: tok.str, backtick: true}, nil
-		default:
-			panic("internal error: inside a backtick string, we should only see TokenBacktickString token")
-		}
+	tok, err := parser.ParserPeekNextToken(0)
+	if err != nil {
+		return SexpNull, err
+	}
+	// consume it
+	_, _ = parser.lexer.GetNextToken()
+	if tok.typ != TokenBacktickString {
+		return SexpNull, fmt.Errorf("internal error: inside a backtick string, we should only see TokenBacktickString token")
 	}
+	return &SexpStr{S: tok.str, backtick: true}, nil
 }
 
 func (parser *Parser) ParseInfix(depth int) (Sexp, error) {
 	parser.recur++
-	defer func() { parser.recur-- }()
+	parser.open++
+	defer func() { parser.recur--; parser.open-- }()
 
 	lexer := parser.lexer
 	arr := make([]Sexp, 0, SliceDefaultCap)
-	var err error
-	var tok Token
 	for {
-	getTok:
-		for {
-			tok, err = lexer.PeekNextToken(0)
-			if err != nil {
-				return SexpEnd, err
-			}
-
-			if tok.typ != TokenEnd {
-				break getTok
-			} else {
-				//instead of return SexpEnd, UnexpectedEnd
-				// we ask for more, and then loop
-				parser.sendMe.Err = ErrMoreInputNeeded
-				ok := parser.yield(parser.sendMe)
-				if !ok {
-					return SexpEnd, nil
-				}
-			}
+		tok, err := parser.ParserPeekNextToken(0)
+		if err != nil {
+			return SexpEnd, err
 		}
-
 		if tok.typ == TokenRCurly {
 			// pop off the }
 			_, _ = lexer.GetNextToken()
@@ -744,11 +686,8 @@ func (parser *Parser) ParserPeekNextToken(extra int) (tok Token, err error) {
 		} else {
 			//instead of return SexpEnd, UnexpectedEnd
 			// we ask for more, and then loop
-
-			parser.sendMe.Err = ErrMoreInputNeeded
-			ok := parser.yield(parser.sendMe)
-			if !ok {
-				err = ParserHaltRequested
+			err = parser.moreInput()
+			if err != nil {
 				return
 			}
 			// otherwise, loop
-- 
2.43.0


From dac62a258b94eea857cdb6ac576ff3fb9a27eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 08/58] fix: printed data reads back: floats stay floats,
 string keys are quoted, nil reads as nil, number keys start a hash

---
 zygo/expressions.go | 12 +++++++++++-
 zygo/hashutils.go   |  3 ++-
 zygo/parser.go      |  9 ++++++---
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index 48f3daa..6825f3d 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -2,6 +2,7 @@ package zygo
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -505,7 +506,16 @@ func (f *SexpFloat) SexpString(ps *PrintState) string {
 	if f.Scientific {
 		return strconv.FormatFloat(f.Val, 'e', -1, SexpFloatSize)
 	}
-	return strconv.FormatFloat(f.Val, 'f', -1, SexpFloatSize)
+	a := math.Abs(f.Val)
+	if !math.IsInf(a, 0) && (a >= 1e21 || (a > 0 && a < 1e-7)) {
+		return strconv.FormatFloat(f.Val, 'e', -1, SexpFloatSize)
+	}
+	s := strconv.FormatFloat(f.Val, 'f', -1, SexpFloatSize)
+	if a == math.Trunc(a) && !math.IsInf(a, 0) {
+		// keep it a float when it is read back.
+		s += ".0"
+	}
+	return s
 }
 
 func (c *SexpChar) SexpString(ps *PrintState) string {
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 54099ec..ec0a025 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -6,6 +6,7 @@ import (
 	"hash"
 	"hash/fnv"
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -924,7 +925,7 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 			onKey++
 			switch s := key.(type) {
 			case *SexpStr:
-				str += indInner + `"` + s.S + `":`
+				str += indInner + strconv.Quote(s.S) + ":"
 			case *SexpSymbol:
 				if asJSON {
 					str += indInner + `"` + s.name + `":`
diff --git a/zygo/parser.go b/zygo/parser.go
index 13525ca..f27fd69 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -297,9 +297,9 @@ func (parser *Parser) parseCurly(depth int) (Sexp, error) {
 		}
 		return MakeHash(nil, "hash", parser.env) // return empty hash
 
-	case TokenString:
-		// peek ahead past the string to see if we have ':' TokenColonOperator
-		// i.e. are we { "name": value }, as in JSON?
+	case TokenString, TokenDecimal, TokenChar:
+		// peek ahead past the key to see if we have ':' TokenColonOperator
+		// i.e. are we { "name": value }, as in JSON? or { 3: value }
 		_, err := parser.ParserPeekNextToken(at)
 		if err != nil {
 			return SexpNull, err
@@ -494,6 +494,9 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 				}
 			}
 		}
+		if tok.str == "nil" {
+			return SexpNull, nil
+		}
 		return env.MakeSymbol(tok.str), nil
 	case TokenSymbolColon:
 		sym := env.MakeSymbol(tok.str)
-- 
2.43.0


From f3639f06dd4d8278b9f5ab719222fb833f4b89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:20 +0000
Subject: [PATCH 09/58] fix: infix statements may start with not, a dotted
 path, nil or any literal

---
 zygo/pratt.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/zygo/pratt.go b/zygo/pratt.go
index 6cf00a1..7456bc6 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -3,6 +3,7 @@ package zygo
 import (
 	"fmt"
 	"io"
+	"strings"
 )
 
 // Pratt parsing. see http://javascript.crockford.com/tdop/tdop.html
@@ -1069,18 +1070,17 @@ func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 		return 0, nil
 	case *SexpSymbol:
 		op, found := env.infixOps[x.name]
-		if x.name == "if" {
-			// we don't want if to be doing any binding to the left,
-			// so we enforce that it has zero left-binding power. It
-			// gets a right-binding power of 5 since it is a prefix operator.
-			//Q("LeftBindingPower: found if, return 0 left-binding-power")
+		if found && op.MunchLeft == nil {
+			// we don't want prefix operators like if and not to be doing
+			// any binding to the left: they start a new expression.
 			return 0, nil
 		}
 		if found {
 			//Q("LeftBindingPower: found op '%#v', returning op.Bp = %v", op, op.Bp)
 			return op.Bp, nil
 		}
-		if x.isDot {
+		if x.isDot && strings.HasPrefix(x.name, ".") {
+			// .b continues a[0].b, while a.b starts a new expression.
 			//Q("LeftBindingPower: dot symbol '%v', "+
 			//	"giving it binding-power 80", x.name)
 			return 80, nil
@@ -1111,7 +1111,8 @@ func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 		return 0, nil
 	}
 
-	return 0, fmt.Errorf("LeftBindingPower: unhandled sx :%#v", sx)
+	// other literals: nil, chars, uint64...
+	return 0, nil
 }
 
 func (p *Pratt) ShowCnodeStack() {
-- 
2.43.0


From 812936638f9acc911232ca802eaf145368e274d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 10/58] fix: infix assignments through an index leave their
 value, doubled semicolons are skipped, hex and dotted slice bounds keep the
 colon

---
 zygo/generator.go |  3 ++-
 zygo/lexer.go     |  7 ++++++-
 zygo/pratt.go     | 12 ++++++++++++
 zygo/vm.go        | 16 ++++++++++++----
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index cf5f7e5..79361de 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -193,6 +193,8 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		return fmt.Errorf("Wrong number of arguments to %s", opname)
 	}
 	Q("GenerateDef call with args[0]=%v", args[0].SexpString(nil))
+	// neither the target nor the value is in tail position.
+	gen.Tail = false
 	dup := true
 	var instr Instruction
 	switch args[0].(type) {
@@ -220,7 +222,6 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		}
 	}
 
-	gen.Tail = false
 	err := gen.Generate(args[1])
 	if err != nil {
 		return err
diff --git a/zygo/lexer.go b/zygo/lexer.go
index 236a349..266f42c 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -278,7 +278,12 @@ func sliceBoundLiteralBeforeColon(atom string) bool {
 	if len(atom) > 1 && atom[0] == '-' {
 		return SliceBoundsRegex.MatchString(atom[1:])
 	}
-	return SliceBoundsRegex.MatchString(atom)
+	return SliceBoundsRegex.MatchString(atom) ||
+		HexRegex.MatchString(atom) ||
+		OctRegex.MatchString(atom) ||
+		BinaryRegex.MatchString(atom) ||
+		Uint64Regex.MatchString(atom) ||
+		DotSymbolRegex.MatchString(atom)
 }
 
 func StringToRunes(str string) []rune {
diff --git a/zygo/pratt.go b/zygo/pratt.go
index 7456bc6..ce770fd 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -756,6 +756,18 @@ func InfixExpandArray(env *Zlisp, arr *SexpArray) ([]Sexp, error) {
 	xs := []Sexp{}
 
 	for {
+		// semicolons only separate: skip every one before a statement, so that
+		// none is taken for the left operand of what follows.
+		for !pr.IsEOF() {
+			_, isSemi := pr.NextToken.(*SexpSemicolon)
+			if !isSemi {
+				break
+			}
+			pr.Advance()
+		}
+		if pr.IsEOF() {
+			break
+		}
 		x, ok, err := pr.LabeledFor(env)
 		if err != nil {
 			return nil, err
diff --git a/zygo/vm.go b/zygo/vm.go
index a81fc28..8762280 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -857,11 +857,16 @@ func (a AssignInstr) Execute(env *Zlisp) error {
 	}
 	switch x := lhs.(type) {
 	case *SexpSymbol:
-		return env.LexicalBindSymbol(x, rhs)
+		err = env.LexicalBindSymbol(x, rhs)
+		if err != nil {
+			return err
+		}
 	case Selector:
 		Q("AssignInstr: I see lhs is Selector")
 		err := x.AssignToSelection(env, rhs)
-		return err
+		if err != nil {
+			return err
+		}
 	case *SexpArray:
 		switch rhsArray := rhs.(type) {
 		case *SexpArray:
@@ -884,13 +889,16 @@ func (a AssignInstr) Execute(env *Zlisp) error {
 						" we found %T", i, x.Val[i])
 				}
 			}
-			return nil
 		default:
 			return fmt.Errorf("AssignInstr: don't know how to assign rhs %T `%v` to lhs %T `%v`",
 				rhs, rhs.SexpString(nil), lhs, lhs.SexpString(nil))
 		}
+	default:
+		return fmt.Errorf("AssignInstr: don't know how to assign to lhs %T", lhs)
 	}
-	return fmt.Errorf("AssignInstr: don't know how to assign to lhs %T", lhs)
+	// an assignment is an expression: its value is the value assigned.
+	env.datastack.PushExpr(rhs)
+	return nil
 }
 
 // PopScopeTransferToDataStackInstr is used to wrap up a package
-- 
2.43.0


From f43752e2b73c3e9427c3fc5a4ae1b88ef8f61221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:17 +0000
Subject: [PATCH 11/58] fix: a macro parameter binds the form it was given, a
 dotted name is not read

---
 zygo/func.go      |  2 +-
 zygo/generator.go | 21 ++++++++++++---------
 zygo/vm.go        | 10 +++++++---
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/zygo/func.go b/zygo/func.go
index 2462754..9af6c03 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -179,7 +179,7 @@ func FuncBuilder(env *Zlisp, name string,
 		DumpFunction(ZlispFunction(gen.instructions), -1)
 	}
 	for i := len(argsyms) - 1; i >= 0; i-- {
-		gen.AddInstruction(PopStackPutEnvInstr{argsyms[i]})
+		gen.AddInstruction(PopStackPutEnvInstr{sym: argsyms[i]})
 	}
 	err = gen.GenerateBegin(body)
 	if err != nil {
diff --git a/zygo/generator.go b/zygo/generator.go
index 79361de..0ad6702 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -86,7 +86,8 @@ func buildSexpFun(
 	funcargs *SexpArray,
 	funcbody []Sexp,
 	orig Sexp,
-	knownFunctions map[int]*SexpFunction) (*SexpFunction, error) {
+	knownFunctions map[int]*SexpFunction,
+	isMacro bool) (*SexpFunction, error) {
 
 	//defer func() { //VPrintf("exiting buildSexpFun()\n") }()
 
@@ -138,7 +139,9 @@ func buildSexpFun(
 		DumpFunction(ZlispFunction(gen.instructions), -1)
 	}
 	for i := len(argsyms) - 1; i >= 0; i-- {
-		gen.AddInstruction(PopStackPutEnvInstr{argsyms[i]})
+		// a macro receives the forms of its call: a dotted name among
+		// them is code, and is not to be read as a value.
+		gen.AddInstruction(PopStackPutEnvInstr{sym: argsyms[i], asForm: isMacro})
 	}
 	err := gen.GenerateBegin(funcbody)
 	if err != nil {
@@ -174,7 +177,7 @@ func (gen *Generator) GenerateFn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateFn() about to call buildSexpFun\n")
 	funcbody := args[1:]
-	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig, gen.knownFunctions, false)
 	if err != nil {
 		return err
 	}
@@ -213,7 +216,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		}
 		switch opname {
 		case "def":
-			instr = PopStackPutEnvInstr{lhs}
+			instr = PopStackPutEnvInstr{sym: lhs}
 		case "set":
 			Q("GenerateDef is doing set with UpdateInstr: lhs = '%s'", lhs.SexpString(nil))
 			instr = UpdateInstr{lhs}
@@ -269,7 +272,7 @@ func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateDefn() about to call buildSexpFun\n")
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions, false)
 	if err != nil {
 		return err
 	}
@@ -280,7 +283,7 @@ func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
 	}
 
 	gen.AddInstruction(CreateClosureInstr{sfun})
-	gen.AddInstruction(PopStackPutEnvInstr{sym})
+	gen.AddInstruction(PopStackPutEnvInstr{sym: sym})
 	gen.AddInstruction(PushInstr{SexpNull})
 
 	return nil
@@ -318,7 +321,7 @@ func (gen *Generator) GenerateDefmac(args []Sexp, orig Sexp) error {
 			sym.name, xpr.SexpString(nil))
 	}
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions, true)
 	if err != nil {
 		return err
 	}
@@ -499,7 +502,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 			if err != nil {
 				return err
 			}
-			gen.AddInstruction(PopStackPutEnvInstr{lstatements[i]})
+			gen.AddInstruction(PopStackPutEnvInstr{sym: lstatements[i]})
 		}
 	} else if name == "let" {
 		for _, rs := range rstatements {
@@ -509,7 +512,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 			}
 		}
 		for i := len(lstatements) - 1; i >= 0; i-- {
-			gen.AddInstruction(PopStackPutEnvInstr{lstatements[i]})
+			gen.AddInstruction(PopStackPutEnvInstr{sym: lstatements[i]})
 		}
 	}
 	err := gen.GenerateBegin(args[1:])
diff --git a/zygo/vm.go b/zygo/vm.go
index 8762280..1ef96aa 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -167,6 +167,8 @@ func (g EnvToStackInstr) Execute(env *Zlisp) error {
 
 type PopStackPutEnvInstr struct {
 	sym *SexpSymbol
+	// asForm binds the operand as it is, without reading selectors.
+	asForm bool
 }
 
 func (p PopStackPutEnvInstr) InstrString() string {
@@ -178,9 +180,11 @@ func (p PopStackPutEnvInstr) Execute(env *Zlisp) error {
 	if err != nil {
 		return err
 	}
-	expr, err = env.RValue(expr)
-	if err != nil {
-		return err
+	if !p.asForm {
+		expr, err = env.RValue(expr)
+		if err != nil {
+			return err
+		}
 	}
 	env.pc++
 	return env.LexicalBindSymbol(p.sym, expr)
-- 
2.43.0


From 34bcaa8638da6d8f9a54866cdf45e0268cdc8bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 12/58] fix: conditions, not, mod and the bit operators read an
 indexed or dotted operand

---
 zygo/functions.go | 22 ++++++++++++++++++----
 zygo/vm.go        |  4 ++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/zygo/functions.go b/zygo/functions.go
index 421bcbc..9fbaba5 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -62,6 +62,10 @@ func BinaryIntFunction(name string) ZlispUserFunction {
 		if len(args) != 2 {
 			return SexpNull, WrongNargs
 		}
+		args, err := env.SubstituteRHS(args)
+		if err != nil {
+			return SexpNull, err
+		}
 
 		var op IntegerOp
 		switch name {
@@ -84,6 +88,10 @@ func BitwiseFunction(name string) ZlispUserFunction {
 		if len(args) != 2 {
 			return SexpNull, WrongNargs
 		}
+		args, err := env.SubstituteRHS(args)
+		if err != nil {
+			return SexpNull, err
+		}
 
 		var op IntegerOp
 		switch name {
@@ -96,8 +104,6 @@ func BitwiseFunction(name string) ZlispUserFunction {
 		}
 
 		accum := args[0]
-		var err error
-
 		for _, expr := range args[1:] {
 			accum, err = IntegerDo(op, accum, expr)
 			if err != nil {
@@ -113,7 +119,11 @@ func ComplementFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 
-	switch t := args[0].(type) {
+	arg, err := env.RValue(args[0])
+	if err != nil {
+		return SexpNull, err
+	}
+	switch t := arg.(type) {
 	case *SexpInt:
 		return &SexpInt{Val: ^t.Val}, nil
 	case *SexpChar:
@@ -858,7 +868,11 @@ func NotFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 
-	result := &SexpBool{Val: !IsTruthy(args[0])}
+	arg, err := env.RValue(args[0])
+	if err != nil {
+		return SexpNull, err
+	}
+	result := &SexpBool{Val: !IsTruthy(arg)}
 	return result, nil
 }
 
diff --git a/zygo/vm.go b/zygo/vm.go
index 1ef96aa..70d3f50 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -66,6 +66,10 @@ func (b BranchInstr) Execute(env *Zlisp) error {
 	if err != nil {
 		return err
 	}
+	expr, err = env.RValue(expr)
+	if err != nil {
+		return err
+	}
 	if b.direction == IsTruthy(expr) {
 		return JumpInstr{addpc: b.location}.Execute(env)
 	}
-- 
2.43.0


From c8f1ad0a287a23ccda800fd48d8c33f375911d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:14 +0000
Subject: [PATCH 13/58] fix: the value of an assignment is the value assigned

---
 zygo/generator.go |  1 +
 zygo/vm.go        | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/zygo/generator.go b/zygo/generator.go
index 0ad6702..5781a41 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -233,6 +233,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 	// on the stack and becomes an expression rather
 	// than a statement.
 	if dup {
+		gen.AddInstruction(ReadInstr(0))
 		gen.AddInstruction(DupInstr(0))
 	}
 	gen.AddInstruction(instr)
diff --git a/zygo/vm.go b/zygo/vm.go
index 70d3f50..02143ba 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -139,6 +139,28 @@ func (d DupInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
+// ReadInstr replaces a selector on top of the data stack by the
+// value it selects now.
+type ReadInstr int
+
+func (r ReadInstr) InstrString() string {
+	return "read"
+}
+
+func (r ReadInstr) Execute(env *Zlisp) error {
+	expr, err := env.datastack.PopExpr()
+	if err != nil {
+		return err
+	}
+	expr, err = env.RValue(expr)
+	if err != nil {
+		return err
+	}
+	env.datastack.PushExpr(expr)
+	env.pc++
+	return nil
+}
+
 type EnvToStackInstr struct {
 	sym *SexpSymbol
 }
-- 
2.43.0


From 91b940772b9e3256184cbc4be3ae08ca1c92f640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 14/58] fix: names resolve through the scopes where the running
 function was made

A function scope now knows the closure it is an activation of, and lookup
follows the activation and then the captured scopes outward. It used to walk
the chain of functions that happened to be running when a closure was made,
and creating a closure printed everything reachable from it.
---
 zygo/closing.go     | 21 +++---------
 zygo/environment.go | 62 ++++++++++-----------------------
 zygo/expressions.go | 65 -----------------------------------
 zygo/func.go        |  7 +---
 zygo/generator.go   |  7 +---
 zygo/scopes.go      | 83 +++++++++++++++++++--------------------------
 zygo/vm.go          | 29 +++-------------
 7 files changed, 64 insertions(+), 210 deletions(-)

diff --git a/zygo/closing.go b/zygo/closing.go
index 1a20a9a..dabac26 100644
--- a/zygo/closing.go
+++ b/zygo/closing.go
@@ -8,21 +8,13 @@ type Closing struct {
 }
 
 func NewClosing(name string, env *Zlisp) *Closing {
-	stk := env.linearstack.Clone()
 	// Be strict: only store scopes from the current lexical function outward
 	// to the current top. Caller scopes below that function are dynamic state.
-	for i := stk.tos; i >= 0; i-- {
-		scop, ok := stk.elements[i].(*Scope)
-		if ok && scop.IsFunction {
-			if i > 0 {
-				trimmed := env.NewStack(stk.Size() - i)
-				for _, elem := range stk.elements[i : stk.tos+1] {
-					trimmed.Push(elem)
-				}
-				stk = trimmed
-			}
-			break
-		}
+	live := env.linearstack
+	start := live.activationStart()
+	stk := env.NewStack(live.Size() - start)
+	for _, elem := range live.elements[start : live.tos+1] {
+		stk.Push(elem)
 	}
 
 	return &Closing{
@@ -40,9 +32,6 @@ func NewEmptyClosing(name string, env *Zlisp) *Closing {
 
 func (c *Closing) IsStackElem() {}
 
-func (c *Closing) LookupSymbolUntilFunction(sym *SexpSymbol, setVal *Sexp, maximumFuncToSearch int, checkCaptures bool) (Sexp, error, *Scope) {
-	return c.Stack.LookupSymbolUntilFunction(sym, setVal, maximumFuncToSearch, checkCaptures)
-}
 func (c *Closing) LookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, error, *Scope) {
 	return c.Stack.LookupSymbol(sym, setVal)
 }
diff --git a/zygo/environment.go b/zygo/environment.go
index e1a0e99..8ffeeaa 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -1017,52 +1017,26 @@ func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, erro
 		return sym, nil, nil
 	}
 
-	//P("LexicalLookupSymbol('%s', with setVal: %v)\n", sym.name, setVal)
-
-	const maxFuncToScan = 1 // 1 or otherwise tests/{closure.zy, dynprob.zy, dynscope.zy} will fail.
-	exp, err, scope := env.linearstack.LookupSymbolUntilFunction(sym, setVal, maxFuncToScan, false)
-	switch err {
-	case nil:
-		//P("LexicalLookupSymbol('%s') found on env.linearstack(1, false) in scope '%s'\n", sym.name, scope.Name)
-		return exp, err, scope
-	case SymNotFound:
-		break
-	}
-
-	// check the parent function lexical captured scopes, if parent available.
-	if env.curfunc.parent != nil {
-		//P("checking non-nil parent...")
-		//exp, err, whichScope := env.curfunc.parent.ClosingLookupSymbol(sym, setVal)
-		exp, err, whichScope := env.curfunc.LookupSymbolInParentChainOfClosures(sym, setVal, env)
-		switch err {
-		case nil:
-			//P("LookupSymbolUntilFunction('%s') found in curfunc.parent.ClosingLookupSymbol() scope '%s'\n", sym.name, whichScope.Name)
-			return exp, err, whichScope
-		default:
-			//P("not found  looking via env.curfunc.parent.ClosingLookupSymbol(sym='%s')", sym.name)
-			//env.ShowStackStackAndScopeStack()
-		}
-	} else {
-
-		//fmt.Printf(" *** env.curfunc has closure of: %s\n", ClosureToString(env.curfunc, env))
-		//exp, err, scope = env.curfunc.ClosingLookupSymbol(sym, setVal)
-		exp, err, scope = env.curfunc.ClosingLookupSymbolUntilFunc(sym, setVal, 1, false)
-		switch err {
-		case nil:
-			//P("LexicalLookupSymbol('%s') found in env.curfunc.ClosingLookupSymbolUnfilFunc(1, false) in scope '%s'\n", sym.name, scope.Name)
-			return exp, err, scope
+	exp, err, scope := env.linearstack.lookupLexical(sym, setVal)
+	if err == nil {
+		return exp, nil, scope
+	}
+
+	// every function sees the globals, wherever it was made.
+	if !env.linearstack.IsEmpty() {
+		glob, isScope := env.linearstack.elements[0].(*Scope)
+		if isScope {
+			expr, found := glob.Map[sym.number]
+			if found {
+				if setVal != nil {
+					glob.Map[sym.number] = *setVal
+				}
+				return expr, nil, glob
+			}
 		}
 	}
-
-	// Some runtime function scopes carry the closure-bearing function object
-	// on the scope itself. Check that current frame's captures, but do not
-	// cross into the caller's live scopes; those are dynamic, not lexical.
-	exp, err, scope = env.linearstack.LookupSymbolUntilFunction(sym, setVal, 1, true)
-	switch err {
-	case nil:
-		return exp, err, scope
-	case SymNotFound:
-		break
+	if env.debugSymbolNotFound {
+		env.ShowStackStackAndScopeStack()
 	}
 
 	return SexpNull, fmt.Errorf("symbol `%s` not found", sym.name), nil
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 6825f3d..175dc59 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -643,15 +643,6 @@ func (lazy *SexpLazyArg) Force(env *Zlisp) (Sexp, error) {
 	gen.AddInstruction(ReturnInstr{nil})
 
 	sfun := env.MakeFunction("lazyArgForce", 0, false, ZlispFunction(gen.instructions), lazy.Expr)
-	if lazy.Stack != nil {
-		sfun.SetClosing(&Closing{
-			Stack: lazy.Stack.Clone(),
-			Name:  "lazyArgForce",
-			env:   env,
-		})
-	}
-	sfun.parent = lazy.CurFunc
-
 	callState := env.captureControlState()
 	if lazy.Stack != nil {
 		env.linearstack = lazy.Stack.Clone()
@@ -759,18 +750,7 @@ func (sf *SexpFunction) IsLazyCallArg(i int) bool {
 }
 
 func (sf *SexpFunction) SetClosing(clos *Closing) {
-	ps4 := NewPrintStateWithIndent(4)
-	pre, err := sf.ShowClosing(clos.env, ps4, "prev")
-	_ = pre
-	panicOn(err)
-	newnew, err := sf.ShowClosing(clos.env, ps4, "newnew")
-	_ = newnew
-	panicOn(err)
-	//P("99999 for sfun = %p, in sfun.SetClosing(), prev value is %p = '%s'\n",
-	//	sf, sf.closingOverScopes, pre)
-	//P("88888 in sfun.SetClosing(), new  value is %p = '%s'\n", clos, newnew)
 	sf.closingOverScopes = clos
-	//P("in SetClosing() for '%s'/%p: my stack is: '%s'", sf.name, sf, clos.Stack.SexpString(nil))
 }
 
 func (sf *SexpFunction) ShowClosing(env *Zlisp, ps *PrintState, label string) (string, error) {
@@ -780,51 +760,6 @@ func (sf *SexpFunction) ShowClosing(env *Zlisp, ps *PrintState, label string) (s
 	return sf.closingOverScopes.Show(env, ps, label)
 }
 
-func (sf *SexpFunction) ClosingLookupSymbolUntilFunction(sym *SexpSymbol) (Sexp, error, *Scope) {
-	if sf.closingOverScopes != nil {
-		return sf.closingOverScopes.LookupSymbolUntilFunction(sym, nil, 1, false)
-	}
-	return SexpNull, SymNotFound, nil
-}
-
-func (sf *SexpFunction) ClosingLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, error, *Scope) {
-	if sf.closingOverScopes != nil {
-		return sf.closingOverScopes.LookupSymbol(sym, setVal)
-	}
-	//P("sf.closingOverScopes was nil, no captured scopes. sf = '%v'", sf.SexpString(nil))
-	return SexpNull, SymNotFound, nil
-}
-
-// chase parent pointers up the chain and check each of their immediate closures.
-func (sf *SexpFunction) LookupSymbolInParentChainOfClosures(sym *SexpSymbol, setVal *Sexp, env *Zlisp) (Sexp, error, *Scope) {
-
-	cur := sf
-	par := sf.parent
-	for par != nil {
-		//fmt.Printf(" parent chain: cur:%v -> parent:%v\n", cur.name, par.name)
-		//fmt.Printf("        cur.closures = %s", ClosureToString(cur, env))
-
-		exp, err, scope := cur.ClosingLookupSymbolUntilFunc(sym, setVal, 1, false)
-		if err == nil {
-			//P("LookupSymbolInParentChainOfClosures(sym='%s') found in scope '%s'\n", sym.name, scope.Name)
-			return exp, err, scope
-		}
-
-		cur = par
-		par = par.parent
-	}
-
-	return SexpNull, SymNotFound, nil
-}
-
-func (sf *SexpFunction) ClosingLookupSymbolUntilFunc(sym *SexpSymbol, setVal *Sexp, maximumFuncToSearch int, checkCaptures bool) (Sexp, error, *Scope) {
-	if sf.closingOverScopes != nil {
-		return sf.closingOverScopes.LookupSymbolUntilFunction(sym, setVal, maximumFuncToSearch, checkCaptures)
-	}
-	//P("sf.closingOverScopes was nil, no captured scopes. sf = '%v'", sf.SexpString(nil))
-	return SexpNull, SymNotFound, nil
-}
-
 func (sf *SexpFunction) SexpString(ps *PrintState) string {
 	if sf.orig == nil {
 		return "fn [" + sf.name + "]"
diff --git a/zygo/func.go b/zygo/func.go
index 9af6c03..cb15abd 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -154,8 +154,7 @@ func FuncBuilder(env *Zlisp, name string,
 
 	gen.funcname = funcName
 
-	afsHelper := &AddFuncScopeHelper{}
-	gen.AddInstruction(AddFuncScopeInstr{Name: "runtime " + gen.funcname, Helper: afsHelper})
+	gen.AddInstruction(AddFuncScopeInstr{Name: "runtime " + gen.funcname})
 
 	argsyms := make([]*SexpSymbol, len(funcargs))
 
@@ -204,10 +203,6 @@ func FuncBuilder(env *Zlisp, name string,
 	sfun.inputTypes = inHash
 	sfun.returnTypes = retHash
 
-	// tell the function scope where their function is, to
-	// provide access to the captured-closure scopes at runtime.
-	afsHelper.MyFunction = sfun
-
 	clos := CreateClosureInstr{sfun}
 	notePc := env.pc
 	clos.Execute(env)
diff --git a/zygo/generator.go b/zygo/generator.go
index 5781a41..6cbd0df 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -103,8 +103,7 @@ func buildSexpFun(
 		gen.funcname = name
 	}
 
-	afsHelper := &AddFuncScopeHelper{}
-	gen.AddInstruction(AddFuncScopeInstr{Name: "runtime " + gen.funcname, Helper: afsHelper})
+	gen.AddInstruction(AddFuncScopeInstr{Name: "runtime " + gen.funcname})
 
 	argsyms := make([]*SexpSymbol, len(funcargs.Val))
 
@@ -154,10 +153,6 @@ func buildSexpFun(
 	newfunc := ZlispFunction(gen.instructions)
 	sfun.fun = newfunc
 
-	// tell the function scope where their function is, to
-	// provide access to the captured-closure scopes at runtime.
-	afsHelper.MyFunction = sfun
-
 	return sfun, nil
 }
 
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 8bd062a..a7ae06e 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -132,56 +132,45 @@ func (stack *Stack) LookupSymbolNonGlobal(sym *SexpSymbol) (Sexp, error, *Scope)
 
 var SymNotFound = errors.New("symbol not found")
 
-// lookup symbols, but don't go beyond a function boundary -- a user-defined
-// function boundary that is. We certainly have to go up beyond
-// all built-in operators like '+' and '-', '*' and '/'.
-func (stack *Stack) LookupSymbolUntilFunction(sym *SexpSymbol, setVal *Sexp, maximumFuncToSearch int, checkCaptures bool) (Sexp, error, *Scope) {
+// activationStart returns the index of the bottom scope of the activation
+// on top of the stack: its function scope, or else the first scope of all
+// when we are not inside any function.
+func (stack *Stack) activationStart() int {
+	for i := stack.tos; i > 0; i-- {
+		scope, ok := stack.elements[i].(*Scope)
+		if ok && scope.IsFunction {
+			return i
+		}
+	}
+	return 0
+}
 
-	funcCount := 0
-	if !stack.IsEmpty() {
-	doneSearching:
-		for i := 0; i <= stack.tos; i++ {
-			elem, err := stack.Get(i)
-			if err != nil {
-				return SexpNull, err, nil
+// lookupLexical searches the activation on top of the stack, and then,
+// from the inside out, the activations its function was created in. It
+// never looks at the scopes of callers. If setVal is not nil the binding
+// that is found is updated.
+func (stack *Stack) lookupLexical(sym *SexpSymbol, setVal *Sexp) (Sexp, error, *Scope) {
+	for cur := stack; cur != nil && !cur.IsEmpty(); {
+		start := cur.activationStart()
+		for i := cur.tos; i >= start; i-- {
+			scope, ok := cur.elements[i].(*Scope)
+			if !ok {
+				continue
 			}
-			switch scope := elem.(type) {
-			case (*Scope):
-				//VPrintf("   ...looking up in scope '%s'\n", scope.Name)
-				expr, ok := scope.Map[sym.number]
-				if ok {
-					if setVal != nil {
-						scope.UpdateSymbolInScope(sym, *setVal)
-					}
-					return expr, nil, scope
-				}
-				if scope.IsFunction {
-					funcCount++
-					//P("   ...scope '%s' was a function, halting up search and checking captured closures\n", scope.Name)
-
-					if checkCaptures {
-						// check the captured closure scope stack
-
-						exp, err, whichScope := scope.MyFunction.ClosingLookupSymbol(sym, setVal)
-						switch err {
-						case nil:
-							//P("LookupSymbolUntilFunction('%s') found in scope '%s'\n", sym.name, whichScope.Name)
-							return exp, err, whichScope
-						}
-					}
-
-					// no luck inside the captured closure scopes.
-					if funcCount >= maximumFuncToSearch {
-						break doneSearching
-					}
+			expr, found := scope.Map[sym.number]
+			if found {
+				if setVal != nil {
+					scope.Map[sym.number] = *setVal
 				}
+				return expr, nil, scope
 			}
 		}
-	}
-
-	if stack != nil && stack.env != nil && stack.env.debugSymbolNotFound {
-		fmt.Printf("debugSymbolNotFound is true, here are scopes:\n")
-		stack.env.ShowStackStackAndScopeStack()
+		// no luck in this activation: carry on where its function was made.
+		scope, ok := cur.elements[start].(*Scope)
+		cur = nil
+		if ok && scope.IsFunction && scope.MyFunction != nil && scope.MyFunction.closingOverScopes != nil {
+			cur = scope.MyFunction.closingOverScopes.Stack
+		}
 	}
 	return SexpNull, SymNotFound, nil
 }
@@ -192,8 +181,6 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 	}
 	cur, already := stack.elements[stack.tos].(*Scope).Map[sym.number]
 	if already {
-		Q("BindSymbol already sees symbol %v, currently bound to '%v'", sym.name, cur.SexpString(nil))
-
 		lhsTy := cur.Type()
 		rhsTy := expr.Type()
 		if lhsTy == nil {
@@ -212,8 +199,6 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 		}
 
 		// both sides have type
-		Q("BindSymbol: both sides have type. rhs=%v, lhs=%v", rhsTy.SexpString(nil), lhsTy.SexpString(nil))
-
 		if lhsTy == rhsTy {
 			Q("BindSymbol: YES types match exactly. Good.")
 			stack.elements[stack.tos].(*Scope).Map[sym.number] = expr
diff --git a/zygo/vm.go b/zygo/vm.go
index 02143ba..341a14a 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -467,12 +467,7 @@ func (a AddScopeInstr) Execute(env *Zlisp) error {
 }
 
 type AddFuncScopeInstr struct {
-	Name   string
-	Helper *AddFuncScopeHelper // we need a pointer we can update later once we know MyFunction
-}
-
-type AddFuncScopeHelper struct {
-	MyFunction *SexpFunction
+	Name string
 }
 
 func (a AddFuncScopeInstr) InstrString() string {
@@ -483,7 +478,9 @@ func (a AddFuncScopeInstr) Execute(env *Zlisp) error {
 	sc := env.NewNamedScope(fmt.Sprintf("%s at pc=%v",
 		env.curfunc.name, env.pc))
 	sc.IsFunction = true
-	sc.MyFunction = a.Helper.MyFunction
+	// the scope knows which function (and thus which captured scopes) it
+	// is an activation of.
+	sc.MyFunction = env.curfunc
 	env.linearstack.Push(sc)
 	env.pc++
 	return nil
@@ -843,23 +840,7 @@ func (a CreateClosureInstr) Execute(env *Zlisp) error {
 	cls := NewClosing(a.sfun.name, env)
 	myInvok := a.sfun.Copy()
 	myInvok.SetClosing(cls)
-	if env.curfunc != nil {
-		a.sfun.parent = env.curfunc
-		myInvok.parent = env.curfunc
-		//P("myInvok is copy of a.sfun '%s' with parent = %s", a.sfun.name, myInvok.parent.name)
-	}
-
-	ps8 := NewPrintStateWithIndent(8)
-	shown, err := myInvok.ShowClosing(env, ps8, fmt.Sprintf("closedOverScopes of '%s'", myInvok.name))
-	_ = shown
-	if err != nil {
-		return err
-	}
-	//VPrintf("+++ CreateClosure: assign to '%s' the stack:\n\n%s\n\n",		myInvok.SexpString(nil), shown)
-	top := cls.TopScope()
-	//VPrintf("222 CreateClosure: top of NewClosing Scope has addr %p and is\n",		top)
-	top.Show(env, ps8, fmt.Sprintf("top of NewClosing at %p", top))
-
+	myInvok.parent = env.curfunc
 	env.datastack.PushExpr(myInvok)
 	return nil
 }
-- 
2.43.0


From 4c5ead4fbc45fe5eca4df522b7e5af2e57441097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:59 +0000
Subject: [PATCH 15/58] fix: every form leaves exactly one value and errors in
 nested forms are reported

Empty begin, newScope, return and quote, multiple assignments, includes of
several files, package members and comment-only bodies left none or several
values on the data stack. Arms of and/or, unquoted template parts and builder
heads that failed to compile were silently dropped. break/continue inside
tests of cond and arms of and/or popped too few scopes, and a function inside
a loop is not part of that loop.
---
 zygo/generator.go | 347 ++++++++++++++++++++++++++--------------------
 zygo/vm.go        |   5 +-
 2 files changed, 198 insertions(+), 154 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index 6cbd0df..6428b35 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -53,33 +53,70 @@ func (gen *Generator) AddInstruction(instr Instruction) {
 	gen.instructions = append(gen.instructions, instr)
 }
 
+// withoutComments drops the forms that generate no code at all.
+func withoutComments(expressions []Sexp) []Sexp {
+	n := 0
+	for _, expr := range expressions {
+		if !isComment(expr) {
+			n++
+		}
+	}
+	if n == len(expressions) {
+		return expressions
+	}
+	kept := make([]Sexp, 0, n)
+	for _, expr := range expressions {
+		if !isComment(expr) {
+			kept = append(kept, expr)
+		}
+	}
+	return kept
+}
+
+func isComment(expr Sexp) bool {
+	switch e := expr.(type) {
+	case *SexpComment:
+		return true
+	case *SexpSentinel:
+		return e == SexpEnd
+	}
+	return false
+}
+
+// GenerateBegin generates code that evaluates the expressions in order and
+// leaves exactly one value on the data stack: that of the last of them.
 func (gen *Generator) GenerateBegin(expressions []Sexp) error {
+	expressions = withoutComments(expressions)
 	size := len(expressions)
-	oldtail := gen.Tail
-	gen.Tail = false
 	if size == 0 {
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
-		//return NoExpressionsFound
 	}
-	startInstructionCount := 0
+	oldtail := gen.Tail
+	gen.Tail = false
 	for _, expr := range expressions[:size-1] {
-		startInstructionCount = len(gen.instructions)
 		err := gen.Generate(expr)
 		if err != nil {
 			return err
 		}
 		// insert pops after all but the last instruction
 		// that way the stack remains clean.
-		// Without the (conditional) pop here, we really mess up
-		// the closure.zy tests.
-		if len(gen.instructions) > startInstructionCount {
-			gen.AddInstruction(PopInstr(0))
-		}
+		gen.AddInstruction(PopInstr(0))
 	}
 	gen.Tail = oldtail
 	return gen.Generate(expressions[size-1])
 }
 
+// generateNonTail generates code for an expression whose value is still
+// needed by the code that follows it.
+func (gen *Generator) generateNonTail(expr Sexp) error {
+	oldtail := gen.Tail
+	gen.Tail = false
+	err := gen.Generate(expr)
+	gen.Tail = oldtail
+	return err
+}
+
 func buildSexpFun(
 	env *Zlisp,
 	name string,
@@ -142,7 +179,11 @@ func buildSexpFun(
 		// them is code, and is not to be read as a value.
 		gen.AddInstruction(PopStackPutEnvInstr{sym: argsyms[i], asForm: isMacro})
 	}
+	// the loops around a function are not its own to break out of.
+	outerLoops := env.loopstack
+	env.loopstack = env.NewStack(LoopStackSize)
 	err := gen.GenerateBegin(funcbody)
+	env.loopstack = outerLoops
 	if err != nil {
 		return MissingFunction, err
 	}
@@ -190,9 +231,6 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 	if len(args) != 2 {
 		return fmt.Errorf("Wrong number of arguments to %s", opname)
 	}
-	Q("GenerateDef call with args[0]=%v", args[0].SexpString(nil))
-	// neither the target nor the value is in tail position.
-	gen.Tail = false
 	dup := true
 	var instr Instruction
 	switch args[0].(type) {
@@ -200,7 +238,8 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		dup = false
 		Q("def sees assign to pair, using AssignInstr{}")
 		instr = AssignInstr{}
-		err := gen.Generate(args[0])
+		// neither the target nor the value is in tail position.
+		err := gen.generateNonTail(args[0])
 		if err != nil {
 			return err
 		}
@@ -213,14 +252,13 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		case "def":
 			instr = PopStackPutEnvInstr{sym: lhs}
 		case "set":
-			Q("GenerateDef is doing set with UpdateInstr: lhs = '%s'", lhs.SexpString(nil))
 			instr = UpdateInstr{lhs}
 		default:
 			panic(fmt.Errorf("unknown opname '%s'", opname))
 		}
 	}
 
-	err := gen.Generate(args[1])
+	err := gen.generateNonTail(args[1])
 	if err != nil {
 		return err
 	}
@@ -381,19 +419,35 @@ func (gen *Generator) GenerateMacexpand(args []Sexp) error {
 	return nil
 }
 
-func (gen *Generator) GenerateShortCircuit(or bool, args []Sexp) error {
-	size := len(args)
-
+// subGeneratorHere returns a generator for code that will run at this very
+// place: with the same function and the same number of scopes around it.
+func (gen *Generator) subGeneratorHere(tail bool) *Generator {
 	subgen := gen.NewSubGenerator()
 	subgen.scopes = gen.scopes
-	subgen.Tail = gen.Tail
 	subgen.funcname = gen.funcname
-	subgen.Generate(args[size-1])
+	subgen.Tail = tail
+	return subgen
+}
+
+func (gen *Generator) GenerateShortCircuit(or bool, args []Sexp) error {
+	size := len(args)
+	if size == 0 {
+		return WrongNargs
+	}
+
+	subgen := gen.subGeneratorHere(gen.Tail)
+	err := subgen.Generate(args[size-1])
+	if err != nil {
+		return err
+	}
 	instructions := subgen.instructions
 
 	for i := size - 2; i >= 0; i-- {
-		subgen = gen.NewSubGenerator()
-		subgen.Generate(args[i])
+		subgen = gen.subGeneratorHere(false)
+		err := subgen.Generate(args[i])
+		if err != nil {
+			return err
+		}
 		subgen.AddInstruction(DupInstr(0))
 		subgen.AddInstruction(BranchInstr{or, len(instructions) + 2})
 		subgen.AddInstruction(PopInstr(0))
@@ -409,10 +463,7 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 		return fmt.Errorf("missing default case")
 	}
 
-	subgen := gen.NewSubGenerator()
-	subgen.Tail = gen.Tail
-	subgen.scopes = gen.scopes
-	subgen.funcname = gen.funcname
+	subgen := gen.subGeneratorHere(gen.Tail)
 	err := subgen.Generate(args[len(args)-1])
 	if err != nil {
 		return err
@@ -421,24 +472,21 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 
 	// we generate the cond bottom up, so i counts down.
 	for i := len(args)/2 - 1; i >= 0; i-- {
-		subgen.Reset()
+		subgen = gen.subGeneratorHere(false)
 		err := subgen.Generate(args[2*i])
 		if err != nil {
 			return err
 		}
 		pred_code := subgen.instructions
 
-		subgen.Reset()
-		subgen.Tail = gen.Tail
-		subgen.scopes = gen.scopes
-		subgen.funcname = gen.funcname
+		subgen = gen.subGeneratorHere(gen.Tail)
 		err = subgen.Generate(args[2*i+1])
 		if err != nil {
 			return err
 		}
 		body_code := subgen.instructions
 
-		subgen.Reset()
+		subgen = gen.subGeneratorHere(false)
 		subgen.AddInstructions(pred_code)
 		subgen.AddInstruction(BranchInstr{false, len(body_code) + 2})
 		subgen.AddInstructions(body_code)
@@ -453,9 +501,10 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 }
 
 func (gen *Generator) GenerateQuote(args []Sexp) error {
-	for _, expr := range args {
-		gen.AddInstruction(PushInstr{expr})
+	if len(args) != 1 {
+		return WrongNargs
 	}
+	gen.AddInstruction(PushInstr{args[0]})
 	return nil
 }
 
@@ -494,7 +543,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 
 	if name == "letseq" {
 		for i, rs := range rstatements {
-			err := gen.Generate(rs)
+			err := gen.generateNonTail(rs)
 			if err != nil {
 				return err
 			}
@@ -502,7 +551,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 		}
 	} else if name == "let" {
 		for _, rs := range rstatements {
-			err := gen.Generate(rs)
+			err := gen.generateNonTail(rs)
 			if err != nil {
 				return err
 			}
@@ -525,7 +574,7 @@ func (gen *Generator) GenerateAssert(args []Sexp) error {
 	if len(args) != 1 {
 		return WrongNargs
 	}
-	err := gen.Generate(args[0])
+	err := gen.generateNonTail(args[0])
 	if err != nil {
 		return err
 	}
@@ -546,6 +595,12 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 	var err error
 	var exps []Sexp
 
+	// the value of an include is that of the last file.
+	files := 0
+	oldtail := gen.Tail
+	gen.Tail = false
+	defer func() { gen.Tail = oldtail }()
+
 	var sourceItem func(item Sexp) error
 
 	sourceItem = func(item Sexp) error {
@@ -557,19 +612,26 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 				}
 			}
 		case *SexpPair:
-			expr := item
-			for expr != SexpNull {
-				list := expr.(*SexpPair)
-				if err := sourceItem(list.Head); err != nil {
+			list, err := ListToArray(t)
+			if err != nil {
+				return err
+			}
+			for _, v := range list {
+				if err := sourceItem(v); err != nil {
 					return err
 				}
-				expr = list.Tail
 			}
 		case *SexpStr:
 			exps, err = gen.env.ParseFile(t.S)
 			if err != nil {
 				return err
 			}
+			exps = gen.env.FilterArray(exps, RemoveCommentsFilter)
+			exps = gen.env.FilterArray(exps, RemoveEndsFilter)
+			if files > 0 {
+				gen.AddInstruction(PopInstr(0))
+			}
+			files++
 
 			err = gen.GenerateBegin(exps)
 			if err != nil {
@@ -589,6 +651,9 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 			return err
 		}
 	}
+	if files == 0 {
+		gen.AddInstruction(PushInstr{SexpNull})
+	}
 
 	return nil
 }
@@ -624,6 +689,9 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 	case "macexpand":
 		return gen.GenerateMacexpand(args)
 	case "syntaxQuote":
+		if len(args) == 1 && isSplice(args[0]) {
+			return fmt.Errorf("unquote-splicing: no list to splice into")
+		}
 		return gen.GenerateSyntaxQuote(args)
 	case "include":
 		return gen.GenerateInclude(args)
@@ -693,7 +761,10 @@ func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
 	for i := 0; i < n; i++ {
 		gen.AddInstruction(PushInstr{args[i]})
 	}
-	gen.Generate(fun)
+	err := gen.generateNonTail(fun)
+	if err != nil {
+		return err
+	}
 	gen.AddInstruction(DispatchInstr{len(args)})
 	return nil
 }
@@ -755,13 +826,13 @@ func (gen *Generator) GenerateDispatch(fun Sexp, args []Sexp) error {
 }
 
 func (gen *Generator) GenerateAssignment(expr *SexpPair, assignPos int) error {
-	Q("in GenerateAssignment, expr='%v', assignPos = %v",
-		expr.SexpString(nil), assignPos)
 	if assignPos == 0 {
 		return gen.GenerateCall(expr)
 	}
 	arr, err := ListToArray(expr)
-	panicOn(err) // internal error, should never happen since we prevalidate that we have a list.
+	if err != nil {
+		return err
+	}
 
 	if len(arr) <= 1 || assignPos == len(arr)-1 {
 		return fmt.Errorf("bad assignment syntax: no right-hand-side")
@@ -778,6 +849,10 @@ func (gen *Generator) GenerateAssignment(expr *SexpPair, assignPos int) error {
 	// of return value flow, rather than exact lhs to rhs count equality.
 
 	for i := range rhs {
+		if i > 0 {
+			// the assignment is one expression, with the value of its last part.
+			gen.AddInstruction(PopInstr(0))
+		}
 		err = gen.GenerateDef([]Sexp{lhs[i], rhs[i]}, "def")
 		if err != nil {
 			return err
@@ -810,16 +885,24 @@ func (gen *Generator) GenerateCall(expr *SexpPair) error {
 }
 
 func (gen *Generator) GenerateArray(arr *SexpArray) error {
-	err := gen.GenerateAll(arr.Val)
+	elems := withoutComments(arr.Val)
+	oldtail := gen.Tail
+	gen.Tail = false
+	err := gen.GenerateAll(elems)
+	gen.Tail = oldtail
 	if err != nil {
 		return err
 	}
-	gen.AddInstruction(CallInstr{gen.env.MakeSymbol("array"), len(arr.Val)})
+	gen.AddInstruction(CallInstr{gen.env.MakeSymbol("array"), len(elems)})
 	return nil
 }
 
+// Generate generates code that leaves exactly one value, that of the
+// expression, on the data stack.
 func (gen *Generator) Generate(expr Sexp) error {
-	if _, isComment := expr.(*SexpComment); isComment {
+	if isComment(expr) {
+		// has no value of its own.
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
 	}
 	switch e := expr.(type) {
@@ -872,12 +955,6 @@ func (gen *Generator) GenerateAll(expressions []Sexp) error {
 	return nil
 }
 
-func (gen *Generator) Reset() {
-	gen.instructions = make([]Instruction, 0)
-	gen.Tail = false
-	gen.scopes = 0
-}
-
 var ErrBadLoopSyntax = fmt.Errorf("for loop: first argument must be a label or a vector of [init predicate advance]")
 
 // for loops: Just like in C.
@@ -969,10 +1046,7 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 	gen.AddInstruction(PushStackmarkInstr{sym: loop.stmtname})
 
 	// generate the body of the loop
-	subgenBody := gen.NewSubGenerator()
-	subgenBody.Tail = false
-	subgenBody.scopes = gen.scopes
-	subgenBody.funcname = gen.funcname
+	subgenBody := gen.subGeneratorHere(false)
 	err = subgenBody.GenerateBegin(args[startgen:])
 	if err != nil {
 		return err
@@ -982,10 +1056,7 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 	len_body_code := len(subgenBody.instructions)
 
 	// generate the init code
-	subgenInit := gen.NewSubGenerator()
-	subgenInit.Tail = false
-	subgenInit.scopes = gen.scopes
-	subgenInit.funcname = gen.funcname
+	subgenInit := gen.subGeneratorHere(false)
 	err = subgenInit.Generate(controlargs.Val[0])
 	if err != nil {
 		return err
@@ -995,10 +1066,7 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 	init_code := subgenInit.instructions
 
 	// generate the test
-	subgenT := gen.NewSubGenerator()
-	subgenT.Tail = false
-	subgenT.scopes = gen.scopes
-	subgenT.funcname = gen.funcname
+	subgenT := gen.subGeneratorHere(false)
 
 	err = subgenT.Generate(controlargs.Val[1])
 	if err != nil {
@@ -1009,10 +1077,7 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 	test_code := subgenT.instructions
 
 	// generate the increment code
-	subgenIncr := gen.NewSubGenerator()
-	subgenIncr.Tail = false
-	subgenIncr.scopes = gen.scopes
-	subgenIncr.funcname = gen.funcname
+	subgenIncr := gen.subGeneratorHere(false)
 
 	err = subgenIncr.Generate(controlargs.Val[2])
 	if err != nil {
@@ -1068,7 +1133,6 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 }
 
 func (gen *Generator) GetLHS(arg Sexp, opname string) (*SexpSymbol, error) {
-	Q("GetLHS (opname=%s) called with arg '%s'", opname, arg.SexpString(nil))
 	var lhs *SexpSymbol
 	switch expr := arg.(type) {
 	case *SexpSymbol:
@@ -1099,7 +1163,6 @@ func (gen *Generator) GetLHS(arg Sexp, opname string) (*SexpSymbol, error) {
 	}
 
 	if lhs.isDot {
-		Q("in GetLHS(), lhs.isDot == true, return lhs='%v'", lhs.SexpString(nil))
 		//return nil, fmt.Errorf("illegal to %s dot-symbol, attempted on '%s'", opname, lhs.name)
 	}
 
@@ -1126,16 +1189,16 @@ func (gen *Generator) GenerateMultiDef(args []Sexp) error {
 		case *SexpPair:
 			// gracefully handle the quoted symbols we get from the range macro
 			unquotedSymbol, isQuo := isQuotedSymbol(sym)
-			if isQuo {
-				syms[i] = unquotedSymbol.(*SexpSymbol)
+			if !isQuo {
+				return fmt.Errorf("All mdef targets must be symbols, but %d-th was not, instead of type %T: '%s'", i+1, sym, sym.SexpString(nil))
 			}
+			syms[i] = unquotedSymbol.(*SexpSymbol)
 		default:
 			return fmt.Errorf("All mdef targets must be symbols, but %d-th was not, instead of type %T: '%s'", i+1, sym, sym.SexpString(nil))
 		}
 	}
 
-	gen.Tail = false
-	err := gen.Generate(args[lastpos])
+	err := gen.generateNonTail(args[lastpos])
 	if err != nil {
 		return err
 	}
@@ -1148,26 +1211,25 @@ func (gen *Generator) GenerateMultiDef(args []Sexp) error {
 }
 
 func isQuotedSymbol(list *SexpPair) (unquotedSymbol Sexp, isQuo bool) {
-	head := list.Head
-	switch h := head.(type) {
-	case *SexpSymbol:
-		if h.name != "quote" {
-			return SexpNull, false
-		}
+	sym, err := getQuotedSymbol(list)
+	if err != nil {
+		return SexpNull, false
 	}
-	// good, keep going to tail
-	t := list.Tail
-	switch tt := t.(type) {
-	case *SexpPair:
-		// good, keep going to head
-		hh := tt.Head
-		switch hhh := hh.(type) {
-		case *SexpSymbol:
-			// grab the symbol
-			return hhh, true
-		}
+	return sym, true
+}
+
+// isSplice says if expr is of the form (unquote-splicing x)
+func isSplice(expr Sexp) bool {
+	list, isPair := expr.(*SexpPair)
+	if !isPair {
+		return false
+	}
+	n, err := ListLen(list)
+	if err != nil || n != 2 {
+		return false
 	}
-	return SexpNull, false
+	sym, isSym := list.Head.(*SexpSymbol)
+	return isSym && sym.name == "unquote-splicing"
 }
 
 // side-effect (or main effect) has to be pushing an expression on the top of
@@ -1184,17 +1246,14 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 	// in them too.
 	switch aaa := arg.(type) {
 	case *SexpArray:
-		gen.generateSyntaxQuoteArray(aaa)
-		return nil
+		return gen.generateSyntaxQuoteArray(aaa)
 	case *SexpPair:
 		if !IsList(arg) {
 			break
 		}
-		gen.generateSyntaxQuoteList(arg)
-		return nil
+		return gen.generateSyntaxQuoteList(arg)
 	case *SexpHash:
-		gen.generateSyntaxQuoteHash(arg)
-		return nil
+		return gen.generateSyntaxQuoteHash(arg)
 	}
 	gen.AddInstruction(PushInstr{arg})
 	return nil
@@ -1232,10 +1291,12 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 		if issymbol {
 			if sym.name == "unquote" {
 				//VPrintf("detected unquote with quotebody[1]='%#v'   arg='%#v'\n", quotebody[1], arg)
-				gen.Generate(quotebody[1])
-				return nil
+				return gen.generateNonTail(quotebody[1])
 			} else if sym.name == "unquote-splicing" {
-				gen.Generate(quotebody[1])
+				err := gen.generateNonTail(quotebody[1])
+				if err != nil {
+					return err
+				}
 				gen.AddInstruction(ExplodeInstr(0))
 				return nil
 			}
@@ -1245,7 +1306,9 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 
 	for _, expr := range quotebody {
-		gen.GenerateSyntaxQuote([]Sexp{expr})
+		if err := gen.GenerateSyntaxQuote([]Sexp{expr}); err != nil {
+			return err
+		}
 	}
 
 	gen.AddInstruction(SquashInstr(0))
@@ -1268,7 +1331,9 @@ func (gen *Generator) generateSyntaxQuoteArray(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 	for _, expr := range arr.Val {
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{expr})
+		if err := gen.GenerateSyntaxQuote([]Sexp{expr}); err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 	}
@@ -1298,12 +1363,16 @@ func (gen *Generator) generateSyntaxQuoteHash(arg Sexp) error {
 		}
 		// value first, since value comes second on rebuild
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{val})
+		if err := gen.GenerateSyntaxQuote([]Sexp{val}); err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{key})
+		if err := gen.GenerateSyntaxQuote([]Sexp{key}); err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 	}
@@ -1458,27 +1527,9 @@ scanUpTheLoops:
 
 // like begin, but puts its contents in a new scope
 func (gen *Generator) GenerateNewScope(expressions []Sexp) error {
-	size := len(expressions)
-	oldtail := gen.Tail
-	gen.Tail = false
-	if size == 0 {
-		return nil
-		//return NoExpressionsFound
-	}
-
 	gen.AddInstruction(AddScopeInstr{Name: "newScope"})
 	gen.scopes++
-	for _, expr := range expressions[:size-1] {
-		err := gen.Generate(expr)
-		if err != nil {
-			return err
-		}
-		// insert pops after all but the last instruction
-		// that way the stack remains clean... Q: how does this extra popping not mess up the expressions?
-		gen.AddInstruction(PopInstr(0))
-	}
-	gen.Tail = oldtail
-	err := gen.Generate(expressions[size-1])
+	err := gen.GenerateBegin(expressions)
 	if err != nil {
 		return err
 	}
@@ -1508,29 +1559,21 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 	// to aim at when cleaning up.
 	symPkgName := gen.env.GenSymbol(pkgName)
 
-	oldtail := gen.Tail
-	gen.Tail = false
-
 	gen.AddInstruction(AddScopeInstr{Name: pkgName})
+	gen.scopes++
 	gen.AddInstruction(PushStackmarkInstr{sym: symPkgName})
 
-	if size > 1 {
-		for _, expr := range expressions[1 : size-1] {
-			err := gen.Generate(expr)
-			if err != nil {
-				return err
-			}
+	// the package itself is the value, not its last expression
+	for _, expr := range expressions[1:] {
+		err := gen.generateNonTail(expr)
+		if err != nil {
+			return err
 		}
 	}
-
-	gen.Tail = oldtail
-	err := gen.Generate(expressions[size-1])
-	if err != nil {
-		return err
-	}
 	gen.AddInstruction(PopUntilStackmarkInstr{sym: symPkgName})
 	gen.AddInstruction(PopInstr(0)) // remove the stackmark itself now
 	gen.AddInstruction(PopScopeTransferToDataStackInstr{PackageName: pkgName})
+	gen.scopes--
 	return nil
 }
 
@@ -1568,23 +1611,21 @@ func getQuotedSymbol(expr *SexpPair) (*SexpSymbol, error) {
 }
 
 func (gen *Generator) GenerateReturn(xs []Sexp) error {
-	n := len(xs)
-	if n == 0 {
+	switch len(xs) {
+	case 0:
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
+	case 1:
+		return gen.Generate(xs[0])
 	}
 
-	if n > 1 {
-		gen.AddInstruction(PushInstr{SexpMarker})
-	}
+	gen.AddInstruction(PushInstr{SexpMarker})
 	for i := range xs {
-		Q("return calling Generate on xs[i=%v]=%v", i, xs[i].SexpString(nil))
-		err := gen.Generate(xs[i])
+		err := gen.generateNonTail(xs[i])
 		if err != nil {
 			return err
 		}
 	}
-	if n > 1 {
-		gen.AddInstruction(VectorizeInstr(0))
-	}
+	gen.AddInstruction(VectorizeInstr(0))
 	return nil
 }
diff --git a/zygo/vm.go b/zygo/vm.go
index 341a14a..a4cfd8b 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -602,7 +602,10 @@ func (s VectorizeInstr) Execute(env *Zlisp) error {
 		if expr == SexpMarker {
 			break
 		}
-		vec = append([]Sexp{expr}, vec...)
+		vec = append(vec, expr)
+	}
+	for i, j := 0, len(vec)-1; i < j; i, j = i+1, j-1 {
+		vec[i], vec[j] = vec[j], vec[i]
 	}
 	env.datastack.PushExpr(&SexpArray{Val: vec, Env: env})
 	return nil
-- 
2.43.0


From 805209c71ee9591b57a5a8d3a66d47b786bf0109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 16/58] fix: tail calls are decided when the call is made

Whether a call in tail position is a call of the running function was decided
by name at compile time: a parameter or local of the same name was ignored,
captured parameters were rebound in place, and the type checks of the callee
were skipped. The call is now resolved as any other, and when it turns out to
be the running function a fresh activation replaces the running one. Let
bindings, array elements, asserts and unquoted template parts are not tail
positions.
---
 zygo/environment.go |  25 ++++++++++
 zygo/generator.go   |  87 ++++++--------------------------
 zygo/vm.go          | 119 ++++----------------------------------------
 3 files changed, 52 insertions(+), 179 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 8ffeeaa..2d6d03e 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -561,6 +561,31 @@ func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
 	return nil
 }
 
+// tailCallSelf has the running function call itself as the last thing it
+// does: the new activation takes the place of the running one, and will
+// return to where that was called from.
+func (env *Zlisp) tailCallSelf(function *SexpFunction, args []Sexp, scopes int) error {
+	startingDataStackSize := env.datastack.Size()
+	err := env.PrepareCallExprArgs(function, args)
+	if err == nil {
+		err = env.CallFunction(function, len(args))
+	}
+	if err != nil {
+		env.datastack.TruncateToSize(startingDataStackSize)
+		return err
+	}
+	_, _, err = env.addrstack.PopAddr()
+	if err != nil {
+		return err
+	}
+	for i := 0; i < scopes+1; i++ {
+		if err := env.linearstack.PopScope(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (env *Zlisp) ReturnFromFunction() error {
 	for _, posthook := range env.after {
 		retval, err := env.datastack.GetExpr(0)
diff --git a/zygo/generator.go b/zygo/generator.go
index 6428b35..17efc50 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -7,12 +7,11 @@ import (
 var NoExpressionsFound = fmt.Errorf("No expressions found")
 
 type Generator struct {
-	env            *Zlisp
-	funcname       string
-	Tail           bool
-	scopes         int
-	instructions   []Instruction
-	knownFunctions map[int]*SexpFunction
+	env          *Zlisp
+	funcname     string
+	Tail         bool
+	scopes       int
+	instructions []Instruction
 }
 
 type Loop struct {
@@ -31,7 +30,6 @@ func NewGenerator(env *Zlisp) *Generator {
 	gen := new(Generator)
 	gen.env = env
 	gen.instructions = make([]Instruction, 0)
-	gen.knownFunctions = make(map[int]*SexpFunction)
 	// tail marks whether or not we are in the tail position
 	gen.Tail = false
 	// scopes is the number of extra (non-function) scopes we've created
@@ -40,9 +38,7 @@ func NewGenerator(env *Zlisp) *Generator {
 }
 
 func (gen *Generator) NewSubGenerator() *Generator {
-	subgen := NewGenerator(gen.env)
-	subgen.knownFunctions = gen.knownFunctions
-	return subgen
+	return NewGenerator(gen.env)
 }
 
 func (gen *Generator) AddInstructions(instr []Instruction) {
@@ -123,15 +119,11 @@ func buildSexpFun(
 	funcargs *SexpArray,
 	funcbody []Sexp,
 	orig Sexp,
-	knownFunctions map[int]*SexpFunction,
 	isMacro bool) (*SexpFunction, error) {
 
 	//defer func() { //VPrintf("exiting buildSexpFun()\n") }()
 
 	gen := NewGenerator(env)
-	if knownFunctions != nil {
-		gen.knownFunctions = knownFunctions
-	}
 	gen.Tail = true
 
 	if len(name) == 0 {
@@ -166,9 +158,6 @@ func buildSexpFun(
 
 	sfun := gen.env.MakeFunction(gen.funcname, nargs, varargs, nil, orig)
 	sfun.SetFormalSymbols(argsyms)
-	if len(name) > 0 {
-		gen.knownFunctions[env.MakeSymbol(name).number] = sfun
-	}
 
 	//VPrintf("\n in buildSexpFun(): DumpFunction just before %v args go onto stack\n", len(argsyms))
 	if Working {
@@ -213,7 +202,7 @@ func (gen *Generator) GenerateFn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateFn() about to call buildSexpFun\n")
 	funcbody := args[1:]
-	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig, gen.knownFunctions, false)
+	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig, false)
 	if err != nil {
 		return err
 	}
@@ -306,7 +295,7 @@ func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateDefn() about to call buildSexpFun\n")
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions, false)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, false)
 	if err != nil {
 		return err
 	}
@@ -355,7 +344,7 @@ func (gen *Generator) GenerateDefmac(args []Sexp, orig Sexp) error {
 			sym.name, xpr.SexpString(nil))
 	}
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions, true)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, true)
 	if err != nil {
 		return err
 	}
@@ -733,26 +722,7 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 		return gen.Generate(expr)
 	}
 
-	oldtail := gen.Tail
-	gen.Tail = false
-	if oldtail && sym.name == gen.funcname {
-		err := gen.GenerateCallArgsForFunction(gen.LookupKnownFunction(sym), args)
-		if err != nil {
-			return err
-		}
-		// to do a tail call
-		// pop off all the extra scopes
-		// then jump to beginning of function
-		for i := 0; i < gen.scopes; i++ {
-			gen.AddInstruction(RemoveScopeInstr{})
-		}
-		gen.AddInstruction(PrepareCallInstr{sym, len(args)})
-		gen.AddInstruction(GotoInstr{1}) // goto 1 instead of 0 to avoid adding a new scope
-	} else {
-		gen.AddInstruction(CallExprInstr{callee: sym, args: append([]Sexp(nil), args...)})
-	}
-	gen.Tail = oldtail
-	return nil
+	return gen.GenerateDispatch(sym, args)
 }
 
 func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
@@ -769,36 +739,6 @@ func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
 	return nil
 }
 
-func (gen *Generator) LookupKnownFunction(sym *SexpSymbol) *SexpFunction {
-	if sym == nil {
-		return nil
-	}
-	if gen.knownFunctions != nil {
-		if function := gen.knownFunctions[sym.number]; function != nil {
-			return function
-		}
-	}
-	x, err, _ := gen.env.LexicalLookupSymbol(sym, nil)
-	if err != nil {
-		return nil
-	}
-	function, _ := x.(*SexpFunction)
-	return function
-}
-
-func (gen *Generator) GenerateCallArgsForFunction(function *SexpFunction, args []Sexp) error {
-	for i, expr := range args {
-		if function != nil && function.IsLazyCallArg(i) {
-			gen.AddInstruction(PushLazyArgInstr{expr: expr})
-			continue
-		}
-		if err := gen.Generate(expr); err != nil {
-			return err
-		}
-	}
-	return nil
-}
-
 func (gen *Generator) GenerateInfix(args []Sexp) error {
 	arr, empty, err := InfixArgsToArray("infix", args)
 	if err != nil {
@@ -821,7 +761,12 @@ func (gen *Generator) GenerateInfix(args []Sexp) error {
 }
 
 func (gen *Generator) GenerateDispatch(fun Sexp, args []Sexp) error {
-	gen.AddInstruction(CallExprInstr{callee: fun, args: append([]Sexp(nil), args...)})
+	gen.AddInstruction(CallExprInstr{
+		callee: fun,
+		args:   append([]Sexp(nil), args...),
+		tail:   gen.Tail,
+		scopes: gen.scopes,
+	})
 	return nil
 }
 
diff --git a/zygo/vm.go b/zygo/vm.go
index a4cfd8b..7bb7a0a 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -30,22 +30,6 @@ func (j JumpInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
-type GotoInstr struct {
-	location int
-}
-
-func (g GotoInstr) InstrString() string {
-	return fmt.Sprintf("goto %d", g.location)
-}
-
-func (g GotoInstr) Execute(env *Zlisp) error {
-	if g.location < 0 || g.location > env.CurrentFunctionSize() {
-		return OutOfBounds
-	}
-	env.pc = g.location
-	return nil
-}
-
 type BranchInstr struct {
 	direction bool
 	location  int
@@ -91,23 +75,6 @@ func (p PushInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
-type PushLazyArgInstr struct {
-	expr Sexp
-}
-
-func (p PushLazyArgInstr) InstrString() string {
-	if p.expr == nil {
-		return "push lazyArg nil"
-	}
-	return "push lazyArg " + p.expr.SexpString(nil)
-}
-
-func (p PushLazyArgInstr) Execute(env *Zlisp) error {
-	env.datastack.PushExpr(NewSourceLazyArg(env, p.expr))
-	env.pc++
-	return nil
-}
-
 type PopInstr int
 
 func (p PopInstr) InstrString() string {
@@ -372,6 +339,11 @@ func (c CallInstr) Execute(env *Zlisp) error {
 type CallExprInstr struct {
 	callee Sexp
 	args   []Sexp
+
+	// in tail position the running function has nothing left to do but
+	// to remove its scopes: the function scope and this many others.
+	tail   bool
+	scopes int
 }
 
 func (c CallExprInstr) InstrString() string {
@@ -391,6 +363,12 @@ func (c CallExprInstr) Execute(env *Zlisp) error {
 	if err != nil {
 		return err
 	}
+	if c.tail {
+		self, isFun := funcobj.(*SexpFunction)
+		if isFun && !self.user && self == env.curfunc {
+			return env.tailCallSelf(self, c.args, c.scopes)
+		}
+	}
 	return env.CallResolved(funcobj, callName, c.args)
 }
 
@@ -935,78 +913,3 @@ func (a PopScopeTransferToDataStackInstr) Execute(env *Zlisp) error {
 	env.datastack.PushExpr(stackClone)
 	return nil
 }
-
-type PrepareCallInstr struct {
-	sym   *SexpSymbol
-	nargs int
-}
-
-func (c PrepareCallInstr) InstrString() string {
-	return fmt.Sprintf("pre-call %s %d", c.sym.name, c.nargs)
-}
-
-func (c PrepareCallInstr) Execute(env *Zlisp) error {
-	if err := c.execute(env); err != nil {
-		return err
-	}
-	env.pc++
-	return nil
-}
-
-func (c PrepareCallInstr) execute(env *Zlisp) error {
-	_, ok := env.builtins[c.sym.number]
-	if ok {
-		return nil
-	}
-	var funcobj, indirectFuncName Sexp
-	var err error
-
-	funcobj, err, _ = env.LexicalLookupSymbol(c.sym, nil)
-
-	if err != nil {
-		return err
-	}
-	switch f := funcobj.(type) {
-	case *SexpSymbol:
-		if c.sym.isDot {
-
-			dotSymRef, dotLookupErr := dotGetSetHelper(env, c.sym.name, nil)
-			if dotLookupErr != nil {
-				return dotLookupErr
-			}
-			indirectFuncName = dotSymRef
-		} else {
-			indirectFuncName, err = dotGetSetHelper(env, f.name, nil)
-			if err != nil {
-				return fmt.Errorf("'%s' refers to symbol '%s', but '%s' could not be resolved: '%s'.",
-					c.sym.name, f.name, f.name, err)
-			}
-		}
-
-		switch g := indirectFuncName.(type) {
-		case *SexpFunction:
-			if !g.user {
-				nargs := c.nargs
-				if err := env.prepareLazyCallArgs(g, &nargs); err != nil {
-					return err
-				}
-				if g.varargs {
-					return env.wrangleOptargs(g.nargs, nargs)
-				}
-			}
-			return nil
-		}
-
-	case *SexpFunction:
-		if !f.user {
-			nargs := c.nargs
-			if err := env.prepareLazyCallArgs(f, &nargs); err != nil {
-				return err
-			}
-			if f.varargs {
-				return env.wrangleOptargs(f.nargs, nargs)
-			}
-		}
-	}
-	return nil
-}
-- 
2.43.0


From 0347cbdaaa659c5c36a4255cdc297cdcc6b602c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:28 +0000
Subject: [PATCH 17/58] fix: every nested evaluation puts the interpreter back
 at rest

eval, apply, lazy arguments, sourced files and calls inside expressions now
all run through one helper that restores control state whether they succeed
or fail; builtins leave only their result on the data stack. Loading replaces
the code that already ran, instead of appending to it forever, and an empty
program is nil. The trace of a recovered panic no longer has addresses.
---
 zygo/builders.go    |   3 -
 zygo/environment.go | 135 ++++++++++++++++++++++----------------------
 zygo/expressions.go |  22 +-------
 zygo/func.go        |   2 -
 zygo/functions.go   |  47 +--------------
 zygo/source.go      |  86 ++++++++++------------------
 6 files changed, 102 insertions(+), 193 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 478e95e..d214fdc 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -277,7 +277,6 @@ func StructBuilder(env *Zlisp, name string,
 
 	//Q("good: have struct name '%v'", symN)
 
-	env.datastack.PushExpr(SexpNull)
 	structName := symN.name
 
 	{
@@ -756,8 +755,6 @@ func VarBuilder(env *Zlisp, name string,
 	}
 	//Q("good: var decl bound symbol '%s' to '%s' of type '%s'", symN.SexpString(nil), valSexp.SexpString(nil), rt.SexpString(nil))
 
-	env.datastack.PushExpr(valSexp)
-
 	return SexpNull, nil
 }
 
diff --git a/zygo/environment.go b/zygo/environment.go
index 2d6d03e..8a51741 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -296,6 +296,7 @@ type vmControlState struct {
 	addrstackSize   int
 	linearstackSize int
 	datastackSize   int
+	loopstackSize   int
 }
 
 func (env *Zlisp) captureControlState() vmControlState {
@@ -306,6 +307,7 @@ func (env *Zlisp) captureControlState() vmControlState {
 		addrstackSize:   env.addrstack.Size(),
 		linearstackSize: env.linearstack.Size(),
 		datastackSize:   env.datastack.Size(),
+		loopstackSize:   env.loopstack.Size(),
 	}
 }
 
@@ -314,10 +316,39 @@ func (env *Zlisp) restoreControlState(state vmControlState) {
 	env.linearstack = state.linearstack
 	env.linearstack.TruncateToSize(state.linearstackSize)
 	env.datastack.TruncateToSize(state.datastackSize)
+	env.loopstack.TruncateToSize(state.loopstackSize)
 	env.curfunc = state.curfunc
 	env.pc = state.pc
 }
 
+// runNested runs a function to completion from Go code, possibly while
+// another function is running, and then puts the interpreter back in the
+// state it was in.
+func (env *Zlisp) runNested(function *SexpFunction, args []Sexp) (Sexp, error) {
+	callState := env.captureControlState()
+	defer env.restoreControlState(callState)
+
+	// the address to return to will be -1: that ends the Run() below.
+	env.pc = -2
+	env.datastack.PushExpressions(args)
+	if err := env.CallFunction(function, len(args)); err != nil {
+		return SexpNull, err
+	}
+	return env.Run()
+}
+
+// evalNested evaluates expressions, as begin would, in the current scopes.
+func (env *Zlisp) evalNested(name string, expressions []Sexp, orig Sexp) (Sexp, error) {
+	gen := NewGenerator(env)
+	if err := gen.GenerateBegin(expressions); err != nil {
+		return SexpNull, err
+	}
+	gen.AddInstruction(ReturnInstr{nil})
+	sfun := env.MakeFunction(name, 0, false, ZlispFunction(gen.instructions), orig)
+	sfun.parent = env.curfunc
+	return env.runNested(sfun, nil)
+}
+
 func (env *Zlisp) wrangleOptargs(fnargs, nargs int) error {
 	if nargs < fnargs {
 		return errors.New(
@@ -360,31 +391,7 @@ func (env *Zlisp) EvalCallExpression(expr Sexp) (Sexp, error) {
 		return val, err
 	}
 
-	gen := NewGenerator(env)
-	if err := gen.Generate(expr); err != nil {
-		return SexpNull, err
-	}
-	if len(gen.instructions) == 0 {
-		return SexpNull, nil
-	}
-	gen.AddInstruction(ReturnInstr{nil})
-
-	callState := env.captureControlState()
-	sfun := env.MakeFunction("callExprEval", 0, false, ZlispFunction(gen.instructions), expr)
-	sfun.parent = callState.curfunc
-
-	env.pc = -2
-	if err := env.CallFunction(sfun, 0); err != nil {
-		env.restoreControlState(callState)
-		return SexpNull, err
-	}
-	res, err := env.Run()
-	if err != nil {
-		env.restoreControlState(callState)
-		return SexpNull, err
-	}
-	env.restoreControlState(callState)
-	return res, nil
+	return env.evalNested("callExprEval", []Sexp{expr}, expr)
 }
 
 func (env *Zlisp) ResolveCallable(funcobj Sexp) (Sexp, string, error) {
@@ -599,6 +606,21 @@ func (env *Zlisp) ReturnFromFunction() error {
 	return err
 }
 
+// goStackTrace describes the running goroutine, without the addresses and
+// goroutine numbers that differ from run to run.
+func goStackTrace() string {
+	pcs := make([]uintptr, 64)
+	frames := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs)])
+	s := ""
+	for {
+		frame, more := frames.Next()
+		s += fmt.Sprintf("%s\n\t%s:%d\n", frame.Function, frame.File, frame.Line)
+		if !more {
+			return s
+		}
+	}
+}
+
 func (env *Zlisp) CallUserFunction(
 	function *SexpFunction, name string, nargs int) (nargReturned int, err error) {
 	//Q("CallUserFunction calling name '%s' with nargs=%v", name, nargs)
@@ -627,15 +649,13 @@ func (env *Zlisp) CallUserFunction(
 	// protect against bad calls/bad reflection in usercalls
 	var wasPanic bool
 	var recovered interface{}
-	var trace []byte
+	var trace string
 	res, err := func() (Sexp, error) {
 		defer func() {
 			recovered = recover()
 			if recovered != nil {
 				wasPanic = true
-				trace = make([]byte, 16384)
-				nbyte := runtime.Stack(trace, false)
-				trace = trace[:nbyte]
+				trace = goStackTrace()
 			}
 		}()
 
@@ -649,7 +669,7 @@ func (env *Zlisp) CallUserFunction(
 	if wasPanic {
 		err = fmt.Errorf("CallUserFunction caught panic during call of "+
 			"'%s': '%v'\n stack trace:\n%v\n",
-			name, recovered, string(trace))
+			name, recovered, trace)
 	}
 	if err != nil {
 		env.restoreControlState(callState)
@@ -657,22 +677,14 @@ func (env *Zlisp) CallUserFunction(
 			fmt.Sprintf("Error calling '%s': %v", name, err))
 	}
 
+	// whatever the function did, its result is all it leaves behind.
+	env.restoreControlState(callState)
 	env.datastack.PushExpr(res)
+	env.pc++
 
 	for _, posthook := range env.after {
 		posthook(env, name, res)
 	}
-
-	if env.addrstack.Size() > callState.addrstackSize {
-		env.curfunc, env.pc, err = env.addrstack.PopAddr()
-		if err != nil {
-			env.restoreControlState(callState)
-			return 0, err
-		}
-	} else {
-		env.curfunc = callState.curfunc
-		env.pc = callState.pc + 1
-	}
 	return len(args), nil
 }
 
@@ -691,15 +703,21 @@ func (env *Zlisp) LoadExpressions(xs []Sexp) error {
 	expressions = env.FilterArray(expressions, RemoveEndsFilter)
 
 	gen := NewGenerator(env)
-	if !env.ReachedEnd() {
-		gen.AddInstruction(PopInstr(0))
-	}
 	err := gen.GenerateBegin(expressions)
 	if err != nil {
 		return err
 	}
 
-	env.mainfunc.fun = append(env.mainfunc.fun, gen.instructions...)
+	if env.ReachedEnd() {
+		// what was loaded earlier has run.
+		env.mainfunc = env.MakeFunction("__main", 0, false,
+			ZlispFunction(gen.instructions), nil)
+		env.pc = 0
+	} else {
+		// the value of what was loaded earlier is not the last.
+		env.mainfunc.fun = append(env.mainfunc.fun, PopInstr(0))
+		env.mainfunc.fun = append(env.mainfunc.fun, gen.instructions...)
+	}
 	env.curfunc = env.mainfunc
 
 	return nil
@@ -710,6 +728,7 @@ func (env *Zlisp) ParseFile(file string) ([]Sexp, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer in.Close()
 
 	var exp []Sexp
 
@@ -720,8 +739,6 @@ func (env *Zlisp) ParseFile(file string) ([]Sexp, error) {
 		return nil, fmt.Errorf("Error on line %d: %v (ParseFile err = '%#v')\n", env.parser.Linenum(), err, err)
 	}
 
-	in.Close()
-
 	return exp, nil
 }
 
@@ -881,34 +898,18 @@ func (env *Zlisp) FindObject(name string) (Sexp, bool) {
 }
 
 func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
-	//VPrintf("\n\n debug Apply not working on user funcs: fun = '%#v'   and args = '%#v'\n\n", fun, args)
 	if fun.user {
 		return fun.userfun(env, fun.name, args)
 	}
 
-	callState := env.captureControlState()
-	env.pc = -2
+	callArgs := make([]Sexp, len(args))
 	for i, expr := range args {
 		if fun.IsLazyCallArg(i) {
-			env.datastack.PushExpr(NewValueLazyArg(expr))
-			continue
+			expr = NewValueLazyArg(expr)
 		}
-		env.datastack.PushExpr(expr)
-	}
-
-	//VPrintf("\nApply Calling '%s'\n", fun.SexpString())
-	err := env.CallFunction(fun, len(args))
-	if err != nil {
-		env.restoreControlState(callState)
-		return SexpNull, err
-	}
-
-	res, err := env.Run()
-	if err != nil {
-		env.restoreControlState(callState)
-		return SexpNull, err
+		callArgs[i] = expr
 	}
-	return res, nil
+	return env.runNested(fun, callArgs)
 }
 
 func (env *Zlisp) Run() (Sexp, error) {
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 175dc59..60ce16b 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -631,33 +631,15 @@ func (lazy *SexpLazyArg) Force(env *Zlisp) (Sexp, error) {
 		return lazy.Value, nil
 	}
 
-	gen := NewGenerator(env)
-	if err := gen.Generate(lazy.Expr); err != nil {
-		return SexpNull, err
-	}
-	if len(gen.instructions) == 0 {
-		lazy.Value = SexpNull
-		lazy.Forced = true
-		return lazy.Value, nil
-	}
-	gen.AddInstruction(ReturnInstr{nil})
-
-	sfun := env.MakeFunction("lazyArgForce", 0, false, ZlispFunction(gen.instructions), lazy.Expr)
 	callState := env.captureControlState()
+	defer env.restoreControlState(callState)
 	if lazy.Stack != nil {
 		env.linearstack = lazy.Stack.Clone()
 	}
-	env.pc = -2
-	if err := env.CallFunction(sfun, 0); err != nil {
-		env.restoreControlState(callState)
-		return SexpNull, err
-	}
-	res, err := env.Run()
+	res, err := env.evalNested("lazyArgForce", []Sexp{lazy.Expr}, lazy.Expr)
 	if err != nil {
-		env.restoreControlState(callState)
 		return SexpNull, err
 	}
-	env.restoreControlState(callState)
 	lazy.Value = res
 	lazy.Forced = true
 	return res, nil
diff --git a/zygo/func.go b/zygo/func.go
index cb15abd..7d28219 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -126,8 +126,6 @@ func FuncBuilder(env *Zlisp, name string,
 	}
 	//Q("retHash = '%v'", retHash.SexpString(nil))
 
-	env.datastack.PushExpr(SexpNull)
-
 	//Q("FuncBuilder() about to call buildSexpFun")
 
 	// ===================================
diff --git a/zygo/functions.go b/zygo/functions.go
index 9fbaba5..1563795 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -672,6 +672,7 @@ func ReadFunction(env *Zlisp, name string, args []Sexp) (sx Sexp, err error) {
 	default:
 		return SexpNull, WrongType
 	}
+	sx = SexpNull
 	env.parser.ResetAddNewInput(bytes.NewBuffer([]byte(str)))
 	//exp, err := env.parser.ParseExpression(0)
 	// have to use the iter interface...once.
@@ -712,51 +713,7 @@ func EvalFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	args = env.FilterArray(args, RemoveCommentsFilter)
 	args = env.FilterArray(args, RemoveEndsFilter)
 
-	startingDataStackSize := env.datastack.Size()
-
-	gen := NewGenerator(env)
-	err := gen.GenerateBegin(args)
-	if err != nil {
-		return SexpNull, err
-	}
-	if len(gen.instructions) == 0 {
-		return SexpNull, nil
-	}
-	gen.AddInstruction(ReturnInstr{nil})
-
-	newfunc := ZlispFunction(gen.instructions)
-	orig := &SexpArray{Val: args}
-	sfun := env.MakeFunction("evalGeneratedFunction", 0, false, newfunc, orig)
-
-	err = env.CallFunction(sfun, 0)
-	if err != nil {
-		return SexpNull, err
-	}
-
-	var resultSexp Sexp
-	resultSexp, err = env.Run()
-	if err != nil {
-		return SexpNull, err
-	}
-
-	// some sanity checks
-	if env.datastack.Size() > startingDataStackSize {
-		/*
-			xtra := env.datastack.Size() - startingDataStackSize
-			panic(fmt.Sprintf("we've left some extra stuff (xtra = %v) on the datastack "+
-				"during eval, don't be sloppy, fix it now! env.datastack.Size()=%v, startingDataStackSize = %v",
-				xtra, env.datastack.Size(), startingDataStackSize))
-			P("warning: truncating datastack back to startingDataStackSize %v", startingDataStackSize)
-		*/
-		env.datastack.TruncateToSize(startingDataStackSize)
-	}
-	if env.datastack.Size() < startingDataStackSize {
-		P("about panic, since env.datastack.Size() < startingDataStackSize, here is env dump:")
-		env.DumpEnvironment()
-		panic(fmt.Sprintf("we've shrunk the datastack during eval, don't be sloppy, fix it now! env.datastack.Size()=%v. startingDataStackSize=%v", env.datastack.Size(), startingDataStackSize))
-	}
-
-	return resultSexp, err
+	return env.evalNested("evalGeneratedFunction", args, &SexpArray{Val: args})
 }
 
 func TypeQueryFunction(name string) ZlispUserFunction {
diff --git a/zygo/source.go b/zygo/source.go
index f1a9a2b..0f248a6 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -44,58 +44,35 @@ func SimpleSourceFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 // existing
 
-// SourceExpressions, this should be called from a user func context
+// SourceExpressions evaluates the expressions in the current scopes.
 func (env *Zlisp) SourceExpressions(expressions []Sexp) error {
-	gen := NewGenerator(env)
-
-	err := gen.GenerateBegin(expressions)
-	if err != nil {
-		return err
-	}
-	//P("debug: in SourceExpressions, FROM expressions='%s'", (&SexpArray{Val: expressions, Env: env}).SexpString(0))
-	//P("debug: in SourceExpressions, gen=")
-	//DumpFunction(ZlispFunction(gen.instructions), -1)
-	curfunc := env.curfunc
-	curpc := env.pc
-	defer func() {
-		env.pc = curpc
-		env.curfunc = curfunc
-	}()
-
-	env.curfunc = env.MakeFunction("__source", 0, false,
-		gen.instructions, nil)
-	env.pc = 0
-
-	result, err := env.Run()
-	if err != nil {
-		return err
-	}
-
-	//P("end of SourceExpressions, result going onto datastack is: '%s'", result.SexpString(0))
-	env.datastack.PushExpr(result)
+	_, err := env.evalNested("__source", expressions, nil)
+	return err
+}
 
-	//P("debug done with Run in source, now stack is:")
-	//env.datastack.PrintStack()
+func (env *Zlisp) SourceStream(stream io.RuneScanner) error {
+	_, err := env.sourceStream(stream)
+	return err
+}
 
-	return nil
+func (env *Zlisp) SourceFile(file *os.File) error {
+	return env.SourceStream(bufio.NewReader(file))
 }
 
-func (env *Zlisp) SourceStream(stream io.RuneScanner) error {
+// sourceStream returns the value of the last expression in the stream.
+func (env *Zlisp) sourceStream(stream io.RuneScanner) (Sexp, error) {
 	env.parser.ResetAddNewInput(stream)
 	expressions, err := env.parser.ParseTokens()
 	if err != nil {
-		return errors.New(fmt.Sprintf(
+		return SexpNull, errors.New(fmt.Sprintf(
 			"Error parsing on line %d: %v\n", env.parser.Linenum(), err))
 	}
 
 	// like LoadExpressions in environment.go, remove comments.
 	expressions = env.FilterArray(expressions, RemoveCommentsFilter)
+	expressions = env.FilterArray(expressions, RemoveEndsFilter)
 
-	return env.SourceExpressions(expressions)
-}
-
-func (env *Zlisp) SourceFile(file *os.File) error {
-	return env.SourceStream(bufio.NewReader(file))
+	return env.evalNested("__source", expressions, nil)
 }
 
 func SourceFileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
@@ -103,46 +80,43 @@ func SourceFileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 
+	// the result is that of the last file
+	var result Sexp = SexpNull
 	for _, v := range args {
-		if err := env.sourceItem(v); err != nil {
+		if err := env.sourceItem(v, &result); err != nil {
 			return SexpNull, err
 		}
 	}
-
-	result, err := env.datastack.PopExpr()
-	if err != nil {
-		return SexpNull, err
-	}
 	return result, nil
 }
 
 // helper for SourceFileFunction recursion
-func (env *Zlisp) sourceItem(item Sexp) error {
+func (env *Zlisp) sourceItem(item Sexp, result *Sexp) error {
 	switch t := item.(type) {
 	case *SexpArray:
 		for _, v := range t.Val {
-			if err := env.sourceItem(v); err != nil {
+			if err := env.sourceItem(v, result); err != nil {
 				return err
 			}
 		}
 	case *SexpPair:
-		expr := item
-		for expr != SexpNull {
-			list := expr.(*SexpPair)
-			if err := env.sourceItem(list.Head); err != nil {
+		list, err := ListToArray(t)
+		if err != nil {
+			return err
+		}
+		for _, v := range list {
+			if err := env.sourceItem(v, result); err != nil {
 				return err
 			}
-			expr = list.Tail
 		}
 	case *SexpStr:
-		var f *os.File
-		var err error
-
-		if f, err = os.Open(t.S); err != nil {
+		f, err := os.Open(t.S)
+		if err != nil {
 			return err
 		}
 		defer f.Close()
-		if err = env.SourceFile(f); err != nil {
+		*result, err = env.sourceStream(bufio.NewReader(f))
+		if err != nil {
 			return err
 		}
 
-- 
2.43.0


From f0b391275b2fdf57d34b1060006e28b33996f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 18/58] fix: runaway recursion, cyclic and deeply nested data
 give an error instead of exhausting the host

---
 zygo/arrayutils.go  |  6 +++
 zygo/comment.go     | 31 +++++++++++++--
 zygo/comparisons.go | 42 ++++++++++++++------
 zygo/environment.go | 47 ++++++++++++++++++++--
 zygo/expressions.go | 95 ++++++++++++++++++++++++++-------------------
 zygo/generator.go   | 26 +++++++++++--
 zygo/hashutils.go   | 52 +++++++++++++++++++------
 zygo/listutils.go   | 68 ++++++++++++--------------------
 zygo/printstate.go  | 32 +++++++++++++++
 zygo/scopes.go      | 20 ++++++++++
 zygo/stack.go       |  4 --
 zygo/typeutils.go   | 35 ++++++++---------
 12 files changed, 317 insertions(+), 141 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index 43d2633..34cfcce 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -145,6 +145,12 @@ type SexpArraySelector struct {
 }
 
 func (si *SexpArraySelector) SexpString(ps *PrintState) string {
+	ps, ok := ps.enter(si)
+	if !ok {
+		return "(arraySelector ...)"
+	}
+	defer ps.leave(si)
+
 	//Q("in SexpArraySelector.SexpString(), si.Container.Env = %p", si.Container.Env)
 	rhs, err := si.RHS(si.Container.Env)
 	if err != nil {
diff --git a/zygo/comment.go b/zygo/comment.go
index fc51d05..ac0bc13 100644
--- a/zygo/comment.go
+++ b/zygo/comment.go
@@ -48,12 +48,27 @@ func RemoveCommasFilter(x Sexp) bool {
 }
 
 func (env *Zlisp) FilterAny(x Sexp, f Filter) (filtered Sexp, keep bool) {
+	return env.filterAny(x, f, make(map[Sexp]bool))
+}
+
+// filterAny leaves alone what contains itself, or is nested deeper than
+// text can be. The containers being filtered are in open.
+func (env *Zlisp) filterAny(x Sexp, f Filter, open map[Sexp]bool) (filtered Sexp, keep bool) {
+	switch ele := x.(type) {
+	case *SexpArray, *SexpPair:
+		if open[ele] || len(open) > maxParseNesting {
+			return x, true
+		}
+		open[ele] = true
+		defer delete(open, ele)
+	}
+
 	switch ele := x.(type) {
 	case *SexpArray:
-		res := &SexpArray{Val: env.FilterArray(ele.Val, f), Typ: ele.Typ, IsFuncDeclTypeArray: ele.IsFuncDeclTypeArray, Env: env}
+		res := &SexpArray{Val: env.filterArray(ele.Val, f, open), Typ: ele.Typ, IsFuncDeclTypeArray: ele.IsFuncDeclTypeArray, Env: env}
 		return res, true
 	case *SexpPair:
-		return env.FilterList(ele, f), true
+		return env.filterList(ele, f, open), true
 	case *SexpHash:
 		return env.FilterHash(ele, f), true
 	default:
@@ -66,13 +81,17 @@ func (env *Zlisp) FilterAny(x Sexp, f Filter) (filtered Sexp, keep bool) {
 }
 
 func (env *Zlisp) FilterArray(x []Sexp, f Filter) []Sexp {
+	return env.filterArray(x, f, make(map[Sexp]bool))
+}
+
+func (env *Zlisp) filterArray(x []Sexp, f Filter, open map[Sexp]bool) []Sexp {
 	//P("FilterArray: before: %d in size", len(x))
 	//for i := range x {
 	//P("x[i=%d] = %v", i, x[i].SexpString())
 	//}
 	res := []Sexp{}
 	for i := range x {
-		filtered, keep := env.FilterAny(x[i], f)
+		filtered, keep := env.filterAny(x[i], f, open)
 		if keep {
 			res = append(res, filtered)
 		}
@@ -93,6 +112,10 @@ func (env *Zlisp) FilterHash(h *SexpHash, f Filter) *SexpHash {
 }
 
 func (env *Zlisp) FilterList(h *SexpPair, f Filter) Sexp {
+	return env.filterList(h, f, make(map[Sexp]bool))
+}
+
+func (env *Zlisp) filterList(h *SexpPair, f Filter, open map[Sexp]bool) Sexp {
 	//P("in FilterList")
 	arr, err := ListToArray(h)
 	res := []Sexp{}
@@ -100,6 +123,6 @@ func (env *Zlisp) FilterList(h *SexpPair, f Filter) Sexp {
 		// don't filter pair lists
 		return h
 	}
-	res = env.FilterArray(arr, f)
+	res = env.filterArray(arr, f, open)
 	return MakeList(res)
 }
diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index 7434b88..a06cd0b 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -153,7 +153,7 @@ func (env *Zlisp) compareSymbol(sym *SexpSymbol, expr Sexp) (int, error) {
 	return 0, errors.New(errmsg)
 }
 
-func (env *Zlisp) comparePair(a *SexpPair, b Sexp) (int, error) {
+func (env *Zlisp) comparePair(a *SexpPair, b Sexp, depth int) (int, error) {
 	var bp *SexpPair
 	switch t := b.(type) {
 	case *SexpPair:
@@ -162,17 +162,24 @@ func (env *Zlisp) comparePair(a *SexpPair, b Sexp) (int, error) {
 		errmsg := fmt.Sprintf("err 96: cannot compare %T to %T", a, b)
 		return 0, errors.New(errmsg)
 	}
-	res, err := env.Compare(a.Head, bp.Head)
-	if err != nil {
-		return 0, err
-	}
-	if res != 0 {
-		return res, nil
+	for {
+		res, err := env.compareNested(a.Head, bp.Head, depth)
+		if err != nil {
+			return 0, err
+		}
+		if res != 0 {
+			return res, nil
+		}
+		atail, aIsPair := a.Tail.(*SexpPair)
+		btail, bIsPair := bp.Tail.(*SexpPair)
+		if !aIsPair || !bIsPair {
+			return env.compareNested(a.Tail, bp.Tail, depth)
+		}
+		a, bp = atail, btail
 	}
-	return env.Compare(a.Tail, bp.Tail)
 }
 
-func (env *Zlisp) compareArray(a *SexpArray, b Sexp) (int, error) {
+func (env *Zlisp) compareArray(a *SexpArray, b Sexp, depth int) (int, error) {
 	var ba *SexpArray
 	switch t := b.(type) {
 	case *SexpArray:
@@ -189,7 +196,7 @@ func (env *Zlisp) compareArray(a *SexpArray, b Sexp) (int, error) {
 	}
 
 	for i := 0; i < length; i++ {
-		res, err := env.Compare(a.Val[i], ba.Val[i])
+		res, err := env.compareNested(a.Val[i], ba.Val[i], depth)
 		if err != nil {
 			return 0, err
 		}
@@ -239,8 +246,19 @@ func comparePointers(a *SexpPointer, bs Sexp) (int, error) {
 	return 1, nil
 }
 
+// maxCompareNesting is how deep Compare looks into data:
+// an array can contain itself.
+const maxCompareNesting = 100000
+
 func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
+	return env.compareNested(a, b, 0)
+}
 
+func (env *Zlisp) compareNested(a Sexp, b Sexp, depth int) (int, error) {
+	depth++
+	if depth > maxCompareNesting {
+		return 0, errors.New("cannot compare: data is cyclic or nested too deeply")
+	}
 	var err error
 	if sel, isSel := a.(Selector); isSel {
 		a, err = sel.RHS(env)
@@ -271,9 +289,9 @@ func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
 	case *SexpSymbol:
 		return env.compareSymbol(at, b)
 	case *SexpPair:
-		return env.comparePair(at, b)
+		return env.comparePair(at, b, depth)
 	case *SexpArray:
-		return env.compareArray(at, b)
+		return env.compareArray(at, b, depth)
 	case *SexpHash:
 		return compareHash(at, b)
 	case *RegisteredType:
diff --git a/zygo/environment.go b/zygo/environment.go
index 8a51741..3790dc2 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -33,6 +33,7 @@ type Zlisp struct {
 	curfunc     *SexpFunction
 	mainfunc    *SexpFunction
 	pc          int
+	nesting     int // nested evaluations and compilations in progress
 	nextsymbol  int
 	before      []PreHook
 	after       []PostHook
@@ -161,6 +162,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.symtable = env.symtable
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
+	dupenv.nesting = env.nesting
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
@@ -192,6 +194,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.symtable = env.symtable
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
+	dupenv.nesting = env.nesting
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
@@ -321,10 +324,35 @@ func (env *Zlisp) restoreControlState(state vmControlState) {
 	env.pc = state.pc
 }
 
+// maxNesting limits how deep evaluations and compilations nest, and
+// maxCalls how many calls may be pending: both take memory
+// that a runaway recursion would otherwise exhaust.
+const (
+	maxNesting = 100000
+	maxCalls   = 1000000
+)
+
+// enterNested must be followed by leaveNested, unless it fails.
+func (env *Zlisp) enterNested() error {
+	if env.nesting >= maxNesting {
+		return errors.New("recursion or nesting too deep")
+	}
+	env.nesting++
+	return nil
+}
+
+func (env *Zlisp) leaveNested() {
+	env.nesting--
+}
+
 // runNested runs a function to completion from Go code, possibly while
 // another function is running, and then puts the interpreter back in the
 // state it was in.
 func (env *Zlisp) runNested(function *SexpFunction, args []Sexp) (Sexp, error) {
+	if err := env.enterNested(); err != nil {
+		return SexpNull, err
+	}
+	defer env.leaveNested()
 	callState := env.captureControlState()
 	defer env.restoreControlState(callState)
 
@@ -552,6 +580,9 @@ func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
 		panic("where's the global scope?")
 	}
 
+	if env.addrstack.Size() >= maxCalls {
+		return errors.New("recursion too deep")
+	}
 	env.addrstack.PushAddr(env.curfunc, env.pc+1)
 
 	//P("DEBUG linearstack with this next:")
@@ -621,6 +652,16 @@ func goStackTrace() string {
 	}
 }
 
+// errorCalling says which function failed. The message does
+// not keep growing with every call around that one.
+func errorCalling(name string, err error) error {
+	msg := err.Error()
+	if len(msg) > 10000 {
+		return err
+	}
+	return fmt.Errorf("Error calling '%s': %v", name, msg)
+}
+
 func (env *Zlisp) CallUserFunction(
 	function *SexpFunction, name string, nargs int) (nargReturned int, err error) {
 	//Q("CallUserFunction calling name '%s' with nargs=%v", name, nargs)
@@ -634,8 +675,7 @@ func (env *Zlisp) CallUserFunction(
 
 	args, err := env.datastack.PopExpressions(nargs)
 	if err != nil {
-		return 0, errors.New(
-			fmt.Sprintf("Error calling '%s': %v", name, err))
+		return 0, errorCalling(name, err)
 	}
 
 	callState := env.captureControlState()
@@ -673,8 +713,7 @@ func (env *Zlisp) CallUserFunction(
 	}
 	if err != nil {
 		env.restoreControlState(callState)
-		return 0, errors.New(
-			fmt.Sprintf("Error calling '%s': %v", name, err))
+		return 0, errorCalling(name, err)
 	}
 
 	// whatever the function did, its result is all it leaves behind.
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 60ce16b..8908dd7 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -225,27 +225,28 @@ func Cons(a Sexp, b Sexp) *SexpPair {
 }
 
 func (pair *SexpPair) SexpString(ps *PrintState) string {
-	str := "("
+	ps, ok := ps.enter(pair)
+	if !ok {
+		return "(...)"
+	}
+	defer ps.leave(pair)
 
+	var str strings.Builder
+	str.WriteString("(")
 	for {
-		switch pair.Tail.(type) {
-		case *SexpPair:
-			str += pair.Head.SexpString(ps) + " "
-			pair = pair.Tail.(*SexpPair)
-			continue
+		str.WriteString(pair.Head.SexpString(ps))
+		next, isPair := pair.Tail.(*SexpPair)
+		if !isPair {
+			break
 		}
-		break
+		str.WriteString(" ")
+		pair = next
 	}
-
-	str += pair.Head.SexpString(ps)
-
-	if pair.Tail == SexpNull {
-		str += ")"
-	} else {
-		str += " \\ " + pair.Tail.SexpString(ps) + ")"
+	if pair.Tail != SexpNull {
+		str.WriteString(" \\ " + pair.Tail.SexpString(ps))
 	}
-
-	return str
+	str.WriteString(")")
+	return str.String()
 }
 func (r *SexpPair) Type() *RegisteredType {
 	return nil // TODO what should this be?
@@ -263,10 +264,25 @@ type SexpArray struct {
 }
 
 func (r *SexpArray) Type() *RegisteredType {
+	return r.typeAt(0)
+}
+
+// maxTypeNesting is the deepest nesting of arrays that has a type.
+const maxTypeNesting = 1000
+
+func (r *SexpArray) typeAt(depth int) *RegisteredType {
+	if depth > maxTypeNesting {
+		return nil
+	}
 	if r.Typ == nil {
 		if len(r.Val) > 0 {
 			// take type from first element
-			ty := r.Val[0].Type()
+			var ty *RegisteredType
+			if first, isArray := r.Val[0].(*SexpArray); isArray {
+				ty = first.typeAt(depth + 1)
+			} else {
+				ty = r.Val[0].Type()
+			}
 			if ty != nil {
 				r.Typ = GoStructRegistry.GetOrCreateSliceType(ty)
 			}
@@ -280,6 +296,12 @@ func (r *SexpArray) Type() *RegisteredType {
 }
 
 func (arr *SexpArray) SexpString(ps *PrintState) string {
+	ps, ok := ps.enter(arr)
+	if !ok {
+		return "[...]"
+	}
+	defer ps.leave(arr)
+
 	indInner := ""
 	indent := ps.GetIndent()
 	innerPs := ps.AddIndent(4) // generates a fresh new PrintState
@@ -315,37 +337,32 @@ func (arr *SexpArray) SexpString(ps *PrintState) string {
 		return opn + cls
 	}
 	ta := arr.IsFuncDeclTypeArray
-	str := opn
+	var str strings.Builder
+	str.WriteString(opn)
 
 	last := n - 1
-	var comma2 string
 	for i, sexp := range arr.Val {
-		str += indInner + sexp.SexpString(ps)
-		comma2 = comma
-		if i == last {
-			comma2 = ""
-		}
-		if ta {
-			if i%2 == 0 {
-				str += ":"
-			} else {
-				str += comma2 + " "
+		str.WriteString(indInner + sexp.SexpString(ps))
+		if ta && i%2 == 0 {
+			if i != last {
+				str.WriteString(":")
 			}
-		} else {
-			if pretty {
-				str += comma2 + "\n"
+			continue
+		}
+		if i != last {
+			str.WriteString(comma)
+			if pretty && !ta {
+				str.WriteString("\n")
 			} else {
-				str += comma2 + " "
+				str.WriteString(" ")
 			}
 		}
 	}
-	m := len(str)
 	if pretty {
-		str = str[:m-1] + "\n" + indInner + cls
-	} else {
-		str = str[:m-1] + indInner + cls
+		str.WriteString("\n")
 	}
-	return str
+	str.WriteString(indInner + cls)
+	return str.String()
 }
 
 func (e *SexpError) SexpString(ps *PrintState) string {
@@ -587,7 +604,7 @@ type SexpLazyArg struct {
 func NewSourceLazyArg(env *Zlisp, expr Sexp) *SexpLazyArg {
 	lazy := &SexpLazyArg{Expr: expr}
 	if env != nil {
-		lazy.Stack = env.linearstack.Clone()
+		lazy.Stack = env.visibleScopes()
 		lazy.CurFunc = env.curfunc
 	}
 	return lazy
diff --git a/zygo/generator.go b/zygo/generator.go
index 17efc50..431d879 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -850,6 +850,11 @@ func (gen *Generator) Generate(expr Sexp) error {
 		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
 	}
+	if err := gen.env.enterNested(); err != nil {
+		return err
+	}
+	defer gen.env.leaveNested()
+
 	switch e := expr.(type) {
 	case *SexpSymbol:
 		gen.AddInstruction(EnvToStackInstr{e})
@@ -867,15 +872,13 @@ func (gen *Generator) Generate(expr Sexp) error {
 			if isAssign && pos > 0 && legalLeftHandSide {
 				err := gen.GenerateAssignment(e, pos)
 				if err != nil {
-					return fmt.Errorf("Error generating %s:\n%v",
-						expr.SexpString(nil), err)
+					return errorGenerating(expr, err)
 				}
 				return nil
 			}
 			err := gen.GenerateCall(e)
 			if err != nil {
-				return fmt.Errorf("Error generating %s:\n%v",
-					expr.SexpString(nil), err)
+				return errorGenerating(expr, err)
 			}
 			return nil
 		} else {
@@ -890,6 +893,16 @@ func (gen *Generator) Generate(expr Sexp) error {
 	return nil
 }
 
+// errorGenerating says in which form err came up. The message
+// does not keep growing with every form around that one.
+func errorGenerating(expr Sexp, err error) error {
+	msg := err.Error()
+	if len(msg) > 10000 {
+		return err
+	}
+	return fmt.Errorf("Error generating %s:\n%v", expr.SexpString(nil), msg)
+}
+
 func (gen *Generator) GenerateAll(expressions []Sexp) error {
 	for _, expr := range expressions {
 		err := gen.Generate(expr)
@@ -1187,6 +1200,11 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 	}
 	arg := args[0]
 
+	if err := gen.env.enterNested(); err != nil {
+		return err
+	}
+	defer gen.env.leaveNested()
+
 	// need to handle arrays, since they can have unquotes
 	// in them too.
 	switch aaa := arg.(type) {
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index ec0a025..0185624 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -61,7 +61,9 @@ func hashHelper(expr Sexp) (hashcode int, isList bool, err error) {
 		return 0, true, nil
 	case *SexpArray:
 		hasher := fnv.New64a()
-		hashArrayHelper(e, hasher)
+		if err := hashArrayHelper(e, hasher, 1); err != nil {
+			return 0, false, err
+		}
 		return int(hasher.Sum64()), false, nil
 	}
 	return 0, false, fmt.Errorf("cannot hash type %T", expr)
@@ -70,12 +72,17 @@ func hashHelper(expr Sexp) (hashcode int, isList bool, err error) {
 // hashArrayHelper feeds the elements of an array key to hasher. It depends
 // only on the element values, never on how they print, so that keys which
 // compare equal hash alike whatever the pretty-print setting is.
-func hashArrayHelper(arr *SexpArray, hasher hash.Hash64) {
+func hashArrayHelper(arr *SexpArray, hasher hash.Hash64, depth int) error {
+	if depth > maxKeyNesting {
+		return errors.New("cannot hash array: it is cyclic or nested too deeply")
+	}
 	fmt.Fprintf(hasher, "[%d", len(arr.Val))
 	for _, elem := range arr.Val {
 		switch e := elem.(type) {
 		case *SexpArray:
-			hashArrayHelper(e, hasher)
+			if err := hashArrayHelper(e, hasher, depth+1); err != nil {
+				return err
+			}
 		case *SexpInt:
 			fmt.Fprintf(hasher, " n%g", float64(e.Val))
 		case *SexpChar:
@@ -90,18 +97,23 @@ func hashArrayHelper(arr *SexpArray, hasher hash.Hash64) {
 			fmt.Fprintf(hasher, " ?")
 		}
 	}
+	return nil
 }
 
+// maxKeyNesting is how deeply an array used as a hash key may be nested.
+const maxKeyNesting = 1000
+
 // unwrapHashKey lets h[6] name the key 6: an array of one
 // element used as a key stands for that element.
 func unwrapHashKey(key Sexp) Sexp {
-	for {
+	for i := 0; i < maxKeyNesting; i++ {
 		arr, isArray := key.(*SexpArray)
 		if !isArray || len(arr.Val) != 1 {
 			return key
 		}
 		key = arr.Val[0]
 	}
+	return key // hashHelper will refuse it
 }
 
 func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
@@ -892,6 +904,15 @@ func (hash *SexpHash) ShortName() string {
 }
 
 func (hash *SexpHash) SexpString(ps *PrintState) string {
+	ps, ok := ps.enter(hash)
+	if !ok {
+		if hash.TypeName == "hash" {
+			return "{...}"
+		}
+		return " (" + hash.TypeName + " ...)"
+	}
+	defer ps.leave(hash)
+
 	indInner := ""
 	indent := ps.GetIndent()
 	innerPs := ps.AddIndent(4) // generates a fresh new PrintState
@@ -903,20 +924,22 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 		indInner = strings.Repeat(" ", inner)
 		origIndInner = strings.Repeat(" ", indent)
 	}
-	str := " (" + hash.TypeName + " " + prettyEnd
+	opn := " (" + hash.TypeName + " " + prettyEnd
 
 	displayHashInCurly := false
 	comma := ""
 	asJSON := false
 	if hash.TypeName == "hash" {
 		displayHashInCurly = true
-		str = "{" + prettyEnd
+		opn = "{" + prettyEnd
 		if ps != nil && ps.PrintJSON {
 			comma = "," // be valid JSON
 			asJSON = true
 		}
 	}
 
+	var buf strings.Builder
+	buf.WriteString(opn)
 	lastKey := hash.NumKeys
 	onKey := 0
 	for _, key := range hash.KeyOrder {
@@ -925,27 +948,28 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 			onKey++
 			switch s := key.(type) {
 			case *SexpStr:
-				str += indInner + strconv.Quote(s.S) + ":"
+				buf.WriteString(indInner + strconv.Quote(s.S) + ":")
 			case *SexpSymbol:
 				if asJSON {
-					str += indInner + `"` + s.name + `":`
+					buf.WriteString(indInner + `"` + s.name + `":`)
 				} else {
-					str += indInner + s.name + ":"
+					buf.WriteString(indInner + s.name + ":")
 				}
 			default:
-				str += indInner + key.SexpString(innerPs) + ":"
+				buf.WriteString(indInner + key.SexpString(innerPs) + ":")
 			}
 			comma2 := comma
 			if onKey == lastKey {
 				comma2 = ""
 			}
-			str += val.SexpString(innerPs) + comma2 + " " + prettyEnd
+			buf.WriteString(val.SexpString(innerPs) + comma2 + " " + prettyEnd)
 
 		} else {
 			// ignore deleted keys
 			// don't panic(err)
 		}
 	}
+	str := buf.String()
 	if displayHashInCurly {
 		if onKey > 0 {
 			return str[:len(str)-1] + prettyEnd + origIndInner + "}"
@@ -1071,6 +1095,12 @@ func (h *SexpHash) NewSexpHashSelector(sym *SexpSymbol) *SexpHashSelector {
 }
 
 func (si *SexpHashSelector) SexpString(ps *PrintState) string {
+	ps, ok := ps.enter(si)
+	if !ok {
+		return "(hashSelector ...)"
+	}
+	defer ps.leave(si)
+
 	rhs, err := si.RHS(si.Container.Env)
 	if err != nil {
 		return fmt.Sprintf("SexpHashSelector error: could not get RHS: '%v'",
diff --git a/zygo/listutils.go b/zygo/listutils.go
index b69efad..3f9c348 100644
--- a/zygo/listutils.go
+++ b/zygo/listutils.go
@@ -23,42 +23,28 @@ func ListToArray(expr Sexp) ([]Sexp, error) {
 }
 
 func MakeList(expressions []Sexp) Sexp {
-	if len(expressions) == 0 {
-		return SexpNull
+	var list Sexp = SexpNull
+	for i := len(expressions) - 1; i >= 0; i-- {
+		list = Cons(expressions[i], list)
 	}
-
-	return Cons(expressions[0], MakeList(expressions[1:]))
+	return list
 }
 
 func MapList(env *Zlisp, fun *SexpFunction, expr Sexp) (Sexp, error) {
-	if expr == SexpNull {
-		return SexpNull, nil
-	}
-
-	var list = &SexpPair{}
-	switch e := expr.(type) {
-	case *SexpPair:
-		list.Head = e.Head
-		list.Tail = e.Tail
-	default:
-		return SexpNull, NotAList
-	}
-
-	var err error
-
-	list.Head, err = env.Apply(fun, []Sexp{list.Head})
-
-	if err != nil {
-		return SexpNull, err
-	}
-
-	list.Tail, err = MapList(env, fun, list.Tail)
-
-	if err != nil {
-		return SexpNull, err
+	mapped := []Sexp{}
+	for expr != SexpNull {
+		pair, isPair := expr.(*SexpPair)
+		if !isPair {
+			return SexpNull, NotAList
+		}
+		val, err := env.Apply(fun, []Sexp{pair.Head})
+		if err != nil {
+			return SexpNull, err
+		}
+		mapped = append(mapped, val)
+		expr = pair.Tail
 	}
-
-	return list, nil
+	return MakeList(mapped), nil
 }
 
 // O(n^2) for n total nodes in all lists. So this is
@@ -86,21 +72,15 @@ func ConcatTwoLists(a *SexpPair, b Sexp) (Sexp, error) {
 	if !IsList(b) {
 		return SexpNull, NotAList
 	}
-
-	if a.Tail == SexpNull {
-		return Cons(a.Head, b), nil
+	front, err := ListToArray(a)
+	if err != nil {
+		return SexpNull, err
 	}
-
-	switch t := a.Tail.(type) {
-	case *SexpPair:
-		newtail, err := ConcatTwoLists(t, b)
-		if err != nil {
-			return SexpNull, err
-		}
-		return Cons(a.Head, newtail), nil
+	result := b
+	for i := len(front) - 1; i >= 0; i-- {
+		result = Cons(front[i], result)
 	}
-
-	return SexpNull, NotAList
+	return result, nil
 }
 
 func ListLen(expr Sexp) (int, error) {
diff --git a/zygo/printstate.go b/zygo/printstate.go
index 16cec97..d1b14b8 100644
--- a/zygo/printstate.go
+++ b/zygo/printstate.go
@@ -13,6 +13,37 @@ type PrintState struct {
 	Indent    int
 	Seen      Seen
 	PrintJSON bool
+
+	// open holds the containers being printed, so that data which contains
+	// itself can be printed; it is shared by the states made by AddIndent.
+	open map[Sexp]bool
+}
+
+// maxPrintNesting is as deep as data is printed. Text that
+// is nested deeper could not be read back anyway.
+const maxPrintNesting = maxParseNesting
+
+// enter returns the state for printing what is inside x. It returns
+// false if x must not be entered because it is already being printed
+// or is nested too deeply. If it returns true then leave(x) must follow.
+func (ps *PrintState) enter(x Sexp) (*PrintState, bool) {
+	if ps == nil {
+		ps = &PrintState{}
+	}
+	if ps.open == nil {
+		cp := *ps
+		ps = &cp
+		ps.open = make(map[Sexp]bool)
+	}
+	if ps.open[x] || len(ps.open) >= maxPrintNesting {
+		return ps, false
+	}
+	ps.open[x] = true
+	return ps, true
+}
+
+func (ps *PrintState) leave(x Sexp) {
+	delete(ps.open, x)
 }
 
 func (ps *PrintState) SetSeen(x interface{}, name string) {
@@ -48,6 +79,7 @@ func (ps *PrintState) AddIndent(addme int) *PrintState {
 		Indent:    ps.Indent + addme,
 		Seen:      ps.Seen,
 		PrintJSON: ps.PrintJSON,
+		open:      ps.open,
 	}
 }
 
diff --git a/zygo/scopes.go b/zygo/scopes.go
index a7ae06e..5dcf42b 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -145,6 +145,21 @@ func (stack *Stack) activationStart() int {
 	return 0
 }
 
+// visibleScopes returns a stack of the scopes that names
+// are looked up in now, without the scopes of callers.
+func (env *Zlisp) visibleScopes() *Stack {
+	live := env.linearstack
+	start := live.activationStart()
+	stk := env.NewStack(live.Size() - start)
+	if start > 0 {
+		stk.Push(live.elements[0])
+	}
+	for _, elem := range live.elements[start : live.tos+1] {
+		stk.Push(elem)
+	}
+	return stk
+}
+
 // lookupLexical searches the activation on top of the stack, and then,
 // from the inside out, the activations its function was created in. It
 // never looks at the scopes of callers. If setVal is not nil the binding
@@ -283,6 +298,11 @@ func (scop *Scope) Show(env *Zlisp, ps *PrintState, label string) (s string, err
 	if ps == nil {
 		ps = NewPrintState()
 	}
+	if ps.Seen == nil {
+		cp := *ps
+		ps = &cp
+		ps.Seen = NewSeen()
+	}
 	if ps.GetSeen(scop) {
 		// This check is critical to prevent infinite looping in a cycle.
 		// Scopes like global are referenced by every package, and
diff --git a/zygo/stack.go b/zygo/stack.go
index e011b9a..7b6d1d0 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -194,10 +194,6 @@ func (stack *Stack) TruncateToSize(newsize int) {
 		newsize = 0
 	}
 	if newsize > len(stack.elements) {
-		el := make([]StackElem, newsize)
-		copy(el, stack.elements)
-		stack.elements = el
-		stack.tos = newsize - 1
 		return
 	}
 	for i := newsize; i < len(stack.elements); i++ {
diff --git a/zygo/typeutils.go b/zygo/typeutils.go
index fdc24a1..98d9538 100644
--- a/zygo/typeutils.go
+++ b/zygo/typeutils.go
@@ -14,32 +14,29 @@ func IsArray(expr Sexp) bool {
 }
 
 func IsList(expr Sexp) bool {
-	if expr == SexpNull {
-		return true
-	}
-	switch list := expr.(type) {
-	case *SexpPair:
-		return IsList(list.Tail)
+	for {
+		pair, isPair := expr.(*SexpPair)
+		if !isPair {
+			return expr == SexpNull
+		}
+		expr = pair.Tail
 	}
-	return false
 }
 
 func IsAssignmentList(expr Sexp, pos int) (bool, int) {
-	if expr == SexpNull {
-		return false, -1
-	}
-	switch list := expr.(type) {
-	case *SexpPair:
-		sym, isSym := list.Head.(*SexpSymbol)
-		if !isSym {
-			return IsAssignmentList(list.Tail, pos+1)
+	for {
+		list, isPair := expr.(*SexpPair)
+		if !isPair {
+			return false, -1
 		}
-		if sym.name == "=" || sym.name == ":=" {
-			return true, pos
+		if sym, isSym := list.Head.(*SexpSymbol); isSym {
+			if sym.name == "=" || sym.name == ":=" {
+				return true, pos
+			}
 		}
-		return IsAssignmentList(list.Tail, pos+1)
+		expr = list.Tail
+		pos++
 	}
-	return false, -1
 }
 
 func IsFloat(expr Sexp) bool {
-- 
2.43.0


From 1aba5d726ab9e102b10566dfbc4ca65bc71fe2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:22 +0000
Subject: [PATCH 19/58] fix: append and concat never write into storage another
 array uses

---
 zygo/arrayutils.go  | 2 +-
 zygo/environment.go | 3 ++-
 zygo/functions.go   | 6 ++++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index 34cfcce..69a319a 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -25,7 +25,7 @@ func ConcatArray(arr *SexpArray, rest []Sexp) (Sexp, error) {
 		return SexpNull, fmt.Errorf("ConcatArray called with nil arr")
 	}
 	var res SexpArray
-	res.Val = arr.Val
+	res.Val = arr.Val[:len(arr.Val):len(arr.Val)]
 	for i, x := range rest {
 		switch t := x.(type) {
 		case *SexpArray:
diff --git a/zygo/environment.go b/zygo/environment.go
index 3790dc2..9cb0939 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -938,7 +938,8 @@ func (env *Zlisp) FindObject(name string) (Sexp, bool) {
 
 func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 	if fun.user {
-		return fun.userfun(env, fun.name, args)
+		// the function may change its args: they can be the caller's data.
+		return fun.userfun(env, fun.name, append([]Sexp(nil), args...))
 	}
 
 	callArgs := make([]Sexp, len(args))
diff --git a/zygo/functions.go b/zygo/functions.go
index 1563795..132909a 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -610,15 +610,17 @@ func AppendFunction(name string) ZlispUserFunction {
 			return SexpNull, WrongNargs
 		}
 
+		// arrays are limited to their length, so that append cannot write
+		// over what another array holds in the same storage.
 		switch t := args[0].(type) {
 		case *SexpArray:
 			switch name {
 			case "append":
-				return &SexpArray{Val: append(t.Val, args[1]), Env: env, Typ: t.Typ}, nil
+				return &SexpArray{Val: append(t.Val[:len(t.Val):len(t.Val)], args[1]), Env: env, Typ: t.Typ}, nil
 			case "appendslice":
 				switch sl := args[1].(type) {
 				case *SexpArray:
-					return &SexpArray{Val: append(t.Val, sl.Val...), Env: env, Typ: t.Typ}, nil
+					return &SexpArray{Val: append(t.Val[:len(t.Val):len(t.Val)], sl.Val...), Env: env, Typ: t.Typ}, nil
 				default:
 					return SexpNull, fmt.Errorf("Second argument of appendslice must be slice")
 				}
-- 
2.43.0


From 9524da23ac69c707e06ce714a3b5967da9d7517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:19 +0000
Subject: [PATCH 20/58] fix: arrays made by map and keys have an array type,
 not that of their first element

---
 zygo/arrayutils.go | 8 ++------
 zygo/functions.go  | 5 -----
 2 files changed, 2 insertions(+), 11 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index 69a319a..fd556e9 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -6,18 +6,14 @@ func MapArray(env *Zlisp, fun *SexpFunction, arr *SexpArray) (Sexp, error) {
 	result := make([]Sexp, len(arr.Val))
 	var err error
 
-	var firstTyp *RegisteredType
 	for i := range arr.Val {
 		result[i], err = env.Apply(fun, arr.Val[i:i+1])
 		if err != nil {
-			return &SexpArray{Val: result, Typ: firstTyp, Env: env}, err
-		}
-		if firstTyp == nil {
-			firstTyp = result[i].Type()
+			return &SexpArray{Val: result, Env: env}, err
 		}
 	}
 
-	return &SexpArray{Val: result, Typ: firstTyp, Env: env}, nil
+	return &SexpArray{Val: result, Env: env}, nil
 }
 
 func ConcatArray(arr *SexpArray, rest []Sexp) (Sexp, error) {
diff --git a/zygo/functions.go b/zygo/functions.go
index 132909a..c85ef6c 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -388,11 +388,6 @@ func HashAccessFunction(name string) ZlispUserFunction {
 			arr := &SexpArray{Env: env}
 			for i := 0; i < n; i++ {
 				keys = append(keys, (hash.KeyOrder)[i])
-
-				// try to get a .Typ value going too... from the first available.
-				if arr.Typ == nil {
-					arr.Typ = (hash.KeyOrder)[i].Type()
-				}
 			}
 			arr.Val = keys
 			return arr, nil
-- 
2.43.0


From a41116eddb9d2d13902f0a83c4ca059c90a193a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 21/58] fix: arrays of and pointers to hashes have a type
 instead of crashing

---
 zygo/gotypereg.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index e066119..37d06b1 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -423,6 +423,15 @@ func compareRegisteredTypes(a *RegisteredType, bs Sexp) (int, error) {
 	return 1, nil
 }
 
+// goType is the Go type of values of this type. Types that
+// have no Go struct, such as hash, hold any value.
+func (p *RegisteredType) goType() reflect.Type {
+	if p.TypeCache == nil {
+		return reflect.TypeOf((*Sexp)(nil)).Elem()
+	}
+	return p.TypeCache
+}
+
 func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *RegisteredType) *RegisteredType {
 	Q("pointedToType = %#v", pointedToType)
 	ptrName := "*" + pointedToType.RegisteredName
@@ -431,7 +440,7 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 		Q("type named '%v' already registered, reusing the pointer type", ptrName)
 	} else {
 		Q("registering new pointer type '%v'", ptrName)
-		derivedType := reflect.PtrTo(pointedToType.TypeCache)
+		derivedType := reflect.PtrTo(pointedToType.goType())
 		ptrRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.New(derivedType), nil
 		})
@@ -450,7 +459,7 @@ func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *Regis
 		Q("type named '%v' already registered, re-using the type", sliceName)
 	} else {
 		Q("registering new slice type '%v'", sliceName)
-		derivedType := reflect.SliceOf(rt.TypeCache)
+		derivedType := reflect.SliceOf(rt.goType())
 		sliceRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.MakeSlice(derivedType, 0, 0), nil
 		})
-- 
2.43.0


From fed2e403e24234146f872bd74f6279a727dbc434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:09 +0000
Subject: [PATCH 22/58] fix: functions, loops and packages no longer add
 symbols to the table on every evaluation

---
 zygo/environment.go | 15 +++++++++++++++
 zygo/func.go        | 11 ++++++-----
 zygo/generator.go   | 10 +++++-----
 zygo/pratt.go       | 10 ++++++----
 4 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 9cb0939..432cc93 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -35,6 +35,7 @@ type Zlisp struct {
 	pc          int
 	nesting     int // nested evaluations and compilations in progress
 	nextsymbol  int
+	nextprivate int
 	before      []PreHook
 	after       []PostHook
 
@@ -162,6 +163,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.symtable = env.symtable
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
+	dupenv.nextprivate = env.nextprivate
 	dupenv.nesting = env.nesting
 	dupenv.before = env.before
 	dupenv.after = env.after
@@ -194,6 +196,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.symtable = env.symtable
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
+	dupenv.nextprivate = env.nextprivate
 	dupenv.nesting = env.nesting
 	dupenv.before = env.before
 	dupenv.after = env.after
@@ -278,6 +281,18 @@ func (env *Zlisp) GenSymbol(prefix string) *SexpSymbol {
 	}
 }
 
+// privateSymbol returns a fresh symbol for the generator's own use: the
+// mark of a loop or of a package, the name of an anonymous function. It is
+// not entered in the symbol table, where it would stay for good although
+// no program can name it; its number cannot be that of an interned symbol.
+func (env *Zlisp) privateSymbol(prefix string) *SexpSymbol {
+	env.nextprivate++
+	return &SexpSymbol{
+		name:   prefix + strconv.Itoa(env.nextprivate),
+		number: -env.nextprivate,
+	}
+}
+
 func (env *Zlisp) CurrentFunctionSize() int {
 	if env.curfunc.user {
 		return 0
diff --git a/zygo/func.go b/zygo/func.go
index 7d28219..b5018c8 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -25,7 +25,6 @@ func FuncBuilder(env *Zlisp, name string,
 	returnsLoc := 2
 	bodyLoc := 3
 	isAnon := false
-	_ = isAnon
 
 	var symN *SexpSymbol
 	switch b := args[0].(type) {
@@ -51,7 +50,7 @@ func FuncBuilder(env *Zlisp, name string,
 			bodyLoc++
 		} else {
 			// anonymous function
-			symN = env.GenSymbol("__anon")
+			symN = env.privateSymbol("__anon")
 			isAnon = true
 			inputsLoc--
 			returnsLoc--
@@ -208,9 +207,11 @@ func FuncBuilder(env *Zlisp, name string,
 	invok, err := env.datastack.PopExpr()
 	panicOn(err) // we just pushed in the clos.Execute(), so this should always be err == nil
 	env.pc = notePc
-	err = env.LexicalBindSymbol(symN, invok)
-	if err != nil {
-		return SexpNull, fmt.Errorf("internal error: could not bind symN:'%s' into env: %v", symN.name, err)
+	if !isAnon {
+		err = env.LexicalBindSymbol(symN, invok)
+		if err != nil {
+			return SexpNull, fmt.Errorf("internal error: could not bind symN:'%s' into env: %v", symN.name, err)
+		}
 	}
 
 	if len(body) > 0 {
diff --git a/zygo/generator.go b/zygo/generator.go
index 431d879..e30f9d1 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -127,7 +127,7 @@ func buildSexpFun(
 	gen.Tail = true
 
 	if len(name) == 0 {
-		gen.funcname = env.GenSymbol("__anon").name
+		gen.funcname = env.privateSymbol("__anon").name
 	} else {
 		gen.funcname = name
 	}
@@ -974,14 +974,14 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 	var loop *Loop
 	if foundSym {
 		loop = &Loop{
-			stmtname: gen.env.GenSymbol("__loop_" + labelsym.name + "_"),
+			stmtname: gen.env.privateSymbol("__loop_" + labelsym.name + "_"),
 			//label:    &labelsym,
 			label:      labelsym,
 			scopeDepth: gen.scopes,
 		}
 	} else {
 		loop = &Loop{
-			stmtname:   gen.env.GenSymbol("__loop"),
+			stmtname:   gen.env.privateSymbol("__loop"),
 			scopeDepth: gen.scopes,
 		}
 	}
@@ -1518,9 +1518,9 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 		return fmt.Errorf("package name must be symbol or string")
 	}
 
-	// use GenSymbol so we are sure to have a unique point
+	// use a private symbol so we are sure to have a unique point
 	// to aim at when cleaning up.
-	symPkgName := gen.env.GenSymbol(pkgName)
+	symPkgName := gen.env.privateSymbol(pkgName)
 
 	gen.AddInstruction(AddScopeInstr{Name: pkgName})
 	gen.scopes++
diff --git a/zygo/pratt.go b/zygo/pratt.go
index ce770fd..28a2649 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -445,7 +445,7 @@ func lowerRangeBinding(env *Zlisp, targets []*SexpSymbol, define bool, sourceSym
 		return MakeList(append(scoped, body...))
 	}
 
-	pairSym := env.GenSymbol("__range_pair")
+	pairSym := env.MakeSymbol("__range_pair0")
 	pairBindings := &SexpArray{Val: []Sexp{pairSym, pair}, Env: env}
 	beginArgs := []Sexp{
 		env.MakeSymbol("begin"),
@@ -485,9 +485,11 @@ func lowerRangeFor(env *Zlisp, label *SexpSymbol, header []Sexp, body []Sexp) (S
 		return SexpNull, true, err
 	}
 
-	sourceSym := env.GenSymbol("__range_src")
-	lenSym := env.GenSymbol("__range_len")
-	indexSym := env.GenSymbol("__range_i")
+	// Every range loop has a scope of its own for these, where the inner of
+	// two nested loops may hide the outer's; a program cannot name them.
+	sourceSym := env.MakeSymbol("__range_src0")
+	lenSym := env.MakeSymbol("__range_len0")
+	indexSym := env.MakeSymbol("__range_i0")
 	letBindings := &SexpArray{
 		Val: []Sexp{
 			sourceSym, source,
-- 
2.43.0


From a59a69e82f491f3fa30278fe91315c11a3bbc2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:31 +0000
Subject: [PATCH 23/58] fix: types a program declares belong to its
 interpreter, not to the whole process

---
 zygo/builders.go    |  87 +++++++++------------
 zygo/callgo.go      |  30 +++-----
 zygo/environment.go |   4 +
 zygo/expressions.go |   6 ++
 zygo/functions.go   |   2 +-
 zygo/gotypereg.go   | 183 +++++++++++++++++++++++++++++++++-----------
 zygo/hashutils.go   |  45 +++++------
 zygo/jsonmsgp.go    |   8 +-
 zygo/scopes.go      |   9 +++
 9 files changed, 226 insertions(+), 148 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index d214fdc..6cfa599 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -63,6 +63,7 @@ type RecordDefn struct {
 	Name      string
 	Fields    []*SexpField
 	FieldType map[string]*RegisteredType
+	regType   *RegisteredType
 }
 
 func NewRecordDefn() *RecordDefn {
@@ -85,9 +86,7 @@ func (r *RecordDefn) SetFields(flds []*SexpField) {
 }
 
 func (p *RecordDefn) Type() *RegisteredType {
-	rt := GoStructRegistry.Registry[p.Name]
-	//Q("RecordDefn) Type() sees rt = %v", rt)
-	return rt
+	return p.regType
 }
 
 // pretty print a struct
@@ -279,28 +278,39 @@ func StructBuilder(env *Zlisp, name string,
 
 	structName := symN.name
 
-	{
-		// begin enable recursion -- add ourselves to the env early, then
-		// update later, so that structs can refer to themselves.
-		udsR := NewRecordDefn()
-		udsR.SetName(structName)
-		rtR := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
-			return udsR, nil
-		})
-		rtR.UserStructDefn = udsR
-		rtR.DisplayAs = structName
-		GoStructRegistry.RegisterUserdef(rtR, false, structName)
-
-		// overwrite any existing definition, deliberately ignore any error,
-		// as there may not be a prior definition present at all.
+	uds := NewRecordDefn()
+	uds.SetName(structName)
+	rt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
+		return uds, nil
+	})
+	rt.UserStructDefn = uds
+	rt.DisplayAs = structName
+	uds.regType = rt
+
+	// To enable recursion, bind the type before its fields are known, so that
+	// structs can refer to themselves. Overwrite any existing definition, but
+	// keep it, to put it back if this declaration fails.
+	prevType := env.types.byName[structName]
+	prevBinding, hadBinding := env.linearstack.topOfStackScopeBinding(symN)
+	declared := false
+	defer func() {
+		if declared {
+			return
+		}
+		env.types.set(structName, prevType)
 		env.linearstack.DeleteSymbolFromTopOfStackScope(symN)
-
-		err := env.LexicalBindSymbol(symN, rtR)
-		if err != nil {
-			return SexpNull, fmt.Errorf("struct builder could not bind symbol '%s': '%v'",
-				structName, err)
+		if hadBinding {
+			env.LexicalBindSymbol(symN, prevBinding)
 		}
-		// end enable recursion
+	}()
+	env.registerType(rt, false, structName)
+
+	// there may not be a prior definition present at all.
+	env.linearstack.DeleteSymbolFromTopOfStackScope(symN)
+	err := env.LexicalBindSymbol(symN, rt)
+	if err != nil {
+		return SexpNull, fmt.Errorf("struct builder could not bind symbol '%s': '%v'",
+			structName, err)
 	}
 	var xar []Sexp
 	var flat []*SexpField
@@ -358,30 +368,8 @@ func StructBuilder(env *Zlisp, name string,
 		}
 	} // end n == 2
 
-	uds := NewRecordDefn()
-	uds.SetName(structName)
 	uds.SetFields(flat)
-	//Q("good: made typeDefnHash: '%s'", uds.SexpString(nil))
-	rt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
-		return uds, nil
-	})
-	rt.UserStructDefn = uds
-	rt.DisplayAs = structName
-	GoStructRegistry.RegisterUserdef(rt, false, structName)
-	//Q("good: registered new userdefined struct '%s'", structName)
-
-	// replace our recursive-reference-enabling symbol with the real one.
-	err := env.linearstack.DeleteSymbolFromTopOfStackScope(symN)
-	if err != nil {
-		return SexpNull, fmt.Errorf("internal error: should have already had symbol '%s' "+
-			"bound, but DeleteSymbolFromTopOfStackScope returned error: '%v'",
-			symN.name, err)
-	}
-	err = env.LexicalBindSymbol(symN, rt)
-	if err != nil {
-		return SexpNull, fmt.Errorf("late: struct builder could not bind symbol '%s': '%v'",
-			structName, err)
-	}
+	declared = true
 	//Q("good: bound symbol '%s' to RegisteredType '%s'", symN.SexpString(nil), rt.SexpString(nil))
 	return rt, nil
 }
@@ -674,8 +662,7 @@ func ArrayOfFunction(env *Zlisp, name string,
 		return reflect.New(derivedType), nil
 	})
 	arrayRt.DisplayAs = fmt.Sprintf("(%s %s)", name, rt.DisplayAs)
-	arrayName := "arrayOf" + rt.RegisteredName
-	GoStructRegistry.RegisterUserdef(arrayRt, false, arrayName)
+	arrayRt.prepareUserdef(false, "arrayOf"+rt.RegisteredName)
 	return arrayRt, nil
 }
 
@@ -742,9 +729,9 @@ func VarBuilder(env *Zlisp, name string,
 			_ = rd
 			//Q("we have RecordDefn rd = %#v", *rd)
 		}
-		valSexp = &SexpReflect{Val: reflect.ValueOf(v)}
+		valSexp = &SexpReflect{Val: reflect.ValueOf(v), Typ: rt}
 	default:
-		valSexp = &SexpReflect{Val: reflect.ValueOf(v)}
+		valSexp = &SexpReflect{Val: reflect.ValueOf(v), Typ: rt}
 	}
 
 	//Q("var decl: valSexp is '%v'", valSexp.SexpString(nil))
diff --git a/zygo/callgo.go b/zygo/callgo.go
index feea898..8d19e30 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -160,30 +160,18 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 			default:
 				// go through the type registry
 				found := false
-				for hashName, factory := range GoStructRegistry.Registry {
-					st, err := factory.Factory(env, nil)
+				if rt := env.typeOfGoValue(f); rt != nil {
+					retHash, err := MakeHash([]Sexp{}, rt.RegisteredName, env)
 					if err != nil {
-						return SexpNull, fmt.Errorf("MakeHash '%s' problem on Factory call: %s",
-							hashName, err)
+						return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
+							rt.RegisteredName, err)
 					}
-					//Q("got st from Factory, checking if types match")
-					if reflect.ValueOf(st).Type() == out[i].Type() {
-						//Q("types match")
-						retHash, err := MakeHash([]Sexp{}, factory.RegisteredName, env)
-						if err != nil {
-							return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-								hashName, err)
-						}
-
-						//Q("filling from shadow")
-						err = retHash.FillHashFromShadow(env, f)
-						if err != nil {
-							return SexpNull, err
-						}
-						r = append(r, retHash)
-						found = true
-						break
+					err = retHash.FillHashFromShadow(env, f)
+					if err != nil {
+						return SexpNull, err
 					}
+					r = append(r, retHash)
+					found = true
 				}
 				if !found {
 					r = append(r, &SexpReflect{Val: out[i]})
diff --git a/zygo/environment.go b/zygo/environment.go
index 432cc93..b5c55fd 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -36,6 +36,7 @@ type Zlisp struct {
 	nesting     int // nested evaluations and compilations in progress
 	nextsymbol  int
 	nextprivate int
+	types       *typeTable
 	before      []PreHook
 	after       []PostHook
 
@@ -114,6 +115,7 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.symtable = make(map[string]int)
 	env.revsymtable = make(map[int]string)
 	env.nextsymbol = 1
+	env.types = newTypeTable()
 	env.before = []PreHook{}
 	env.after = []PostHook{}
 	env.infixOps = make(map[string]*InfixOp)
@@ -164,6 +166,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
 	dupenv.nextprivate = env.nextprivate
+	dupenv.types = env.types
 	dupenv.nesting = env.nesting
 	dupenv.before = env.before
 	dupenv.after = env.after
@@ -197,6 +200,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
 	dupenv.nextprivate = env.nextprivate
+	dupenv.types = env.types
 	dupenv.nesting = env.nesting
 	dupenv.before = env.before
 	dupenv.after = env.after
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 8908dd7..eaa3622 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -137,9 +137,15 @@ func (r *SexpRaw) Type() *RegisteredType {
 
 type SexpReflect struct {
 	Val reflect.Value
+
+	// Typ is the declared type, when known.
+	Typ *RegisteredType
 }
 
 func (r *SexpReflect) Type() *RegisteredType {
+	if r.Typ != nil {
+		return r.Typ
+	}
 	k := reflectName(reflect.Value(r.Val))
 	//Q("SexpReflect.Type() looking up type named '%s'", k)
 	ty, ok := GoStructRegistry.Registry[k]
diff --git a/zygo/functions.go b/zygo/functions.go
index c85ef6c..57695bd 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -1914,7 +1914,7 @@ func (env *Zlisp) SubstituteRHS(args []Sexp) ([]Sexp, error) {
 }
 
 func ScriptFacingRegisterDemoStructs(env *Zlisp, name string, args []Sexp) (Sexp, error) {
-	RegisterDemoStructs()
+	registerDemoStructs(env.registerType)
 	return SexpNull, nil
 }
 
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index 37d06b1..ccb0499 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -3,6 +3,7 @@ package zygo
 import (
 	"fmt"
 	"reflect"
+	"sync"
 	"time"
 )
 
@@ -64,12 +65,7 @@ func (r *GoStructRegistryType) RegisterPointer(pointedToName string, pointedToTy
 }
 
 func (r *GoStructRegistryType) register(name string, e *RegisteredType, isUser bool) {
-	if !e.initDone {
-		e.Init()
-	}
-	e.RegisteredName = name
-	e.Aliases[name] = true
-	e.Aliases[e.ReflectName] = true
+	e.setName(name)
 
 	_, found := r.Registry[name]
 	if !found {
@@ -89,6 +85,26 @@ func (r *GoStructRegistryType) register(name string, e *RegisteredType, isUser b
 	r.Registry[e.ReflectName] = e
 }
 
+func (e *RegisteredType) setName(name string) {
+	if !e.initDone {
+		e.Init()
+	}
+	e.RegisteredName = name
+	e.Aliases[name] = true
+	e.Aliases[e.ReflectName] = true
+}
+
+func (e *RegisteredType) prepareUserdef(hasShadowStruct bool, name string) {
+	e.setName(name)
+	e.IsUser = true
+	e.hasShadowStruct = hasShadowStruct
+
+	e.Constructor = MakeUserFunction("__struct_"+name, StructConstructorFunction)
+	if e.DisplayAs == "" {
+		e.DisplayAs = name
+	}
+}
+
 func (e *RegisteredType) Init() {
 	e.Aliases = make(map[string]bool)
 	val, err := e.Factory(nil, nil)
@@ -128,13 +144,7 @@ func (r *GoStructRegistryType) RegisterUserdef(
 			e0 = &rt
 		}
 		r.register(name, e0, true)
-		e0.IsUser = true
-		e0.hasShadowStruct = hasShadowStruct
-
-		e0.Constructor = MakeUserFunction("__struct_"+name, StructConstructorFunction)
-		if e0.DisplayAs == "" {
-			e0.DisplayAs = name
-		}
+		e0.prepareUserdef(hasShadowStruct, name)
 	}
 }
 
@@ -161,6 +171,78 @@ func (r *GoStructRegistryType) EnvAvail(env *Zlisp) {
 	r.LazyFunc = make(map[string]ZlispUserFunction)
 }
 
+// typeTable holds the types that the programs of one interpreter declare:
+// structs, and the records they make with names of their own. They are not
+// put in the GoStructRegistry, which all interpreters of the process share.
+type typeTable struct {
+	byName map[string]*RegisteredType
+	order  []string
+}
+
+func newTypeTable() *typeTable {
+	return &typeTable{byName: make(map[string]*RegisteredType)}
+}
+
+// set binds name to e; a nil e removes the name.
+func (t *typeTable) set(name string, e *RegisteredType) {
+	if e == nil {
+		delete(t.byName, name)
+		return
+	}
+	t.byName[name] = e
+	for _, nm := range t.order {
+		if nm == name {
+			return
+		}
+	}
+	t.order = append(t.order, name)
+}
+
+// lookupType finds a type by name among those declared in env, then among
+// those registered by the host program. It returns nil if there is none.
+func (env *Zlisp) lookupType(name string) *RegisteredType {
+	if env != nil && env.types != nil {
+		if rt := env.types.byName[name]; rt != nil {
+			return rt
+		}
+	}
+	return GoStructRegistry.Lookup(name)
+}
+
+// registerType is RegisterUserdef for a type that only env knows.
+func (env *Zlisp) registerType(e *RegisteredType, hasShadowStruct bool, name string) {
+	e.prepareUserdef(hasShadowStruct, name)
+	if env == nil || env.types == nil {
+		return
+	}
+	env.types.set(name, e)
+	if hasShadowStruct {
+		env.types.set(e.ReflectName, e)
+	}
+}
+
+// typeOfGoValue finds the type whose factory makes values of
+// the same Go type as r: the first one registered, if several do.
+func (env *Zlisp) typeOfGoValue(r interface{}) *RegisteredType {
+	ty := reflect.TypeOf(r)
+	if ty == nil {
+		return nil
+	}
+	for _, name := range ListRegisteredTypes {
+		if rt := GoStructRegistry.Registry[name]; rt != nil && rt.TypeCache == ty {
+			return rt
+		}
+	}
+	if env != nil && env.types != nil {
+		for _, name := range env.types.order {
+			if rt := env.types.byName[name]; rt != nil && rt.TypeCache == ty {
+				return rt
+			}
+		}
+	}
+	return nil
+}
+
 // the type of all maker functions
 
 type MakeGoStructFunc func(env *Zlisp, h *SexpHash) (interface{}, error)
@@ -195,8 +277,15 @@ type RegisteredType struct {
 	DisplayAs      string
 	UserStructDefn *RecordDefn
 	IsPointer      bool
+
+	// the types of pointers to and slices of this type, once made;
+	// guarded by derivedTypesMut.
+	ptrType   *RegisteredType
+	sliceType *RegisteredType
 }
 
+var derivedTypesMut sync.Mutex
+
 func (p *RegisteredType) TypeCheckRecord(hash *SexpHash) error {
 	Q("in RegisteredType.TypeCheckRecord(hash = '%v')", hash.SexpString(nil))
 	if hash.TypeName == "field" {
@@ -388,7 +477,12 @@ func TypeListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if narg != 0 {
 		return SexpNull, WrongNargs
 	}
-	r := ListRegisteredTypes
+	r := append([]string{}, ListRegisteredTypes...)
+	for _, nm := range env.types.order {
+		if env.types.byName[nm] != nil {
+			r = append(r, nm)
+		}
+	}
 	s := make([]Sexp, len(r))
 	for i := range r {
 		s[i] = &SexpStr{S: r[i]}
@@ -433,70 +527,69 @@ func (p *RegisteredType) goType() reflect.Type {
 }
 
 func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *RegisteredType) *RegisteredType {
-	Q("pointedToType = %#v", pointedToType)
-	ptrName := "*" + pointedToType.RegisteredName
-	ptrRt := gsr.Lookup(ptrName)
-	if ptrRt != nil {
-		Q("type named '%v' already registered, reusing the pointer type", ptrName)
-	} else {
-		Q("registering new pointer type '%v'", ptrName)
+	derivedTypesMut.Lock()
+	defer derivedTypesMut.Unlock()
+
+	if pointedToType.ptrType == nil {
 		derivedType := reflect.PtrTo(pointedToType.goType())
-		ptrRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
+		ptrRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.New(derivedType), nil
 		})
 		ptrRt.DisplayAs = fmt.Sprintf("(* %s)", pointedToType.DisplayAs)
-		ptrRt.RegisteredName = ptrName
-		gsr.RegisterUserdef(ptrRt, false, ptrName)
+		ptrRt.prepareUserdef(false, "*"+pointedToType.RegisteredName)
+		pointedToType.ptrType = ptrRt
 	}
-	return ptrRt
+	return pointedToType.ptrType
 }
 
 func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *RegisteredType {
-	//sliceName := "sliceOf" + rt.RegisteredName
-	sliceName := "[]" + rt.RegisteredName
-	sliceRt := gsr.Lookup(sliceName)
-	if sliceRt != nil {
-		Q("type named '%v' already registered, re-using the type", sliceName)
-	} else {
-		Q("registering new slice type '%v'", sliceName)
+	derivedTypesMut.Lock()
+	defer derivedTypesMut.Unlock()
+
+	if rt.sliceType == nil {
 		derivedType := reflect.SliceOf(rt.goType())
-		sliceRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
+		sliceRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.MakeSlice(derivedType, 0, 0), nil
 		})
+		sliceName := "[]" + rt.RegisteredName
 		sliceRt.DisplayAs = fmt.Sprintf("(%s)", sliceName)
-		sliceRt.RegisteredName = sliceName
-		gsr.RegisterUserdef(sliceRt, false, sliceName)
+		sliceRt.prepareUserdef(false, sliceName)
+		rt.sliceType = sliceRt
 	}
-	return sliceRt
+	return rt.sliceType
 }
 
 func RegisterDemoStructs() {
+	registerDemoStructs(func(e *RegisteredType, hasShadowStruct bool, name string) {
+		GoStructRegistry.RegisterUserdef(e, hasShadowStruct, name)
+	})
+}
 
-	gsr := &GoStructRegistry
+func registerDemoStructs(register func(e *RegisteredType, hasShadowStruct bool, name string)) {
 
 	// demo and user defined structs
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &Event{}, nil
 	}}, true, "eventdemo")
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &Person{}, nil
 	}}, true, "persondemo")
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &Snoopy{}, nil
 	}}, true, "snoopy")
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &Hornet{}, nil
 	}}, true, "hornet")
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &Hellcat{}, nil
 	}}, true, "hellcat")
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &Weather{}, nil
 	}}, true, "weather")
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &Plane{}, nil
 	}}, true, "plane")
-	gsr.RegisterUserdef(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	register(&RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &SetOfPlanes{}, nil
 	}}, true, "setOfPlanes")
 }
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 0185624..4abfb2a 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -145,7 +145,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 	var iface interface{}
 	jsonMap := make(map[string]*HashFieldDet)
 
-	factory := GoStructRegistry.Lookup(typename)
+	factory := env.lookupType(typename)
 	if factory == nil {
 		factory = &RegisteredType{Factory: MakeGoStructFunc(func(env *Zlisp, h *SexpHash) (interface{}, error) { return MakeHash(nil, typename, env) })}
 		factory.Aliases = make(map[string]bool)
@@ -193,9 +193,8 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 		k++
 	}
 
-	//Q("doing factory, foundRecordType := GoStructRegistry.Registry[typename]")
-	factoryShad, foundRecordType := GoStructRegistry.Registry[typename]
-	if foundRecordType {
+	factoryShad := env.lookupType(typename)
+	if factoryShad != nil {
 		//Q("factoryShad = '%#v' for typename='%s'\n", factoryShad, typename)
 		if factoryShad.hasShadowStruct {
 			//Q("\n in MakeHash: found struct associated with '%s'\n", typename)
@@ -218,7 +217,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 		factory.ReflectName = typename
 		factory.DisplayAs = typename
 
-		GoStructRegistry.RegisterUserdef(factory, false, typename)
+		env.registerType(factory, false, typename)
 	}
 
 	return &hash, nil
@@ -321,7 +320,7 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 		//Q("SexpHash.TypeCheckField() sees nil has.GoStructFactory.UserStructDefn, bailing out.")
 
 		// check in the registry for this type!
-		rt := GoStructRegistry.Lookup(h.TypeName)
+		rt := h.Env.lookupType(h.TypeName)
 
 		// was it found? If so, use it!
 		if rt != nil && rt.UserStructDefn != nil {
@@ -758,29 +757,17 @@ func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp,
 	// check for one of our registered structs
 
 	// go through the type registry upfront
-	for hashName, factory := range GoStructRegistry.Registry {
-		//P("fillHashHelper is trying hashName='%s'", hashName)
-		st, err := factory.Factory(env, nil)
+	if rt := env.typeOfGoValue(r); rt != nil {
+		retHash, err := MakeHash([]Sexp{}, rt.RegisteredName, env)
 		if err != nil {
-			return SexpNull, err
+			return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
+				rt.RegisteredName, err)
 		}
-		if reflect.ValueOf(st).Type() == reflect.ValueOf(r).Type() {
-			//Q("we have a registered struct match for st=%T and r=%T", st, r)
-			retHash, err := MakeHash([]Sexp{}, hashName, env)
-			if err != nil {
-				return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-					hashName, err)
-			}
-
-			err = retHash.FillHashFromShadow(env, r)
-			if err != nil {
-				return SexpNull, err
-			}
-			//Q("retHash = %#v\n", retHash)
-			return retHash, nil // or return sx?
-		} else {
-			//Q("fillHashHelper: no match for st=%T and r=%T", st, r)
+		err = retHash.FillHashFromShadow(env, r)
+		if err != nil {
+			return SexpNull, err
 		}
+		return retHash, nil
 	}
 
 	//Q("fillHashHelper: trying basic non-struct types for r=%T", r)
@@ -983,7 +970,11 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 }
 
 func (r *SexpHash) Type() *RegisteredType {
-	return GoStructRegistry.Registry[r.TypeName]
+	if r.GoStructFactory != nil && r.GoStructFactory.UserStructDefn != nil {
+		// the definition in force when r was made
+		return r.GoStructFactory
+	}
+	return r.Env.lookupType(r.TypeName)
 }
 
 func compareHash(a *SexpHash, bs Sexp) (int, error) {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 83b4c5f..fa9dfb6 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -703,8 +703,8 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 		} else {
 			//vv("ToGo: tn '%s' does not have GoShadowStruct set, making a new one", tn)
 
-			factory, hasMaker := GoStructRegistry.Registry[tn]
-			if !hasMaker {
+			factory := env.lookupType(tn)
+			if factory == nil {
 				return SexpNull, fmt.Errorf("type '%s' not registered in GoStructRegistry", tn)
 			}
 			newStruct, err = factory.Factory(env, asHash)
@@ -1062,8 +1062,8 @@ func SexpToGoStructs(
 		}
 
 		// use targVa, but check against the type in the registry for sanity/type checking.
-		factory, hasMaker := GoStructRegistry.Registry[tn]
-		if !hasMaker {
+		factory := env.lookupType(tn)
+		if factory == nil {
 			panic(fmt.Errorf("type '%s' not registered in GoStructRegistry", tn))
 			//return nil, fmt.Errorf("type '%s' not registered in GoStructRegistry", tn)
 		}
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 5dcf42b..2e2c06a 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -248,6 +248,15 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 	return nil
 }
 
+// topOfStackScopeBinding returns what sym is bound to in the innermost scope.
+func (stack *Stack) topOfStackScopeBinding(sym *SexpSymbol) (Sexp, bool) {
+	if stack.IsEmpty() {
+		return nil, false
+	}
+	val, present := stack.elements[stack.tos].(*Scope).Map[sym.number]
+	return val, present
+}
+
 func (stack *Stack) DeleteSymbolFromTopOfStackScope(sym *SexpSymbol) error {
 	if stack.IsEmpty() {
 		panic("empty stack!!")
-- 
2.43.0


From c1df05acc8b3ea74ef4281afa36542923b6b1a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:46 +0000
Subject: [PATCH 24/58] fix: printf and sprintf show values, not the addresses
 inside them

---
 zygo/functions.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zygo/functions.go b/zygo/functions.go
index 57695bd..e11f2fd 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -787,9 +787,15 @@ func PrintFunction(name string) ZlispUserFunction {
 			} else {
 				ar := make([]interface{}, len(args)-1)
 				for i := 0; i < len(ar); i++ {
-					switch x := args[i+1].(type) {
+					arg, err := env.RValue(args[i+1])
+					if err != nil {
+						return SexpNull, err
+					}
+					switch x := arg.(type) {
 					case *SexpInt:
 						ar[i] = x.Val
+					case *SexpUint64:
+						ar[i] = x.Val
 					case *SexpBool:
 						ar[i] = x.Val
 					case *SexpFloat:
@@ -801,7 +807,8 @@ func PrintFunction(name string) ZlispUserFunction {
 					case *SexpTime:
 						ar[i] = x.Tm.In(NYC)
 					default:
-						ar[i] = args[i+1]
+						// the Go representation would show addresses
+						ar[i] = arg.SexpString(nil)
 					}
 				}
 				if name == "printf" {
-- 
2.43.0


From 28ff2dd967bde9f4f50433d91b4fadcdc055d1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:27 +0000
Subject: [PATCH 25/58] fix: error texts and togo show values, not Go addresses

---
 zygo/builders.go    |  2 +-
 zygo/callgo.go      |  9 ++----
 zygo/environment.go | 15 ++++-----
 zygo/functions.go   | 10 +++---
 zygo/hashutils.go   |  4 +--
 zygo/jsonmsgp.go    | 77 +++++++++++++++++++++++++++++++++++++++------
 zygo/pratt.go       |  6 ++--
 zygo/repl.go        |  2 +-
 zygo/system.go      |  6 ++--
 zygo/vm.go          |  2 +-
 10 files changed, 94 insertions(+), 39 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 6cfa599..3ce05a5 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -613,7 +613,7 @@ func baseConstruct(env *Zlisp, f *RegisteredType, nargs int) (Sexp, error) {
 		}
 		return mybool, nil
 	default:
-		return SexpNull, fmt.Errorf("unhandled case in baseConstruct, arg = %#v/type=%T", arg, arg)
+		return SexpNull, fmt.Errorf("unhandled case in baseConstruct, arg = %v/type=%T", arg.SexpString(nil), arg)
 	}
 	//return SexpNull, fmt.Errorf("unhandled no-arg case in baseConstruct, v has type=%T", v)
 }
diff --git a/zygo/callgo.go b/zygo/callgo.go
index 8d19e30..e0b820a 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -3,7 +3,6 @@ package zygo
 import (
 	"fmt"
 	"reflect"
-	"runtime"
 )
 
 // call Go methods
@@ -18,15 +17,13 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	// protect against bad calls/bad reflection
 	var wasPanic bool
 	var recovered interface{}
-	tr := make([]byte, 16384)
-	trace := &tr
+	var trace string
 	sx, err := func() (Sexp, error) {
 		defer func() {
 			recovered = recover()
 			if recovered != nil {
 				wasPanic = true
-				nbyte := runtime.Stack(*trace, false)
-				*trace = (*trace)[:nbyte]
+				trace = goStackTrace(".CallGoMethodFunction")
 			}
 		}()
 
@@ -183,7 +180,7 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if wasPanic {
 		return SexpNull, fmt.Errorf("\n recovered from panic "+
 			"during CallGo. panic on = '%v'\n"+
-			"stack trace:\n%s\n", recovered, string(*trace))
+			"stack trace:\n%s\n", recovered, trace)
 	}
 	return sx, err
 }
diff --git a/zygo/environment.go b/zygo/environment.go
index b5c55fd..0c50bdb 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"runtime"
 	"strconv"
+	"strings"
 )
 
 type PreHook func(*Zlisp, string, []Sexp)
@@ -559,7 +560,7 @@ func (env *Zlisp) CallResolved(funcobj Sexp, callName string, args []Sexp) error
 	if funcobj == nil {
 		return fmt.Errorf("not a function on top of datastack: <nil>")
 	}
-	return fmt.Errorf("not a function on top of datastack: '%T/%#v'", funcobj, funcobj)
+	return fmt.Errorf("not a function on top of datastack: '%T/%v'", funcobj, funcobj.SexpString(nil))
 }
 
 func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
@@ -656,16 +657,16 @@ func (env *Zlisp) ReturnFromFunction() error {
 	return err
 }
 
-// goStackTrace describes the running goroutine, without the addresses and
+// goStackTrace describes the running goroutine up to the function upto, without the addresses and
 // goroutine numbers that differ from run to run.
-func goStackTrace() string {
+func goStackTrace(upto string) string {
 	pcs := make([]uintptr, 64)
 	frames := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs)])
 	s := ""
 	for {
 		frame, more := frames.Next()
 		s += fmt.Sprintf("%s\n\t%s:%d\n", frame.Function, frame.File, frame.Line)
-		if !more {
+		if !more || strings.HasSuffix(frame.Function, upto) {
 			return s
 		}
 	}
@@ -714,7 +715,7 @@ func (env *Zlisp) CallUserFunction(
 			recovered = recover()
 			if recovered != nil {
 				wasPanic = true
-				trace = goStackTrace()
+				trace = goStackTrace(".CallUserFunction")
 			}
 		}()
 
@@ -794,7 +795,7 @@ func (env *Zlisp) ParseFile(file string) ([]Sexp, error) {
 	env.parser.NewInput(bufio.NewReader(in))
 	exp, err = env.parser.ParseTokens()
 	if err != nil {
-		return nil, fmt.Errorf("Error on line %d: %v (ParseFile err = '%#v')\n", env.parser.Linenum(), err, err)
+		return nil, fmt.Errorf("Error on line %d: %v (ParseFile err = '%v')\n", env.parser.Linenum(), err, err)
 	}
 
 	return exp, nil
@@ -804,7 +805,7 @@ func (env *Zlisp) LoadStream(stream io.RuneScanner) error {
 	env.parser.ResetAddNewInput(stream)
 	expressions, err := env.parser.ParseTokens()
 	if err != nil {
-		return fmt.Errorf("Error on line %d: %v (LoadStream err='%#v')\n", env.parser.Linenum(), err, err)
+		return fmt.Errorf("Error on line %d: %v (LoadStream err='%v')\n", env.parser.Linenum(), err, err)
 	}
 	return env.LoadExpressions(expressions)
 }
diff --git a/zygo/functions.go b/zygo/functions.go
index e11f2fd..d7b911b 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -282,7 +282,7 @@ func ArrayAccessFunction(name string) ZlispUserFunction {
 			case *SexpInt:
 				i = int(j.Val)
 			default:
-				return SexpNull, fmt.Errorf("Second argument of aget could not be evaluated to integer; got j = '%#v'/type = %T", j, j)
+				return SexpNull, fmt.Errorf("Second argument of aget could not be evaluated to integer; got j = '%v'/type = %T", j.SexpString(nil), j)
 			}
 		}
 
@@ -904,7 +904,7 @@ func MapFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	case *SexpFunction:
 		fun = e
 	default:
-		return SexpNull, fmt.Errorf("first argument must be function, but we had %T / val = '%#v'", e, e)
+		return SexpNull, fmt.Errorf("first argument must be function, but we had %T / val = '%v'", e, e.SexpString(nil))
 	}
 
 	switch e := args[1].(type) {
@@ -914,7 +914,7 @@ func MapFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		x, err := MapList(env, fun, e)
 		return x, err
 	default:
-		return SexpNull, fmt.Errorf("second argument must be array or list; we saw %T / val = %#v", e, e)
+		return SexpNull, fmt.Errorf("second argument must be array or list; we saw %T / val = %v", e, e.SexpString(nil))
 	}
 }
 
@@ -1279,8 +1279,8 @@ func threadingHelper(env *Zlisp, hash *SexpHash, args []Sexp) (Sexp, error) {
 		h, isHash := field.(*SexpHash)
 		if !isHash {
 			return SexpNull, fmt.Errorf("request for field '%s' was "+
-				"not on a hash or defmap; instead type %T with value '%#v'",
-				args[1].SexpString(nil), field, field)
+				"not on a hash or defmap; instead type %T with value '%v'",
+				args[1].SexpString(nil), field, field.SexpString(nil))
 		}
 		return threadingHelper(env, h, args[1:])
 	}
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 4abfb2a..edfc3db 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -507,7 +507,7 @@ func SetHashKeyOrder(hash *SexpHash, keyOrd Sexp) error {
 
 	keys, isArr := keyOrd.(*SexpArray)
 	if !isArr {
-		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%#v'", keyOrd, keyOrd)
+		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%v'", keyOrd, keyOrd.SexpString(nil))
 	}
 	order := make([]Sexp, 0, len(hash.KeyOrder))
 	for _, want := range keys.Val {
@@ -557,7 +557,7 @@ func GoMethodListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	}
 	h, isHash := args[0].(*SexpHash)
 	if !isHash {
-		return SexpNull, fmt.Errorf("hash/record required, but saw type %T/val=%#v", args[0], args[0])
+		return SexpNull, fmt.Errorf("hash/record required, but saw type %T/val=%v", args[0], args[0].SexpString(nil))
 	}
 	if h.NumMethod != -1 {
 		// use cached results
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index fa9dfb6..073f523 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -526,9 +526,9 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 		nm := fmt.Sprintf("%T", val)
 		rt := GoStructRegistry.Lookup(nm)
 		if rt == nil {
-			fmt.Printf("unknown type '%s' in type switch, val = %#v.  type = %T.\n", nm, val, val)
+			fmt.Printf("unknown type '%s' in type switch.\n", nm)
 		} else {
-			fmt.Printf("TODO: known struct '%s' in GoToSexp(), val = %#v.  type = %T. TODO: make a record for it.\n", nm, val, val)
+			fmt.Printf("TODO: known struct '%s' in GoToSexp(). TODO: make a record for it.\n", nm)
 		}
 		return SexpNull, nil
 	}
@@ -665,7 +665,7 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 	case *SexpBool:
 		return e.Val
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", e, e)
+		fmt.Printf("\n error: unknown type: %T in '%v'\n", e, e.SexpString(nil))
 	}
 	return nil
 }
@@ -677,6 +677,63 @@ func ToGoFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	return toGoHelper(env, name, args[0])
 }
 
+// goSyntax is fmt's %#v, except that it shows what pointers point at
+// instead of their addresses, which differ from run to run.
+func goSyntax(v reflect.Value, seen map[uintptr]bool) string {
+	switch v.Kind() {
+	case reflect.Ptr:
+		if v.IsNil() {
+			break
+		}
+		if seen[v.Pointer()] {
+			return fmt.Sprintf("(%v)(...)", v.Type())
+		}
+		seen[v.Pointer()] = true
+		defer delete(seen, v.Pointer())
+		return "&" + goSyntax(v.Elem(), seen)
+	case reflect.Interface:
+		if v.IsNil() {
+			break
+		}
+		return goSyntax(v.Elem(), seen)
+	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
+		if !v.IsNil() {
+			return fmt.Sprintf("(%v)(...)", v.Type())
+		}
+	case reflect.Struct:
+		if v.CanInterface() {
+			if _, ok := v.Interface().(fmt.GoStringer); ok {
+				break
+			}
+		}
+		s := make([]string, v.NumField())
+		for i := range s {
+			s[i] = v.Type().Field(i).Name + ":" + goSyntax(v.Field(i), seen)
+		}
+		return fmt.Sprintf("%v{%s}", v.Type(), strings.Join(s, ", "))
+	case reflect.Slice, reflect.Array:
+		if v.Type().Elem().Kind() == reflect.Uint8 || (v.Kind() == reflect.Slice && v.IsNil()) {
+			break
+		}
+		s := make([]string, v.Len())
+		for i := range s {
+			s[i] = goSyntax(v.Index(i), seen)
+		}
+		return fmt.Sprintf("%v{%s}", v.Type(), strings.Join(s, ", "))
+	case reflect.Map:
+		if v.IsNil() {
+			break
+		}
+		s := make([]string, 0, v.Len())
+		for _, k := range v.MapKeys() {
+			s = append(s, goSyntax(k, seen)+":"+goSyntax(v.MapIndex(k), seen))
+		}
+		sort.Strings(s)
+		return fmt.Sprintf("%v{%s}", v.Type(), strings.Join(s, ", "))
+	}
+	return fmt.Sprintf("%#v", v)
+}
+
 func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 	//vv("top of toGoHelper, name'%v'", name)
 
@@ -684,7 +741,7 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 	case *SexpReflect:
 		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see SexpReflect '%[1]T'", asHash.Val.Interface())
 	default:
-		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see '%[1]T'/val=%#[1]v", arg)
+		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see '%T'/val=%v", arg, arg.SexpString(nil))
 	case *SexpHash:
 		tn := asHash.TypeName
 		//vv("ToGo: SexpHash for tn='%s', shadowSet='%v'", tn, asHash.ShadowSet)
@@ -725,7 +782,7 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 		asHash.GoShadowStruct = newStruct
 		asHash.GoShadowStructVa = reflect.ValueOf(newStruct)
 		asHash.ShadowSet = true
-		return &SexpStr{S: fmt.Sprintf("%#v", newStruct)}, nil
+		return &SexpStr{S: goSyntax(reflect.ValueOf(newStruct), map[uintptr]bool{})}, nil
 	}
 
 }
@@ -1032,7 +1089,7 @@ func SexpToGoStructs(
 				}
 				//vv("have reflect.Map: target has type = '%T', value='%#v'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v' mapElemTyp='%v' mapElemKind='%v' mapKeyTyp='%v' mapKeyKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind, mapElemTyp, mapElemKind, mapKeyTyp, mapKeyKind)
 			}
-			panic(fmt.Sprintf("not done here yet, target has type = '%T', value='%#v'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind))
+			panic(fmt.Sprintf("not done here yet, target has type = '%T'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v'", target, targTyp, targKind, targElemTyp, targElemKind))
 
 			// TODO: don't try to translate into a Go struct,
 			// but instead... what? just a map[string]interface{}
@@ -1133,8 +1190,8 @@ func SexpToGoStructs(
 				case *SexpSymbol:
 					recordKey = k.name
 				default:
-					fmt.Printf(" skipping field '%#v' which we don't know how to lookup.", pair.Head)
-					panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%#v'", pair.Head))
+					fmt.Printf(" skipping field '%v' which we don't know how to lookup.", pair.Head.SexpString(nil))
+					panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%v'", pair.Head.SexpString(nil)))
 					continue
 				}
 				// We've got to match pair.Head to
@@ -1153,7 +1210,7 @@ func SexpToGoStructs(
 					//vv("upperKey = '%v' from recordKey = '%v'; found=%v; det='%#v'", upperKey, recordKey, found, det)
 					if !found {
 						fmt.Printf(" skipping field '%s' in this hash/which we could not find in the JsonTagMap", recordKey)
-						panic(fmt.Sprintf("unknown field '%s' not allowed; could not find in the JsonTagMap. Fieldnames are case sensitive. src.JstonTagMap: '%#v'", recordKey, src.JsonTagMap))
+						panic(fmt.Sprintf("unknown field '%s' not allowed; could not find in the JsonTagMap. Fieldnames are case sensitive", recordKey))
 						continue
 					}
 				}
@@ -1210,7 +1267,7 @@ func SexpToGoStructs(
 	case *SexpBool:
 		targVa.Elem().Set(reflect.ValueOf(src.Val))
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", src, src)
+		fmt.Printf("\n error: unknown type: %T in '%v'\n", src, src.SexpString(nil))
 	}
 	return target, nil
 }
diff --git a/zygo/pratt.go b/zygo/pratt.go
index 28a2649..7e94ed8 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -739,12 +739,12 @@ func InfixArgsToArray(name string, args []Sexp) (*SexpArray, bool, error) {
 				return nil, false, fmt.Errorf("infixExpand expects (infix []) as its argument; instead we saw '%T'", v.Tail)
 			}
 		}
-		return nil, false, fmt.Errorf("InfixBuilder must receive an SexpArray. Saw: name='%v' / args[0]='%#v'", name, args[0])
+		return nil, false, fmt.Errorf("InfixBuilder must receive an SexpArray. Saw: name='%v' / args[0]='%v'", name, args[0].SexpString(nil))
 	case *SexpHash:
 		// an empty basic block {} that turned into an empty hash.
 		return nil, true, nil
 	default:
-		return nil, false, fmt.Errorf("InfixBuilder (default) must receive an SexpArray. Saw: name='%v' / args[0]='%#v'", name, args[0])
+		return nil, false, fmt.Errorf("InfixBuilder (default) must receive an SexpArray. Saw: name='%v' / args[0]='%v'", name, args[0].SexpString(nil))
 	}
 	return arr, false, nil
 }
@@ -1017,7 +1017,7 @@ func (p *Pratt) Expression(env *Zlisp, rbp int) (ret Sexp, err error) {
 			//Q("Expression sees an SexpPair")
 			// leaving curOp nil seems to work just fine here.
 		default:
-			panic(fmt.Errorf("how to handle cnode type = %#v", cnode))
+			panic(fmt.Errorf("how to handle cnode type = %T", cnode))
 		}
 		//Q("curOp = %#v", curOp)
 
diff --git a/zygo/repl.go b/zygo/repl.go
index 1179426..8ffe52f 100644
--- a/zygo/repl.go
+++ b/zygo/repl.go
@@ -132,7 +132,7 @@ func (pr *Prompter) getExpressionWithLiner(env *Zlisp, reader *bufio.Reader, noL
 			env.parser.NewInput(bytes.NewBuffer([]byte(nextline + "\n")))
 			continue
 		}
-		return "", nil, fmt.Errorf("Error on line %d: %v (repl err: %#v)\n", env.parser.Linenum(), err, err)
+		return "", nil, fmt.Errorf("Error on line %d: %v (repl err: %v)\n", env.parser.Linenum(), err, err)
 	}
 	return strings.Join(lines, "\n"), xs, err
 }
diff --git a/zygo/system.go b/zygo/system.go
index d54c0f0..2682989 100644
--- a/zygo/system.go
+++ b/zygo/system.go
@@ -45,7 +45,7 @@ func SystemFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 	flat, err := flattenToWordsHelper(args)
 	if err != nil {
-		return SexpNull, fmt.Errorf("flatten on '%#v' failed with error '%s'", args, err)
+		return SexpNull, fmt.Errorf("flatten on '%v' failed with error '%s'", (&SexpArray{Val: args}).SexpString(nil), err)
 	}
 	if len(flat) == 0 {
 		return SexpNull, WrongNargs
@@ -99,7 +99,7 @@ func flattenToWordsHelper(args []Sexp) ([]string, error) {
 		case *SexpPair:
 			carry, err := ListToArray(c)
 			if err != nil {
-				return []string{}, fmt.Errorf("tried to convert list of strings to array but failed with error '%s'. Input was type %T / val = '%#v'", err, c, c)
+				return []string{}, fmt.Errorf("tried to convert list of strings to array but failed with error '%s'. Input was type %T / val = '%v'", err, c, c.SexpString(nil))
 			}
 			moreWords, err := flattenToWordsHelper(carry)
 			if err != nil {
@@ -107,7 +107,7 @@ func flattenToWordsHelper(args []Sexp) ([]string, error) {
 			}
 			stringArgs = append(stringArgs, moreWords...)
 		default:
-			return []string{}, fmt.Errorf("arguments to system must be strings; instead we have %T / val = '%#v'", c, c)
+			return []string{}, fmt.Errorf("arguments to system must be strings; instead we have %T / val = '%v'", c, c.SexpString(nil))
 		}
 	} // end i over args
 	// INVAR: stringArgs has our flattened list.
diff --git a/zygo/vm.go b/zygo/vm.go
index 7bb7a0a..ab088ad 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -407,7 +407,7 @@ func (d DispatchInstr) Execute(env *Zlisp) error {
 		_, err := env.CallUserFunction(sxArrayOf, funcobj.SexpString(nil), d.nargs+1)
 		return err
 	}
-	return fmt.Errorf("unbalanced parenthesis in the input? : not a function on top of datastack: '%T/%#v'", funcobj, funcobj)
+	return fmt.Errorf("unbalanced parenthesis in the input? : not a function on top of datastack: '%T/%v'", funcobj, funcobj.SexpString(nil))
 }
 
 type ReturnInstr struct {
-- 
2.43.0


From 87ff3094e85e34cb0e2864cd5f926491ac9fed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:55 +0000
Subject: [PATCH 26/58] fix: printing a package shows no addresses

---
 zygo/scopes.go | 2 +-
 zygo/stack.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zygo/scopes.go b/zygo/scopes.go
index 2e2c06a..73b6ec1 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -326,7 +326,7 @@ func (scop *Scope) Show(env *Zlisp, ps *PrintState, label string) (s string, err
 	indent := ps.GetIndent()
 	rep := strings.Repeat(" ", indent)
 	rep4 := strings.Repeat(" ", indent+4)
-	s += fmt.Sprintf("%s %s  %s (%p)\n", rep, label, scop.Name, scop)
+	s += fmt.Sprintf("%s %s  %s\n", rep, label, scop.Name)
 	if scop.IsGlobal && !env.showGlobalScope {
 		s += fmt.Sprintf("%s (global scope - omitting content for brevity)\n", rep4)
 		return
diff --git a/zygo/stack.go b/zygo/stack.go
index 7b6d1d0..c6340c7 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -161,7 +161,7 @@ func (stack *Stack) IsStackElem() {}
 func (stack *Stack) Show(env *Zlisp, ps *PrintState, label string) (string, error) {
 	//P("debug: Stack.Show starting with stack = %p, ps = %p, Package: '%s', IsPkg: %v", stack, ps, stack.PackageName, stack.IsPackage)
 	if ps.GetSeen(stack) {
-		return fmt.Sprintf("already-saw Stack %p in Show", stack), nil
+		return "already-saw Stack in Show", nil
 	} else {
 		ps.SetSeen(stack, "Stack in Show")
 	}
-- 
2.43.0


From 081b45c478a36824663f0c5f63b0fe4a420e5c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 27/58] fix: declared struct fields reject string keys, mixed
 arrays and writes through the arrays and pointers they hold

---
 zygo/arrayutils.go  |  3 +-
 zygo/expressions.go | 81 +++++++++++++++++++++++++++++++++++----------
 zygo/functions.go   | 24 ++++++++++++--
 zygo/gotypereg.go   |  5 +++
 zygo/hashutils.go   | 33 +++++++++++++++---
 5 files changed, 119 insertions(+), 27 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index fd556e9..7694f83 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -306,8 +306,7 @@ func (x *SexpArraySelector) AssignToSelection(env *Zlisp, rhs Sexp) error {
 	if err != nil {
 		return err
 	}
-	x.Container.Val[x.Select.Val[0].(*SexpInt).Val] = rhs
-	return nil
+	return x.Container.setElem(x.Select.Val[0].(*SexpInt).Val, rhs)
 }
 
 func (env *Zlisp) NewSexpArray(arr []Sexp) *SexpArray {
diff --git a/zygo/expressions.go b/zygo/expressions.go
index eaa3622..1804d4b 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -261,6 +261,7 @@ func (r *SexpPair) Type() *RegisteredType {
 type SexpArray struct {
 	Val []Sexp
 
+	// Typ is the declared type of the struct field the array was stored in.
 	Typ *RegisteredType
 
 	IsFuncDeclTypeArray bool
@@ -280,25 +281,71 @@ func (r *SexpArray) typeAt(depth int) *RegisteredType {
 	if depth > maxTypeNesting {
 		return nil
 	}
-	if r.Typ == nil {
-		if len(r.Val) > 0 {
-			// take type from first element
-			var ty *RegisteredType
-			if first, isArray := r.Val[0].(*SexpArray); isArray {
-				ty = first.typeAt(depth + 1)
-			} else {
-				ty = r.Val[0].Type()
-			}
-			if ty != nil {
-				r.Typ = GoStructRegistry.GetOrCreateSliceType(ty)
-			}
-		} else {
-			// empty array
-			r.Typ = GoStructRegistry.Lookup("[]")
-			//P("lookup [] returned type %#v", r.Typ)
+	if r.Typ != nil {
+		return r.Typ
+	}
+	if len(r.Val) == 0 {
+		// empty array
+		return GoStructRegistry.Lookup("[]")
+	}
+	// take type from first element
+	var ty *RegisteredType
+	if first, isArray := r.Val[0].(*SexpArray); isArray {
+		ty = first.typeAt(depth + 1)
+	} else {
+		ty = r.Val[0].Type()
+	}
+	if ty == nil {
+		return nil
+	}
+	return GoStructRegistry.GetOrCreateSliceType(ty)
+}
+
+// isOfType reports whether val, with all its elements if it
+// is an array, is of the declared type t.
+func isOfType(val Sexp, t *RegisteredType) bool {
+	if val == SexpNull {
+		return t.IsPointer || t.elemType != nil
+	}
+	arr, isArray := val.(*SexpArray)
+	if !isArray || t.elemType == nil {
+		return val.Type() == t
+	}
+	if arr.Typ != nil && len(arr.Val) > 0 {
+		return arr.Typ == t
+	}
+	for _, elem := range arr.Val {
+		if !isOfType(elem, t.elemType) {
+			return false
 		}
 	}
-	return r.Typ
+	return true
+}
+
+// declareType makes val, if it is an array, insist on being of type t.
+func declareType(val Sexp, t *RegisteredType) {
+	arr, isArray := val.(*SexpArray)
+	if !isArray || t.elemType == nil || len(arr.Val) == 0 || arr.Typ == t {
+		return
+	}
+	arr.Typ = t
+	for _, elem := range arr.Val {
+		declareType(elem, t.elemType)
+	}
+}
+
+// setElem assigns val to the i-th element, unless the array
+// was declared to hold something else.
+func (r *SexpArray) setElem(i int64, val Sexp) error {
+	if r.Typ != nil && r.Typ.elemType != nil {
+		if !isOfType(val, r.Typ.elemType) {
+			return fmt.Errorf("cannot assign '%s' to an element of %s",
+				val.SexpString(nil), r.Typ.SexpString(nil))
+		}
+		declareType(val, r.Typ.elemType)
+	}
+	r.Val[i] = val
+	return nil
 }
 
 func (arr *SexpArray) SexpString(ps *PrintState) string {
diff --git a/zygo/functions.go b/zygo/functions.go
index d7b911b..77a1999 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -305,7 +305,7 @@ func ArrayAccessFunction(name string) ZlispUserFunction {
 			if i < 0 || i >= len(arr.Val) {
 				return SexpNull, fmt.Errorf("Array index out of bounds")
 			}
-			arr.Val[i] = args[2]
+			return SexpNull, arr.setElem(int64(i), args[2])
 		}
 		return SexpNull, nil
 	}
@@ -611,11 +611,11 @@ func AppendFunction(name string) ZlispUserFunction {
 		case *SexpArray:
 			switch name {
 			case "append":
-				return &SexpArray{Val: append(t.Val[:len(t.Val):len(t.Val)], args[1]), Env: env, Typ: t.Typ}, nil
+				return &SexpArray{Val: append(t.Val[:len(t.Val):len(t.Val)], args[1]), Env: env}, nil
 			case "appendslice":
 				switch sl := args[1].(type) {
 				case *SexpArray:
-					return &SexpArray{Val: append(t.Val[:len(t.Val):len(t.Val)], sl.Val...), Env: env, Typ: t.Typ}, nil
+					return &SexpArray{Val: append(t.Val[:len(t.Val):len(t.Val)], sl.Val...), Env: env}, nil
 				default:
 					return SexpNull, fmt.Errorf("Second argument of appendslice must be slice")
 				}
@@ -1760,8 +1760,26 @@ func DerefFunction(name string) ZlispUserFunction {
 					// handle below
 				//case *SexpReflect:
 				// handle here or below?
+				case *SexpSymbol, *SexpSentinel, *SexpFunction, *RegisteredType, *Stack:
+					// these are shared by everything that mentions them.
+					return SexpNull, fmt.Errorf("derefSet doesn't handle assignment of type %T at present", args[1])
 				default:
 					//P("we have a reflection capable type match!")
+					switch target := ptr.Target.(type) {
+					case *SexpArray:
+						if target.Typ != nil {
+							if !isOfType(args[1], target.Typ) {
+								return SexpNull, fmt.Errorf("cannot assign '%v' to type '%v'",
+									args[1].SexpString(nil), target.Typ.SexpString(nil))
+							}
+							declareType(args[1], target.Typ)
+						}
+					case *SexpPointer:
+						if args[1].Type() != target.Type() {
+							return SexpNull, fmt.Errorf("cannot assign type '%v' to type '%v'",
+								args[1].Type().SexpString(nil), target.Type().SexpString(nil))
+						}
+					}
 					ptr.ReflectTarget.Elem().Set(rhs.Elem())
 					return
 				}
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index ccb0499..31cf8e8 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -282,6 +282,9 @@ type RegisteredType struct {
 	// guarded by derivedTypesMut.
 	ptrType   *RegisteredType
 	sliceType *RegisteredType
+
+	// what a slice type has for elements.
+	elemType *RegisteredType
 }
 
 var derivedTypesMut sync.Mutex
@@ -536,6 +539,7 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 			return reflect.New(derivedType), nil
 		})
 		ptrRt.DisplayAs = fmt.Sprintf("(* %s)", pointedToType.DisplayAs)
+		ptrRt.IsPointer = true
 		ptrRt.prepareUserdef(false, "*"+pointedToType.RegisteredName)
 		pointedToType.ptrType = ptrRt
 	}
@@ -551,6 +555,7 @@ func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *Regis
 		sliceRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.MakeSlice(derivedType, 0, 0), nil
 		})
+		sliceRt.elemType = rt
 		sliceName := "[]" + rt.RegisteredName
 		sliceRt.DisplayAs = fmt.Sprintf("(%s)", sliceName)
 		sliceRt.prepareUserdef(false, sliceName)
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index edfc3db..8bccac2 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -305,12 +305,13 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 	case *SexpSymbol:
 		keySym = ks
 		wasSym = true
-	default:
-		return KeyNotSymbol
 	}
 	p := h.GoStructFactory
 	if p == nil {
 		//Q("SexpHash.TypeCheckField() sees nil GoStructFactory, bailing out.")
+		if !wasSym {
+			return KeyNotSymbol
+		}
 		return nil
 	} else {
 		//Q("SexpHash.TypeCheckField() sees h.GoStructFactory = '%#v'", h.GoStructFactory)
@@ -338,13 +339,23 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 				p = h.GoStructFactory
 			}
 		} else {
+			if !wasSym {
+				return KeyNotSymbol
+			}
 			return nil
 		}
 	}
 
 	// type-check record updates here, if we are a record with a
 	// registered type associated.
-	if wasSym && h.TypeName != "hash" && h.TypeName != "field" && p != nil {
+	if h.TypeName != "hash" && h.TypeName != "field" && p != nil {
+		if !wasSym {
+			if p.UserStructDefn == nil {
+				return KeyNotSymbol
+			}
+			// fields are named by symbols
+			return fmt.Errorf("%s has no field '%s' [err 2]", p.UserStructDefn.Name, key.SexpString(nil))
+		}
 		k := keySym.name
 		//Q("is key '%s' defined?", k)
 		declaredTyp, ok := p.UserStructDefn.FieldType[k]
@@ -352,6 +363,19 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 			return fmt.Errorf("%s has no field '%s' [err 2]", p.UserStructDefn.Name, k)
 		}
 		obsTyp := val.Type()
+		if _, isArray := val.(*SexpArray); isArray && declaredTyp.elemType != nil {
+			if isOfType(val, declaredTyp) {
+				declareType(val, declaredTyp)
+				return nil
+			}
+			if obsTyp == declaredTyp {
+				return fmt.Errorf("field %v.%v is %v, not all of '%v' is",
+					p.UserStructDefn.Name,
+					k,
+					declaredTyp.SexpString(nil),
+					val.SexpString(nil))
+			}
+		}
 		if obsTyp == nil {
 			// allow certain types to be nil, e.g. [] and nil itself
 			switch a := val.(type) {
@@ -361,9 +385,8 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 				}
 			case *SexpSentinel:
 				return nil // okay
-			default:
-				return fmt.Errorf("%v has nil Type", val.SexpString(nil))
 			}
+			return fmt.Errorf("%v has nil Type", val.SexpString(nil))
 		}
 
 		//Q("obsTyp is %T / val = %#v", obsTyp, obsTyp)
-- 
2.43.0


From 8de126e186c9c295cb9e3ec5dabb381c6f6f7657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 28/58] fix: arrays that share storage with one held by a
 struct field are checked too

---
 zygo/arrayutils.go  |  9 ++++----
 zygo/expressions.go | 56 +++++++++++++++++++++++++++++++++++++--------
 zygo/functions.go   | 17 +++++++++-----
 3 files changed, 61 insertions(+), 21 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index 7694f83..c87b44d 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -31,6 +31,9 @@ func ConcatArray(arr *SexpArray, rest []Sexp) (Sexp, error) {
 				"(0-based) is not an array", i)
 		}
 	}
+	if len(res.Val) == len(arr.Val) {
+		return arr.part(0, len(arr.Val), arr.Env), nil
+	}
 	return &res, nil
 }
 
@@ -247,11 +250,7 @@ func (x *SexpArraySelector) RHS(env *Zlisp) (Sexp, error) {
 		if end > n {
 			return SexpNull, fmt.Errorf("SexpArraySelector: slice end %v is out-of-bounds; length is %v", end, n)
 		}
-		return &SexpArray{
-			Val: x.Container.Val[start:end],
-			Env: env,
-			Typ: x.Container.Typ,
-		}, nil
+		return x.Container.part(int(start), int(end), env), nil
 	}
 
 	if len(x.Select.Val) != 1 {
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 1804d4b..49d8c56 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -268,6 +268,35 @@ type SexpArray struct {
 	Infix               bool
 
 	Env *Zlisp
+
+	// what the arrays that share the storage of Val have in common.
+	// nil if there are no others.
+	shared *sharedStorage
+}
+
+type sharedStorage struct {
+	typ *RegisteredType
+}
+
+// declared returns the type r insists on being of, if any.
+func (r *SexpArray) declared() *RegisteredType {
+	if r.Typ == nil && r.shared != nil {
+		r.Typ = r.shared.typ
+	}
+	return r.Typ
+}
+
+// part returns the elements of r from start up to end, as
+// an array that shares them with r.
+func (r *SexpArray) part(start, end int, env *Zlisp) *SexpArray {
+	val := r.Val[start:end]
+	if len(val) == 0 {
+		return &SexpArray{Env: env}
+	}
+	if r.shared == nil {
+		r.shared = &sharedStorage{typ: r.Typ}
+	}
+	return &SexpArray{Val: val, Env: env, Typ: r.declared(), shared: r.shared}
 }
 
 func (r *SexpArray) Type() *RegisteredType {
@@ -281,13 +310,13 @@ func (r *SexpArray) typeAt(depth int) *RegisteredType {
 	if depth > maxTypeNesting {
 		return nil
 	}
-	if r.Typ != nil {
-		return r.Typ
-	}
 	if len(r.Val) == 0 {
 		// empty array
 		return GoStructRegistry.Lookup("[]")
 	}
+	if typ := r.declared(); typ != nil {
+		return typ
+	}
 	// take type from first element
 	var ty *RegisteredType
 	if first, isArray := r.Val[0].(*SexpArray); isArray {
@@ -311,8 +340,8 @@ func isOfType(val Sexp, t *RegisteredType) bool {
 	if !isArray || t.elemType == nil {
 		return val.Type() == t
 	}
-	if arr.Typ != nil && len(arr.Val) > 0 {
-		return arr.Typ == t
+	if typ := arr.declared(); typ != nil && len(arr.Val) > 0 {
+		return typ == t
 	}
 	for _, elem := range arr.Val {
 		if !isOfType(elem, t.elemType) {
@@ -325,10 +354,17 @@ func isOfType(val Sexp, t *RegisteredType) bool {
 // declareType makes val, if it is an array, insist on being of type t.
 func declareType(val Sexp, t *RegisteredType) {
 	arr, isArray := val.(*SexpArray)
-	if !isArray || t.elemType == nil || len(arr.Val) == 0 || arr.Typ == t {
+	if !isArray || t.elemType == nil || arr.declared() == t {
 		return
 	}
+	if arr.Typ != nil {
+		// an empty array of more than one type can only stay empty.
+		t = GoStructRegistry.Lookup("[]")
+	}
 	arr.Typ = t
+	if arr.shared != nil {
+		arr.shared.typ = t
+	}
 	for _, elem := range arr.Val {
 		declareType(elem, t.elemType)
 	}
@@ -337,12 +373,12 @@ func declareType(val Sexp, t *RegisteredType) {
 // setElem assigns val to the i-th element, unless the array
 // was declared to hold something else.
 func (r *SexpArray) setElem(i int64, val Sexp) error {
-	if r.Typ != nil && r.Typ.elemType != nil {
-		if !isOfType(val, r.Typ.elemType) {
+	if typ := r.declared(); typ != nil && typ.elemType != nil {
+		if !isOfType(val, typ.elemType) {
 			return fmt.Errorf("cannot assign '%s' to an element of %s",
-				val.SexpString(nil), r.Typ.SexpString(nil))
+				val.SexpString(nil), typ.SexpString(nil))
 		}
-		declareType(val, r.Typ.elemType)
+		declareType(val, typ.elemType)
 	}
 	r.Val[i] = val
 	return nil
diff --git a/zygo/functions.go b/zygo/functions.go
index 77a1999..342e5b8 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -218,7 +218,7 @@ func RestFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		if len(expr.Val) == 0 {
 			return expr, nil
 		}
-		return &SexpArray{Val: expr.Val[1:], Env: env, Typ: expr.Typ}, nil
+		return expr.part(1, len(expr.Val), env), nil
 	case *SexpSentinel:
 		if expr == SexpNull {
 			return SexpNull, nil
@@ -457,7 +457,7 @@ func SliceFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 	switch t := args[0].(type) {
 	case *SexpArray:
-		return &SexpArray{Val: t.Val[start:end], Env: env, Typ: t.Typ}, nil
+		return t.part(start, end, env), nil
 	case *SexpStr:
 		return &SexpStr{S: t.S[start:end]}, nil
 	}
@@ -1767,13 +1767,18 @@ func DerefFunction(name string) ZlispUserFunction {
 					//P("we have a reflection capable type match!")
 					switch target := ptr.Target.(type) {
 					case *SexpArray:
-						if target.Typ != nil {
-							if !isOfType(args[1], target.Typ) {
+						arr := args[1].(*SexpArray)
+						typ := target.declared()
+						if typ != nil {
+							if !isOfType(arr, typ) {
 								return SexpNull, fmt.Errorf("cannot assign '%v' to type '%v'",
-									args[1].SexpString(nil), target.Typ.SexpString(nil))
+									arr.SexpString(nil), typ.SexpString(nil))
 							}
-							declareType(args[1], target.Typ)
+							declareType(arr, typ)
 						}
+						*target = *arr.part(0, len(arr.Val), arr.Env)
+						target.Typ = typ
+						return SexpNull, nil
 					case *SexpPointer:
 						if args[1].Type() != target.Type() {
 							return SexpNull, fmt.Errorf("cannot assign type '%v' to type '%v'",
-- 
2.43.0


From 0606bd5a046a460ddf60013e8fabc17cc73c14c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 29/58] fix: displaying a struct type that contains itself does
 not recurse for ever

---
 zygo/builders.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 3ce05a5..00f66d4 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -151,6 +151,15 @@ func (r SexpField) Type() *RegisteredType {
 	return r.GoStructFactory
 }
 
+// fieldValueString displays a value of a field. Structs are shown
+// by name, as they may well refer to themselves.
+func fieldValueString(val Sexp) string {
+	if rt, isType := val.(*RegisteredType); isType && rt != nil {
+		return rt.ShortName()
+	}
+	return val.SexpString(nil)
+}
+
 // compute key and value widths to assist alignment
 func (f *SexpField) FieldWidths() []int {
 	hash := (*SexpHash)(f)
@@ -168,7 +177,7 @@ func (f *SexpField) FieldWidths() []int {
 				str += key.SexpString(nil) + ":"
 			}
 			wide = append(wide, len(str))
-			wide = append(wide, len(val.SexpString(nil))+1)
+			wide = append(wide, len(fieldValueString(val))+1)
 		} else {
 			panic(err)
 		}
@@ -197,7 +206,7 @@ func (f *SexpField) AlignString(pad []int) string {
 				panic(fmt.Sprintf("xtra = %d, pad[i=%v]=%v, len(r)=%v (r=%v)", xtra, i, pad[i], len(r), r))
 			}
 			leftpad := strings.Repeat(" ", xtra)
-			vs := val.SexpString(nil)
+			vs := fieldValueString(val)
 			rightpad := strings.Repeat(" ", pad[(i*2)+1]-len(vs))
 			if i == 0 {
 				spc = " "
@@ -232,9 +241,9 @@ func (f *SexpField) SexpString(ps *PrintState) string {
 				str += key.SexpString(nil) + ":"
 			}
 			if i > 0 {
-				str += val.SexpString(nil) + " "
+				str += fieldValueString(val) + " "
 			} else {
-				str += val.SexpString(nil) + "    "
+				str += fieldValueString(val) + "    "
 			}
 		} else {
 			panic(err)
-- 
2.43.0


From aa3c90e4001a63e496d051f3be1ddd78584655c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 30/58] fix: derefSet does not put an array into itself past
 the declared type

---
 zygo/functions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zygo/functions.go b/zygo/functions.go
index 342e5b8..b40f654 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -1775,6 +1775,9 @@ func DerefFunction(name string) ZlispUserFunction {
 									arr.SexpString(nil), typ.SexpString(nil))
 							}
 							declareType(arr, typ)
+							if target.declared() != typ && len(arr.Val) > 0 {
+								return SexpNull, fmt.Errorf("cannot assign to an array an array that contains it")
+							}
 						}
 						*target = *arr.part(0, len(arr.Val), arr.Env)
 						target.Typ = typ
-- 
2.43.0


From 2b7590b58c1f0e7cdbd1840f34ae42052e5b75eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 31/58] fix: a negative number after a quote character is one
 literal

---
 zygo/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 266f42c..388afc0 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -180,7 +180,8 @@ func canStartSignedNumberAfter(r rune) bool {
 	switch r {
 	case 0, ' ', '\t', '\n', '\r',
 		'(', '[', '{', ',', ';', ':',
-		'+', '-', '*', '/', '<', '>', '=', '!', '&', '|':
+		'+', '-', '*', '/', '<', '>', '=', '!', '&', '|',
+		'%', '^', '~': // a quoted number
 		return true
 	default:
 		return false
-- 
2.43.0


From adcbdfbba6989012bacf2fde1fccb3a27f286560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 32/58] fix: hash templates splice and evaluate in order

---
 zygo/generator.go | 23 ++++++++---------------
 zygo/vm.go        |  3 +++
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index e30f9d1..f08675c 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -1318,26 +1318,19 @@ func (gen *Generator) generateSyntaxQuoteHash(arg Sexp) error {
 	n := HashCountKeys(hash)
 	gen.AddInstruction(PushInstr{SexpMarker})
 	for i := 0; i < n; i++ {
-		// must reverse order here to preserve order on rebuild
-		key := hash.KeyOrder[(n-i)-1]
+		key := hash.KeyOrder[i]
 		val, err := hash.HashGet(nil, key)
 		if err != nil {
 			return err
 		}
-		// value first, since value comes second on rebuild
-		gen.AddInstruction(PushInstr{SexpMarker})
-		if err := gen.GenerateSyntaxQuote([]Sexp{val}); err != nil {
-			return err
-		}
-		gen.AddInstruction(SquashInstr(0))
-		gen.AddInstruction(ExplodeInstr(0))
-
-		gen.AddInstruction(PushInstr{SexpMarker})
-		if err := gen.GenerateSyntaxQuote([]Sexp{key}); err != nil {
-			return err
+		for _, part := range []Sexp{key, val} {
+			gen.AddInstruction(PushInstr{SexpMarker})
+			if err := gen.GenerateSyntaxQuote([]Sexp{part}); err != nil {
+				return err
+			}
+			gen.AddInstruction(SquashInstr(0))
+			gen.AddInstruction(ExplodeInstr(0))
 		}
-		gen.AddInstruction(SquashInstr(0))
-		gen.AddInstruction(ExplodeInstr(0))
 	}
 	gen.AddInstruction(HashizeInstr{
 		HashLen:  n,
diff --git a/zygo/vm.go b/zygo/vm.go
index ab088ad..9beda16 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -611,6 +611,9 @@ func (s HashizeInstr) Execute(env *Zlisp) error {
 		}
 		a = append(a, expr)
 	}
+	for i, j := 0, len(a)-1; i < j; i, j = i+1, j-1 {
+		a[i], a[j] = a[j], a[i]
+	}
 	hash, err := MakeHash(a, s.TypeName, env)
 	if err != nil {
 		return err
-- 
2.43.0


From 1af38cc025972c9aeaecf45825ba6b6c8292fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:31 +0000
Subject: [PATCH 33/58] fix: laziness of a named argument follows the parameter
 it names

---
 zygo/environment.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 0c50bdb..bf59a2c 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -462,8 +462,21 @@ func (env *Zlisp) ResolveCallable(funcobj Sexp) (Sexp, string, error) {
 }
 
 func (env *Zlisp) PrepareCallExprArgs(function *SexpFunction, args []Sexp) error {
+	hasLazy := function != nil && !function.user && function.HasLazyFormals()
+	byName := hasLazy && function.inputTypes != nil && !function.varargs
+	named := -1 // the formal that the previous argument named, if it did
 	for i, expr := range args {
-		if function != nil && !function.user && function.HasLazyFormals() && function.IsLazyCallArg(i) {
+		formal, isName := i, false
+		if named >= 0 {
+			formal, named = named, -1
+		} else if sym, ok := namedArgSymbol(expr); ok && byName {
+			for j, formalSym := range function.argSyms {
+				if formalSym.name == sym.name {
+					named, isName = j, true
+				}
+			}
+		}
+		if hasLazy && !isName && function.IsLazyCallArg(formal) {
 			env.datastack.PushExpr(NewSourceLazyArg(env, expr))
 			continue
 		}
-- 
2.43.0


From 78df10b0bd1a2d7fd18b0002be858bca3fe22c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 34/58] fix: a dot path through nested packages and hashes
 continues where it stands

---
 zygo/hashutils.go | 2 +-
 zygo/stack.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 8bccac2..3387642 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -889,7 +889,7 @@ func (h *SexpHash) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp)
 			//P("\n found hash in h2 at i=%d, looping to next i\n", i)
 			askh = x
 		case *Stack:
-			return x.nestedPathGetSet(env, dotpaths[1:], setVal)
+			return x.nestedPathGetSet(env, dotpaths[i+1:], setVal)
 			//		case *SexpReflect:
 			//			// at least allow reading, if we can.
 			//			P("hashutils DEBUG! SexpReflect value x is type: '%v', '%T'", x.Val.Type(), x.Val.Interface())
diff --git a/zygo/stack.go b/zygo/stack.go
index c6340c7..607d8a7 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -268,7 +268,7 @@ func (s *Stack) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp) (S
 				return SexpNull, err
 			}
 			//P("\n found hash in x at i=%d, looping to next i\n", i)
-			return x.nestedPathGetSet(env, dotpaths[1:], setVal)
+			return x.nestedPathGetSet(env, dotpaths[i+1:], setVal)
 		case *Stack:
 			curStack = x
 		default:
-- 
2.43.0


From 237e37492a103d7fc4dc73c174f849ff5d3a66db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 35/58] fix: printing a package held by a hash

---
 zygo/printstate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zygo/printstate.go b/zygo/printstate.go
index d1b14b8..e654fcc 100644
--- a/zygo/printstate.go
+++ b/zygo/printstate.go
@@ -28,7 +28,7 @@ const maxPrintNesting = maxParseNesting
 // or is nested too deeply. If it returns true then leave(x) must follow.
 func (ps *PrintState) enter(x Sexp) (*PrintState, bool) {
 	if ps == nil {
-		ps = &PrintState{}
+		ps = NewPrintState()
 	}
 	if ps.open == nil {
 		cp := *ps
-- 
2.43.0


From 90c4c8adb51a1506daf2722b20e5c924dc78c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 36/58] fix: a typed parameter takes the value of a location
 passed to it

---
 zygo/check.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zygo/check.go b/zygo/check.go
index 4daeabb..29dfaac 100644
--- a/zygo/check.go
+++ b/zygo/check.go
@@ -94,6 +94,12 @@ func (env *Zlisp) FunctionCallNameTypeCheck(f *SexpFunction, nargs *int) error {
 		if err != nil {
 			return err
 		}
+		// a location is passed by what it holds
+		val, err = env.RValue(val)
+		if err != nil {
+			return err
+		}
+		finalArgs[i] = val
 		valtyp := val.Type()
 		if typ != nil && typ != valtyp {
 			sym, _ := f.inputTypes.KeyOrder[i].(*SexpSymbol)
-- 
2.43.0


From edede7fecc3a33b4d7ed912793d6a4d1d75eb39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 37/58] fix: a location passed to a function is read where the
 call is written

---
 zygo/environment.go | 36 ++++++++++++++++++++++++++++++++++++
 zygo/expressions.go |  1 +
 zygo/generator.go   |  1 +
 3 files changed, 38 insertions(+)

diff --git a/zygo/environment.go b/zygo/environment.go
index bf59a2c..c8a7374 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -609,6 +609,13 @@ func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
 				function.name, function.nargs, nargs))
 	}
 
+	if !function.isMacro {
+		err := env.readLocationArgs(function)
+		if err != nil {
+			return err
+		}
+	}
+
 	if env.linearstack.IsEmpty() {
 		panic("where's the global scope?")
 	}
@@ -632,6 +639,35 @@ func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
 	return nil
 }
 
+// readLocationArgs replaces the arguments on the datastack that are
+// locations, such as a.b, by what they hold. A location has to be read
+// where the call is written: the names in it may mean something else, or
+// nothing, where the parameters of the function are bound.
+func (env *Zlisp) readLocationArgs(function *SexpFunction) error {
+	n := function.nargs
+	if function.varargs {
+		n++
+	}
+	for i := 0; i < n; i++ {
+		if i == 0 && function.varargs {
+			continue // the list of the rest
+		}
+		expr, err := env.datastack.GetExpr(i)
+		if err != nil {
+			return err
+		}
+		if _, isLocation := expr.(Selector); !isLocation {
+			continue
+		}
+		val, err := env.RValue(expr)
+		if err != nil {
+			return err
+		}
+		env.datastack.elements[env.datastack.tos-i] = DataStackElem{val}
+	}
+	return nil
+}
+
 // tailCallSelf has the running function call itself as the last thing it
 // does: the new activation takes the place of the running one, and will
 // return to where that was called from.
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 49d8c56..7bdeaf4 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -795,6 +795,7 @@ type SexpFunction struct {
 	inputTypes        *SexpHash
 	returnTypes       *SexpHash
 	hasBody           bool // could just be declaration in an interface, without a body
+	isMacro           bool // see defmac; receives the forms of its call as they are
 }
 
 func (sf *SexpFunction) Type() *RegisteredType {
diff --git a/zygo/generator.go b/zygo/generator.go
index f08675c..14d1b66 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -158,6 +158,7 @@ func buildSexpFun(
 
 	sfun := gen.env.MakeFunction(gen.funcname, nargs, varargs, nil, orig)
 	sfun.SetFormalSymbols(argsyms)
+	sfun.isMacro = isMacro
 
 	//VPrintf("\n in buildSexpFun(): DumpFunction just before %v args go onto stack\n", len(argsyms))
 	if Working {
-- 
2.43.0


From 3f0f6951ed56f08ed075cedd6dee8954cedb2e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 38/58] fix: a forced argument that names a location is read in
 the caller's scope

---
 zygo/expressions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index 7bdeaf4..55d8af6 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -746,6 +746,11 @@ func (lazy *SexpLazyArg) Force(env *Zlisp) (Sexp, error) {
 	if err != nil {
 		return SexpNull, err
 	}
+	// a location is read here, where its names mean what the caller meant
+	res, err = env.RValue(res)
+	if err != nil {
+		return SexpNull, err
+	}
 	lazy.Value = res
 	lazy.Forced = true
 	return res, nil
-- 
2.43.0


From e79b339caf3e6d517c18946b9597039a7e1f9047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 39/58] fix: a block comment may end with several asterisks

In /* x **/ the second asterisk was written to the comment without
being considered as the start of the closing */, so the comment never
ended and the parser asked for more input.
---
 zygo/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 388afc0..70ff28c 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -514,6 +514,9 @@ top:
 		if err != nil {
 			return err
 		}
+		if r == '*' {
+			return nil // this one may end the comment, as in **/
+		}
 		lexer.state = LexerCommentBlock
 		goto writeRuneToBuffer
 
-- 
2.43.0


From 7e1f808acfc4204e5dac939fb8512a2168a0118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 40/58] fix: a sandboxed interpreter gets no sys or import
 builder and no include form

---
 zygo/builders.go    |  7 +++++--
 zygo/environment.go | 10 +++++++++-
 zygo/generator.go   |  4 ++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 00f66d4..a2dfcdb 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -29,7 +29,6 @@ func (env *Zlisp) ImportPackageBuilder() {
 	env.ImportMinimalBuilder()
 	env.AddBuilder("infixExpand", InfixBuilder)
 	env.AddBuilder("infix", InfixBuilder)
-	env.AddBuilder("sys", SystemBuilder)
 	env.AddBuilder("struct", StructBuilder)
 	env.AddBuilder("func", FuncBuilder)
 	env.AddBuilder("method", FuncBuilder)
@@ -40,7 +39,11 @@ func (env *Zlisp) ImportPackageBuilder() {
 	env.AddBuilder("expectError", ExpectErrorBuilder)
 	//	env.AddBuilder("&", AddressOfBuilder)
 
-	env.AddBuilder("import", ImportPackageBuilder)
+	if !env.sandboxed {
+		// these reach the file system or start processes.
+		env.AddBuilder("sys", SystemBuilder)
+		env.AddBuilder("import", ImportPackageBuilder)
+	}
 
 	env.AddFunction("sliceOf", SliceOfFunction)
 	env.AddFunction("ptr", PointerToFunction)
diff --git a/zygo/environment.go b/zygo/environment.go
index c8a7374..0d87705 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -53,6 +53,10 @@ type Zlisp struct {
 
 	booter Booter
 
+	// made by NewZlispSandbox: no builder or special form may
+	// reach the file system or start processes.
+	sandboxed bool
+
 	// API use, since infix is already default at repl
 	WrapLoadExpressionsInInfix bool
 }
@@ -93,7 +97,9 @@ func (env *Zlisp) Close() error {
 // NewZlispSandbox returns a new *Zlisp instance that does not allow the
 // user to get to the outside world
 func NewZlispSandbox() *Zlisp {
-	return NewZlispWithFuncs(SandboxSafeFunctions())
+	env := NewZlispWithFuncs(SandboxSafeFunctions())
+	env.sandboxed = true
+	return env
 }
 
 // NewZlispWithFuncs returns a new *Zlisp instance with access to only the given builtin functions
@@ -172,6 +178,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
+	dupenv.sandboxed = env.sandboxed
 	dupenv.linearstack.Push(env.linearstack.elements[0])
 
 	dupenv.mainfunc = env.MakeFunction("__main", 0, false,
@@ -206,6 +213,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
+	dupenv.sandboxed = env.sandboxed
 
 	dupenv.linearstack.Push(env.linearstack.elements[0])
 
diff --git a/zygo/generator.go b/zygo/generator.go
index 14d1b66..c209a92 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -1,6 +1,7 @@
 package zygo
 
 import (
+	"errors"
 	"fmt"
 )
 
@@ -581,6 +582,9 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 	if len(args) < 1 {
 		return WrongNargs
 	}
+	if gen.env.sandboxed {
+		return errors.New("include is not available in a sandbox")
+	}
 
 	var err error
 	var exps []Sexp
-- 
2.43.0


From a5b61442d4c11115a374f879be5c9c02f622caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 41/58] fix: builtin and type names are interned, and call
 counts listed, in sorted order

---
 zygo/environment.go | 13 ++++++++++---
 zygo/gotypereg.go   | 25 +++++++++++++++++--------
 zygo/repl.go        | 20 ++++++++++++++------
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 0d87705..066c940 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -129,10 +130,16 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.AddGlobal("null", SexpNull)
 	env.AddGlobal("nil", SexpNull)
 
-	for key, function := range funcs {
+	// symbols are numbered, and compare, in the order they are made.
+	names := make([]string, 0, len(funcs))
+	for key := range funcs {
+		names = append(names, key)
+	}
+	sort.Strings(names)
+	for _, key := range names {
 		sym := env.MakeSymbol(key)
-		env.builtins[sym.number] = MakeUserFunction(key, function)
-		env.AddFunction(key, function)
+		env.builtins[sym.number] = MakeUserFunction(key, funcs[key])
+		env.AddFunction(key, funcs[key])
 	}
 
 	for _, word := range ReservedWords {
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index 31cf8e8..de30f8b 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -3,6 +3,7 @@ package zygo
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"sync"
 	"time"
 )
@@ -164,8 +165,13 @@ func (r *GoStructRegistryType) EnvAvail(env *Zlisp) {
 	if len(r.LazyFunc) == 0 {
 		return
 	}
-	for nm, fn := range r.LazyFunc {
-		env.AddFunction(nm, fn)
+	names := make([]string, 0, len(r.LazyFunc))
+	for nm := range r.LazyFunc {
+		names = append(names, nm)
+	}
+	sort.Strings(names)
+	for _, nm := range names {
+		env.AddFunction(nm, r.LazyFunc[nm])
 	}
 	// clear it out, all added.
 	r.LazyFunc = make(map[string]ZlispUserFunction)
@@ -494,12 +500,15 @@ func TypeListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 }
 
 func (env *Zlisp) ImportBaseTypes() {
-	for _, e := range GoStructRegistry.Builtin {
-		env.AddGlobal(e.RegisteredName, e)
-	}
-
-	for _, e := range GoStructRegistry.Userdef {
-		env.AddGlobal(e.RegisteredName, e)
+	for _, types := range []map[string]*RegisteredType{GoStructRegistry.Builtin, GoStructRegistry.Userdef} {
+		names := make([]string, 0, len(types))
+		for name := range types {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, name := range names {
+			env.AddGlobal(types[name].RegisteredName, types[name])
+		}
 	}
 }
 
diff --git a/zygo/repl.go b/zygo/repl.go
index 8ffe52f..4428f77 100644
--- a/zygo/repl.go
+++ b/zygo/repl.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"runtime/pprof"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -349,6 +350,17 @@ func Repl(env *Zlisp, cfg *ZlispConfig) {
 	}
 }
 
+func printCounts(counts map[string]int) {
+	names := make([]string, 0, len(counts))
+	for name := range counts {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		fmt.Printf("\t%s: %d\n", name, counts[name])
+	}
+}
+
 func runScript(env *Zlisp, fname string, cfg *ZlispConfig) {
 	file, err := os.Open(fname)
 	if err != nil {
@@ -369,13 +381,9 @@ func runScript(env *Zlisp, fname string, cfg *ZlispConfig) {
 	_, err = env.Run()
 	if cfg.CountFuncCalls {
 		fmt.Println("Pre:")
-		for name, count := range precounts {
-			fmt.Printf("\t%s: %d\n", name, count)
-		}
+		printCounts(precounts)
 		fmt.Println("Post:")
-		for name, count := range postcounts {
-			fmt.Printf("\t%s: %d\n", name, count)
-		}
+		printCounts(postcounts)
 	}
 	if err != nil {
 		fmt.Print(env.GetStackTrace(err))
-- 
2.43.0


From 224d60cf07b7f8f27b4b3a2f05700cbc8a62ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 42/58] fix: a record converts to Go in the order of its keys

---
 zygo/hashutils.go | 18 ++++++++++++++++++
 zygo/jsonmsgp.go  | 12 ++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 3387642..02371df 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -1017,6 +1017,24 @@ func compareHash(a *SexpHash, bs Sexp) (int, error) {
 	return 0, nil
 }
 
+// orderedPairs is the content of p.Map in the order of the keys.
+func (p *SexpHash) orderedPairs(env *Zlisp) [][]*SexpPair {
+	r := make([][]*SexpPair, 0, len(p.KeyOrder))
+	for _, key := range p.KeyOrder {
+		hashval, err := HashExpression(nil, key)
+		if err != nil {
+			continue
+		}
+		for _, pair := range p.Map[hashval] {
+			if res, err := env.Compare(pair.Head, key); err == nil && res == 0 {
+				r = append(r, []*SexpPair{pair})
+				break
+			}
+		}
+	}
+	return r
+}
+
 func (p *SexpHash) CopyMap() *map[int][]*SexpPair {
 	cp := make(map[int][]*SexpPair)
 	for k, v := range p.Map {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 073f523..12013d8 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -633,7 +633,7 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 		}
 
 		m := make(map[string]interface{})
-		for _, arr := range e.Map {
+		for _, arr := range e.orderedPairs(env) {
 			for _, pair := range arr {
 				key := SexpToGo(pair.Head, env, dedup)
 				val := SexpToGo(pair.Tail, env, dedup)
@@ -985,7 +985,7 @@ func SexpToGoStructs(
 			switch target.(type) {
 			case *map[string]string:
 				m := make(map[string]string)
-				for _, arr := range src.Map {
+				for _, arr := range src.orderedPairs(env) {
 					for _, pair := range arr {
 						key := SexpToGo(pair.Head, env, dedup)
 						val := SexpToGo(pair.Tail, env, dedup)
@@ -1005,7 +1005,7 @@ func SexpToGoStructs(
 
 			case *map[string]float64:
 				m := make(map[string]float64)
-				for _, arr := range src.Map {
+				for _, arr := range src.orderedPairs(env) {
 					for _, pair := range arr {
 						key := SexpToGo(pair.Head, env, dedup)
 						val := SexpToGo(pair.Tail, env, dedup)
@@ -1030,7 +1030,7 @@ func SexpToGoStructs(
 				//P("target is a map[int64]float64")
 
 				m := make(map[int64]float64)
-				for _, arr := range src.Map {
+				for _, arr := range src.orderedPairs(env) {
 					for _, pair := range arr {
 						key := SexpToGo(pair.Head, env, dedup)
 						val := SexpToGo(pair.Tail, env, dedup)
@@ -1062,7 +1062,7 @@ func SexpToGoStructs(
 					pmap := reflect.MakeMap(targElemTyp)
 					//P(" pmap starts out as %v/type = %T", pmap, pmap.Interface())
 					// if targ is *[]int, then targElem is []int, targElem.Elem() is int.
-					for _, arr := range src.Map {
+					for _, arr := range src.orderedPairs(env) {
 						for _, pair := range arr {
 							key := SexpToGo(pair.Head, env, dedup)
 							//val := SexpToGo(pair.Tail, env, dedup)
@@ -1181,7 +1181,7 @@ func SexpToGoStructs(
 			panic(fmt.Errorf("type checking failed compare the factor associated with SexpHash and the provided target *T: expected '%s' (associated with typename '%s' in the GoStructRegistry) but saw '%s' type in target", tn, factType, targTyp))
 		}
 		//maploop:
-		for _, arr := range src.Map {
+		for _, arr := range src.orderedPairs(env) {
 			for _, pair := range arr {
 				recordKey = ""
 				switch k := pair.Head.(type) {
-- 
2.43.0


From baa84e16c57bace1dc02b64a7560d6eb5193a6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 43/58] fix: demo data imported into one interpreter stays in
 it

---
 zygo/demo_go_structs.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zygo/demo_go_structs.go b/zygo/demo_go_structs.go
index e2b98ef..2dc31d1 100644
--- a/zygo/demo_go_structs.go
+++ b/zygo/demo_go_structs.go
@@ -126,12 +126,16 @@ func (env *Zlisp) ImportDemoData() {
 	rt := &RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &NestOuter{}, nil
 	}}
-	GoStructRegistry.RegisterUserdef(rt, true, "nestouter", "NestOuter")
+	env.registerType(rt, true, "nestouter")
+	rt2 := *rt
+	env.registerType(&rt2, true, "NestOuter")
 
 	rt = &RegisteredType{GenDefMap: true, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return &NestInner{}, nil
 	}}
-	GoStructRegistry.RegisterUserdef(rt, true, "nestinner", "NestInner")
+	env.registerType(rt, true, "nestinner")
+	rt2 = *rt
+	env.registerType(&rt2, true, "NestInner")
 
 }
 
-- 
2.43.0


From 3a59b929f80b14f8218fbbc04ed3060bbc5db5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 44/58] fix: errors show a value the way it prints, not its Go
 representation

---
 zygo/bsave.go     | 4 ++--
 zygo/generator.go | 2 +-
 zygo/hashutils.go | 2 +-
 zygo/rawutils.go  | 2 +-
 zygo/slurp.go     | 4 ++--
 zygo/source.go    | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/zygo/bsave.go b/zygo/bsave.go
index a50af2c..6556101 100644
--- a/zygo/bsave.go
+++ b/zygo/bsave.go
@@ -55,7 +55,7 @@ func WriteShadowGreenpackToFileFunction(name string) ZlispUserFunction {
 		case *SexpStr:
 			fn = fna.S
 		default:
-			return SexpNull, fmt.Errorf("error: %s requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", name, args[1], args[1])
+			return SexpNull, fmt.Errorf("error: %s requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", name, args[1], args[1].SexpString(nil))
 		}
 
 		// don't overwrite existing file
@@ -111,7 +111,7 @@ func ReadGreenpackFromFileFunction(env *Zlisp, name string, args []Sexp) (Sexp,
 	case *SexpStr:
 		fn = fna.S
 	default:
-		return SexpNull, fmt.Errorf("%s requires a string path to read. we got type %T / value = %v", name, args[0], args[0])
+		return SexpNull, fmt.Errorf("%s requires a string path to read. we got type %T / value = %v", name, args[0], args[0].SexpString(nil))
 	}
 
 	if !FileExists(string(fn)) {
diff --git a/zygo/generator.go b/zygo/generator.go
index c209a92..567c781 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -633,7 +633,7 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 			}
 
 		default:
-			return fmt.Errorf("include: Expected `string`, `list`, `array` given type %T val %v", item, item)
+			return fmt.Errorf("include: Expected `string`, `list`, `array` given type %T val %v", item, item.SexpString(nil))
 		}
 
 		return nil
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 02371df..e5c1754 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -700,7 +700,7 @@ func GoFieldListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	}
 	h, isHash := args[0].(*SexpHash)
 	if !isHash {
-		return SexpNull, fmt.Errorf("hash/record required, but saw %T/val=%v", args[0], args[0])
+		return SexpNull, fmt.Errorf("hash/record required, but saw %T/val=%v", args[0], args[0].SexpString(nil))
 	}
 
 	if !h.GoStructFactory.hasShadowStruct {
diff --git a/zygo/rawutils.go b/zygo/rawutils.go
index 9adc714..b141958 100644
--- a/zygo/rawutils.go
+++ b/zygo/rawutils.go
@@ -218,7 +218,7 @@ func MakeRaw(args []Sexp) (*SexpRaw, error) {
 			return e, nil
 		default:
 			return &SexpRaw{},
-				fmt.Errorf("raw takes only string arguments. We see %T: '%v'", e, e)
+				fmt.Errorf("raw takes only string arguments. We see %T: '%v'", e, e.SexpString(nil))
 		}
 	}
 	return &SexpRaw{Val: raw}, nil
diff --git a/zygo/slurp.go b/zygo/slurp.go
index 322af1c..2f7c534 100644
--- a/zygo/slurp.go
+++ b/zygo/slurp.go
@@ -18,7 +18,7 @@ func SlurpfileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	case *SexpStr:
 		fn = fna.S
 	default:
-		return SexpNull, fmt.Errorf("slurp requires a string path to read. we got type %T / value = %v", args[0], args[0])
+		return SexpNull, fmt.Errorf("slurp requires a string path to read. we got type %T / value = %v", args[0], args[0].SexpString(nil))
 	}
 
 	if !FileExists(string(fn)) {
@@ -75,7 +75,7 @@ func WriteToFileFunction(name string) ZlispUserFunction {
 		case *SexpStr:
 			fn = fna.S
 		default:
-			return SexpNull, fmt.Errorf("owrite requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", args[1], args[1])
+			return SexpNull, fmt.Errorf("owrite requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", args[1], args[1].SexpString(nil))
 		}
 
 		if name == "write" || name == "writef" || name == "save" {
diff --git a/zygo/source.go b/zygo/source.go
index 0f248a6..8e809f3 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -121,7 +121,7 @@ func (env *Zlisp) sourceItem(item Sexp, result *Sexp) error {
 		}
 
 	default:
-		return fmt.Errorf("source: Expected `string`, `list`, `array`. Instead found type %T val %v", item, item)
+		return fmt.Errorf("source: Expected `string`, `list`, `array`. Instead found type %T val %v", item, item.SexpString(nil))
 	}
 
 	return nil
-- 
2.43.0


From e74ac2c42729bba0f269407722dd3d6b881f9fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 45/58] fix: raw64 reports what it cannot decode instead of
 printing a time-stamped note

---
 zygo/rawutils.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zygo/rawutils.go b/zygo/rawutils.go
index b141958..1b66590 100644
--- a/zygo/rawutils.go
+++ b/zygo/rawutils.go
@@ -180,11 +180,12 @@ func Raw64Builder(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 				case *SexpStr:
 					joined += extractRawHelper(tt.S)
 				default:
-					vv("don't know what to do with rhs of symbol %T/val=%v", rhs, rhs)
+					return SexpNull, fmt.Errorf("raw64 takes only string arguments. We see %T: '%v'", rhs, rhs.SexpString(nil))
 				}
 
+			case *SexpComment:
 			default:
-				vv("don't know what to do with %T/val=%v", x, x)
+				return SexpNull, fmt.Errorf("raw64 takes only string arguments. We see %T: '%v'", x, x.SexpString(nil))
 			}
 		}
 	}
-- 
2.43.0


From 3b6f14d9689393b9a66d26f450fefa34c1d9daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 46/58] fix: conversion to Go structs reports what does not
 fit, keeps sharing and cycles

---
 zygo/callgo.go   |  15 ++-
 zygo/jsonmsgp.go | 257 +++++++++++++++++++++++++++++++++++------------
 2 files changed, 208 insertions(+), 64 deletions(-)

diff --git a/zygo/callgo.go b/zygo/callgo.go
index e0b820a..0ca9cf5 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -91,12 +91,25 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 			return SexpNull, fmt.Errorf("method %s needs %d arguments, but we have %d", method.Name, needed, avail)
 		}
 
+		// a record that is passed twice becomes one Go struct.
+		dedup := make(map[*SexpHash]interface{})
 		var va reflect.Value
 		for i := 2; i < narg; i++ {
 			typ := method.Type.In(i - 1)
 			pdepth := PointerDepth(typ)
 			// we only handle 0 and 1 for now
 			//Q("pdepth = %v\n", pdepth)
+			_, isRecord := args[i].(*SexpHash)
+			if isRecord && pdepth == 1 {
+				va = reflect.New(typ)
+				_, err := SexpToGoStructs(args[i], va.Interface(), env, dedup, 0, nil)
+				if err != nil {
+					return SexpNull, fmt.Errorf("error converting %d-th "+
+						"argument to Go: '%s'", i-2, err)
+				}
+				inputVa = append(inputVa, va.Elem())
+				continue
+			}
 			switch pdepth {
 			case 0:
 				va = reflect.New(typ)
@@ -108,7 +121,7 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 					"Go: we don't handle double pointers", i-2)
 			}
 			//Q("converting to go '%#v' into -> %#v\n", args[i], va.Interface())
-			iface, err := SexpToGoStructs(args[i], va.Interface(), env, nil, 0, va.Interface())
+			iface, err := SexpToGoStructs(args[i], va.Interface(), env, dedup, 0, va.Interface())
 			if err != nil {
 				return SexpNull, fmt.Errorf("error converting %d-th "+
 					"argument to Go: '%s'", i-2, err)
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 12013d8..edce1d1 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -835,14 +835,65 @@ func SexpToGoStructs(
 	top interface{},
 
 ) (result interface{}, err error) {
+	if dedup == nil {
+		dedup = make(map[*SexpHash]interface{})
+	}
+	cv := &goConversion{env: env, dedup: dedup, open: make(map[*SexpHash]bool)}
+	result, err = cv.fill(sexp, target, calldepth, top)
+	if err != nil {
+		return nil, err
+	}
+	// now that all went well, the records know the structs made for them.
+	for _, sh := range cv.shadows {
+		sh.rec.ShadowSet = true
+		sh.rec.GoShadowStruct = sh.ptr
+		sh.rec.GoShadowStructVa = reflect.ValueOf(sh.ptr)
+	}
+	return result, nil
+}
+
+// goConversion is the state of one conversion to Go structs.
+type goConversion struct {
+	env *Zlisp
+
+	// the struct made for a record, as a pointer to it.
+	dedup map[*SexpHash]interface{}
+
+	// the records whose structs are still being filled.
+	open map[*SexpHash]bool
+
+	shadows []goShadow
+}
+
+type goShadow struct {
+	rec *SexpHash
+	ptr interface{}
+}
+
+// reuse sets target to the struct made already for src.
+func (cv *goConversion) reuse(src *SexpHash, made interface{}, targVa reflect.Value) {
+	va := reflect.ValueOf(made)
+	dst := targVa.Elem()
+	switch {
+	case va.Type().AssignableTo(dst.Type()):
+		dst.Set(va)
+	case va.Kind() == reflect.Ptr && va.Type().Elem() == dst.Type():
+		if cv.open[src] {
+			panic(fmt.Errorf("record of type '%s' contains itself: it cannot be copied by value into a '%v'", src.TypeName, dst.Type()))
+		}
+		dst.Set(va.Elem())
+	default:
+		panic(fmt.Errorf("record of type '%s' is a %v in Go, which does not fit into a %v", src.TypeName, va.Type(), dst.Type()))
+	}
+}
+
+func (cv *goConversion) fill(sexp Sexp, target interface{}, calldepth int, top interface{}) (result interface{}, err error) {
+	env := cv.env
+	dedup := cv.dedup
 	//vv("top of SexpToGoStructs, target='%p'/'%#v'", target, target)
 	//defer func() {
 	//vv("returning from SexpToGoStructs, target='%p'/'%#v'", target, target)
 	//}()
-	cacheHit := false
-	if dedup == nil {
-		dedup = make(map[*SexpHash]interface{})
-	}
 
 	// elimintes all the decoding!
 	// add top-level primary target to the dedup cache too
@@ -855,19 +906,7 @@ func SexpToGoStructs(
 	var recordKey string
 
 	defer func() {
-		_ = cacheHit
 		recov := recover()
-		if !cacheHit && err == nil && recov == nil {
-			asHash, ok := sexp.(*SexpHash)
-			if ok {
-				// cache it. we might be overwriting with
-				// ourselves, but faster to just write again
-				// than to read and compare then write.
-				dedup[asHash] = result
-				//vv("dedup caching in SexpToGoStructs '%v' for hash name='%s'", result, asHash.TypeName)
-				//vv("dedup caching in SexpToGoStructs '%T' for hash name='%s'", result, asHash.TypeName)
-			}
-		}
 		if recov != nil {
 			panic(fmt.Errorf("last recordKey field name was '%s'. Caught panic: '%v'", recordKey, recov))
 		} else {
@@ -919,6 +958,17 @@ func SexpToGoStructs(
 		}
 		// allocate the slice
 		n := len(src.Val)
+		if targElemKind == reflect.Array {
+			if n != targElemTyp.Len() {
+				panic(fmt.Errorf("tried to translate %d elements into a %v", n, targElemTyp))
+			}
+			for i, ele := range src.Val {
+				if _, err := cv.fill(ele, targVa.Elem().Index(i).Addr().Interface(), calldepth+1, top); err != nil {
+					return nil, err
+				}
+			}
+			return target, nil
+		}
 		slc := reflect.MakeSlice(targElemTyp, 0, n)
 		//P(" slc starts out as %v/type = %T", slc, slc.Interface())
 		// if targ is *[]int, then targElem is []int, targElem.Elem() is int.
@@ -927,7 +977,7 @@ func SexpToGoStructs(
 			_ = i
 			goElem := reflect.New(eTyp) // returns pointer to new value
 			//P(" goElem = %#v before filling i=%d", goElem, i)
-			if _, err := SexpToGoStructs(ele, goElem.Interface(), env, dedup, calldepth+1, top); err != nil {
+			if _, err := cv.fill(ele, goElem.Interface(), calldepth+1, top); err != nil {
 				return nil, err
 			}
 			//P(" goElem = %#v after filling i=%d", goElem, i)
@@ -942,38 +992,43 @@ func SexpToGoStructs(
 		// ugorji msgpack will give us int64 not int,
 		// so match that to make the decodings comparable.
 		//vv("*SexpInt code src.Val='%#v'.. targVa.Elem()='%#v'/Type: %T", src.Val, targVa.Elem().Interface(), targVa.Elem().Interface())
-		switch targVa.Elem().Interface().(type) {
-		case float64:
-			targVa.Elem().SetFloat(float64(src.Val))
-		case int64:
-			targVa.Elem().SetInt(int64(src.Val))
-		default:
-			targVa.Elem().SetInt(int64(src.Val))
+		setGoInt(targVa.Elem(), src.Val)
+	case *SexpUint64:
+		if src.Val > math.MaxInt64 {
+			dst := targVa.Elem()
+			if !isUintKind(targElemKind) || dst.OverflowUint(src.Val) {
+				panic(fmt.Errorf("%v does not fit into a %v", src.Val, targElemTyp))
+			}
+			dst.SetUint(src.Val)
+		} else {
+			setGoInt(targVa.Elem(), int64(src.Val))
 		}
 	case *SexpStr:
 		targVa.Elem().SetString(src.S)
 	case *SexpChar:
 		targVa.Elem().Set(reflect.ValueOf(rune(src.Val)))
 	case *SexpFloat:
-		switch targVa.Elem().Interface().(type) {
-		case int64:
-			targVa.Elem().SetInt(int64(src.Val))
-		case float64:
-			targVa.Elem().SetFloat(float64(src.Val))
+		switch {
+		case isIntKind(targElemKind) || isUintKind(targElemKind):
+			n := int64(src.Val)
+			if float64(n) != src.Val || n == math.MaxInt64 {
+				panic(fmt.Errorf("%v is not an integer that fits into a %v", src.Val, targElemTyp))
+			}
+			setGoInt(targVa.Elem(), n)
 		default:
+			if targElemKind == reflect.Float32 && targVa.Elem().OverflowFloat(src.Val) {
+				panic(fmt.Errorf("%v does not fit into a %v", src.Val, targElemTyp))
+			}
 			targVa.Elem().SetFloat(float64(src.Val))
 		}
 	case *SexpHash:
 		//P(" ==== found SexpHash")
 		// check dedup cache to see if we already generated a Go
 		// struct for this *SexpHash.
-		if alreadyGoStruct, already := dedup[src]; already {
+		if alreadyGoStruct, already := dedup[src]; already && targElemKind != reflect.String {
 			//P("SexpToGoStructs dedup cache HIT! woot! alreadyGoStruct = '%v' for src.TypeName='%v'", alreadyGoStruct, src.TypeName)
 			// already did it. Return alreadyGoStruct.
-			cacheHit = true
-			vo := reflect.ValueOf(alreadyGoStruct).Elem()
-			targVa.Elem().Set(vo)
-
+			cv.reuse(src, alreadyGoStruct, targVa)
 			return target, nil
 		}
 
@@ -987,8 +1042,8 @@ func SexpToGoStructs(
 				m := make(map[string]string)
 				for _, arr := range src.orderedPairs(env) {
 					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
+						key := goScalar(pair.Head)
+						val := goScalar(pair.Tail)
 						keys, isstr := key.(string)
 						if !isstr {
 							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
@@ -997,6 +1052,9 @@ func SexpToGoStructs(
 						if !isstr {
 							panic(fmt.Errorf("val '%v' should have been an string, but was not.", val))
 						}
+						if _, dup := m[keys]; dup {
+							panic(fmt.Errorf("key '%v' is there twice", keys))
+						}
 						m[keys] = vals
 					}
 				}
@@ -1007,17 +1065,20 @@ func SexpToGoStructs(
 				m := make(map[string]float64)
 				for _, arr := range src.orderedPairs(env) {
 					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
+						key := goScalar(pair.Head)
+						val := goScalar(pair.Tail)
 						keys, isstr := key.(string)
 						if !isstr {
 							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
 						}
+						if _, dup := m[keys]; dup {
+							panic(fmt.Errorf("key '%v' is there twice", keys))
+						}
 						switch x := val.(type) {
 						case float64:
 							m[keys] = x
 						case int64:
-							m[keys] = float64(x)
+							m[keys] = exactFloat(x)
 						default:
 							panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
 						}
@@ -1032,8 +1093,8 @@ func SexpToGoStructs(
 				m := make(map[int64]float64)
 				for _, arr := range src.orderedPairs(env) {
 					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
+						key := goScalar(pair.Head)
+						val := goScalar(pair.Tail)
 						keyint64, isint64Key := key.(int64)
 						if !isint64Key {
 							panic(fmt.Errorf("key '%v' should have been an int64, but was not.", key))
@@ -1042,7 +1103,7 @@ func SexpToGoStructs(
 						case float64:
 							m[keyint64] = x
 						case int64:
-							m[keyint64] = float64(x)
+							m[keyint64] = exactFloat(x)
 						default:
 							panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
 						}
@@ -1064,8 +1125,7 @@ func SexpToGoStructs(
 					// if targ is *[]int, then targElem is []int, targElem.Elem() is int.
 					for _, arr := range src.orderedPairs(env) {
 						for _, pair := range arr {
-							key := SexpToGo(pair.Head, env, dedup)
-							//val := SexpToGo(pair.Tail, env, dedup)
+							key := goScalar(pair.Head)
 							keys, isstr := key.(string)
 							if !isstr {
 								panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
@@ -1074,12 +1134,16 @@ func SexpToGoStructs(
 
 							goElem := reflect.New(mapElemTyp) // returns pointer to new value
 							//vv(" goElem = %#v before filling keys='%v'", goElem, keys)
-							if _, err := SexpToGoStructs(pair.Tail, goElem.Interface(), env, dedup, calldepth+1, top); err != nil {
+							if _, err := cv.fill(pair.Tail, goElem.Interface(), calldepth+1, top); err != nil {
 								return nil, err
 							}
 							//P(" goElem = %#v after filling i=%d", goElem, i)
 							//P(" goElem.Elem() = %#v after filling i=%d", goElem.Elem(), i)
-							pmap.SetMapIndex(reflect.ValueOf(keys), goElem.Elem())
+							goKey := reflect.ValueOf(keys).Convert(mapKeyTyp)
+							if pmap.MapIndex(goKey).IsValid() {
+								panic(fmt.Errorf("key '%v' is there twice", keys))
+							}
+							pmap.SetMapIndex(goKey, goElem.Elem())
 							//vv("pmap after set is now %#v", pmap)
 						}
 					}
@@ -1129,7 +1193,10 @@ func SexpToGoStructs(
 		// can we avoid making another top by a simple check that we are at depth 0?
 		var err error
 		var checkPtrStruct interface{}
-		if calldepth == 0 {
+		if calldepth == 0 && targElemKind == reflect.Struct {
+			if factory.TypeCache != nil && factory.TypeCache != targTyp {
+				panic(fmt.Errorf("a record of type '%s' is a %v in Go, and not a %v", tn, factory.TypeCache, targTyp))
+			}
 			checkPtrStruct = top
 		} else {
 			checkPtrStruct, err = factory.Factory(env, src)
@@ -1153,9 +1220,9 @@ func SexpToGoStructs(
 			targVa = factOutputVal // tell the code below
 			targTyp = targVa.Type()
 			targKind = targVa.Kind()
-			src.ShadowSet = true
-			src.GoShadowStruct = checkPtrStruct
-			src.GoShadowStructVa = factOutputVal
+			if calldepth > 0 {
+				cv.shadows = append(cv.shadows, goShadow{src, checkPtrStruct})
+			}
 
 		} else if targTyp.Kind() == reflect.Ptr && targTyp.Elem() == factType {
 			//Q("we have a double pointer that matches the factory type! factType == targTyp.Elem(). factType=%v/%T  targTyp = %v/%T", factType, factType, targTyp, targTyp)
@@ -1167,9 +1234,9 @@ func SexpToGoStructs(
 			targVa = factOutputVal // tell the code below
 			targTyp = targVa.Type()
 			targKind = targVa.Kind()
-			src.ShadowSet = true
-			src.GoShadowStruct = checkPtrStruct
-			src.GoShadowStructVa = factOutputVal
+			if calldepth > 0 {
+				cv.shadows = append(cv.shadows, goShadow{src, checkPtrStruct})
+			}
 
 		} else if factType != targTyp {
 			// factType=*zygo.NestInner/*reflect.rtype  targTyp = **zygo.NestInner/*reflect.rtype
@@ -1180,6 +1247,13 @@ func SexpToGoStructs(
 
 			panic(fmt.Errorf("type checking failed compare the factor associated with SexpHash and the provided target *T: expected '%s' (associated with typename '%s' in the GoStructRegistry) but saw '%s' type in target", tn, factType, targTyp))
 		}
+		// the struct must be known before it is filled, as its
+		// fields may refer back to it.
+		dedup[src] = targVa.Interface()
+		cv.open[src] = true
+		defer delete(cv.open, src)
+		filled := make(map[*HashFieldDet]bool)
+
 		//maploop:
 		for _, arr := range src.orderedPairs(env) {
 			for _, pair := range arr {
@@ -1190,9 +1264,7 @@ func SexpToGoStructs(
 				case *SexpSymbol:
 					recordKey = k.name
 				default:
-					fmt.Printf(" skipping field '%v' which we don't know how to lookup.", pair.Head.SexpString(nil))
 					panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%v'", pair.Head.SexpString(nil)))
-					continue
 				}
 				// We've got to match pair.Head to
 				// one of the struct fields: we'll use
@@ -1202,18 +1274,20 @@ func SexpToGoStructs(
 				//vv(" JsonTagMap = %#v", src.JsonTagMap)
 				det, found := src.JsonTagMap[recordKey]
 				//vv("found = %v for recordKey = '%v'; det='%#v'", found, recordKey, det)
-				if !found {
+				if !found && recordKey != "" {
 					// try once more, with uppercased version
 					// of record key
 					upperKey := strings.ToUpper(recordKey[:1]) + recordKey[1:]
 					det, found = src.JsonTagMap[upperKey]
 					//vv("upperKey = '%v' from recordKey = '%v'; found=%v; det='%#v'", upperKey, recordKey, found, det)
-					if !found {
-						fmt.Printf(" skipping field '%s' in this hash/which we could not find in the JsonTagMap", recordKey)
-						panic(fmt.Sprintf("unknown field '%s' not allowed; could not find in the JsonTagMap. Fieldnames are case sensitive", recordKey))
-						continue
-					}
 				}
+				if !found {
+					panic(fmt.Sprintf("unknown field '%s' not allowed; could not find in the JsonTagMap. Fieldnames are case sensitive", recordKey))
+				}
+				if filled[det] {
+					panic(fmt.Sprintf("field '%s' is there twice, under two names", recordKey))
+				}
+				filled[det] = true
 				//vv(" ****  recordKey = '%s'\n", recordKey)
 				//vv(" we found in pair.Tail: %T !", pair.Tail)
 
@@ -1240,7 +1314,7 @@ func SexpToGoStructs(
 				if needed {
 					ptrFld = *tmp
 				}
-				_, err := SexpToGoStructs(pair.Tail, ptrFld.Interface(), env, dedup, calldepth+1, top)
+				_, err := cv.fill(pair.Tail, ptrFld.Interface(), calldepth+1, top)
 				if err != nil {
 					panic(err)
 					//return nil, err
@@ -1266,12 +1340,69 @@ func SexpToGoStructs(
 		targVa.Elem().Set(reflect.ValueOf(src.Dur))
 	case *SexpBool:
 		targVa.Elem().Set(reflect.ValueOf(src.Val))
+	case *SexpReflect:
+		if !src.Val.IsValid() || !src.Val.Type().AssignableTo(targElemTyp) {
+			panic(fmt.Errorf("a Go value of type %T does not fit into a %v", src.Val.Interface(), targElemTyp))
+		}
+		targVa.Elem().Set(src.Val)
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%v'\n", src, src.SexpString(nil))
+		panic(fmt.Errorf("tried to translate from a %T, which is none of the types we know, into a %v", src, targElemTyp))
 	}
 	return target, nil
 }
 
+// goScalar is the Go value of a number or a text; nil for anything else.
+func goScalar(x Sexp) interface{} {
+	switch y := x.(type) {
+	case *SexpStr:
+		return y.S
+	case *SexpSymbol:
+		return y.name
+	case *SexpInt:
+		return y.Val
+	case *SexpFloat:
+		return y.Val
+	}
+	return nil
+}
+
+func isIntKind(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 }
+
+func isUintKind(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }
+
+// setGoInt sets dst, which must be able to hold n exactly.
+func setGoInt(dst reflect.Value, n int64) {
+	switch k := dst.Kind(); {
+	case k == reflect.Float64 || k == reflect.Float32:
+		f := exactFloat(n)
+		if k == reflect.Float32 {
+			if float64(float32(f)) != f {
+				panic(fmt.Errorf("%v does not fit into a %v", n, dst.Type()))
+			}
+		}
+		dst.SetFloat(f)
+	case isUintKind(k):
+		if n < 0 || dst.OverflowUint(uint64(n)) {
+			panic(fmt.Errorf("%v does not fit into a %v", n, dst.Type()))
+		}
+		dst.SetUint(uint64(n))
+	default:
+		if isIntKind(k) && dst.OverflowInt(n) {
+			panic(fmt.Errorf("%v does not fit into a %v", n, dst.Type()))
+		}
+		dst.SetInt(n)
+	}
+}
+
+// exactFloat is n as a float64, which must be able to hold it exactly.
+func exactFloat(n int64) float64 {
+	f := float64(n)
+	if f >= 1<<63 || int64(f) != n {
+		panic(fmt.Errorf("%v does not fit into a float64", n))
+	}
+	return f
+}
+
 /*
 if accessing unexported fields, we'll recover from
 
-- 
2.43.0


From 897fd8a8ddb7b1cda25e667a541635f5160429c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 47/58] fix: the demo types NestOuter and NestInner are
 registered apart

---
 zygo/demo_go_structs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zygo/demo_go_structs.go b/zygo/demo_go_structs.go
index 2dc31d1..993ec3f 100644
--- a/zygo/demo_go_structs.go
+++ b/zygo/demo_go_structs.go
@@ -134,8 +134,8 @@ func (env *Zlisp) ImportDemoData() {
 		return &NestInner{}, nil
 	}}
 	env.registerType(rt, true, "nestinner")
-	rt2 = *rt
-	env.registerType(&rt2, true, "NestInner")
+	rt3 := *rt
+	env.registerType(&rt3, true, "NestInner")
 
 }
 
-- 
2.43.0


From 98f37910f21065a16eb3a096971da7c474f09b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 48/58] fix: structs that come back from Go keep all their
 fields

---
 zygo/callgo.go    |  19 ++--
 zygo/hashutils.go | 244 ++++++++++++++++++++++++++++++++++------------
 zygo/jsonmsgp.go  |  11 +--
 3 files changed, 195 insertions(+), 79 deletions(-)

diff --git a/zygo/callgo.go b/zygo/callgo.go
index 0ca9cf5..7b7ec1e 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -3,6 +3,7 @@ package zygo
 import (
 	"fmt"
 	"reflect"
+	"time"
 )
 
 // call Go methods
@@ -148,6 +149,7 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 		nout := len(out)
 		r := make([]Sexp, 0)
+		reader := newGoReader(env)
 		for i := 0; i < nout; i++ {
 			f := out[i].Interface()
 			switch e := f.(type) {
@@ -170,17 +172,18 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 			default:
 				// go through the type registry
 				found := false
-				if rt := env.typeOfGoValue(f); rt != nil {
-					retHash, err := MakeHash([]Sexp{}, rt.RegisteredName, env)
-					if err != nil {
-						return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-							rt.RegisteredName, err)
-					}
-					err = retHash.FillHashFromShadow(env, f)
+				x := reflect.ValueOf(f)
+				isPtr := x.Kind() == reflect.Ptr
+				if isPtr && x.IsNil() {
+					r = append(r, SexpNull)
+					found = true
+				} else if _, isTime := f.(time.Time); !isTime &&
+					(x.Kind() == reflect.Struct || isPtr && x.Type().Elem().Kind() == reflect.Struct) {
+					rec, err := reader.value(x)
 					if err != nil {
 						return SexpNull, err
 					}
-					r = append(r, retHash)
+					r = append(r, rec)
 					found = true
 				}
 				if !found {
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index e5c1754..362cce3 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -5,9 +5,13 @@ import (
 	"fmt"
 	"hash"
 	"hash/fnv"
+	"math"
 	"reflect"
+	"sort"
 	"strconv"
 	"strings"
+	"time"
+	"unsafe"
 )
 
 var NoAttachedGoStruct = fmt.Errorf("hash has no attach Go struct")
@@ -672,7 +676,7 @@ func fillJsonMap(json2ptr *map[string]*HashFieldDet, fx *[]Sexp, fl *[]reflect.S
 			FieldName:    fld.Name,
 			FieldJsonTag: fld.Name, // fallback. changed below if json tag available.
 		}
-		jsonTag := fld.Tag.Get("json")
+		jsonTag, _, _ := strings.Cut(fld.Tag.Get("json"), ",")
 		if jsonTag != "" {
 			det.FieldJsonTag = jsonTag
 			(*json2ptr)[jsonTag] = det
@@ -747,16 +751,51 @@ func GenericHpairFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 }
 
 func (h *SexpHash) FillHashFromShadow(env *Zlisp, src interface{}) error {
+	return newGoReader(env).fillRecord(h, src)
+}
+
+// goReader turns Go values into Sexp. A struct that is
+// pointed to more than once becomes a single record.
+type goReader struct {
+	env  *Zlisp
+	made map[goStructKey]*SexpHash
+}
+
+type goStructKey struct {
+	addr uintptr
+	typ  reflect.Type
+}
+
+func newGoReader(env *Zlisp) *goReader {
+	return &goReader{env: env, made: make(map[goStructKey]*SexpHash)}
+}
+
+// fillRecord sets the fields of h to those of the struct that src points to.
+func (g *goReader) fillRecord(h *SexpHash, src interface{}) error {
 	//Q("in FillHashFromShadow, with src = %#v", src)
+	env := g.env
+	va := reflect.ValueOf(src)
 	h.GoShadowStruct = src
+	h.GoShadowStructVa = va
 	h.ShadowSet = true
-	vaSrc := reflect.ValueOf(src).Elem()
+	vaSrc := va.Elem()
+	g.made[goStructKey{va.Pointer(), va.Type()}] = h
 
 	for i, det := range h.DetOrder {
 		_ = i
 		//Q("\n looking at det for %s; %v-th entry in h.DetOrder\n", det.FieldJsonTag, i)
-		goField := vaSrc.Field(det.FieldNum)
-		val, err := fillHashHelper(goField.Interface(), 0, env, false)
+		if det.StructField.Anonymous || det.FieldJsonTag == "-" {
+			// the fields of an embedded struct have entries of their own.
+			continue
+		}
+		goField := vaSrc
+		for _, p := range det.EmbedPath {
+			goField = goField.Field(p.ChildFieldNum)
+		}
+		if !goField.CanInterface() {
+			goField = reflect.NewAt(goField.Type(), unsafe.Pointer(goField.UnsafeAddr())).Elem()
+		}
+		val, err := g.field(goField)
 		if err != nil {
 			//Q("got err='%s' back from fillHashhelper", err)
 			return fmt.Errorf("error on GoToSexp for field '%s': '%s'",
@@ -772,86 +811,167 @@ func (h *SexpHash) FillHashFromShadow(env *Zlisp, src interface{}) error {
 	return nil
 }
 
-// translate Go -> Sexp, assuming hard *T{} struct pointers
-// for all Go structs
-func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp, error) {
-	//Q("fillHashHelper() at depth %d, decoded type is %T\n", depth, r)
-
-	// check for one of our registered structs
+// field gives the value of a struct field.
+func (g *goReader) field(v reflect.Value) (Sexp, error) {
+	switch x := v.Interface().(type) {
+	case time.Time:
+		// not translated.
+		return SexpNull, nil
+	case []byte:
+		return &SexpRaw{Val: x}, nil
+	}
+	return g.value(v)
+}
 
-	// go through the type registry upfront
-	if rt := env.typeOfGoValue(r); rt != nil {
-		retHash, err := MakeHash([]Sexp{}, rt.RegisteredName, env)
-		if err != nil {
-			return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-				rt.RegisteredName, err)
-		}
-		err = retHash.FillHashFromShadow(env, r)
-		if err != nil {
-			return SexpNull, err
+// value translates Go -> Sexp. What has no counterpart is kept as it is, in a SexpReflect.
+func (g *goReader) value(v reflect.Value) (Sexp, error) {
+	if !v.IsValid() {
+		return SexpNull, nil
+	}
+	switch x := v.Interface().(type) {
+	case time.Time:
+		return &SexpTime{Tm: x}, nil
+	case time.Duration:
+		return &SexpDur{Dur: x}, nil
+	case Sexp:
+		if v.Kind() == reflect.Ptr && v.IsNil() {
+			return SexpNull, nil
 		}
-		return retHash, nil
+		return x, nil
 	}
+	switch v.Kind() {
+	case reflect.String:
+		return &SexpStr{S: v.String()}, nil
 
-	//Q("fillHashHelper: trying basic non-struct types for r=%T", r)
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return &SexpInt{Val: v.Int()}, nil
 
-	// now handle basic non struct types:
-	switch val := r.(type) {
-	case string:
-		//Q("depth %d found string case: val = %#v\n", depth, val)
-		if preferSym {
-			return env.MakeSymbol(val), nil
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		if v.Uint() > math.MaxInt64 {
+			return &SexpUint64{Val: v.Uint()}, nil
 		}
-		return &SexpStr{S: val}, nil
+		return &SexpInt{Val: int64(v.Uint())}, nil
 
-	case int:
-		//Q("depth %d found int case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}, nil
+	case reflect.Float32, reflect.Float64:
+		return &SexpFloat{Val: v.Float()}, nil
 
-	case int32:
-		//Q("depth %d found int32 case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}, nil
+	case reflect.Bool:
+		return &SexpBool{Val: v.Bool()}, nil
 
-	case int64:
-		//Q("depth %d found int64 case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}, nil
-
-	case float64:
-		//Q("depth %d found float64 case: val = %#v\n", depth, val)
-		return &SexpFloat{Val: val}, nil
-
-	case []interface{}:
-		//Q("depth %d found []interface{} case: val = %#v\n", depth, val)
+	case reflect.Interface:
+		return g.value(v.Elem())
 
+	case reflect.Slice, reflect.Array:
+		if v.Kind() == reflect.Slice {
+			if v.IsNil() {
+				return SexpNull, nil
+			}
+			if v.Type().Elem().Kind() == reflect.Uint8 {
+				return &SexpRaw{Val: v.Bytes()}, nil
+			}
+		}
 		slice := []Sexp{}
-		for i := range val {
-			sx2, err := fillHashHelper(val[i], depth+1, env, preferSym)
+		for i := 0; i < v.Len(); i++ {
+			ele, err := g.value(v.Index(i))
 			if err != nil {
-				return SexpNull, fmt.Errorf("error in fillHashHelper() call: '%s'", err)
+				return SexpNull, err
 			}
-			slice = append(slice, sx2)
+			slice = append(slice, ele)
 		}
-		return &SexpArray{Val: slice, Env: env}, nil
+		return &SexpArray{Val: slice, Env: g.env}, nil
 
-	case map[string]interface{}:
-		return decodeGoToSexpHelper(val, depth, env, preferSym)
+	case reflect.Map:
+		if v.IsNil() {
+			return SexpNull, nil
+		}
+		return g.mapping(v)
 
-	case []byte:
-		//Q("depth %d found []byte case: val = %#v\n", depth, val)
+	case reflect.Ptr:
+		if v.IsNil() {
+			return SexpNull, nil
+		}
+		if v.Type().Elem().Kind() == reflect.Struct {
+			if rec, err := g.record(v); err != nil || rec != nil {
+				return rec, err
+			}
+		}
 
-		return &SexpRaw{Val: val}, nil
+	case reflect.Struct:
+		p := reflect.New(v.Type())
+		if v.CanAddr() {
+			p = v.Addr()
+		} else {
+			p.Elem().Set(v)
+		}
+		if rec, err := g.record(p); err != nil || rec != nil {
+			return rec, err
+		}
 
-	case nil:
-		return SexpNull, nil
+	case reflect.Chan, reflect.Func:
+		if v.IsNil() {
+			return SexpNull, nil
+		}
+	}
+	return &SexpReflect{Val: v}, nil
+}
 
-	case bool:
-		return &SexpBool{Val: val}, nil
+// record makes a record for the struct that v points to,
+// if it is of a registered type.
+func (g *goReader) record(v reflect.Value) (Sexp, error) {
+	if h, already := g.made[goStructKey{v.Pointer(), v.Type()}]; already {
+		return h, nil
+	}
+	// go through the type registry
+	r := v.Interface()
+	rt := g.env.typeOfGoValue(r)
+	if rt == nil || !rt.hasShadowStruct {
+		return nil, nil
+	}
+	retHash, err := MakeHash([]Sexp{}, rt.RegisteredName, g.env)
+	if err != nil {
+		return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
+			rt.RegisteredName, err)
+	}
+	err = g.fillRecord(retHash, r)
+	if err != nil {
+		return SexpNull, err
+	}
+	return retHash, nil
+}
 
+// mapping makes a hash for a Go map, in the order of its keys.
+func (g *goReader) mapping(v reflect.Value) (Sexp, error) {
+	if m, ok := v.Interface().(map[string]interface{}); ok {
+		_, typed := m["Atype"]
+		_, ordered := m["zKeyOrder"]
+		if typed || ordered {
+			return decodeGoToSexpHelper(m, 0, g.env, false)
+		}
+	}
+	keys := v.MapKeys()
+	switch k := v.Type().Key().Kind(); {
+	case k == reflect.String:
+		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
+	case isIntKind(k):
+		sort.Slice(keys, func(i, j int) bool { return keys[i].Int() < keys[j].Int() })
 	default:
-		//Q("unknown type in type switch, val = %#v.  type = %T.\n", val, val)
+		return &SexpReflect{Val: v}, nil
 	}
-
-	return SexpNull, nil
+	pairs := make([]Sexp, 0, 2*len(keys))
+	for _, key := range keys {
+		var k Sexp
+		if key.Kind() == reflect.String {
+			k = g.env.MakeSymbol(key.String())
+		} else {
+			k = &SexpInt{Val: key.Int()}
+		}
+		val, err := g.value(v.MapIndex(key))
+		if err != nil {
+			return SexpNull, err
+		}
+		pairs = append(pairs, k, val)
+	}
+	return MakeHash(pairs, "hash", g.env)
 }
 
 func (h *SexpHash) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp) (Sexp, error) {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index edce1d1..2e3cee2 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -522,15 +522,8 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 		return &SexpTime{Tm: val}, nil
 
 	default:
-		// do we have a struct for it?
-		nm := fmt.Sprintf("%T", val)
-		rt := GoStructRegistry.Lookup(nm)
-		if rt == nil {
-			fmt.Printf("unknown type '%s' in type switch.\n", nm)
-		} else {
-			fmt.Printf("TODO: known struct '%s' in GoToSexp(). TODO: make a record for it.\n", nm)
-		}
-		return SexpNull, nil
+		// records for the structs we know, and so on.
+		return newGoReader(env).value(reflect.ValueOf(val))
 	}
 }
 
-- 
2.43.0


From ac1aa4137b090545e88d4e9ddd14e4ff2abf02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 49/58] fix: a record that holds itself by way of a struct
 copied by value converts to Go

---
 zygo/jsonmsgp.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 2e3cee2..41db17f 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -836,6 +836,12 @@ func SexpToGoStructs(
 	if err != nil {
 		return nil, err
 	}
+	// a struct copied may hold, in its fields, another one to be copied.
+	for pass := 0; pass < len(cv.copies) && pass < 16; pass++ {
+		for _, c := range cv.copies {
+			c.dst.Set(c.src)
+		}
+	}
 	// now that all went well, the records know the structs made for them.
 	for _, sh := range cv.shadows {
 		sh.rec.ShadowSet = true
@@ -856,6 +862,13 @@ type goConversion struct {
 	open map[*SexpHash]bool
 
 	shadows []goShadow
+
+	// structs to be copied by value, once they are filled.
+	copies []goCopy
+}
+
+type goCopy struct {
+	dst, src reflect.Value
 }
 
 type goShadow struct {
@@ -872,7 +885,8 @@ func (cv *goConversion) reuse(src *SexpHash, made interface{}, targVa reflect.Va
 		dst.Set(va)
 	case va.Kind() == reflect.Ptr && va.Type().Elem() == dst.Type():
 		if cv.open[src] {
-			panic(fmt.Errorf("record of type '%s' contains itself: it cannot be copied by value into a '%v'", src.TypeName, dst.Type()))
+			cv.copies = append(cv.copies, goCopy{dst, va.Elem()})
+			return
 		}
 		dst.Set(va.Elem())
 	default:
@@ -962,21 +976,12 @@ func (cv *goConversion) fill(sexp Sexp, target interface{}, calldepth int, top i
 			}
 			return target, nil
 		}
-		slc := reflect.MakeSlice(targElemTyp, 0, n)
+		slc := reflect.MakeSlice(targElemTyp, n, n)
 		//P(" slc starts out as %v/type = %T", slc, slc.Interface())
-		// if targ is *[]int, then targElem is []int, targElem.Elem() is int.
-		eTyp := targElemTyp.Elem()
 		for i, ele := range src.Val {
-			_ = i
-			goElem := reflect.New(eTyp) // returns pointer to new value
-			//P(" goElem = %#v before filling i=%d", goElem, i)
-			if _, err := cv.fill(ele, goElem.Interface(), calldepth+1, top); err != nil {
+			if _, err := cv.fill(ele, slc.Index(i).Addr().Interface(), calldepth+1, top); err != nil {
 				return nil, err
 			}
-			//P(" goElem = %#v after filling i=%d", goElem, i)
-			//P(" goElem.Elem() = %#v after filling i=%d", goElem.Elem(), i)
-			slc = reflect.Append(slc, goElem.Elem())
-			//P(" slc after i=%d is now %v", i, slc)
 		}
 		targVa.Elem().Set(slc)
 		//P(" targVa is now %v", targVa)
-- 
2.43.0


From bc07a19f9eb6940bd1f3cb4fdf4f39d0c6bea09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 50/58] fix: making a record does not print it

TypeCheckRecord printed the whole record for a debug message that was
never shown, so that nested records took cubic time to build, and ones
that share parts exponential time.
---
 zygo/gotypereg.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index de30f8b..fff7fba 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -296,7 +296,6 @@ type RegisteredType struct {
 var derivedTypesMut sync.Mutex
 
 func (p *RegisteredType) TypeCheckRecord(hash *SexpHash) error {
-	Q("in RegisteredType.TypeCheckRecord(hash = '%v')", hash.SexpString(nil))
 	if hash.TypeName == "field" {
 		Q("in RegisteredType.TypeCheckRecord, TypeName == field, skipping.")
 		return nil
-- 
2.43.0


From a5aaac9968d387c9b949ce5d30f833820f2f4fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 51/58] fix: a dotted symbol among the keys of a record is a
 key when it is printed

Looking it up as a path panicked: MakeSymbol called with nil env.
---
 zygo/builders.go  |  8 ++++----
 zygo/generator.go |  2 +-
 zygo/gotypereg.go |  2 +-
 zygo/hashutils.go | 12 +++++++++++-
 zygo/jsonmsgp.go  |  2 +-
 5 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index a2dfcdb..138ed24 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -82,7 +82,7 @@ func (r *RecordDefn) SetFields(flds []*SexpField) {
 	r.Fields = flds
 	for _, f := range flds {
 		g := (*SexpHash)(f)
-		rt, err := g.HashGet(nil, f.KeyOrder[0])
+		rt, err := g.valueAt(f.KeyOrder[0])
 		panicOn(err)
 		r.FieldType[g.KeyOrder[0].(*SexpSymbol).name] = rt.(*RegisteredType)
 	}
@@ -168,7 +168,7 @@ func (f *SexpField) FieldWidths() []int {
 	hash := (*SexpHash)(f)
 	wide := []int{}
 	for _, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.valueAt(key)
 		str := ""
 		if err == nil {
 			switch s := key.(type) {
@@ -193,7 +193,7 @@ func (f *SexpField) AlignString(pad []int) string {
 	str := " (" + hash.TypeName + " "
 	spc := " "
 	for i, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.valueAt(key)
 		r := ""
 		if err == nil {
 			switch s := key.(type) {
@@ -233,7 +233,7 @@ func (f *SexpField) SexpString(ps *PrintState) string {
 	str := " (" + hash.TypeName + " "
 
 	for i, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.valueAt(key)
 		if err == nil {
 			switch s := key.(type) {
 			case *SexpStr:
diff --git a/zygo/generator.go b/zygo/generator.go
index 567c781..fd7f209 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -1324,7 +1324,7 @@ func (gen *Generator) generateSyntaxQuoteHash(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 	for i := 0; i < n; i++ {
 		key := hash.KeyOrder[i]
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.valueAt(key)
 		if err != nil {
 			return err
 		}
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index fff7fba..a5e7839 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -305,7 +305,7 @@ func (p *RegisteredType) TypeCheckRecord(hash *SexpHash) error {
 
 		var err error
 		for _, key := range hash.KeyOrder {
-			obs, _ := hash.HashGet(nil, key)
+			obs, _ := hash.valueAt(key)
 			err = hash.TypeCheckField(key, obs)
 			if err != nil {
 				return err
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 362cce3..a6db3c9 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -273,6 +273,16 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 	return val, nil
 }
 
+// valueAt returns what is stored under key, one of the KeyOrder of hash.
+// A dotted symbol is a key here, and not a path.
+func (hash *SexpHash) valueAt(key Sexp) (Sexp, error) {
+	val, err := hash.HashGetDefault(hash.Env, key, SexpEnd)
+	if err == nil && val == SexpEnd {
+		err = fmt.Errorf("%s has no field '%s'", hash.TypeName, key.SexpString(nil))
+	}
+	return val, err
+}
+
 func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sexp, error) {
 	key = unwrapHashKey(key)
 	hashval, err := HashExpression(env, key)
@@ -1073,7 +1083,7 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 	lastKey := hash.NumKeys
 	onKey := 0
 	for _, key := range hash.KeyOrder {
-		val, err := hash.HashGet(hash.Env, key)
+		val, err := hash.valueAt(key)
 		if err == nil {
 			onKey++
 			switch s := key.(type) {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 41db17f..2cc5976 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -203,7 +203,7 @@ func (w *jsonWriter) writeHash(hash *SexpHash) error {
 	}
 	names := []string{}
 	for _, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.valueAt(key)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9de6586ec8fe27eab5a6cce3f45d9187c09e5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 52/58] fix: (dump x) returns

It walked the interpreter that every record points to.
---
 zygo/jsonmsgp.go | 114 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 111 insertions(+), 3 deletions(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 2cc5976..097a83b 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -3,7 +3,6 @@ package zygo
 import (
 	"bytes"
 	"fmt"
-	"github.com/shurcooL/go-goon"
 	"github.com/ugorji/go/codec"
 	"math"
 	"reflect"
@@ -812,11 +811,120 @@ func GoonDumpFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if len(args) != 1 {
 		return SexpNull, WrongNargs
 	}
-	fmt.Printf("\n")
-	goon.Dump(args[0])
+	var d goDumper
+	d.value(reflect.ValueOf(args[0]), 0)
+	fmt.Printf("\n%s\n", d.out.String())
 	return SexpNull, nil
 }
 
+// dump shows a value that deep, and that many parts of it.
+const (
+	maxDumpNesting = 50
+	maxDumpParts   = 100000
+)
+
+// goDumper writes the Go structure of a value. What is already being
+// shown, or belongs to the interpreter, is not entered.
+type goDumper struct {
+	out  strings.Builder
+	open map[interface{}]bool
+	n    int
+}
+
+func (d *goDumper) value(v reflect.Value, depth int) {
+	typ := "(interface {})"
+	if v.IsValid() {
+		typ = "(" + v.Type().String() + ")"
+	}
+	switch v.Kind() {
+	case reflect.Invalid:
+		d.out.WriteString(typ + "(nil)")
+		return
+	case reflect.Interface:
+		if v.IsNil() {
+			d.out.WriteString(typ + "(nil)")
+			return
+		}
+		d.value(v.Elem(), depth)
+		return
+	case reflect.Ptr, reflect.Map, reflect.Slice:
+		if v.IsNil() {
+			d.out.WriteString(typ + "(nil)")
+			return
+		}
+	case reflect.Struct, reflect.Array:
+	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
+		d.out.WriteString(typ + "(...)")
+		return
+	default:
+		fmt.Fprintf(&d.out, "%s(%#v)", typ, v)
+		return
+	}
+	interpreters := false
+	switch v.Type() {
+	case reflect.TypeOf((*Zlisp)(nil)), reflect.TypeOf((*Scope)(nil)), reflect.TypeOf((*Stack)(nil)), reflect.TypeOf((*RegisteredType)(nil)):
+		interpreters = depth > 0
+	}
+	d.n++
+	if interpreters || depth > maxDumpNesting || d.n > maxDumpParts {
+		d.out.WriteString(typ + "(...)")
+		return
+	}
+	indent := "\n" + strings.Repeat("\t", depth+1)
+	switch v.Kind() {
+	case reflect.Ptr:
+		at := [2]interface{}{v.Type(), v.Pointer()}
+		if d.open[at] {
+			d.out.WriteString(typ + "(...)")
+			return
+		}
+		if d.open == nil {
+			d.open = make(map[interface{}]bool)
+		}
+		d.open[at] = true
+		defer delete(d.open, at)
+		d.out.WriteString(typ + "(&")
+		d.value(v.Elem(), depth)
+		d.out.WriteString(")")
+	case reflect.Struct:
+		d.out.WriteString(v.Type().String() + "{")
+		for i := 0; i < v.NumField(); i++ {
+			d.out.WriteString(indent + v.Type().Field(i).Name + ": ")
+			d.value(v.Field(i), depth+1)
+			d.out.WriteString(",")
+		}
+		d.out.WriteString(indent[:len(indent)-1] + "}")
+	case reflect.Slice, reflect.Array:
+		d.out.WriteString(typ + "{")
+		for i := 0; i < v.Len(); i++ {
+			d.out.WriteString(indent)
+			if i >= maxDumpParts {
+				d.out.WriteString("...")
+				break
+			}
+			d.value(v.Index(i), depth+1)
+			d.out.WriteString(",")
+		}
+		d.out.WriteString(indent[:len(indent)-1] + "}")
+	case reflect.Map:
+		var entries []string
+		for _, k := range v.MapKeys() {
+			e := goDumper{open: d.open, n: d.n}
+			e.value(k, depth+1)
+			e.out.WriteString(": ")
+			e.value(v.MapIndex(k), depth+1)
+			d.n = e.n
+			entries = append(entries, e.out.String())
+		}
+		sort.Strings(entries)
+		d.out.WriteString(typ + "{")
+		for _, e := range entries {
+			d.out.WriteString(indent + e + ",")
+		}
+		d.out.WriteString(indent[:len(indent)-1] + "}")
+	}
+}
+
 // try to convert to registered go structs if possible,
 // filling in the structure of target (should be a pointer).
 func SexpToGoStructs(
-- 
2.43.0


From 18aa50274499c745cf5b9967fd4e44343c03de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 53/58] fix: small data that shares its parts can be printed,
 compared and encoded

What shares its parts can be small and have too many of them to visit
each one; these walks stop with an error, or stop printing, after a
bounded number of parts.
---
 zygo/comparisons.go | 36 +++++++++++++++++++++++++-----------
 zygo/hashutils.go   | 13 ++++++++++---
 zygo/jsonmsgp.go    |  9 +++++++++
 zygo/printstate.go  | 15 +++++++++++++--
 4 files changed, 57 insertions(+), 16 deletions(-)

diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index a06cd0b..84bd638 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -153,7 +153,7 @@ func (env *Zlisp) compareSymbol(sym *SexpSymbol, expr Sexp) (int, error) {
 	return 0, errors.New(errmsg)
 }
 
-func (env *Zlisp) comparePair(a *SexpPair, b Sexp, depth int) (int, error) {
+func (env *Zlisp) comparePair(a *SexpPair, b Sexp, walk *comparing) (int, error) {
 	var bp *SexpPair
 	switch t := b.(type) {
 	case *SexpPair:
@@ -163,7 +163,7 @@ func (env *Zlisp) comparePair(a *SexpPair, b Sexp, depth int) (int, error) {
 		return 0, errors.New(errmsg)
 	}
 	for {
-		res, err := env.compareNested(a.Head, bp.Head, depth)
+		res, err := env.compareNested(a.Head, bp.Head, walk)
 		if err != nil {
 			return 0, err
 		}
@@ -173,13 +173,13 @@ func (env *Zlisp) comparePair(a *SexpPair, b Sexp, depth int) (int, error) {
 		atail, aIsPair := a.Tail.(*SexpPair)
 		btail, bIsPair := bp.Tail.(*SexpPair)
 		if !aIsPair || !bIsPair {
-			return env.compareNested(a.Tail, bp.Tail, depth)
+			return env.compareNested(a.Tail, bp.Tail, walk)
 		}
 		a, bp = atail, btail
 	}
 }
 
-func (env *Zlisp) compareArray(a *SexpArray, b Sexp, depth int) (int, error) {
+func (env *Zlisp) compareArray(a *SexpArray, b Sexp, walk *comparing) (int, error) {
 	var ba *SexpArray
 	switch t := b.(type) {
 	case *SexpArray:
@@ -196,7 +196,7 @@ func (env *Zlisp) compareArray(a *SexpArray, b Sexp, depth int) (int, error) {
 	}
 
 	for i := 0; i < length; i++ {
-		res, err := env.compareNested(a.Val[i], ba.Val[i], depth)
+		res, err := env.compareNested(a.Val[i], ba.Val[i], walk)
 		if err != nil {
 			return 0, err
 		}
@@ -250,15 +250,29 @@ func comparePointers(a *SexpPointer, bs Sexp) (int, error) {
 // an array can contain itself.
 const maxCompareNesting = 100000
 
+// maxCompareParts is how much of it Compare looks at: small data that
+// shares its parts can have more of them than can be compared.
+const maxCompareParts = 1 << 26
+
+// comparing is how far a Compare has got.
+type comparing struct {
+	depth, parts int
+}
+
 func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
-	return env.compareNested(a, b, 0)
+	return env.compareNested(a, b, &comparing{})
 }
 
-func (env *Zlisp) compareNested(a Sexp, b Sexp, depth int) (int, error) {
-	depth++
-	if depth > maxCompareNesting {
+func (env *Zlisp) compareNested(a Sexp, b Sexp, walk *comparing) (int, error) {
+	walk.depth++
+	defer func() { walk.depth-- }()
+	if walk.depth > maxCompareNesting {
 		return 0, errors.New("cannot compare: data is cyclic or nested too deeply")
 	}
+	walk.parts++
+	if walk.parts > maxCompareParts {
+		return 0, errors.New("cannot compare: data has too many parts")
+	}
 	var err error
 	if sel, isSel := a.(Selector); isSel {
 		a, err = sel.RHS(env)
@@ -289,9 +303,9 @@ func (env *Zlisp) compareNested(a Sexp, b Sexp, depth int) (int, error) {
 	case *SexpSymbol:
 		return env.compareSymbol(at, b)
 	case *SexpPair:
-		return env.comparePair(at, b, depth)
+		return env.comparePair(at, b, walk)
 	case *SexpArray:
-		return env.compareArray(at, b, depth)
+		return env.compareArray(at, b, walk)
 	case *SexpHash:
 		return compareHash(at, b)
 	case *RegisteredType:
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index a6db3c9..b5eacad 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -65,7 +65,7 @@ func hashHelper(expr Sexp) (hashcode int, isList bool, err error) {
 		return 0, true, nil
 	case *SexpArray:
 		hasher := fnv.New64a()
-		if err := hashArrayHelper(e, hasher, 1); err != nil {
+		if err := hashArrayHelper(e, hasher, 1, new(int)); err != nil {
 			return 0, false, err
 		}
 		return int(hasher.Sum64()), false, nil
@@ -76,15 +76,19 @@ func hashHelper(expr Sexp) (hashcode int, isList bool, err error) {
 // hashArrayHelper feeds the elements of an array key to hasher. It depends
 // only on the element values, never on how they print, so that keys which
 // compare equal hash alike whatever the pretty-print setting is.
-func hashArrayHelper(arr *SexpArray, hasher hash.Hash64, depth int) error {
+func hashArrayHelper(arr *SexpArray, hasher hash.Hash64, depth int, parts *int) error {
 	if depth > maxKeyNesting {
 		return errors.New("cannot hash array: it is cyclic or nested too deeply")
 	}
+	*parts++
+	if *parts > maxKeyParts {
+		return errors.New("cannot hash array: it has too many parts")
+	}
 	fmt.Fprintf(hasher, "[%d", len(arr.Val))
 	for _, elem := range arr.Val {
 		switch e := elem.(type) {
 		case *SexpArray:
-			if err := hashArrayHelper(e, hasher, depth+1); err != nil {
+			if err := hashArrayHelper(e, hasher, depth+1, parts); err != nil {
 				return err
 			}
 		case *SexpInt:
@@ -107,6 +111,9 @@ func hashArrayHelper(arr *SexpArray, hasher hash.Hash64, depth int) error {
 // maxKeyNesting is how deeply an array used as a hash key may be nested.
 const maxKeyNesting = 1000
 
+// maxKeyParts is how many arrays it may be made of.
+const maxKeyParts = 1 << 22
+
 // unwrapHashKey lets h[6] name the key 6: an array of one
 // element used as a key stands for that element.
 func unwrapHashKey(key Sexp) Sexp {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 097a83b..74c650d 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -126,8 +126,13 @@ type jsonWriter struct {
 	out  strings.Builder
 	meta bool
 	open map[Sexp]bool // containers being written
+	n    int           // containers written
 }
 
+// maxJsonParts is how many containers are written: small data that
+// shares its parts can have a text without end.
+const maxJsonParts = 1 << 24
+
 func (w *jsonWriter) enter(exp Sexp) error {
 	if w.open[exp] {
 		return fmt.Errorf("json error: value contains itself")
@@ -135,6 +140,10 @@ func (w *jsonWriter) enter(exp Sexp) error {
 	if len(w.open) >= 10000 {
 		return fmt.Errorf("json error: value nested too deeply")
 	}
+	w.n++
+	if w.n > maxJsonParts {
+		return fmt.Errorf("json error: value has too many parts")
+	}
 	w.open[exp] = true
 	return nil
 }
diff --git a/zygo/printstate.go b/zygo/printstate.go
index e654fcc..c88da15 100644
--- a/zygo/printstate.go
+++ b/zygo/printstate.go
@@ -17,15 +17,23 @@ type PrintState struct {
 	// open holds the containers being printed, so that data which contains
 	// itself can be printed; it is shared by the states made by AddIndent.
 	open map[Sexp]bool
+
+	// entered counts the containers printed; shared like open.
+	entered *int
 }
 
 // maxPrintNesting is as deep as data is printed. Text that
 // is nested deeper could not be read back anyway.
 const maxPrintNesting = maxParseNesting
 
+// maxPrintParts is how many containers are printed. Data that shares its
+// parts can be small and still have a text without end.
+const maxPrintParts = 1 << 22
+
 // enter returns the state for printing what is inside x. It returns
 // false if x must not be entered because it is already being printed
-// or is nested too deeply. If it returns true then leave(x) must follow.
+// or is nested too deeply, or because there has been too much already.
+// If it returns true then leave(x) must follow.
 func (ps *PrintState) enter(x Sexp) (*PrintState, bool) {
 	if ps == nil {
 		ps = NewPrintState()
@@ -34,10 +42,12 @@ func (ps *PrintState) enter(x Sexp) (*PrintState, bool) {
 		cp := *ps
 		ps = &cp
 		ps.open = make(map[Sexp]bool)
+		ps.entered = new(int)
 	}
-	if ps.open[x] || len(ps.open) >= maxPrintNesting {
+	if ps.open[x] || len(ps.open) >= maxPrintNesting || *ps.entered >= maxPrintParts {
 		return ps, false
 	}
+	*ps.entered++
 	ps.open[x] = true
 	return ps, true
 }
@@ -80,6 +90,7 @@ func (ps *PrintState) AddIndent(addme int) *PrintState {
 		Seen:      ps.Seen,
 		PrintJSON: ps.PrintJSON,
 		open:      ps.open,
+		entered:   ps.entered,
 	}
 }
 
-- 
2.43.0


From 18c28e1c74ce6bdd6090c8020a3f07ced5f7dda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 54/58] fix: the tool reads lines plainly when its input is not
 a terminal

It panicked: zygo script.zy, when the script failed, and zygo by itself.
---
 zygo/liner.go | 6 ++++++
 zygo/repl.go  | 7 ++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/zygo/liner.go b/zygo/liner.go
index f495793..cc7e131 100644
--- a/zygo/liner.go
+++ b/zygo/liner.go
@@ -81,6 +81,12 @@ outer:
 	return prefix, c, end
 }
 
+// haveTerminal reports whether lines can be edited where they are read from.
+func haveTerminal() bool {
+	_, err := liner.TerminalMode()
+	return err == nil
+}
+
 func NewPrompter(prompt string) *Prompter {
 	origMode, err := liner.TerminalMode()
 	if err != nil {
diff --git a/zygo/repl.go b/zygo/repl.go
index 4428f77..34995d4 100644
--- a/zygo/repl.go
+++ b/zygo/repl.go
@@ -152,7 +152,8 @@ func processDumpCommand(env *Zlisp, args []string) {
 func Repl(env *Zlisp, cfg *ZlispConfig) {
 
 	var reader *bufio.Reader
-	if cfg.NoLiner {
+	noLiner := cfg.NoLiner || !haveTerminal()
+	if noLiner {
 		// reader is used if one wishes to drop the liner library.
 		// Useful for not full terminal env, like under test.
 		reader = bufio.NewReader(os.Stdin)
@@ -172,7 +173,7 @@ func Repl(env *Zlisp, cfg *ZlispConfig) {
 		fmt.Printf("press tab (repeatedly) to get completion suggestions. Shift-tab goes back. Ctrl-d to exit.\n")
 	}
 	var pr *Prompter // can be nil if noLiner
-	if !cfg.NoLiner {
+	if !noLiner {
 		pr = NewPrompter(cfg.Prompt)
 		defer pr.Close()
 	} else {
@@ -181,7 +182,7 @@ func Repl(env *Zlisp, cfg *ZlispConfig) {
 	infixSym := env.MakeSymbol("infix")
 
 	for {
-		line, exprsInput, err := pr.getExpressionWithLiner(env, reader, cfg.NoLiner)
+		line, exprsInput, err := pr.getExpressionWithLiner(env, reader, noLiner)
 		//Q("\n exprsInput(len=%d) = '%v'\n line = '%s'\n", len(exprsInput), (&SexpArray{Val: exprsInput}).SexpString(nil), line)
 		if err != nil {
 			fmt.Println(err)
-- 
2.43.0


From 5e0f87c9dbc3304274b46eaa22dad2a6eb8b178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 55/58] fix: a dotted symbol used as a key is one key

Setting it twice made two entries, and it could not be deleted, because
what the path leads to was compared instead of the symbol.
---
 zygo/hashutils.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index b5eacad..a4bc544 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -280,6 +280,28 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 	return val, nil
 }
 
+// compareKeys compares the key of an entry to another key. A dotted symbol
+// used as a key is that symbol, and not what it leads to.
+func (env *Zlisp) compareKeys(a, b Sexp) (int, error) {
+	as, aIsSym := a.(*SexpSymbol)
+	bs, bIsSym := b.(*SexpSymbol)
+	if aIsSym && bIsSym {
+		return signumInt(int64(as.number) - int64(bs.number)), nil
+	}
+	aa, aIsArr := a.(*SexpArray)
+	ba, bIsArr := b.(*SexpArray)
+	if aIsArr && bIsArr && len(aa.Val) == len(ba.Val) {
+		for i := range aa.Val {
+			res, err := env.compareKeys(aa.Val[i], ba.Val[i])
+			if err != nil || res != 0 {
+				return res, err
+			}
+		}
+		return 0, nil
+	}
+	return env.Compare(a, b)
+}
+
 // valueAt returns what is stored under key, one of the KeyOrder of hash.
 // A dotted symbol is a key here, and not a path.
 func (hash *SexpHash) valueAt(key Sexp) (Sexp, error) {
@@ -307,7 +329,7 @@ func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sex
 	}
 
 	for _, pair := range arr {
-		res, err := env.Compare(pair.Head, key)
+		res, err := env.compareKeys(pair.Head, key)
 		if err == nil && res == 0 {
 			return pair.Tail, nil
 		}
@@ -465,7 +487,7 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 
 	found := false
 	for i, pair := range arr {
-		res, err := hash.Env.Compare(pair.Head, key)
+		res, err := hash.Env.compareKeys(pair.Head, key)
 		if err == nil && res == 0 {
 			arr[i] = Cons(key, val)
 			found = true
@@ -493,7 +515,7 @@ func (hash *SexpHash) HashDelete(key Sexp) error {
 	// if it doesn't exist, no need to delete it
 	arr := hash.Map[hashval]
 	for i, pair := range arr {
-		res, err := hash.Env.Compare(pair.Head, key)
+		res, err := hash.Env.compareKeys(pair.Head, key)
 		if err == nil && res == 0 {
 			hash.removeFromKeyOrder(pair.Head)
 			hash.NumKeys--
@@ -514,7 +536,7 @@ func (hash *SexpHash) HashDelete(key Sexp) error {
 
 func (hash *SexpHash) removeFromKeyOrder(key Sexp) {
 	for i, k := range hash.KeyOrder {
-		res, err := hash.Env.Compare(k, key)
+		res, err := hash.Env.compareKeys(k, key)
 		if err == nil && res == 0 {
 			order := make([]Sexp, 0, len(hash.KeyOrder)-1)
 			order = append(order, hash.KeyOrder[:i]...)
@@ -1163,7 +1185,7 @@ func (p *SexpHash) orderedPairs(env *Zlisp) [][]*SexpPair {
 			continue
 		}
 		for _, pair := range p.Map[hashval] {
-			if res, err := env.Compare(pair.Head, key); err == nil && res == 0 {
+			if res, err := env.compareKeys(pair.Head, key); err == nil && res == 0 {
 				r = append(r, []*SexpPair{pair})
 				break
 			}
-- 
2.43.0


From c8a4a781192ec5a4e8e87a2066ce1985f66dbb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 56/58] fix: source, include, flatten and comma refuse data
 nested too deeply

An array holding itself, or a list nested some million deep, overflowed
the stack, which ends the process.
---
 zygo/builders.go  | 19 ++++++++++++++-----
 zygo/generator.go |  4 ++++
 zygo/source.go    |  4 ++++
 zygo/system.go    | 12 ++++++++----
 4 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 138ed24..769b27e 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -843,12 +843,18 @@ func CommaBuilder(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 	res := make([]Sexp, 0)
 	for i := range args {
-		commaHelper(args[i], &res)
+		if err := commaHelper(env, args[i], &res); err != nil {
+			return SexpNull, err
+		}
 	}
 	return &SexpArray{Val: res}, nil
 }
 
-func commaHelper(a Sexp, res *[]Sexp) {
+func commaHelper(env *Zlisp, a Sexp, res *[]Sexp) error {
+	if err := env.enterNested(); err != nil {
+		return err
+	}
+	defer env.leaveNested()
 	//Q("top of commaHelper with a = '%s'", a.SexpString(nil))
 	switch x := a.(type) {
 	case *SexpPair:
@@ -857,12 +863,12 @@ func commaHelper(a Sexp, res *[]Sexp) {
 			symN := sy.(*SexpSymbol)
 			//Q("have quoted symbol symN=%v", symN.SexpString(nil))
 			*res = append(*res, symN)
-			return
+			return nil
 		}
 
 		ar, err := ListToArray(x)
 		if err != nil || len(ar) < 1 {
-			return
+			return nil
 		}
 
 		switch sym := ar[0].(type) {
@@ -871,7 +877,9 @@ func commaHelper(a Sexp, res *[]Sexp) {
 				//Q("have recursive comma")
 				over := ar[1:]
 				for i := range over {
-					commaHelper(over[i], res)
+					if err := commaHelper(env, over[i], res); err != nil {
+						return err
+					}
 				}
 			} else {
 				//Q("have symbol sym = '%v'", sym.SexpString(nil))
@@ -883,4 +891,5 @@ func commaHelper(a Sexp, res *[]Sexp) {
 	default:
 		*res = append(*res, a)
 	}
+	return nil
 }
diff --git a/zygo/generator.go b/zygo/generator.go
index fd7f209..8237578 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -598,6 +598,10 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 	var sourceItem func(item Sexp) error
 
 	sourceItem = func(item Sexp) error {
+		if err := gen.env.enterNested(); err != nil {
+			return err
+		}
+		defer gen.env.leaveNested()
 		switch t := item.(type) {
 		case *SexpArray:
 			for _, v := range t.Val {
diff --git a/zygo/source.go b/zygo/source.go
index 8e809f3..ccc0644 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -92,6 +92,10 @@ func SourceFileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 // helper for SourceFileFunction recursion
 func (env *Zlisp) sourceItem(item Sexp, result *Sexp) error {
+	if err := env.enterNested(); err != nil {
+		return err
+	}
+	defer env.leaveNested()
 	switch t := item.(type) {
 	case *SexpArray:
 		for _, v := range t.Val {
diff --git a/zygo/system.go b/zygo/system.go
index 2682989..91b858d 100644
--- a/zygo/system.go
+++ b/zygo/system.go
@@ -43,7 +43,7 @@ func SystemFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 
-	flat, err := flattenToWordsHelper(args)
+	flat, err := flattenToWordsHelper(env, args)
 	if err != nil {
 		return SexpNull, fmt.Errorf("flatten on '%v' failed with error '%s'", (&SexpArray{Val: args}).SexpString(nil), err)
 	}
@@ -73,7 +73,7 @@ func FlattenToWordsFunction(env *Zlisp, name string, args []Sexp) (Sexp, error)
 	if len(args) == 0 {
 		return SexpNull, WrongNargs
 	}
-	stringArgs, err := flattenToWordsHelper(args)
+	stringArgs, err := flattenToWordsHelper(env, args)
 	if err != nil {
 		return SexpNull, err
 	}
@@ -86,7 +86,11 @@ func FlattenToWordsFunction(env *Zlisp, name string, args []Sexp) (Sexp, error)
 	return env.NewSexpArray(res), nil
 }
 
-func flattenToWordsHelper(args []Sexp) ([]string, error) {
+func flattenToWordsHelper(env *Zlisp, args []Sexp) ([]string, error) {
+	if err := env.enterNested(); err != nil {
+		return nil, err
+	}
+	defer env.leaveNested()
 	stringArgs := []string{}
 
 	for i := range args {
@@ -101,7 +105,7 @@ func flattenToWordsHelper(args []Sexp) ([]string, error) {
 			if err != nil {
 				return []string{}, fmt.Errorf("tried to convert list of strings to array but failed with error '%s'. Input was type %T / val = '%v'", err, c, c.SexpString(nil))
 			}
-			moreWords, err := flattenToWordsHelper(carry)
+			moreWords, err := flattenToWordsHelper(env, carry)
 			if err != nil {
 				return []string{}, err
 			}
-- 
2.43.0


From 04c12881e3114a0e161d07863b177bc8ee3eba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:33 +0000
Subject: [PATCH 57/58] fix: a record nested too deeply to be converted to Go
 is an error

The conversion overflowed the stack, which ends the process.
---
 zygo/jsonmsgp.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 74c650d..3b40b1c 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -2,6 +2,7 @@ package zygo
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"github.com/ugorji/go/codec"
 	"math"
@@ -680,7 +681,10 @@ func ToGoFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 // goSyntax is fmt's %#v, except that it shows what pointers point at
 // instead of their addresses, which differ from run to run.
-func goSyntax(v reflect.Value, seen map[uintptr]bool) string {
+func goSyntax(v reflect.Value, seen map[uintptr]bool, depth int) string {
+	if depth > maxPrintNesting {
+		return "..."
+	}
 	switch v.Kind() {
 	case reflect.Ptr:
 		if v.IsNil() {
@@ -691,12 +695,12 @@ func goSyntax(v reflect.Value, seen map[uintptr]bool) string {
 		}
 		seen[v.Pointer()] = true
 		defer delete(seen, v.Pointer())
-		return "&" + goSyntax(v.Elem(), seen)
+		return "&" + goSyntax(v.Elem(), seen, depth+1)
 	case reflect.Interface:
 		if v.IsNil() {
 			break
 		}
-		return goSyntax(v.Elem(), seen)
+		return goSyntax(v.Elem(), seen, depth+1)
 	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		if !v.IsNil() {
 			return fmt.Sprintf("(%v)(...)", v.Type())
@@ -709,7 +713,7 @@ func goSyntax(v reflect.Value, seen map[uintptr]bool) string {
 		}
 		s := make([]string, v.NumField())
 		for i := range s {
-			s[i] = v.Type().Field(i).Name + ":" + goSyntax(v.Field(i), seen)
+			s[i] = v.Type().Field(i).Name + ":" + goSyntax(v.Field(i), seen, depth+1)
 		}
 		return fmt.Sprintf("%v{%s}", v.Type(), strings.Join(s, ", "))
 	case reflect.Slice, reflect.Array:
@@ -718,7 +722,7 @@ func goSyntax(v reflect.Value, seen map[uintptr]bool) string {
 		}
 		s := make([]string, v.Len())
 		for i := range s {
-			s[i] = goSyntax(v.Index(i), seen)
+			s[i] = goSyntax(v.Index(i), seen, depth+1)
 		}
 		return fmt.Sprintf("%v{%s}", v.Type(), strings.Join(s, ", "))
 	case reflect.Map:
@@ -727,7 +731,7 @@ func goSyntax(v reflect.Value, seen map[uintptr]bool) string {
 		}
 		s := make([]string, 0, v.Len())
 		for _, k := range v.MapKeys() {
-			s = append(s, goSyntax(k, seen)+":"+goSyntax(v.MapIndex(k), seen))
+			s = append(s, goSyntax(k, seen, depth+1)+":"+goSyntax(v.MapIndex(k), seen, depth+1))
 		}
 		sort.Strings(s)
 		return fmt.Sprintf("%v{%s}", v.Type(), strings.Join(s, ", "))
@@ -783,7 +787,7 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 		asHash.GoShadowStruct = newStruct
 		asHash.GoShadowStructVa = reflect.ValueOf(newStruct)
 		asHash.ShadowSet = true
-		return &SexpStr{S: goSyntax(reflect.ValueOf(newStruct), map[uintptr]bool{})}, nil
+		return &SexpStr{S: goSyntax(reflect.ValueOf(newStruct), map[uintptr]bool{}, 0)}, nil
 	}
 
 }
@@ -1011,6 +1015,11 @@ func (cv *goConversion) reuse(src *SexpHash, made interface{}, targVa reflect.Va
 	}
 }
 
+// maxGoNesting is how deeply the Go structure made from a record nests.
+const maxGoNesting = 20000
+
+var errNestedTooDeepForGo = errors.New("record is nested too deeply to convert it to Go")
+
 func (cv *goConversion) fill(sexp Sexp, target interface{}, calldepth int, top interface{}) (result interface{}, err error) {
 	env := cv.env
 	dedup := cv.dedup
@@ -1027,6 +1036,9 @@ func (cv *goConversion) fill(sexp Sexp, target interface{}, calldepth int, top i
 	//vv("top target dedup caching in SexpToGoStructs '%T' for hash name='%s'", target, topAsHash.TypeName)
 	//}
 
+	if calldepth > maxGoNesting {
+		return nil, errNestedTooDeepForGo
+	}
 	var recordKey string
 
 	defer func() {
@@ -1430,6 +1442,9 @@ func (cv *goConversion) fill(sexp Sexp, target interface{}, calldepth int, top i
 					ptrFld = *tmp
 				}
 				_, err := cv.fill(pair.Tail, ptrFld.Interface(), calldepth+1, top)
+				if err == errNestedTooDeepForGo {
+					return nil, err
+				}
 				if err != nil {
 					panic(err)
 					//return nil, err
-- 
2.43.0


From 226ff3c31d1342ef8ccee30de2d51fe673664afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:00 +0000
Subject: [PATCH 58/58] fix: show the values of a scope in a fixed order

---
 zygo/scopes.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/zygo/scopes.go b/zygo/scopes.go
index 73b6ec1..f84149f 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -336,14 +336,19 @@ func (scop *Scope) Show(env *Zlisp, ps *PrintState, label string) (s string, err
 		return
 	}
 	sortme := []*SymtabE{}
+	vals := make(map[*SymtabE]Sexp, len(scop.Map))
 	for symbolNumber, val := range scop.Map {
 		symbolName := env.revsymtable[symbolNumber]
-		sortme = append(sortme, &SymtabE{Key: symbolName, Val: val.SexpString(ps)})
+		e := &SymtabE{Key: symbolName}
+		sortme = append(sortme, e)
+		vals[e] = val
 	}
 	sort.Sort(SymtabSorter(sortme))
-	for i := range sortme {
-		s += fmt.Sprintf("%s %s -> %s\n", rep4,
-			sortme[i].Key, sortme[i].Val)
+	// render in order: what comes first is shown in full, and
+	// only mentioned where it comes up again.
+	for _, e := range sortme {
+		e.Val = vals[e].SexpString(ps)
+		s += fmt.Sprintf("%s %s -> %s\n", rep4, e.Key, e.Val)
 	}
 	return
 }
-- 
2.43.0

