package main

// Templates for every construct of the language, with holes:
//   $N  a name fresh to the program
//   $I  an int expression (prefix form, or number)
//   $S  a string expression
//   $F  any other construct
//   $T  a type name fresh to the program

import (
	"fmt"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

var constructs = []string{
	// definitions and assignment
	`(def $N $I)`,
	`(begin (def $1 $I) (set $1 $I) $1)`,
	`(defn $N [a b] (+ a b $I))`,
	`(begin (defn $1 [a] (+ a 1)) ($1 $I))`,
	`($N = $I)`, `($N := $I)`, `{$N := $I}`, `{$1 := $I; $1 = $I; $1}`,
	`{$1 := $I; $1++; $1 += $I; $1 -= 1; $1--}`, `{$1 := 3; $1++}`,
	`(var $N int64)`, `(var $N string)`, `(begin (var $1 int64) {$1 = $I})`,
	`(mdef $N $N $N (list $I 2 3))`, `(mdef $1 $2 (list 1 $I))`,
	`{$N, $N = $I, $I}`, `{$1, $2 = [1, 2]; $1}`, `($N $N = 1 2)`,
	`(def $N [1 2 $I])`, `(def $N (hash a:1 b:$I))`,
	// blocks
	`(begin)`, `(begin $I)`, `(begin $F $I)`, `(begin $F $F)`, `(newScope $F $I)`, `(newScope)`, `(newScope $F)`,
	`(let [x $I y 2] (+ x y))`, `(let [x $I] $F x)`, `(let [] $I)`, `(let [x 1] $F)`, `(letseq [x $I y x] $F y)`, `(letseq [x 1 y x] (def z y) z)`,
	`(cond (> $I 3) $F (== $I 2) "two" $F)`, `(cond true $F 1)`, `(cond false 1 $F)`, `(and true $I)`, `(or false $F)`, `(and $I false $I)`,
	`(quote ($I a "s"))`, `%(a b c)`, `(quote x)`, `%[1 2]`,
	`(assert (== 1 1))`, `(assert true)`,
	// functions
	`((fn [a] (+ a $I)) 3)`, `((fn [] $F))`, `((fn [a & r] (len r)) 1 2 $I)`, `(fn [] 1)`, `((fn [#z] (force #z)) $I)`, `((fn [#z] 3) $F)`, `((fn [#z] (substitute #z)) (+ 1 2))`,
	`((fn [] (return $I)))`, `((fn [] (return 1 2)))`, `((fn [a] (cond (> a 0) (return a) (return 0))) $I)`,
	`(begin (defn $1 [n acc] (cond (<= n 0) acc ($1 (- n 1) (+ acc 1)))) ($1 20 0))`,
	`(begin (defn $1 [n] (cond (<= n 0) 0 (+ 1 ($1 (- n 1))))) ($1 7))`,
	`(begin (defn $1 [n] (let [q n] (cond (<= q 0) "done" (newScope ($1 (- q 1)))))) ($1 9))`,
	`(map (fn [a] $F a) [1 2 3])`, `(map (fn [a] (+ a $I)) (list 1 2))`, `(apply + [1 $I 3])`, `(apply (fn [a b] $F (* a b)) (list 2 $I))`,
	`(eval (quote $F))`, `(eval (list + 1 $I))`, `(eval (quote (let [x 1] $F x)))`, `(read "(a b)")`,
	`(func $N [a:int64 b:string] [n:int64] (return (+ a 1)))`, `(begin (func $1 [a:int64] [n:int64] $F (return (+ a 1))) ($1 a:$I))`, `(func [] [] 1)`, `(func $N [a:int64] [n:int64])`,
	// loops
	`(for [(def i 0) (< i 3) (set i (+ i 1))] $I)`, `(for [(def i 0) (< i 2) (def i (+ i 1))] $F i)`,
	`(for [(def i 0) (< i 5) (set i (+ i 1))] (cond (== i 2) (break) nil) $F)`,
	`(for [(def i 0) (< i 5) (set i (+ i 1))] $F (cond (== i 2) (continue) i))`,
	`(for [(def i 0) (< i 5) (set i (+ i 1))] (let [z i] (letseq [w z] (cond (> w 1) (break) $F))))`,
	`(for outer: [(def i 0) (< i 3) (set i (+ i 1))] (for inner: [(def j 0) (< j 3) (set j (+ j 1))] (cond (== j 1) (continue outer:) (== i 2) (break outer:) $I)))`,
	`(for o: [(def i 0) (< i 3) (set i (+ i 1))] (newScope (let [a 1] (for [(def j 0) (< j 3) (set j (+ j 1))] (let [b 2] (cond (== j 1) (break o:) $F))))))`,
	`(for [(begin $F (def i 0)) (begin $F (< i 2)) (begin $F (set i (+ i 1)))] i)`,
	`(range k v (hash a:1 b:$I) (emit v))`, `(range k v [4 5 $I] $F)`,
	`{for i := 0; i < 3; i++ { $1 := i }}`, `{for k := range 3 { (emit k) }}`, `{for k, v := range [4 5 6] { (emit (+ k v)) }}`, `{for k, v := range (hash a:1 b:2) { $F }}`,
	`{$1 := 0; for i := 0; i < 4; i++ { if i == 2 { break }; $1 += i }; $1}`, `{$1 := 0; for $1 < 3 { $1++ }; $1}`, `{$1 := 0; for { $1++; if $1 > 2 { break } }}`,
	`{top: for i := 0; i < 3; i++ { for j := 0; j < 3; j++ { if j == 1 { continue top }; if i == 2 { break top }; (emit i) } }}`,
	`{for k := range [1 2 3] { for j := range [4 5] { if j == 1 { break }; (emit k) } }}`,
	`((fn [] (for [(def i 0) (< i 3) (set i (+ i 1))] $F) $I))`,
	// infix
	`{ }`, `{$I}`, `{1 + 2 * 3}`, `{(f0 2) + 1}`, `{if 1 > 0 { $F } else { 2 }}`, `{if false { 1 }}`, `{$1 := 5; if $1 > 3 { "big" } else { "small" }}`,
	`{not true and false}`, `{3; 4; $I}`, `(infix [1 + 2])`, `(infixExpand {1 + 2})`, `{$1 := [1 2 3]; $1[1]}`, `{$1 := [1 2 3]; $1[0] = $I; $1[1:]}`, `{$1 := (hash a:1); $1.a = $I; $1.b = 3; $1}`,
	`{$1 := (hash a:(hash b:1)); $1.a.b = $I; $1.a.b}`, `(begin (def $1 (hash a:5)) (+ $1.a 1))`, `{2 ** 3}`,
	// data
	`[1 $I "s" 'c' 2.5 nil true]`, `(list 1 $I)`, `(cons $I 2)`, `(hash a:$I b:[1 2])`, `(hash)`, `[]`, `()`, `nil`, `true`, `$I`, `$S`, `'x'`, `1.5`, `5ULL`, `sym:`,
	`(append [1 2] $I)`, `(concat "a" $S)`, `(str $I)`, `(len [1 2 3])`, `(aget [1 2 3] 1)`, `(hget (hash a:1) a:)`, `(hset (hash a:1) b: $I)`, `(hdel (hash a:1) a:)`, `(keys (hash a:1 b:2))`, `(:a (hash a:$I))`, `(:1 [4 5])`, `(:z (hash a:1) $I)`,
	`(begin (def $1 [1 2 3]) (aset $1 0 $I) $1)`, `(slice [1 2 3 4] 1 3)`, `(first (list 1 2))`, `(rest (list 1 2))`, `(sget "abc" 1)`, `(split "a,b" ",")`, `(nsplit "a\nb")`, `(chomp "a\n")`, `(trim " a ")`, `(sym2str x:)`, `(str2sym "abc")`, `(type? $I)`, `(hpair (hash a:1) 0)`,
	`(json (hash a:$I))`, "(unjson (raw `{\"a\":1}`))", `(unmsgpack (msgpack (hash a:$I)))`, `(raw "abc")`, `(not true)`, `(mod 7 3)`, `(sll 1 3)`, `(bitAnd 6 3)`, `(== [1 2] [1 2])`, `(makeArray 3)`, `(symnum a:)`, `(array? [])`, `(defined? "mod")`,
	// macros
	`(defmac $N [x] ^(+ ~x 1))`, `(defmac $N [& b] ^(begin ~@b))`, `(mac1 $I)`, `(mac2 $F $F)`, `(macexpand (mac1 3))`, `^(a ~(+ 1 2) ~@(list 3 4))`, `^[1 ~(+ 1 2)]`, `(syntaxQuote (a (unquote $I)))`, `(mac3 q (emit q))`, `((fn [] (mac1 $I)))`,
	// types, packages, pointers
	`(struct $T [(field Name: string e:0) (field Num: int64 e:1)])`, `(begin (struct $Ta [(field Num: int64)]) (def $1 ($Ta Num:$I)) (:Num $1))`, `(begin (struct $Ta [(field Num: int64)]) (def $1 ($Ta Num:3)) {$1.Num = $I} $1.Num)`,
	`(interface $T [(func driveIt [a:int64] [n:int64])])`, `(method [p: (* Truck)] Away$9 [][s:string] (return "r"))`, `(defmap $T)`, `(begin (defmap $Ta) ($Ta a:$I))`,
	`(def $N (package "pk" {Aa := $I; bb := 2; (defn Getb [] bb)}))`, `(package pk2 {Aa := 1})`, `(package pk3 (def Q $I))`, `(begin (def $1 (package "pk" {Aa := 4; bb := 2; (defn Getb [] (+ bb Aa))})) ($1.Getb))`, `(begin (def $1 (package "pk" (for [(def i 0) (< i 2) (set i (+ i 1))] $I) (defn Ff [x] (+ x 1)))) ($1.Ff $I))`, `(package "empty")`,
	`(begin (var $1 int64) (def $2 (& $1)) (derefSet $2 $I) (deref $2))`, `(& (Truck Id:3))`, `(* (& (Truck Id:3)))`, `([] int64)`, `(sliceOf int64)`, `(sliceOf string)`,
	`(expectError "Error calling 'boom': boom1!" (boom 1))`, `(expectError "Error calling 'boom': boom2!" (let [a 1] (for [(def i 0) (< i 3) (set i (+ i 1))] (boom 2))))`,
	`(comma a $I)`, `(symnum b:)`, `(regexpMatch (regexpCompile "a+") "aa")`, `(togo (snoopy cry:"x"))`, `(snoopy cry:"yeah")`, `(weather type:"x" size:3)`, `(_method (snoopy cry:"yeah!") Fly: (weather type:"awesomesauce"))`,
	`(_method (snoopy cry:"y") EchoWeather: (weather type:"delightful" size:888))`, `(methodls (snoopy))`, `(fieldls (snoopy))`, `(quote end)`,
	`(begin // comment
 $I)`, `(begin /* c */ $I)`, `(printf "%d\n" $I)`, `(sprintf "%d" $I)`, `(println "")`,
	`(let [a (emit 1) b (emit 2)] (list (emit 3) a b))`, `(pretty false)`,
}

var constructPrelude = []string{
	`(registerDemoFunctions)`, `(defmap snoopy)`, `(defmap weather)`,
	`(defn f0 [x] (+ x 100))`,
	`(defn f1 [x #y] (cond (> x 0) (force #y) 0))`,
	`(defmac mac1 [x] ^(+ ~x 1))`,
	`(defmac mac2 [a b] ^(begin ~a ~b))`,
	`(defmac mac3 [v & body] ^(let [~v 5] ~@body))`,
	`(struct Truck [(field Id: int64 e:0) (field Name: string e:1)])`,
	`(def g0 41)`,
	`(def hh (hash a:1 b:(hash c:2)))`,
	`(def arr0 [10 20 30])`,
}

type congen struct {
	c    *Ctx
	n    int
	tags []string
	big  int // expansions done
}

func (g *congen) fresh(p string) string { g.n++; return fmt.Sprintf("%s%d", p, g.n) }

func (g *congen) intExpr() string {
	return pick(g.c.Rng, []string{
		"3", "1", "0", "-7", "g0", "(+ 1 2)", "(emit 5)", "(f0 3)", "(let [q 2] q)", "(begin 1 2)", "(f1 1 (emit 8))",
		"(cond true 4 5)", "((fn [w] (+ w 1)) 2)", "{1 + 2}", "hh.b.c", "(aget arr0 1)", "{arr0[2]}", "(mac1 2)", "(eval (quote (+ 2 3)))", "(apply + [1 2])",
		"(len (map f0 [1 2]))", "(and true 6)", "(newScope (def q9 3) q9)", "(:a hh)", "hh.a", "{if true { 3 } else { 4 }}",
		"(begin (for [(def i8 0) (< i8 2) (set i8 (+ i8 1))] (emit i8)) 9)", "((fn [#u] (+ (force #u) (force #u))) (emit 2))",
	})
}

// expand fills the holes of template t.
func (g *congen) expand(t string, depth int) string {
	g.big++
	names := map[byte]string{}
	var b strings.Builder
	for i := 0; i < len(t); i++ {
		if t[i] != '$' || i+1 == len(t) {
			b.WriteByte(t[i])
			continue
		}
		i++
		switch t[i] {
		case 'N':
			b.WriteString(g.fresh("nm"))
		case 'T':
			if i+1 < len(t) && t[i+1] == 'a' {
				i++
				if names['T'] == "" {
					names['T'] = g.fresh("Ty")
				}
				b.WriteString(names['T'])
				break
			}
			b.WriteString(g.fresh("Ty"))
		case '1', '2', '3', '9':
			if names[t[i]] == "" {
				names[t[i]] = g.fresh("v")
			}
			b.WriteString(names[t[i]])
		case 'I':
			b.WriteString(g.intExpr())
		case 'S':
			b.WriteString(pick(g.c.Rng, []string{`"s"`, `(concat "a" "b")`, `(str 3)`, "`raw`", `""`}))
		case 'F':
			if depth <= 0 || g.big > 14 {
				b.WriteString(g.intExpr())
			} else {
				b.WriteString(g.form(depth - 1))
			}
		default:
			b.WriteByte('$')
			b.WriteByte(t[i])
		}
	}
	return b.String()
}

func (g *congen) form(depth int) string {
	t := ""
	for t == "" {
		t = pick(g.c.Rng, constructs)
	}
	return g.expand(t, depth)
}

// contexts a form can be put in; %s is the form.
var formContexts = []string{
	"%s", "%s", "%s",
	"(let [z1 1] %s)", "(begin 1 2 %s)", "(begin %s 5)", "((fn [] %s))", "((fn [zz] %s zz) 4)", "(for [(def i9 0) (< i9 3) (set i9 (+ i9 1))] %s)",
	"(cond true %s 0)", "(cond false 0 %s)", "(+ 1 (begin %s 7))", "(newScope %s)", "[1 (begin %s) 2]", "(list 1 (begin %s 3) 2)", "(and true (begin %s true))",
	"(or false %s)", "((fn [#z] (force #z)) %s)", "((fn [#z] 1) %s)", "(apply (fn [z] %s z) (list 1))", "(map (fn [z] %s) [1 2 3])",
	"(eval (quote (begin %s 3)))", "(expectError \"Error calling 'boom': boom3!\" (begin %s (boom 3)))", "(letseq [z1 (begin %s 2) z2 z1] (+ z1 z2))",
	"(hash k:(begin %s 2))", "(emit (begin %s 3))", "(mac2 %s 4)", "(mac3 mv %s)", "{%s; 4}", "{%s}", "{if true { %s } else { 3 }}", "{for q := range [1 2] { %s }}", "(def kk (begin %s 1))",
	"(for [(begin %s (def i9 0)) (< i9 2) (set i9 (+ i9 1))] 1)", "(cond (begin %s true) 4 5)", "(package \"ctx\" %s)",
}

func newConstructEnv(rec *recorder) *zygo.Zlisp {
	env := newFull()
	installEffects(env, rec)
	for _, s := range constructPrelude {
		if _, err := env.EvalString(s); err != nil {
			panic(fmt.Sprintf("prelude %s: %v", s, err))
		}
	}
	rec.log = nil
	return env
}

func init() {
	// which templates fail by themselves?
	probes["constructs"] = func(a []string) {
		c := newCtx(&Prop{ID: "X"}, "quick", 1)
		c.begin(0)
		for _, t := range constructs {
			var rec recorder
			env := newConstructEnv(&rec)
			g := &congen{c: c}
			s := g.expand(t, 0)
			o := evalStr(env, defaultBudget, s)
			d, sc, ad, l, _ := vmDepths(env)
			if !o.ok() || d != 0 || sc != 1 || ad != 0 || l != 0 {
				fmt.Printf("%s\n   => %s  %d %d %d %d\n", s, o, d, sc, ad, l)
			}
		}
	}
}
