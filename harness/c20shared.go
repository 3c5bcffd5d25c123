package main

import (
	"fmt"
	"strings"
)

// c20shared writes a program that builds values made of one another (packages,
// closures, hashes, records, arrays, pointers), so that the same object comes
// up in several places, and shows them in every way there is. What is shown in
// full and what is only mentioned must not depend on the order of a Go map.
func c20shared(c *Ctx) []string {
	var texts, names []string
	letters := []string{"A", "b", "Cc", "dd", "E", "ff", "Gg", "hh", "Z", "y", "Xx", "ww"}
	val := func() string {
		if len(names) > 0 && c.chance(4, 5) {
			return pick(c.Rng, names)
		}
		return pick(c.Rng, []string{"1", `"s"`, "2.5", "[1 2]", "(list 1 2)", "(quote q)", "nil", "true", "'c'"})
	}
	members := func(n int, f func(k, v string) string) string {
		var s []string
		perm := c.Rng.Perm(len(letters))
		for i := 0; i < n; i++ {
			s = append(s, f(letters[perm[i]], val()))
		}
		return strings.Join(s, " ")
	}
	for n := 3 + c.intn(6); n > 0; n-- {
		name := fmt.Sprintf("sv%d", len(names))
		def := ""
		switch c.intn(11) {
		case 9, 10:
			def = c20foreign(c)
		case 0, 1, 2:
			def = fmt.Sprintf(`(package "p%d" %s)`, len(names), members(2+c.intn(6), func(k, v string) string {
				switch c.intn(5) {
				case 0:
					return fmt.Sprintf("(defn %s [x] (list x %s))", k, v)
				case 1:
					return fmt.Sprintf(`(def %s (package "in%s" (def A %s) (def B %s) (def c %s)))`, k, k, v, val(), val())
				}
				return fmt.Sprintf("(def %s %s)", k, v)
			}))
		case 3:
			def = "(hash " + members(2+c.intn(5), func(k, v string) string { return k + ":" + v }) + ")"
		case 4:
			def = fmt.Sprintf("(let [%s] (fn [x] (list x A)))", "A "+val()+" "+members(2+c.intn(4), func(k, v string) string { return k + " " + v }))
		case 5:
			def = fmt.Sprintf("[%s %s %s]", val(), val(), val())
		case 6:
			def = fmt.Sprintf("(list %s %s (quote (a b)))", val(), val())
		case 7:
			def = fmt.Sprintf("((fn [a b] (def c %s) (fn [] (list a b c))) %s %s)", val(), val(), val())
		default:
			def = fmt.Sprintf("(car1x %s)", members(1+c.intn(4), func(k, v string) string { return k + ":" + v }))
		}
		names = append(names, name)
		texts = append(texts, fmt.Sprintf("(def %s %s)", name, def))
	}
	texts = append([]string{"(defmap car1x)"}, texts...)
	for n := c.intn(3); n > 0; n-- {
		// join them up in a circle
		texts = append(texts, fmt.Sprintf("(hset %s %s: %s)", val(), pick(c.Rng, letters), val()))
	}
	shows := []string{
		"%s", "(str %s)", "(println %s)", `(printf "%%v\n" %s)`, "(_closdump %s)", "(dump %s)", "(json %s)", "(type? %s)", "(hget %s nope:)", "(first %s)", "(+ 1 %s)", "(%s 1 2 3)",
		"(list %[1]s %[1]s)", "(str [%[1]s (list %[1]s) %[1]s])", "(begin (def (* Car) %s))", "(set car1.Id %s)", "(split %s 3)", "(aget %s 0)", "(range k v %s (println k v))", "(keys %s)", "(str (fn [x] %s))",
		"(_ls)", "(assert (== 1 %s))", "(expectError %s 3)", "(let [loc %s] (_ls))", "(sget %s 0)", "(apply %s [1])", "(map %s [1 2])", "(not %s)", "(quote %s)", `(package "show" (def Q %[1]s) (def R %[1]s) (def s %[1]s))`,
	}
	for n := 3 + c.intn(4); n > 0; n-- {
		s := pick(c.Rng, shows)
		if strings.Contains(s, "%") {
			s = fmt.Sprintf(s, pick(c.Rng, names))
		}
		texts = append(texts, s)
	}
	return texts
}

// c20foreign decodes data that no interpreter wrote: JSON and msgpack objects
// without a record of their key order, with keys that some ways of sorting
// take for equal.
func c20foreign(c *Ctx) string {
	keys := []string{"id", "Id", "ID", "iD", "name", "Name", "NAME", "a", "A", "aa", "aA", "Aa", "k1", "k01", "k10", "k2", "z", "Z", " z", "z ", "é", "É", "e", "", "1", "01", "1.0", "Atype2", "key_a", "key-a", "keya"}
	var obj func(d int) string
	obj = func(d int) string {
		perm := c.Rng.Perm(len(keys))
		var s []string
		for i, n := 0, 2+c.intn(9); i < n; i++ {
			v := fmt.Sprint(c.intn(100))
			switch k := c.intn(6); {
			case k == 0 && d > 0:
				v = obj(d - 1)
			case k == 1 && d > 0:
				v = "[" + obj(d-1) + ",1]"
			case k == 2:
				v = "\"s\""
			}
			s = append(s, fmt.Sprintf("%q:%s", keys[perm[i]], v))
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	src := fmt.Sprintf("(unjson (raw %q))", obj(2))
	switch c.intn(4) {
	case 0:
		return "(unmsgpack (msgpack " + src + "))"
	case 1:
		return "(unjson (json " + src + "))"
	}
	return src
}
