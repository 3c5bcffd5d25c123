#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
HOOK_COMMITS = ["d67ea9d"]
LEVEL = {"C08": "exploration"}
T = {
 "C07": ("runtime monitor: exact-arithmetic oracle over recorded results of every numeric builtin", "all ordered pairs of ~130 boundary values through five call routes, plus ~1M random/neighbouring pairs; oracle is math/big and Go float64; uint64-vs-other comparison and ** only checked not to crash"),
 "C11": ("runtime monitor: structural oracle over encoded text and decoded values, encoding/json as independent decoder", "300k random values per run with hostile strings and boundary numbers; Inf/NaN, keys named Atype/zKeyOrder and keys colliding under the same JSON name are outside the property and not generated"),
 "C14": ("runtime monitor: online checker of every hash operation against an insertion-ordered map model", "50k random operation histories per run, audited after every operation through nine observers (length, keys, lookup, positional access, ranges, printed form, JSON, msgpack, bucket/order lists); key pools chosen to collide in buckets"),
}
T["C12"] = ("runtime monitor: print/read and print/evaluate round trips against the original value, literals against math/big and strconv", "every Unicode scalar value as char and inside strings, every numeric spelling over a 16-letter alphabet to length 5, plus 200k random values/spellings/saved files per run; symbols limited to names the reader produces")
T["C13"] = ("runtime monitor: differential observation of the incremental parser (pieces vs whole), generator-known tree and open-bracket state as oracle", "exhaustive one- and two-rune cuts of ~5000 generated texts (<=60 runes) per run, random cuts and rune-by-rune delivery of the script corpus, malformed windows, histories through all entry points, the REPL line reader of the built tool")
T["C19"] = ("runtime monitor: offline checker over the recorded history of (interpreter, name, number) interning events", "50k random histories over families of duplicates/clones per run, names shaped like generated symbols included")
T["C20"] = ("runtime monitor: equality of everything observable (typed value, shown text, printed output, error text, stack trace) over repeated runs in fresh interpreters of a busy process and in fresh processes", "15k programs per run, five runs each, and the script corpus through the tool")
T["C06"] = ("runtime monitor: expansion trees against a precedence-climbing oracle; differential runs of infix blocks against prefix twins with effect logs", "every operator sequence to length 3 plus random token sequences to 7 operators with prefixes, selectors, slices, calls, nested blocks, separators; random statement programs in seven contexts; spellings where two tokens fuse are not generated")
T["C02"] = ("runtime monitor: an independent reference evaluator runs beside the interpreter; values, raised errors, effect logs and caller state compared after every form", "~80k random core-language programs per run (nested functions, loops with labels, short circuits, apply/map, collections, errors injected at random sites); programs whose meaning the statement leaves open are marked unsure by the reference and not judged")
T["C03"] = ("runtime monitor: differential run against a reference evaluator with explicit environments, on programs biased to closures, shadowing and escaping functions", "~60k random closure-heavy programs per run plus a family of nested-scope programs with a closed-form answer")
T["C04"] = ("runtime monitor: depths of all VM stacks read after every evaluation, one-at-a-time vs together differential, heap and symbol-table growth over repeated evaluation", "~14k random programs from construct templates covering every special form, builder and macro, plus growth probes; compile-unit effects of macros listed as a known finding")
T["C05"] = ("runtime monitor: fault injection with twin-interpreter comparison, VM depth accessors and a reference evaluator that continues after errors", "~16k random sequences per run: failing texts of every kind through seven entry points, aborts at an arbitrary VM instruction, REPL sessions with and without the failing lines")
T["C17"] = ("runtime monitor: declaration model audited over every instance ever made after each step of random write histories", "~30k histories per run over sixteen field-write routes plus constructions, decoders, pointer writes, writes into held arrays through aliases and slices, redeclarations and failing declarations; pointers to arrays and struct declarations inside functions are not generated")
T["C18"] = ("runtime monitor: every access to a package member through a dot path is judged against a model of the members, and functions defined inside every package report its state after each access", "24k random package forests per run (depth to 5, made by def, let, closures, eval, source, import and twice by a function; aliases as globals, locals, hash and package members), about 300k reads, calls and assignments by 100+ routes; some builtins (list, aget, first, map...) take a dot path as it is and are judged only for leaks")
T["C08"] = ("runtime monitors on a live sandbox: inotify on canary files, resource usage and child processes, environment and working directory snapshots, death of the process, and a two-world non-interference comparison", "14k programs per run over seven sandbox configurations and four entry points, and the tool with -sandbox; every bound name and every word of the sources by some 65 routes")
T["C09"] = ("runtime monitor: high-water marks of VM stacks, Go stack and heap from the step hook over runs to depths 120..100000, plus a differential run against a reference evaluator that makes every call", "~12k random tail-recursive functions compared at depths 0-16 and ~4k watched to depth 1200 (some 12000 and 100000) per run; the space programs do not accumulate anything themselves")
T["C15"] = ("runtime monitor: template values against a substituting reference; programs rewritten into macro calls run beside the reference on the hand-written originals; stacks and globals watched around expansions", "24k random cases per run: templates to depth 5 with unquotes, splices and hash templates in fifteen contexts, programs with up to 25 macros at arbitrary call sites, ~45 fixed macro/hand pairs; lazy macro parameters and improper lists are not generated")
T["C16"] = ("runtime monitor: effect traces, values and recovered forms compared with a reference evaluator that keeps promises as form plus environment, stacks at rest after every text", "26k random programs per run over every mix of lazy/strict/rest/typed parameters and 20+ call routes (alias, parameter, computed callee, members of packages and hashes, by name, apply, map, eval, macro, recursion and tail calls), promises kept and forced after their makers returned; rest parameters are taken as strict")
T["C10"] = ("runtime monitor: graph isomorphism between the generated Go object graph and the one the converter made, field-wise comparison of the records that come back, an error demanded for every spoilt record", "40k object graphs per run over thirteen demo and harness struct types covering every field kind, shared, circular and by-value references, about 98k conversions and method calls")
T["C01"] = ("runtime monitor: every entry point called under a recover and a step budget, death and CPU time of the process watched from outside, error texts, stack traces, values and scopes shown after each call", "6.8M texts per run: every token sequence to length 3 over a 92-token alphabet in five surroundings, every string of one or two bytes, all 309 names of the interpreter with every pair of 62 values, texts nested up to 300000 deep, data nested up to 4M deep, cyclic and shared data, damaged corpus scripts, sessions of the tool; exhaustion of memory is judged in two targeted cases, both known findings")
PENDING = {}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in T:
        tech, note = T[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": tech, "level": LEVEL.get(i, "exploration"), "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif", "enable": "go build -tags verif (VM step hook and depth accessors in zygo/verif_on.go)", "source_commits": HOOK_COMMITS},
     "checks": checks, "not_applicable": na}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
