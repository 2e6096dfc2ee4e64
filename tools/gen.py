#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from this one table.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, st, over, text, why, files, mech, level, tech, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=st, over=over, text=text, why=why, files=files, mech=mech, level=level, tech=tech, note=note, observe=observe or ["stdout JSON", "exit status"], state=state or []))
EX, MC, FE = "exploration", "model_checking", "fault_enumeration"
TRUST = "Trusted: the compiler, libc, PARI/GP's arithmetic and the checker's own oracle (brute-force point counting below 2^17; PARI integers and affine formulas above)."

prop("C01", "Every printed curve is nonsingular, as requested, with its exact order",
 "Every curve record ecgen prints describes a nonsingular curve over a genuine field of the requested kind and size: p is prime (exactly BITS bits when the field is chosen at random) or the printed reduction polynomial of degree BITS is irreducible over GF(2), and a and b are reduced field elements, all padded to the field size. The printed order is exactly the number of points of that very curve. Curves given as input are printed in input order with exactly the given coefficients.",
 ["inputs", "configurations", "histories"], "every field, every coefficient pair, every random choice, every option set, every position in a multi-curve run",
 "The unit tests fix a handful of curves; the claim is about all coefficient pairs, fields and sequences of rejected and accepted candidates in one run.",
 ["src/exhaustive/exhaustive.c", "src/gen/field.c", "src/gen/equation.c", "src/gen/curve.c", "src/gen/order.c", "src/io/output.c", "src/math/koblitz.c"],
 [("point counting and order bookkeeping", "src/gen/order.c"), ("nonsingularity check and backtracking", "src/gen/curve.c, src/exhaustive/exhaustive.c")],
 EX, "exhaustive enumeration of real executions (all curves over small fields, all random answers) against brute-force point counts",
 "Complete within the bounds listed in the evidence: all curves over all F_p with p <= 61 (257 thorough) and F_2^m with m <= 6 (7), all answers to the first random requests for 3..5-bit fields; a fixed ladder of sizes up to 192 (256) bits beyond. " + TRUST)
prop("C02", "Printed generators lie on the curve, have their stated order, and generate it",
 "Every generator ecgen prints is an affine point of the printed curve, its printed order is exactly its order in the group, and order times cofactor equals the curve order. Together the printed generators generate the whole group: one generator for a cyclic group, two otherwise, none for the trivial group. When a cofactor h was requested the first generator has order exactly (curve order)/h.",
 ["inputs", "configurations", "histories"], "every curve (cyclic or not), every combination of generator-related options",
 "Tests look at one curve per generator function and never verify the group structure.",
 ["src/gen/gens.c", "src/io/output.c", "src/obj/subgroup.c"], [("generator computation", "src/gen/gens.c")],
 EX, "exhaustive enumeration of real executions against brute-force group structure",
 "Same exploration space as C01 with generator-related option sets. " + TRUST)
prop("C03", "Listed points have exactly the orders the requested points type promises",
 "Under each subgroup, for points type prime / nonprime / all, ecgen lists exactly one point for every prime / composite / (any, above 1) divisor of the subgroup's order; for none it lists nothing, and for [num]random exactly num points (one when no number is given) in total over all subgroups. Every listed point is an affine point of the curve, belongs to the subgroup it is listed under and has exactly its printed order.",
 ["inputs", "configurations"], "every curve, every factorisation pattern of subgroup orders, every points type, every random choice",
 "Tests check single curves; divisor patterns (prime powers, repeated factors, two generators) and random draws are not covered.",
 ["src/gen/point.c", "src/math/subgroup.c", "src/io/output.c"], [("divisor enumeration", "src/math/subgroup.c"), ("points of given order", "src/gen/point.c")],
 EX, "exhaustive enumeration of real executions against divisor and point-order brute force",
 "Same exploration space as C01 with all points types; random draws enumerated completely on 3..5-bit fields. " + TRUST)
prop("C04", "Metadata describes the printed curve",
 "With metadata requested, the printed j-invariant and discriminant are those of the printed curve (as elements of its field) and the Frobenius trace is q + 1 minus the printed order. For prime fields the embedding degree is the multiplicative order of p modulo the curve order (0 if p and the order are not coprime), and the CM discriminant is a fundamental discriminant which times the square of the conductor equals t^2 - 4p. Without the option no metadata is printed.",
 ["inputs", "configurations"], "every curve over prime and binary fields, twisted or not",
 "One unit test checks one curve.",
 ["src/gen/metadata.c", "src/io/output.c", "src/gen/gens.c"], [("metadata computation", "src/gen/metadata.c")],
 EX, "exhaustive enumeration of real executions against independently computed invariants",
 "Same exploration space as C01 with metadata on. " + TRUST)
prop("C05", "Requested constraints hold, and no satisfying input candidate is skipped",
 "With prime, cofactor VALUE, smooth BOUND, unique or koblitz requested, every printed curve of the input and random methods has prime order, order VALUE times a prime, only prime factors of at most BOUND bits, exactly one generator, or the equation a in {0,1}, b = 1, respectively. Candidates supplied as input are considered one after another: the printed curves are exactly the nonsingular candidates that satisfy all requested constraints, in order, until the requested count is reached.",
 ["inputs", "configurations", "histories"], "every sequence of candidate curves and every combination of constraint options",
 "Tests exercise single generator functions on single curves, never the search loop over rejected candidates.",
 ["src/exhaustive/exhaustive.c", "src/gen/order.c", "src/gen/gens.c", "src/gen/equation.c"], [("constraint checks", "src/gen/order.c, src/gen/gens.c"), ("backtracking search", "src/exhaustive/exhaustive.c")],
 EX, "exhaustive enumeration of candidate sequences against a reference acceptance predicate",
 "Every input candidate over the fields of C01 under each constraint set, compared with the predicted accepted sequence. " + TRUST)
exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None
built = {l.split()[0] for l in open(os.path.join(V, "harness", "modules.txt")) if l.strip()}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
 "notes": "Each check builds the sources in /repo's working tree into a model-checking harness under /verif/build (git-ignored) and runs them. No hooks in /repo are needed: interposition happens at link time."}
for p in P:
    if p["id"] in built:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"], "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "checker not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed; over 80:", [p["id"] for p in P if len(p["title"]) > 80])
