#!/usr/bin/env python3
# Rewrites the "fixed:" lines of known_findings.txt from the fix commits of /repo.
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = [("handle a curve with a trivial group", "C02", "gens_gen_any / points crashed or printed garbage for a curve whose group is trivial (e.g. p=3, order 1)"),
 ("--points=random must not choose the point at infinity", "C03", "--points=random printed or crashed on the point at infinity"),
 ("embedding degree of an order divisible by p", "C04", "--metadata aborted with a PARI error for curves whose order is divisible by p"),
 ("--koblitz took orders from the binary table", "C06", "--fp --koblitz 103 (and twists) used the order of the binary Koblitz curve"),
 ("--twist used the order of a previously rejected curve", "C16", "--twist after a rejected candidate printed the stale order"),
 ("--cofactor generator of curves with two generators", "C02", "--cofactor on a non-cyclic curve printed a generator of the wrong order"),
 ("invalid curves lacked points of all but the first prime", "C14", "--invalid listed only one point when several primes divided the order"),
 ("bits_shiftrz by a negative amount", "C21", "bits_shiftrz(negative) rotated wrongly for lengths that are no power of two"),
 ("last byte of random bit strings", "C21", "bits_new_rand of whole bytes always had a zero last byte"),
 ("no binary field of degree 1060", "C22", "--f2m -r 1060 failed: the table had no entry"),
 ("threaded --invalid printed curves without separators", "C15", "--invalid --threads=2 printed malformed JSON"),
 ("--invalid without any prime in the range", "C14", "--invalid=8-10 ended with a PARI error and malformed JSON"),
 ("--invalid range starting at 0", "C14", "--invalid=0-5 was treated as an empty range")]
M += [tuple(l.rstrip("\n").split("|", 2)) for l in open(os.path.join(V, "tools", "fixed_more.txt"))] if os.path.exists(os.path.join(V, "tools", "fixed_more.txt")) else []
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()]
f = os.path.join(V, "known_findings.txt")
out = [l for l in open(f) if not l.startswith("fixed:")]
for h, s in reversed(log):
    if not s.startswith("fix:"): continue
    k = [m for m in M if m[0] in s]
    if not k: print("no entry for", s); continue
    out.append("fixed: property=%s %s %s\n" % (k[0][1], h, k[0][2]))
open(f, "w").writelines(out)
