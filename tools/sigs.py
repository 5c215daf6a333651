#!/usr/bin/env python3
"""Writes harness/src/sigs.rs: the program whose registered functions are table `Sigs` of spec/JPFunc.tla."""
import itertools
import os

T = "VNL"
sigs = []
for l in range(4):
    for ps in itertools.product(T, repeat=l):
        for r in T:
            sigs.append(("".join(ps), r))
for m, ps in enumerate(itertools.product(T, repeat=4), 1):
    sigs.append(("".join(ps), T[m % 3]))
for m in range(1, 13):
    sigs.append(("".join(T[(i + m) % 3] for i in range(1, 5 + m)), T[m % 3]))
for m in range(3):
    sigs.append((T[m] * 5, "V"))
fns = [("f" + ps.lower() + "_" + r.lower(), ps, r) for ps, r in sigs]
fns += [("g", "V", "V"), ("g_", "VV", "V"), ("g__", "VVV", "V"), ("g__1", "VVVV", "V"), ("g0", "N", "V"), ("g09", "L", "V"), ("z" * 300, "V", "V")]

TY = {"V": "ValueType", "N": "NodesType", "L": "LogicalType"}
# names of parameters, that meet those of each other, of functions, and of what a macro may use inside
PARAMS = [["v", "w", "a", "b"], ["a", "v", "args", "value"], ["name", "this", "v", "f"], ["first", "second", "third", "v"], ["x", "y", "z", "t"]]


def params(k, n):
    p = PARAMS[k % len(PARAMS)]
    return [p[i] if i < len(p) else f"{p[i % len(p)]}{i}" for i in range(n)]


out = ["//! Written by tools/sigs.py: the conformance program whose registered functions are table `Sigs`",
       "//! of spec/JPFunc.tla: of every signature of up to four parameters, and of some longer ones.",
       "#![allow(non_snake_case, unused_mut)]",
       "use conf::echo::Item;",
       "use serde_json_path::functions::{self, LogicalType, NodesType, ValueType};", ""]
for k, (name, ps, r) in enumerate(fns):
    ns = params(k, len(ps))
    if k % 7 == 3 and ps:
        ns[-1] = name if k % 2 else "self_"  # a parameter with the function's own name
    paths = ["", "functions::", "serde_json_path::functions::"]
    style = k % 4
    rust = name if style else f"Fn{k}_x"
    if style == 0:
        out.append(f'#[serde_json_path::function(name = "{name}")]')
    else:
        out.append("#[serde_json_path::function]")
    lt = "<'a>" if "N" in ps or "V" in ps else ""
    ar = lambda t: "" if t == "L" else "<'a>" if lt else "<'static>"  # noqa: E731
    mut = ["mut " if (k + i) % 5 == 4 else "" for i in range(len(ps))]
    sig = ", ".join(f"{m}{n}: {paths[(k + i) % 3]}{TY[t]}{ar(t)}" for i, (m, n, t) in enumerate(zip(mut, ns, ps)))
    items = ", ".join(f"Item::{t}({n})" for n, t in zip(ns, ps))
    body = {"V": "value", "N": "nodes", "L": "logical"}[r]
    out.append(f"fn {rust}{lt if lt else ''}({sig}) -> {TY[r]}{ar(r)} {{")
    out.append(f"    conf::echo::{body}(vec![{items}])")
    out.append("}")
out += ["", "fn main() {", '    conf::main("sigs")', "}", ""]
here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "src")
open(os.path.join(here, "sigs.rs"), "w").write("\n".join(out))
tab = ["// Written by tools/sigs.py", "use crate::gen::{Fn, L, N, V};", "pub const SIGS: &[Fn] = &["]
for name, ps, r in fns:
    tab.append(f'    ("{name}", &[{", ".join(ps)}], {r}),')
tab += ["];", ""]
open(os.path.join(here, "sigtab.rs"), "w").write("\n".join(tab))
print(len(fns))
