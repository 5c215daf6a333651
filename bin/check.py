#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough] [--seed N]

Two bindings of the specification in /verif/spec to the code in /repo:
 - models: TLC explores a small instance of the specification exhaustively, checks its
   invariants, and emits vectors (a call and the outcome that the specification determines),
   which the harness replays into the real code;
 - traces: the harness records random histories of calls of the real code, and TLC decides
   whether each is a behaviour of the specification (JPTrace).
See DESIGN.md. Exit codes: 0 held, 1 violated, 2 the check itself failed."""
import fcntl
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import PLAN  # noqa: E402

SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8
T0 = time.time()


class Broken(Exception):
    """The check cannot decide"""


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def text(codes):
    return "".join(chr(c) if 0 <= c < 0x110000 and not 0xD800 <= c < 0xE000 else "\ufffd" for c in codes)


def plain(v):
    """A value of the specification, for people"""
    t = v["t"]
    if t == "flat":
        st = []
        for x in v["f"]:
            k = x["n"] if "n" in x else len(x["ks"]) if "ks" in x else None
            if k is None:
                st.append(plain(x))
            else:
                c = st[len(st) - k:]
                del st[len(st) - k:]
                st.append(c if "n" in x else {text(n): y for n, y in zip(x["ks"], c)})
        return st[0]
    if t == "n":
        return None
    if t == "b":
        return v["b"]
    if t == "s":
        return text(v["s"])
    if t == "a":
        return [plain(x) for x in v["a"]]
    if t == "o":
        return {text(m["k"]): plain(m["v"]) for m in v["o"]}
    ds = "".join(map(str, v["ds"])) or "0"
    return ("-" if v["neg"] else "") + ds + (f"e{v['e']}" if v["e"] else "")


def paths(l):
    return ["/".join([""] + [str(e[1]) if e[:1] == [0] and len(e) > 1 else repr(text(e[1:])) if e[:1] == [1] else "?" for e in p]) for p in l]


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.plan = PLAN[pid]
        self.work = os.path.join(BUILD, "run", f"{pid}-{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)
        self.states = self.transitions = self.traces = self.vectors = 0
        self.samples = []
        self.violations = []  # (clause, description, replay object)
        self.known_hits = {}
        self.known = [k for k in load_known() if k["property"] == pid]
        self.procs = []
        self.models_run = []
        self.lock = threading.Lock()
        self.memo = {}
        self.nviol = 0

    # ---- processes ----
    def run(self, cmd, timeout, env=None, out=None, cwd=None, stdin=None, mem=None):
        e = dict(os.environ)
        e.update(env or {})

        def pre():
            os.setsid()
            if mem:
                import resource

                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))

        with open(out, "wb") as f:
            p = subprocess.Popen(cmd, env=e, stdout=f, stderr=subprocess.STDOUT, cwd=cwd, preexec_fn=pre,
                                 stdin=stdin or subprocess.DEVNULL)
            with self.lock:
                self.procs.append(p)
            try:
                return p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return None

    def kill_all(self):
        for p in self.procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass

    def build(self):
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            env = {"CARGO_TARGET_DIR": os.path.join(BUILD, "target"), "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "--cap-lints allow"}
            out = os.path.join(self.work, "build.log")
            regs = sorted({x.get("reg", "custom") for x in self.plan.get("models", []) + self.plan.get("traces", [])})
            for reg in regs:
                rc = self.run(["cargo", "build", "--offline", "--quiet", "--bin", f"conf_{reg}"], 600, env, out, os.path.join(VERIF, "harness"))
                if rc != 0:
                    why = open(out, errors="replace").read()[-3000:]
                    # these programs differ in nothing but the functions that they register
                    if reg in self.plan.get("register", []) and reg != regs[0]:
                        self.verdict("register", f"the functions of harness/src/{reg}.rs, which are of types that a function may have, cannot be registered: {why}",
                                     {"rerun": f"cd {VERIF}/harness && cargo build --offline --bin conf_{reg}"}, None, ["register"])
                        raise Broken(f"conf_{reg} does not build")
                    raise Broken("the harness does not build:\n" + why)
        log("built")

    def bin(self, reg):
        return os.path.join(BUILD, "target", "debug", f"conf_{reg}")

    def tlc(self, module, cfg, name, env, workers, mem, timeout):
        out = os.path.join(self.work, name + ".tlc")
        meta = os.path.join(self.work, name + ".meta")
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", f"-Djava.io.tmpdir={self.work}", "-Xss256m", f"-Xmx{mem}", gc, "-cp", TLAJAR, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-config", cfg, "-noGenerateSpecTE", "-lncheck", "final", module + ".tla"]
        rc = self.run(cmd, timeout, env, out, SPEC)
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    @staticmethod
    def tlc_stats(out):
        """(generated, distinct, whether it completed without error)"""
        gen = dist = 0
        fine = False
        with open(out, errors="replace") as f:
            for l in f:
                if l.startswith('"'):
                    continue
                m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct", l)
                if m:
                    gen, dist = int(m[1].replace(",", "")), int(m[2].replace(",", ""))
                if "No error has been found" in l:
                    fine = True
        return gen, dist, fine

    def add_states(self, gen, dist):
        with self.lock:
            self.transitions += gen
            self.states += dist

    # ---- models ----
    def model(self, m):
        module, suite, reg = m["module"], m.get("suite", ""), m.get("reg", "custom")
        name = f"{module}-{suite}-{reg}"
        cfg = m.get("cfg", f"{module}.cfg")
        env = {"SUITE": suite, "TIER": self.tier, "REG": reg, "SEED": str(self.seed)}
        rc, out = self.tlc(module, cfg, name, env, m.get("workers", 4), m.get("mem", "8g" if self.tier == "thorough" else "4g"), 3000 if self.tier == "thorough" else 700)
        gen, dist, fine = self.tlc_stats(out)
        if not fine:
            tail = "".join(l for l in open(out, errors="replace") if not l.startswith('"VEC'))[-3000:]
            raise Broken(f"model {name}: TLC failed (rc={rc}):\n{tail}")
        self.add_states(gen, dist)
        vec = os.path.join(self.work, name + ".vec")
        n = 0
        seen = set()  # TLC evaluates an action more than once when it checks liveness
        with open(out, errors="replace") as f, open(vec, "w") as g:
            for l in f:
                if l.startswith('"VEC ') and hash(l) not in seen:
                    seen.add(hash(l))
                    g.write(json.loads(l)[4:] + "\n")
                    n += 1
        os.remove(out)
        log(f"model {name}: {dist} states, {gen} transitions, {n} vectors")
        self.models_run.append({"model": name, "states": dist, "vectors": n})
        return name, reg, vec, n, m

    def replay_vectors(self, name, reg, vec, n, m):
        if n == 0:
            if not m.get("novec"):
                raise Broken(f"model {name} emitted no vectors")
            return
        parts = 4 if n > 1000 or m["module"] == "MC_Big" else 1
        with open(vec) as f:
            lines = f.readlines()
        files = []
        for i in range(parts):
            files.append(f"{vec}.{i}")
            with open(files[i], "w") as g:
                g.writelines(lines[i::parts])
        del lines
        rcs = [None] * parts

        def part(i):
            rcs[i] = self.run([self.bin(reg), "vectors", files[i]], 300 if self.tier == "quick" else 3000, {}, files[i] + ".out", mem=16 << 30)

        ts = [threading.Thread(target=part, args=(i,)) for i in range(parts)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        done = 0
        for i, file in enumerate(files):
            last = 0
            for l in open(file + ".out", errors="replace"):
                if l.startswith("FAIL "):
                    bad, js = l[5:].split(" {", 1)
                    v = json.loads("{" + js)
                    for c in bad.split(" "):
                        if v["k"] == "hist" and c.split(":")[0] in ("query", "reject", "accept") and self.wrong_alone(reg, v):
                            continue
                        on = self.vec_plain(v)
                        if v["k"] == "big":
                            q = v["qs"][int(c.split(":")[1])]
                            on = f"{text(q['s'])[:300]!r} on the {v['doc']} document of size {v['n']}, where it should give {json.dumps(q['r'])[:300]}"
                        self.verdict(c.split(":")[0], f"{name}: {c} on {str(on)[:1500]}", {"vector": v, "model": name, "failed": bad,
                                     "rerun": f"{self.bin(reg)} vectors <file with the vector on one line>"}, v.get("s"), m.get("clauses"))
                elif l.startswith("DONE "):
                    done += int(l.split()[1])
                elif l.startswith("AT "):
                    last = int(l[3:])
            if rcs[i] != 0:
                with open(file) as f:
                    v = json.loads(f.readlines()[max(last, 1) - 1])
                self.verdict("crash", f"{name}: the code {'hangs' if rcs[i] is None else 'crashes'} on {self.vec_plain(v)}",
                             {"vector": v, "model": name}, v.get("s"))
                return
        if done != n:
            raise Broken(f"vectors of {name}: {done} of {n} were replayed")
        self.vectors += n
        with open(vec) as f:
            lines = [l for i, l in enumerate(f) if i in (0, n // 3, 2 * n // 3)]
        for l in lines[:2]:
            self.samples.append({"model": name, "vector": self.vec_plain(json.loads(l))})
        log(f"vectors {name}: {n} replayed")

    def vec_plain(self, v):
        r = {"kind": v["k"]}
        if v["k"] == "big":
            return {"kind": "big", "document": v["doc"], "n": v["n"], "queries": [text(q["s"])[:200] for q in v["qs"][:12]]}
        for k, x in v.items():
            if k in ("s", "np", "ptr"):
                r[k] = text(x)
            elif k in ("ts", "texts"):
                r[k] = [text(t) for t in x]
            elif k == "d" and isinstance(x, dict):
                r["doc"] = plain(x)
            elif k == "r" and v["k"] in ("q", "dd"):
                r["result"] = paths(x)
            elif k != "k":
                r[k] = x
        s = json.dumps(r, ensure_ascii=True)
        return r if len(s) < 1500 else s[:1500] + "..."

    # ---- traces ----
    def trace_profile(self, t):
        prof, reg = t["profile"], t.get("reg", "custom")
        sessions = t[self.tier]
        chunk = t.get("chunk", 4000)
        done = 0
        while done < sessions:
            to = min(sessions, done + chunk)
            self.trace_chunk(prof, reg, done, to, t)
            done = to
            if self.violations:
                break

    def trace_chunk(self, prof, reg, a, b, t):
        pre = os.path.join(self.work, f"{prof}-{reg}-")
        out = pre + "rec.log"
        rc = self.run([self.bin(reg), "record", prof, str(self.seed), str(a), str(b), pre, str(NPROC)], 300, {}, out, mem=16 << 30)
        if rc != 0:
            at = []
            for k in range(NPROC):
                try:
                    at.append(int(open(f"{pre}{k}.at").read()))
                except (OSError, ValueError):
                    pass
            culprits = []
            for j in at:
                r1 = self.run([self.bin(reg), "record", prof, str(self.seed), str(j), str(j + 1), pre + "x", "1"], 60, {}, pre + "x.log", mem=16 << 30)
                if r1 != 0:
                    culprits.append(j)
            if not culprits:
                raise Broken(f"recording {prof} failed (rc={rc}), but no session does so alone: {open(out, errors='replace').read()[-500:]}")
            for j in culprits[:3]:
                self.verdict("crash", f"session {j} of {prof} {'does not end' if rc is None else 'kills the process'}",
                             {"rerun": f"{self.bin(reg)} record {prof} {self.seed} {j} {j + 1} /tmp/replay. 1"}, None)
            return
        files = [f"{pre}{k}.ndjson" for k in range(NPROC)]
        files = [f for f in files if os.path.getsize(f) > 0]
        ths, res = [], {}
        cfg = {"custom": "JPTrace.cfg", "shadow": "JPTraceShadow.cfg", "sigs": "JPTraceSigs.cfg"}[reg]

        def one(k, f):
            res[k] = self.tlc("JPTrace", cfg, f"{prof}-{reg}-{k}", {"TRACE": f}, 1, "3g", 3000 if self.tier == "thorough" else 700)

        for k, f in enumerate(files):
            th = threading.Thread(target=one, args=(k, f))
            th.start()
            ths.append(th)
        for th in ths:
            th.join()
        tot = 0
        for k, f in enumerate(files):
            rc, out = res[k]
            gen, dist, fine = self.tlc_stats(out)
            rej = [json.loads(json.loads(l)[7:]) for l in open(out, errors="replace") if l.startswith('"REJECT')]
            if not fine:
                tail = "".join(l for l in open(out, errors="replace") if not l.startswith('"REJECT'))[-3000:]
                if rej:
                    self.judge(f, rej, prof, reg)
                if not self.violations:
                    raise Broken(f"TLC failed on {f} (rc={rc}):\n{tail}")
                continue
            self.add_states(gen, dist)
            tot += dist - 1
            if rej:
                self.judge(f, rej, prof, reg)
            if k == 0 and len(self.samples) < 8:
                self.sample(f)
            os.remove(f)
        self.traces += b - a
        log(f"traces {prof}/{reg} sessions {a}-{b}: {tot} events validated")

    def sample(self, f):
        sess = []
        with open(f) as fh:
            for i, l in enumerate(fh):
                e = json.loads(l)
                if e["op"] == "reset" and sess:
                    break
                sess.append(self.ev_plain(e))
        s = json.dumps(sess)
        self.samples.append({"trace": sess if len(s) < 3000 else s[:3000] + "..."})

    def ev_plain(self, e):
        r = {}
        for k, x in e.items():
            if k == "v" and isinstance(x, dict):
                r[k] = plain(x)
            elif k in ("s", "s2") or (k == "ser" and e["op"] == "disp"):
                r[k] = text(x)
            elif k in ("np", "ser", "lser", "ptr", "sl", "dt") and isinstance(x, list):
                r[k] = [text(y) for y in x]
            elif k in ("r", "q", "x", "locs", "ir", "ilocs", "ar", "alocs", "pn", "all", "it", "into", "nodes", "to") and e["op"] != "parse" and e["op"] != "int":
                r[k] = paths(x)
            else:
                r[k] = x
        return r

    def judge(self, f, rej, prof, reg):
        with open(f) as fh:
            lines = fh.read().splitlines()
        start = 0
        resets = [i for i, l in enumerate(lines) if l.startswith('{"op":"reset"')]
        import bisect

        for r in rej:
            i = r["line"] - 1
            start = resets[bisect.bisect_right(resets, i) - 1]
            j = json.loads(lines[start]).get("j")
            e = json.loads(lines[i])
            txt = doc = None
            for k in range(i, start, -1):
                x = json.loads(lines[k])
                if txt is None and x["op"] == "parse" and x.get("h") == e.get("h"):
                    txt = x["s"]
                if doc is None and x["op"] == "doc" and x.get("d") == e.get("d"):
                    doc = x["v"]
            if e["op"] == "disp":
                txt = txt or e["s"]
            for c in r["bad"]:
                if self.plan.get("alone") and c in ("query", "reject", "accept") and not self.impure(reg, e, txt, doc):
                    continue
                what = f"{prof} session {j}: {c} violated by {json.dumps(self.ev_plain(e))[:700]}"
                if txt is not None:
                    what += f" of query {text(txt)!r}"
                if doc is not None:
                    what += f" on {json.dumps(plain(doc))[:700]}"
                self.verdict(c, what, {"clause": c, "event": e, "query": text(txt) if txt else None,
                                       "session": [self.ev_plain(json.loads(x)) for x in lines[start:i + 1]],
                                       "rerun": f"{self.bin(reg)} record {prof} {self.seed} {j} {j + 1} /tmp/replay. 1"}, txt)

    def impure(self, reg, e, txt, doc):
        """Does the same call, alone in a process of its own, give another outcome than in the history?"""
        if txt is None:
            return True
        if self.nalone >= 60:
            return False
        got = self.alone(reg, txt, doc)
        if e["op"] == "parse":
            return (e["r"][0] == "ok") != isinstance(got, list)
        return got != e["r"]

    def wrong_alone(self, reg, v):
        """Does some call of a history go wrong alone as well?"""
        slot, cur, calls = [None, None], v["docs"][0], []
        for x in v["h"]:
            if x["o"] == "parse":
                slot[x["a"]] = v["texts"][x["b"] - 1]
                if not x["ok"]:
                    calls.append((slot[x["a"]], cur, None))
            elif x["o"] == "clone":
                slot[x["a"]] = slot[x["b"]]
            elif x["o"] == "doc":
                cur = v["docs"][x["b"] - 1]
            else:
                calls.append((slot[x["a"]], cur, x["r"]))
        for txt, doc, want in calls:
            k = json.dumps([reg, txt, doc])
            if k not in self.memo:
                self.memo[k] = self.alone(reg, txt, doc)
            got = self.memo[k]
            if isinstance(got, list) != (want is not None) or (want is not None and got != want):
                return True
        return False

    def alone(self, reg, txt, doc):
        """The outcome of one call in a process of its own"""
        self.nalone += 1
        inp = os.path.join(self.work, "alone.in")
        with open(inp, "w") as f:
            f.write(json.dumps({"s": txt, "v": doc or {"t": "n"}}) + "\n")
        out = inp + ".out"
        with open(inp) as f:
            self.run([self.bin(reg), "alone"], 60, {}, out, stdin=f)
        o = open(out).read().strip()
        return json.loads(o) if o else "crash"

    nalone = 0

    # ---- verdicts ----
    def verdict(self, clause, what, replay, txt, extra=None):
        counted = set(self.plan["clauses"]) | {"crash"} | set(extra or [])
        base = clause.split(":")[0]
        for k in self.known:
            if k["clause"] == base and (k.get("text") is None or (txt is not None and re.search(k["text"], text(txt), re.S))):
                self.known_hits.setdefault(k["id"], what)
                return
        if base not in counted and not (base.startswith("panic") and "panic" in counted):
            return
        with self.lock:
            self.nviol += 1
            if len(self.violations) < 5:
                self.violations.append((clause, what, replay))

    def finish(self):
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces + self.vectors,
                "recorded_histories": self.traces,
                "model_vectors_replayed": self.vectors,
                "models": self.models_run,
                "samples": self.samples[:10],
            },
            "assumptions": self.plan.get("assumptions", []),
            "wall_s": round(time.time() - T0, 1),
            "violations": self.nviol,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}" + (" (observed in this run)" if k["id"] in self.known_hits else ""))
        if not self.violations:
            log(f"{self.pid} held on everything explored: {self.states} states, {self.traces} histories, {self.vectors} vectors")
            return 0
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (c, what, rep) in enumerate(self.violations):
            p = os.path.join(rd, f"{self.pid}-{i}.json")
            with open(p, "w") as f:
                json.dump({"property": self.pid, "clause": c, "what": what, **rep}, f, indent=1)
            print(what)
            print(f"VIOLATION property={self.pid} replay={p}", flush=True)
        return 1

    def main(self):
        errs = []
        models = [m for m in self.plan.get("models", []) if self.tier == "thorough" or not m.get("thorough_only")]
        done = []

        def run_model(m):
            try:
                done.append(self.model(m))
            except Broken as e:
                errs.append(e)

        # the models do not need the code: they are checked while it is built
        sem = threading.Semaphore(3)

        def limited(m):
            with sem:
                run_model(m)

        ths = [threading.Thread(target=limited, args=(m,)) for m in models]
        for th in ths:
            th.start()
        try:
            self.build()
            if not self.plan.get("serial"):
                for t in self.plan.get("traces", []):
                    if not self.violations:
                        self.trace_profile(t)
            for th in ths:
                th.join()
            if errs:
                raise errs[0]
            for d in done:
                self.replay_vectors(*d)
        except Broken as e:
            if self.violations:
                log("after a violation:", str(e)[:500])
                return self.finish()
            raise
        finally:
            self.kill_all()
            for th in ths:
                th.join()
        return self.finish()


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def main():
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    a = ap.parse_args()
    c = Check(a.id, a.tier, a.seed)
    try:
        rc = c.main()
    except Broken as e:
        print("CHECK-ERROR:", e, flush=True)
        rc = 2
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
