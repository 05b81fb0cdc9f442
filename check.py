#!/usr/bin/env python3
"""Decide one property by symbolic execution of the current sources.

usage: check.py ID [--tier quick|thorough]      exit 0 held, 1 violated, 2 no answer
       check.py --replay FILE                   run a recorded counterexample again
"""
import concurrent.futures
import fcntl
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import lift  # noqa: E402
import specs  # noqa: E402

CLANG = shutil.which("clang-18") or "clang"
LLVM_LINK = shutil.which("llvm-link-18") or "llvm-link"
CPU = os.cpu_count() or 4


class NoAnswer(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r


def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        raise NoAnswer("command failed: %s\n%s" % (" ".join(cmd)[:300], r.stderr[-3000:]))
    return r.stdout


def ensure_symx():
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    with open(os.path.join(HERE, "build", "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        must(["make", "-s", "-j8", "-C", os.path.join(HERE, "symx")])
    return os.path.join(HERE, "build", "symx", "symx")


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".c"):
                out.append(os.path.join(d, f))
    return sorted(out)


def defs(variant):
    d = specs.VARIANTS[variant]
    return ["-D%s" % k if v is None else "-D%s=%s" % (k, v) for k, v in d.items()]


INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
       "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(HERE, "env")]
BCFLAGS = ["-O1", "-fno-pic", "-c", "-emit-llvm", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-fno-builtin-malloc", "-fno-builtin-calloc", "-fno-builtin-realloc", "-fno-builtin-free",
           "-fno-builtin-printf", "-fno-builtin-fprintf", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-w"]


def compile_bc(pool, variant, out):
    """Bitcode of every source file of the repository under a configuration."""
    os.makedirs(out, exist_ok=True)
    jobs = []
    for i, s in enumerate(sources()):
        o = os.path.join(out, "%03d.bc" % i)
        jobs.append((o, pool.submit(must, [CLANG] + BCFLAGS + specs.FLAGS.get(variant, []) + INC + defs(variant) + ["-o", o, s])))
    for _, j in jobs:
        j.result()
    o = os.path.join(out, "repo.bc")
    must([LLVM_LINK, "-o", o] + [x[0] for x in jobs])
    return o


def lifted(arch, out):
    try:
        return lift.lift(REPO, arch, out)
    except lift.Unknown as e:
        raise NoAnswer("machine code: %s" % e)


def harness_bc(pool, run, flags, out, repo_bc):
    os.makedirs(out, exist_ok=True)
    jobs = []
    extra = [lifted(run["lift"], out)] if run["lift"] else []
    for s in [os.path.join(HERE, "env", "env.c")] + [os.path.join(HERE, "harness", x) for x in run["src"]] + extra:
        o = os.path.join(out, os.path.basename(s) + ".bc")
        jobs.append((o, pool.submit(must, [CLANG] + BCFLAGS + INC + defs(run["variant"]) + flags + ["-o", o, s])))
    for _, j in jobs:
        j.result()
    o = os.path.join(out, "prog.bc")
    must([LLVM_LINK, "-o", o, repo_bc] + [x[0] for x in jobs])
    return o


def native_build(run, flags, out, fill=None):
    """The same sources, harness and environment as a native program (gcc, asan).
    fill: what the repository's uninitialised variables hold, "pattern" or "zero", or "stack"."""
    os.makedirs(out, exist_ok=True)
    real = []
    if run["lift"]:
        # the real routine in place of the lifted one
        real = [os.path.join(HERE, "native", "call64.c" if run["lift"] == "x86_64" else "run32.c")]
        flags = flags + ["-DNATIVE"]
        if run["lift"] == "i386":
            flags = flags + ['-DR32="%s"' % lift.program32(REPO, HERE, out)]
    own = specs.FLAGS.get(run["variant"])
    san = [] if own else ["-fsanitize=address", "--param", "asan-stack=0"]
    cc = ["gcc", "-g", "-O1", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-w", "-c"] + san
    lcc = [CLANG, "-g"] + [x for x in BCFLAGS if x not in ("-emit-llvm", "-fno-pic")] + own if own else cc
    if fill == "stack":
        # also watch the bounds of variables on the stack
        lcc = [x for x in lcc if x not in ("--param", "asan-stack=0")]
    elif fill:
        lcc = lcc + ["-ftrivial-auto-var-init=" + fill]
    with concurrent.futures.ThreadPoolExecutor(CPU) as pool:
        env = []
        for s in [os.path.join(HERE, "env", "env.c"), os.path.join(HERE, "native", "rt.c")] + \
                [os.path.join(HERE, "harness", x) for x in run["src"]] + real:
            o = os.path.join(out, os.path.basename(s) + ".o")
            extra = ["-Dharness=" + run["entry"]] if s.endswith("rt.c") else []
            env.append((o, pool.submit(must, cc + INC + defs(run["variant"]) + flags + extra + ["-o", o, s])))
        lib = []
        for i, s in enumerate(sources() + [os.path.join(REPO, "src/kern/task/hev-task-execute.S")]):
            o = os.path.join(out, "r%03d.o" % i)
            lib.append((o, pool.submit(must, lcc + INC + defs(run["variant"]) + ["-o", o, s])))
        for _, j in env + lib:
            j.result()
    names = set()
    for o, _ in env:
        for l in must(["nm", "--defined-only", o]).split("\n"):
            p = l.split()
            if len(p) >= 3 and p[2].startswith("env_"):
                names.add(p[2][4:])
    syms = os.path.join(out, "redefine")
    with open(syms, "w") as f:
        for n in sorted(names):
            f.write("%s env_%s\n" % (n, n))
    repo_o = os.path.join(out, "repo.o")
    must(["ld", "-r", "-o", repo_o] + [o for o, _ in lib])
    # only undefined references are renamed; repository definitions of such names are left alone
    defined = set()
    for l in must(["nm", "--defined-only", repo_o]).split("\n"):
        p = l.split()
        if len(p) >= 3:
            defined.add(p[2])
    over = sorted(n for n in names if n in defined)
    if over:
        with open(syms, "w") as f:
            for n in sorted(names):
                f.write("%s env_%s\n" % (n, n))
        # the environment replaces a repository function: drop its definition to weak
        must(["objcopy"] + ["--weaken-symbol=%s" % n for n in over] + [repo_o])
    must(["objcopy", "--redefine-syms=" + syms, repo_o])
    exe = os.path.join(out, "replay")
    must(["gcc"] + san[:1] + ["-no-pie", "-o", exe, repo_o] + [o for o, _ in env] + ["-lpthread"])
    return exe


def native_run(exe, inputs, trace=False, down=False, fill=None):
    env = dict(os.environ)
    if down:
        env["SYM_DOWN"] = "1"
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:use_sigaltstack=0:handle_segv=1:max_allocation_size_mb=8192:allocator_may_return_null=1"
    if fill:
        env["SYM_FILL"] = "0" if fill == "zero" else "90"
    if trace:
        env["SYM_TRACE"] = "1"
    try:
        r = sh([exe, inputs], env=env, timeout=30)
    except subprocess.TimeoutExpired:
        return "hang", "no end within 30 s"
    t = r.stderr[-6000:]
    if r.returncode == 0:
        return "clean", t
    if r.returncode in (77, 78):
        return "diverged", t
    if r.returncode == -14:
        return "hang", t
    return "failed", "exit %d\n%s" % (r.returncode, t)


def known_findings(pid):
    """Lines  known: property=ID "violated assertion" what fails  of known-findings.txt."""
    d = {}
    for line in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r'known: property=(\w+) "([^"]+)" (.*)', line)
        if m and m.group(1) == pid:
            d[m.group(2)] = m.group(3)
    return d


def explore(symx, prog, run, out, jobs):
    os.makedirs(out, exist_ok=True)
    cmd = [symx, prog, "--entry", run["entry"], "--out", out, "--repo", REPO, "--jobs", str(jobs),
           "--max-steps", str(run["steps"]), "--max-time", str(run["time"])] + run["opts"]
    r = sh(cmd)
    if r.returncode or not os.path.exists(out + "/coverage.json"):
        raise NoAnswer("symx failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    cov = json.load(open(out + "/coverage.json"))
    tot = dict(violations=[], errors=[], covers=set(), samples=[])
    for f in glob.glob(out + "/worker-*.json"):
        w = json.load(open(f))
        for k, v in w.items():
            if k in ("violations", "errors", "samples"):
                tot[k] += v
            elif k == "covers":
                tot[k] |= set(v)
            elif k in ("max_query_s", "maxrss_mb", "vars"):
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
    if cov["lost_workers"]:
        tot["errors"].append("a worker process was lost")
    tot["cov"] = cov
    return tot


def write_inputs(path, v):
    with open(path, "w") as f:
        for n, x in v["inputs"]:
            f.write("%s %d\n" % (n, x))


def check(pid, tier, keep=False):
    t0 = time.time()
    spec = specs.SPECS[pid]
    if "module" in spec:
        import importlib
        return importlib.import_module(spec["module"]).check(pid, tier, HERE, REPO)
    symx = ensure_symx()
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    for f in glob.glob(os.path.join(evd, "replay-%s-*.json" % pid)):
        os.remove(f)
    work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=os.path.join(HERE, "build"))
    only = os.environ.get("VERIF_ONLY")
    runs = [(i, r) for i, r in enumerate(spec["runs"]) if (r["only"] in (None, tier)) and (not only or only in (r["entry"], "#%d" % i))]
    confirmed, trouble, stats, shown, validated = [], [], [], [], []
    known = known_findings(pid)
    try:
        with concurrent.futures.ThreadPoolExecutor(CPU) as pool:
            repo_bc = {v: compile_bc(pool, v, os.path.join(work, "bc-" + v)) for v in sorted({r["variant"] for _, r in runs})}
            progs = {i: harness_bc(pool, r, r[tier], os.path.join(work, "h%d" % i), repo_bc[r["variant"]]) for i, r in runs}
        for i, r in runs:
            name = "%s:%s" % (" ".join(r["src"]), r["entry"])
            t1 = time.time()
            res = explore(symx, progs[i], dict(r, opts=r["opts"] + sum([["--known", k] for k in known], [])), os.path.join(work, "out%d" % i), CPU)
            res["name"], res["wall"] = name, time.time() - t1
            stats.append((r, res))
            if res["errors"]:
                trouble.append("%s: %s" % (name, res["errors"][0]))
            bad = 0
            if res["violations"]:
                exe = native_build(r, r[tier], os.path.join(work, "n%d" % i))
                filled = {}
                todo = [v for v in res["violations"] if v["msg"] not in known]
                for k in known:
                    todo += [v for v in res["violations"] if v["msg"] == k][:1]
                for k, v in enumerate(todo[:12]):
                    if v["msg"].startswith("model:"):
                        trouble.append("%s: outside the environment model: %s at %s" % (name, v["msg"], v["trace"][:300]))
                        continue
                    inp = os.path.join(work, "in%d-%d" % (i, k))
                    write_inputs(inp, v)
                    how, text = native_run(exe, inp)
                    ok = how == "failed" or (how == "hang" and v["kind"] == "steps")
                    down, fill = False, None
                    if how in ("clean", "diverged"):
                        # the stacks may lie in any order: try the other one
                        how2, text2 = native_run(exe, inp, down=True)
                        if how2 == "failed":
                            ok, how, text, down = True, how2, text2, True
                    if how in ("clean", "diverged"):
                        # uninitialised variables may hold anything
                        for f in ("pattern", "zero") + (("stack",) if v["kind"] == "memory" else ()):
                            if f not in filled:
                                filled[f] = native_build(r, r[tier], os.path.join(work, "n%d-%s" % (i, f)), f)
                            how2, text2 = native_run(filled[f], inp, fill=f)
                            if how2 == "failed":
                                ok, how, text, fill = True, how2, text2, f
                                break
                    if ok and v["msg"] in known:
                        if v["msg"] not in shown:
                            shown.append(v["msg"])
                    elif ok:
                        rp = os.path.join(evd, "replay-%s-%d.json" % (pid, len(confirmed)))
                        json.dump(dict(property=pid, run=i, tier=tier, harness=name, kind=v["kind"], what=v["msg"], where=v["loc"],
                                       trace=v["trace"], inputs=v["inputs"], notes=v["notes"], native=text, down=down, fill=fill), open(rp, "w"), indent=1)
                        confirmed.append((rp, v, name))
                        bad += 1
                        if bad >= 3:
                            break
                    else:
                        trouble.append("%s: counterexample (%s: %s at %s) did not replay: %s %s" % (name, v["kind"], v["msg"], v["trace"][:300], how, text[-300:]))
            if not bad and not res["errors"]:
                # some of the explored paths run natively: both must agree on what was read and that all held
                if not validated or tier == "thorough":
                    exe = native_build(r, r[tier], os.path.join(work, "n%d" % i))
                    some = sorted(res["samples"], key=lambda x: -len(x))
                    some = some[::max(1, len(some) // 6)][:6]
                    diverged = 0
                    for k, x in enumerate(some):
                        inp = os.path.join(work, "s%d-%d" % (i, k))
                        write_inputs(inp, dict(inputs=x))
                        how, text = native_run(exe, inp)
                        if how == "diverged":
                            # which of two addresses is lower may differ natively
                            diverged += 1
                        elif how == "clean":
                            validated.append(dict(run=name, inputs=x))
                        else:
                            trouble.append("%s: an explored path does not run natively: %s %s" % (name, how, text[-300:]))
                    if diverged > len(some) // 2:
                        trouble.append("%s: explored paths do not run natively: %s" % (name, text[-300:]))
                miss = [c for c in r["covers"] if c not in res["covers"]]
                if miss:
                    trouble.append("%s: situations never reached: %s" % (name, ", ".join(miss)))
            if bad:
                break
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
    fn = {}
    for _, res in stats:
        for f in res["cov"]["functions"]:
            k = f["file"] + ":" + f["name"]
            c = fn.setdefault(k, [f["lines"], set()])
            c[1] = c[1] & set(f["missed"]) if c[1] is not None and len(c) > 2 else set(f["missed"])
            if len(c) == 2:
                c.append(1)

    def s(k):
        return sum(r.get(k, 0) for _, r in stats)
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=spec.get("level", "model_checking"),
        coverage=dict(
            method="symbolic execution of LLVM IR, Z3 deciding branches and assertions",
            functions_encoded=len(fn),
            functions={k: "%d of %d lines reached" % (v[0] - len(v[1]), v[0]) for k, v in sorted(fn.items())},
            bounds=[dict(run=r["name"], bounds=x["bounds"], flags=x[tier], variant=x["variant"], paths=r.get("paths"), wall_s=round(r["wall"], 2)) for x, r in stats],
            states=s("paths"), transitions=s("steps"), states_and_transitions="explored symbolic paths and instructions executed on them",
            traces_validated_against_impl=len(validated), samples=validated[:3], assertions=s("asserts"), assertion_queries=s("assert_queries"),
            queries=s("queries"), queries_sat=s("sat"), queries_unsat=s("unsat"), queries_cached=s("cached"), queries_unknown=s("unknown"),
            solver_s=round(s("solver_s"), 3), situations_reached=sorted(set().union(*[r["covers"] for _, r in stats]) if stats else []),
            trouble=trouble,
        ),
        wall_s=round(time.time() - t0, 2),
        assumptions=spec.get("assumptions", []) + ["environment model env/env.c", "compiler front end, symx and Z3 are trusted; counterexamples are replayed natively"],
        known_findings=[known[k] for k in shown],
        violations=[dict(what=v["msg"], where=v["loc"], kind=v["kind"], replay=rp) for rp, v, _ in confirmed],
    )
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print("%s %s: %d functions, %d paths, %d assertions, %d queries (%.1f s solver), %.1f s" %
          (pid, tier, c["functions_encoded"], c["states"], c["assertions"], c["queries"], c["solver_s"], ev["wall_s"]))
    if os.environ.get("VERIF_VERBOSE"):
        for b in c["bounds"]:
            print("   ", b["run"], b["paths"], b["wall_s"])
    for rp, v, name in confirmed:
        print("  %s: %s at %s" % (v["kind"], v["msg"], v["loc"]))
    for k in shown:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    for t in trouble:
        print("trouble:", t)
    if confirmed:
        for rp, v, _ in confirmed[:1]:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 2 if trouble else 0


def replay(path):
    d = json.load(open(path))
    if "run" not in d:
        import importlib
        return importlib.import_module(specs.SPECS[d["property"]]["module"]).replay(d, HERE, REPO)
    r = specs.SPECS[d["property"]]["runs"][d["run"]]
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(HERE, "build"))
    try:
        exe = native_build(r, r[d["tier"]], work, d.get("fill"))
        inp = os.path.join(work, "in")
        write_inputs(inp, d)
        how, text = native_run(exe, inp, True, d.get("down", False), d.get("fill"))
        print(text)
        print(how)
        return 1 if how in ("failed", "hang") else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return check(a[0], tier, "--keep" in a)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("no answer: %s" % e)
        sys.exit(2)
