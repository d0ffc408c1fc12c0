#!/usr/bin/env python3-vt
"""check driver:  driver.py PROPERTY quick|thorough
compile the harness with the code of /repo, generate and discharge obligations, replay failures, write evidence."""
import os
import sys
import re
import json
import time
import shutil
import hashlib
import importlib.util
import subprocess
import multiprocessing as mp
import signal
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "vc"))
REPO = os.environ.get("VC_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
PKGS = ["planner_cspace", "costmap_cspace", "safety_limiter", "trajectory_tracker", "map_organizer", "track_odometry",
        "neonavigation_common", "obj_to_pointcloud", "joystick_interrupt"]
PASSES = ("function(lower-expect,lowerinvoke,simplifycfg,sroa,early-cse),cgscc(inline),"
          "function(sroa,instsimplify,early-cse,simplifycfg,sroa,instsimplify,loop-simplify,dce),globaldce")


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def load_spec(pid):
    p = os.path.join(VERIF, "props", pid + ".py")
    sp = importlib.util.spec_from_file_location("prop_" + pid, p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def overlay(bd):
    """copy of the sources the clang front end reads; the single textual change is documented in DESIGN.md"""
    ov = os.path.join(bd, "ov")
    shutil.rmtree(ov, ignore_errors=True)
    for p in PKGS:
        for d in ("include", "src"):
            s = os.path.join(REPO, p, d)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(ov, p, d))
    f = os.path.join(ov, "planner_cspace/include/planner_cspace/blockmem_gridmap.h")
    if os.path.exists(f):
        t = open(f).read()
        # clang rejects the in-class use of a default argument that gcc accepts: spell the default out
        t2 = re.sub(r"(block_bit_\s*=\s*log2Recursive\()\s*(\w+)\s*\)", r"\1\2, 0)", t)
        open(f, "w").write(t2)
    return ov


def incs(root, stubs=True):
    out = []
    for p in PKGS:
        out.append("-I%s/%s/include" % (root, p))
    out += ["-I" + root, "-I" + os.path.join(VERIF, "include"), "-I" + os.path.join(VERIF, "harness"),
            "-I/usr/include/eigen3"]
    if stubs:
        out.append("-I" + os.path.join(VERIF, "stubs"))
    return out


def build_ir(bd, unit, ov):
    cpp = os.path.join(VERIF, "harness", unit["cpp"])
    base = os.path.join(bd, unit["name"])
    cmd = [LLVM + "/clang++", "-w", "-std=c++17", "-O1", "-g", "-Xclang", "-disable-llvm-passes", "-fno-math-errno",
           "-ffp-contract=off", "-fno-access-control", "-S", "-emit-llvm", "-DVC_PROOF", "-I" + os.path.join(VERIF, "include", "proof")] + unit.get("pflags", []) + unit.get("flags", []) + incs(ov) + \
        [cpp, "-o", base + ".0.ll"]
    r = sh(cmd)
    if r.returncode:
        raise BuildError("the harness no longer compiles against the code:\n" + r.stdout[-3000:])
    src = base + ".0.ll"
    if unit.get("noinline"):
        names = []
        rxs = [re.compile(x) for x in unit["noinline"]]
        txt = open(src).read()
        defs = re.findall(r"^define [^@]*@(\"[^\"]+\"|[-\w.$]+)\(", txt, re.M)
        defs = [d.strip('"') for d in defs]
        dem = demangle(defs)
        names = [d for d in defs if any(x.search(dem[d]) for x in rxs)]
        if names:
            cmd = [LLVM + "/opt", "-S", "-passes=forceattrs"]
            cmd += ["-force-attribute=%s:noinline" % n for n in names]
            cmd += ["-force-remove-attribute=%s:alwaysinline" % n for n in names]
            r = sh(cmd + [src, "-o", base + ".1.ll"])
            if r.returncode:
                raise BuildError(r.stdout[-2000:])
            src = base + ".1.ll"
    # units with "eh" keep the code's exceptions; elsewhere a throw ends the path with an obligation
    passes = PASSES.replace("lowerinvoke,", "") if unit.get("eh") else PASSES
    r = sh([LLVM + "/opt", "-S", "-passes=" + passes, "-inline-threshold=1000000", src, "-o", base + ".ll"])
    if r.returncode:
        raise BuildError(r.stdout[-2000:])
    return base + ".ll"


def demangle(names):
    r = subprocess.run([LLVM + "/llvm-cxxfilt"], input="\n".join(names) + "\n", stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.split("\n")))


def build_native(bd, unit):
    base = os.path.join(bd, unit["name"])
    main = base + ".main.cpp"
    with open(main, "w") as f:
        f.write('#include "%s"\nstruct Entry { const char* name; void (*fn)(); };\nextern Entry vc_entries[];\nEntry vc_entries[] = {\n' %
                os.path.join(VERIF, "harness", unit["cpp"]))
        for e in unit["entries"]:
            f.write('  {"%s", %s},\n' % (e, e))
        f.write("  {nullptr, nullptr}};\n")
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"]
    if unit.get("nosan"):
        san = []
    cmd = ["g++", "-w", "-std=c++17", "-O1", "-g1", "-fno-access-control", "-DVC_NATIVE"] + san + \
        unit.get("flags", []) + incs(REPO) + [main, os.path.join(VERIF, "native", "vc_native.cpp"), "-o", base + ".native"] + unit.get("libs", [])
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


# ------------------------------------------------------------------ discharge
def split(c):
    import z3
    if z3.is_and(c):
        out = []
        for x in c.children():
            out += split(x)
        return out
    return [c]


def smt2(pc, neg):
    import z3
    s = z3.Solver()
    s.add(*pc)
    s.add(neg)
    return s.to_smt2()


def portfolio(text, secs, d, tag, want_model=False):
    """external back ends; returns (result, backend)"""
    f = os.path.join(d, tag + ".smt2")
    with open(f, "w") as h:
        h.write("(set-logic ALL)\n" + text)
    cmds = [("z3-4.8.12", ["z3", "-T:%d" % secs, f]),
            ("cvc5-1.1.2", ["cvc5", "--tlimit=%d" % (secs * 1000), "--nl-ext-tplanes", f]),
            ("z3-new", ["z3-new", "-T:%d" % secs, "smt.arith.solver=2", f])]
    ps = [(n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for n, c in cmds]
    t0 = time.time()
    res = ("unknown", "portfolio")
    live = list(ps)
    try:
        while live and time.time() - t0 < secs + 5:
            for x in list(live):
                n, p = x
                if p.poll() is not None:
                    live.remove(x)
                    o = p.stdout.read().strip().split("\n")[0]
                    if o in ("sat", "unsat"):
                        res = (o, n)
                        return res
            time.sleep(0.02)
    finally:
        for _, p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
    return res


def values(o, pc, neg, ms):
    """counterexample values by name, sizes minimised when that is cheap"""
    import z3
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*pc)
    s.add(neg)
    for cap in (4, 40, 200, 2000):
        s.push()
        n = 0
        for name, kind, t, lo, hi in o.nondet:
            if kind == "size" and hi is not None and hi > cap:
                s.add(t <= max(cap, lo if lo is not None else cap))
                n += 1
        if n and s.check() == z3.sat:
            return dump(o, s.model())
        s.pop()
        if not n:
            break
    if s.check() != z3.sat:
        return None
    return dump(o, s.model())


def num(v):
    import z3
    if z3.is_int_value(v):
        return str(v.as_long())
    if z3.is_rational_value(v):
        return "%s/%s" % (v.numerator_as_long(), v.denominator_as_long()) if v.denominator_as_long() != 1 else str(v.numerator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return "%s/%s" % (a.numerator_as_long(), a.denominator_as_long())
    return None


def dump(o, m):
    import z3
    out = []
    for name, kind, t, lo, hi in o.nondet:
        if kind == "const":
            out.append((name, str(t)))
        elif kind in ("int", "size", "skolem", "real"):
            out.append((name, num(m.eval(t, model_completion=True))))
        elif kind == "bool":
            out.append((name, "1" if z3.is_true(m.eval(t, model_completion=True)) else "0"))
        elif kind == "xreal":
            r, na, inf = t
            if z3.is_true(m.eval(na, model_completion=True)):
                out.append((name, "nan"))
            elif z3.is_true(m.eval(inf, model_completion=True)):
                q = num(m.eval(r, model_completion=True))
                out.append((name, "-inf" if q.startswith("-") else "inf"))
            else:
                out.append((name, num(m.eval(r, model_completion=True))))
        elif kind == "arr":
            base, k, dim, rng = t
            for d in m.decls():
                if d.name() == base and d.arity() > 0:
                    fi = m[d]
                    for e in fi.as_list()[:-1] if fi is not None else []:
                        idx = [num(x) for x in e[:-1]]
                        out.append(("%s[%s]" % (name, ",".join(idx)), num(e[-1])))
                    ev = fi.else_value() if fi is not None else None
                    if ev is not None and num(ev) is not None:
                        out.append(("%s[else]" % name, num(ev)))
    return [(n, v) for n, v in out if v is not None]


def nonlin(c):
    """does an integer product of two non-constants occur"""
    import z3
    seen = set()
    w = [c]
    while w:
        e = w.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app_of(e, z3.Z3_OP_MUL) and z3.is_int(e) and sum(0 if z3.is_int_value(x) else 1 for x in e.children()) > 1:
            return True
        w += e.children()
    return False


def worker(args):
    pid, unit, entry, ll, bd, tier, budget = args
    os.setpgid(0, 0) if False else None
    t0 = time.time()
    R = dict(entry=entry, unit=unit["name"], status="ok", failures=[], n=0, discharged=0, backends={}, solver_s=0.0,
             labels={}, covers={}, log=[], functions=[], assumed=[], models=[], contracts=[], loops=[])
    try:
        sys.stdout.flush()
        import z3
        import ir
        import dom
        import exe
        import nla
        spec = load_spec(pid)
        mod = ir.Module(ll)
        es = getattr(spec, "SPEC", {}).get(entry)
        ex = exe.Exec(mod, es, log=lambda *a: R["log"].append(" ".join(map(str, a))))
        ex.labels = {}
        ex.monos = {}
        ex.deadline = t0 + budget
        names = list(mod.fns) + list(getattr(mod, "decls", {}))
        ext = set(re.findall(r"@([-\w.$]+)", open(ll).read()))
        names = sorted(set(names) | ext)
        ex.dem = demangle(names)
        if es is not None and hasattr(es, "setup"):
            es.setup(ex)
        prof = None
        if os.environ.get("VC_PROF"):
            import cProfile
            prof = cProfile.Profile()
            prof.enable()
        try:
            ex.run(entry, getattr(es, "init", None) if es is not None else None)
        finally:
            if prof:
                prof.disable()
                prof.dump_stats("/tmp/vc_%s.prof" % entry)
            R["queries"] = ex.qn
            R["query_s"] = round(ex.qt, 2)
        R["exec_s"] = round(time.time() - t0, 2)
        R["labels"] = dict(ex.labels)
        R["assumed"] = sorted(ex.assumed)
        R["models"] = sorted(ex.models_used)
        R["contracts"] = sorted(ex.contracts_used)
        R["functions"] = functions(mod, ex)
        R["paths"] = ex.paths
        R["ends"] = ex.feasible_ends
        R["trivial"] = ex.ntriv
        for k, li in ex.loops.items():
            R["loops"].append([li.loc and "%s:%s" % (li.loc[0].split("/")[-1], li.loc[1]), li.mode])
        # labels that exist in the executed functions but were never generated
        want = set()
        for fn in ex.fns_used:
            f = mod.fns[fn]
            for b in f.order:
                for I in f.blocks[b]:
                    if I.op in ("call", "invoke") and I.x.k == "global" and I.x.v in (
                            "@vc_prove", "@vc_lemma", "@vc_eq", "@vc_le", "@vc_eqt", "@vc_let", "@vc_cover"):
                        o = I.ops[0] if I.x.v == "@vc_cover" else I.ops[-1]
                        if o.k == "global":
                            g = mod.globals[o.v[1:]]
                            want.add(("c:" if I.x.v == "@vc_cover" else "") + bytes(g[2].v).split(b"\0")[0].decode() if g[2].k == "str" else "?")
        R["want"] = sorted(want)
        # dedupe
        todo = []
        seen = set()
        for o in ex.obligs:
            for c in split(o.cond):
                k = (o.label, tuple(x.get_id() for x in o.pc), c.get_id())
                if k in seen:
                    continue
                seen.add(k)
                todo.append((o, c))
        R["n"] = len(todo) + ex.ntriv
        R["discharged"] = ex.ntriv
        R["backends"]["constant folding"] = ex.ntriv
        hard = []
        dstart = time.time()
        s = z3.SimpleSolver()
        s.set("timeout", 2500)
        stack = []
        tl = time.time()
        for o, c in todo:
            if time.time() - tl > 2:
                R["log"].append("slow %.1fs before %s %s" % (time.time() - tl, o.label, o.loc))
            tl = time.time()
            # share the common prefix of the path conditions
            pc = o.pc
            i = 0
            while i < len(stack) and i < len(pc) and stack[i] is pc[i]:
                i += 1
            while len(stack) > i:
                s.pop()
                stack.pop()
            for p in pc[i:]:
                s.push()
                s.add(p)
                stack.append(p)
            nl = nonlin(c)
            if nl:
                ab = nla.abstract(o.pc, z3.Not(c))
                if ab is not None:
                    s2 = z3.Solver()
                    s2.set("timeout", 3000)
                    s2.add(*ab)
                    if s2.check() == z3.unsat:
                        R["discharged"] += 1
                        be = "z3-api-5.x linear abstraction with product lemmas"
                        R["backends"][be] = R["backends"].get(be, 0) + 1
                        continue
            s.push()
            s.add(z3.Not(c))
            r = s.check()
            s.pop()
            if r == z3.unsat:
                R["discharged"] += 1
                R["backends"]["z3-api-5.x smt"] = R["backends"].get("z3-api-5.x smt", 0) + 1
            else:
                hard.append((o, c, r))
        d = os.path.join(bd, "smt")
        os.makedirs(d, exist_ok=True)
        fails = {}
        tmo = 30 if tier == "quick" else 90
        for n, (o, c, r) in enumerate(hard):
            neg = z3.Not(c)
            key = (o.label, o.loc)
            res, be = "unknown", "?"
            if len(fails.get(key, [])) >= 2 or sum(len(x) for x in fails.values()) >= 12:
                continue
            if time.time() - t0 > budget:
                tmo = 3
            if r != z3.sat:
                ab = nla.abstract(o.pc, neg)
                if ab is not None:
                    s2 = z3.Solver()
                    s2.set("timeout", 20000)
                    s2.add(*ab)
                    if s2.check() == z3.unsat:
                        res, be = "unsat", "z3-api-5.x linear abstraction with product lemmas"
            if r != z3.sat and res != "unsat":
                s2 = z3.Solver()
                s2.set("timeout", 4000)
                s2.add(*o.pc)
                s2.add(neg)
                q = s2.check()
                be = "z3-api-5.x"
                if q == z3.unknown:
                    try:
                        s3 = z3.Tactic("qfnra-nlsat").solver()
                        s3.set("timeout", 4000)
                        s3.add(*o.pc)
                        s3.add(neg)
                        q = s3.check()
                        be = "z3-api-5.x nlsat"
                    except z3.Z3Exception:
                        q = z3.unknown
                res = str(q)
                if q == z3.unknown:
                    res, be = portfolio(smt2(o.pc, neg), tmo, d, "%s_%s_%d" % (unit["name"], entry, n))
            elif r == z3.sat:
                res = "sat"
            if res == "unsat":
                R["discharged"] += 1
                R["backends"][be] = R["backends"].get(be, 0) + 1
                continue
            vals = values(o, o.pc, neg, 8000) if res == "sat" else None
            txt = smt2(o.pc, neg)
            fn = os.path.join(d, "%s_%s_fail%d.smt2" % (unit["name"], entry, n))
            open(fn, "w").write(txt)
            fails.setdefault(key, []).append(1)
            R["failures"].append(dict(label=o.label, kind=o.kind, loc=o.loc, result=res, backend=be, values=vals, smt=fn,
                                      trail=["%s %s" % (a.replace(bd, "").replace("/ov/", ""), b) for a, b in o.trail],
                                      goal=str(z3.simplify(c))[:600]))
        R["solver_s"] = round(time.time() - dstart + R["query_s"], 2)
        for l, pcs in ex.covers.items():
            ok = "unknown"
            for pc in pcs:
                s = z3.Solver()
                s.set("timeout", 3000)
                s.add(*pc)
                q = s.check()
                if q == z3.sat:
                    ok = "sat"
                    break
            R["covers"][l] = ok
        if getattr(ex, "dropped", None) is not None:
            R["dropped_invariants"] = len(ex.dropped)
    except Exception as e:
        R["status"] = "unsupported" if type(e).__name__ in ("Unsupported", "IRError") else "crash"
        R["error"] = "%s: %s" % (type(e).__name__, e)
        R["trace"] = traceback.format_exc()[-1500:]
    R["wall"] = round(time.time() - t0, 2)
    return R


def functions(mod, ex):
    """functions of the repository whose instructions were executed symbolically"""
    out = set()
    cache = {}

    def sub(sc):
        n = 0
        while sc is not None and n < 40:
            n += 1
            if sc in cache:
                return cache[sc]
            e = mod.md.get(sc)
            if e is None:
                return None
            s = e[1]
            if "DISubprogram" in s or e[0] == "DISubprogram" or re.search(r"\blinkageName:|\bname:.*\bspFlags:|unit: !", s):
                nm = re.search(r'linkageName: "([^"]*)"', s) or re.search(r'name: "([^"]*)"', s)
                fl = re.search(r"\bfile: !(\d+)", s)
                fn = "?"
                if fl:
                    q = re.search(r'filename: "([^"]*)"', mod.md[int(fl.group(1))][1])
                    fn = q.group(1) if q else "?"
                cache[sc] = (nm.group(1) if nm else "?", fn)
                return cache[sc]
            m = re.search(r"\bscope: !(\d+)", s)
            sc = int(m.group(1)) if m else None
        return None
    for f in ex.fns_used:
        fn = mod.fns[f]
        for b in fn.order:
            for I in fn.blocks[b]:
                if I.dbg is not None and I.dbg in mod.md:
                    m = re.search(r"\bscope: !(\d+)", mod.md[I.dbg][1])
                    if m:
                        r = sub(int(m.group(1)))
                        if r and "/ov/" in r[1]:
                            out.add(r)
    dm = demangle([n for n, _ in out])
    res = sorted({"%s (%s)" % (dm[n], f.split("/ov/")[-1]) for n, f in out})
    return res


def run_pool(jobs, n, hard):
    ctx = mp.get_context("fork")
    res = []
    procs = []
    q = list(jobs)
    t0 = time.time()
    while q or procs:
        while q and len(procs) < n:
            j = q.pop(0)
            a, b = ctx.Pipe(False)

            def go(j=j, b=b):
                os.setpgid(0, 0)
                b.send(worker(j))
                b.close()
            p = ctx.Process(target=go)
            p.start()
            b.close()
            procs.append((p, a, j, time.time()))
        for x in list(procs):
            p, a, j, ts = x
            if a.poll(0.02):
                try:
                    res.append(a.recv())
                except EOFError:
                    res.append(dict(entry=j[2], unit=j[1]["name"], status="crash", error="worker died", failures=[], n=0, discharged=0,
                                    backends={}, solver_s=0, labels={}, covers={}, functions=[], assumed=[], models=[], contracts=[]))
                p.join(5)
                procs.remove(x)
            elif time.time() - ts > j[6] + 150 or time.time() - t0 > hard:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.join()
                res.append(dict(entry=j[2], unit=j[1]["name"], status="unsupported", error="time budget exhausted", failures=[], n=0,
                                discharged=0, backends={}, solver_s=0, labels={}, covers={}, functions=[], assumed=[], models=[],
                                contracts=[]))
                procs.remove(x)
        time.sleep(0.02)
    return res


def native(bd, unit, args, out, timeout):
    env = dict(os.environ, VC_OUT=out, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=6000",
               UBSAN_OPTIONS="print_stacktrace=0")
    if os.path.exists(out):
        os.remove(out)
    try:
        r = subprocess.run([os.path.join(bd, unit["name"] + ".native")] + args, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return ("timeout", "")
    return (r.returncode, r.stdout)


def search(bd, unit, entry, seed, secs, par=6):
    """random/boundary search with the harness as oracle on the natively compiled code"""
    ps = []
    for i in range(par):
        out = os.path.join(bd, "search_%s_%d.txt" % (entry, i))
        if os.path.exists(out):
            os.remove(out)
        env = dict(os.environ, VC_OUT=out, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000")
        ps.append((out, subprocess.Popen([os.path.join(bd, unit["name"] + ".native"), entry, "random", "1000000000",
                                          str(seed * 100 + i), str(secs)], env=env, stdout=subprocess.DEVNULL,
                                         stderr=subprocess.DEVNULL)))
    t0 = time.time()
    hit = None
    while time.time() - t0 < secs + 20 and hit is None:
        alive = False
        for out, p in ps:
            rc = p.poll()
            if rc is None:
                alive = True
            elif rc != 0 and os.path.exists(out):
                hit = out
                break
        if not alive and hit is None:
            break
        time.sleep(0.05)
    for _, p in ps:
        if p.poll() is None:
            p.kill()
        p.wait()
    return hit


def known(pid):
    f = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) label=\[([^\]]*)\] (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    spec = load_spec(pid)
    bd = os.path.join(VERIF, "build", pid)
    shutil.rmtree(bd, ignore_errors=True)
    os.makedirs(bd)
    od = os.path.join(VERIF, "out", pid)
    shutil.rmtree(od, ignore_errors=True)
    os.makedirs(od)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    budget = getattr(spec, "BUDGET", 240) if tier == "quick" else 420
    for u in spec.UNITS:
        u.setdefault("name", u["cpp"].replace(".cpp", ""))
    only = os.environ.get("VC_ONLY")
    errs = []
    try:
        ov = overlay(bd)
        nat = [(u, build_native(bd, u)) for u in spec.UNITS]
        lls = {}
        for u in spec.UNITS:
            lls[u["name"]] = build_ir(bd, u, ov)
    except BuildError as e:
        print("ERROR property=%s %s" % (pid, e))
        ev(pid, tier, seed, spec, [], [], t0, 0, ["build: " + str(e)[:500]], {})
        return 2
    jobs = []
    for u in spec.UNITS:
        for e in u["entries"]:
            if only and e not in only.split(","):
                continue
            jobs.append((pid, u, e, lls[u["name"]], bd, tier, budget))
    res = run_pool(jobs, 7, 640)
    for u, p in nat:
        o = p.communicate()[0]
        if p.returncode:
            print("ERROR property=%s native build of the harness failed:\n%s" % (pid, o[-3000:]))
            ev(pid, tier, seed, spec, res, [], t0, 0, ["native build"], {})
            return 2
    units = {u["name"]: u for u in spec.UNITS}
    violations = []
    known_l = known(pid)
    knownhit = []
    natst = {}
    # native runs: vacuity guard and model-fidelity check
    secs = 4 if tier == "quick" else 30
    for r in res:
        u = units[r["unit"]]
        out = os.path.join(bd, "rand_%s_%s.txt" % (r["unit"], r["entry"]))
        rc, txt = native(bd, u, [r["entry"], "random", str(getattr(spec, "NRUNS", 400)) if tier == "quick" else "100000", str(seed), str(secs)], out, secs + 60)
        m = re.search(r"runs (\d+) skipped (\d+)", txt)
        natst[r["unit"], r["entry"]] = dict(runs=int(m.group(1)) if m else 0, covers=dict(
            (a, int(b)) for a, b in re.findall(r"cover (.*)\t(\d+)", txt)))
        if rc == 1 or (rc not in (0, 1) and os.path.exists(out)):
            r["native_fail"] = out
            r["native_txt"] = txt[-1500:]
        elif rc == 3 or rc not in (0, 1):
            r["native_odd"] = str(rc) + txt[-300:]
    n = 0
    for r in res:
        u = units[r["unit"]]
        unproved = r["failures"] or r["status"] != "ok"
        if not unproved and not r.get("native_fail"):
            continue
        if r["status"] == "crash":
            errs.append("%s: internal error %s" % (r["entry"], r.get("error")))
        items = []
        for f in r["failures"]:
            items.append(f)
        if not items and r["status"] != "ok":
            items.append(dict(label="%s (whole contract)" % r["entry"], kind="extraction", loc="", result="not generated: " + r.get("error", ""),
                              backend="vc", values=None, trail=[], goal="", smt=None))
        if not items:
            items.append(dict(label="native run of the contract", kind="native", loc="", result="failing input", backend="native",
                              values=None, trail=[], goal="", smt=None))
        done = set()
        for f in items:
            if f["label"] in done:
                continue
            n += 1
            rp = os.path.join(od, "replay-%d.txt" % n)
            conf = None
            if f.get("values") is not None:
                with open(rp, "w") as h:
                    for a, b in f["values"]:
                        h.write("val %s %s\n" % (a.replace(" ", "_"), b))
                out = os.path.join(bd, "rep_out.txt")
                rc, txt = native(bd, u, [r["entry"], "replay", rp], out, 60)
                if rc == 1 or (rc not in (0, 2, "timeout") and os.path.exists(out)):
                    conf = ("model", open(out).read() if os.path.exists(out) else "", txt)
            if conf is None and r.get("native_fail"):
                conf = ("random", open(r["native_fail"]).read(), r.get("native_txt", ""))
            if conf is None and "searched" not in r:
                r["searched"] = search(bd, u, r["entry"], seed, getattr(spec, "SEARCH_S", 25))
            if conf is None and r.get("searched"):
                conf = ("search", open(r["searched"]).read(), "")
            done.add(f["label"])
            with open(rp, "w") as h:
                h.write("property %s\nharness %s entry %s\nobligation %s (%s)\nlocation %s\nverifier result %s (%s)\n" % (
                    pid, u["cpp"], r["entry"], f["label"], f["kind"], f["loc"].replace(bd + "/ov/", ""), f["result"], f["backend"]))
                if f.get("goal"):
                    h.write("goal %s\n" % f["goal"])
                for t in f.get("trail", []):
                    h.write("path %s\n" % t)
                if r.get("error"):
                    h.write("verifier message %s\n" % r["error"])
                if conf:
                    h.write("confirmed on the natively compiled code by: %s\n" % conf[0])
                    h.write("# rerun: build/%s/%s.native %s replay <this file>\n" % (pid, u["name"], r["entry"]))
                    h.write(conf[1])
                    h.write("\n" + conf[2])
                elif f.get("values"):
                    h.write("solver model (not reproduced natively):\n")
                    for a, b in f["values"]:
                        h.write("val %s %s\n" % (a, b))
                if f.get("smt"):
                    try:
                        h.write("\nverifier input:\n" + open(f["smt"]).read()[:20000])
                    except OSError:
                        pass
            kf = [k for k in known_l if k[0] == f["label"]]
            if kf:
                knownhit.append(kf[0])
                continue
            violations.append((rp, conf is not None, f, r))
    # vacuity
    gen = set()
    for r in res:
        gen |= set(r.get("labels") or ())
    for r in res:
        if r["status"] != "ok" or r["failures"] or r.get("native_fail"):
            continue
        ns = natst.get((r["unit"], r["entry"]), {"runs": 0, "covers": {}})
        if r["n"] == 0 or not r["labels"]:
            errs.append("%s: no obligations generated" % r["entry"])
        for w in r.get("want", []):
            if w.startswith("c:"):
                if r["covers"].get(w[2:]) != "sat" and not ns["covers"].get(w[2:]):
                    errs.append("%s: cover '%s' not reachable" % (r["entry"], w[2:]))
            elif w not in gen:
                errs.append("%s: obligation '%s' never generated" % (r["entry"], w))
        if not r["covers"]:
            errs.append("%s: no vacuity guard" % r["entry"])
        if r["n"] != r["discharged"]:
            errs.append("%s: %d of %d obligations open" % (r["entry"], r["n"] - r["discharged"], r["n"]))
    for lab, what in sorted(set(knownhit)):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    ev(pid, tier, seed, spec, res, violations, t0, len(violations), errs, natst)
    if os.environ.get("VC_DEBUG"):
        for r in res:
            print("==", r["entry"], r["status"], r.get("error", ""), "n", r["n"], "ok", r["discharged"], "wall", r.get("wall"),
                  "solver", r.get("solver_s"), "paths", r.get("paths"), r["backends"], "native", natst.get((r["unit"], r["entry"]), {}).get("runs"))
            if r["status"] != "ok":
                print(r.get("trace", ""))
            if os.environ["VC_DEBUG"] != "1":
                for l in r.get("log", []):
                    print("   ", l)
                print("    loops", r.get("loops"))
            for f in r["failures"]:
                print("   FAIL", f["label"], f["kind"], f["loc"].replace(bd, ""), f["result"], f["backend"])
                print("       goal", f["goal"][:300])
                print("       ", f["values"])
            if r.get("native_fail"):
                print("   NATIVE", r["native_txt"][-600:])
                print(open(r["native_fail"]).read()[:800])
    if violations:
        for rp, conf, f, r in violations:
            print("obligation failed: %s [%s] %s %s: %s" % (f["label"], r["entry"], f["kind"], f["loc"].replace(bd + "/ov/", ""), f["result"]))
        best = [v for v in violations if v[1]]
        v = best[0] if best else violations[0]
        print("VIOLATION property=%s replay=%s%s" % (pid, v[0], "" if v[1] else " no-failing-input-found"))
        return 1
    if errs:
        for e in errs:
            print("ERROR property=%s %s" % (pid, e))
        return 2
    tot = sum(r["n"] for r in res)
    print("OK property=%s obligations=%d discharged=%d entries=%d wall=%.1fs" % (pid, tot, sum(r["discharged"] for r in res), len(res), time.time() - t0))
    return 0


def ev(pid, tier, seed, spec, res, violations, t0, nv, errs, natst):
    fns, models, assumed, contracts, be = set(), set(), set(), set(), {}
    for r in res:
        fns |= set(r["functions"])
        models |= set(r["models"])
        assumed |= set(r["assumed"])
        contracts |= set(r["contracts"])
        for k, v in r["backends"].items():
            be[k] = be.get(k, 0) + v
    cov = dict(
        obligations=sum(r["n"] for r in res), discharged=sum(r["discharged"] for r in res),
        checker_cmd="python3-vt /verif/vc/driver.py %s %s" % (pid, tier),
        trusted_base=["clang 18 front end and the LLVM passes listed in vc/driver.py (source -> IR)",
                      "vc/ (IR reader, VC generator, memory model)", "z3 / cvc5"] +
        ["model of %s" % m for m in sorted(models)] + ["contract used for callers of %s" % c for c in sorted(contracts)],
        functions_under_contract=sorted(fns), backends=be, solver_s=round(sum(r.get("solver_s", 0) for r in res), 2),
        entries=[dict(entry=r["entry"], status=r["status"], obligations=r["n"], discharged=r["discharged"], paths=r.get("paths", 0),
                      loops=r.get("loops", []), exec_s=r.get("exec_s"), solver_s=r.get("solver_s"), labels=r["labels"],
                      covers=r["covers"], native=natst.get((r["unit"], r["entry"]), {}),
                      open=[f["label"] + " @ " + f["loc"] for f in r["failures"]]) for r in res],
        bounded=getattr(spec, "BOUNDED", []), errors=errs)
    e = dict(property=pid, tier=tier, seed=seed, level=getattr(spec, "LEVEL", "proof"), coverage=cov,
             assumptions=list(getattr(spec, "ASSUMPTIONS", [])) + sorted(assumed) + GENERAL, wall_s=round(time.time() - t0, 2), violations=nv)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(e, f, indent=1)


GENERAL = [
    "floating-point arithmetic is treated as exact real arithmetic extended with infinities and NaN (no rounding); the native runs of the same contract execute the rounded arithmetic",
    "integer arithmetic is machine arithmetic: signed overflow is an obligation, unsigned arithmetic wraps unless proved in range",
    "memory allocation succeeds; one thread",
]

if __name__ == "__main__":
    sys.exit(main())
