#!/usr/bin/env python3
"""Runs the monitor of one property against the code in /repo's working tree.

  python3 check.py <ID> quick|thorough          decide the property
  python3 check.py <ID> replay <replay.json>    run the recorded failing case again

Exit 0: held on everything observed. Exit 1: VIOLATION line printed. Exit 2: no answer (the code does not build, ...).
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(V, "tools"))
import spec  # texts: rules, assumptions, levels

T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TARGET = os.path.join(V, "target")
WORK = None


def env(**kw):
    e = dict(os.environ)
    p = [d for d in ("/root/.cargo/bin", "/usr/local/cargo/bin") if os.path.isdir(d)]
    e["PATH"] = ":".join(p + [e.get("PATH", "/usr/bin:/bin")])
    e.update(HOME=e.get("HOME", "/root"), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_PROFILE_DEV_DEBUG", "MON_PROTO", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e.update({k: v for k, v in kw.items()})
    return e


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def give_up(msg):
    log("no answer:", msg)
    cleanup()
    sys.exit(2)


def cleanup():
    if WORK and os.path.isdir(WORK):
        shutil.rmtree(WORK, ignore_errors=True)


def tree_hash(*roots):
    """Content of the sources the build depends on: mtimes are not relied upon."""
    h = hashlib.sha256()
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "node_modules") and not x.startswith("target"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    try:
                        with open(p, "rb") as fh:
                            h.update(fh.read())
                    except OSError:
                        pass
    return h.hexdigest()


_hash = None


def cargo(args, tdir, cwd, what, timeout=800, **kw):
    """cargo with a build directory whose content is known to belong to the present sources."""
    global _hash
    if _hash is None:
        _hash = tree_hash(os.path.join(REPO, "brec"), os.path.join(REPO, "brec_macros"), os.path.join(REPO, "brec_consts"), os.path.join(V, "harness"), os.path.join(V, "probe"))
    stamp = os.path.join(tdir, "stamp")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != _hash and os.path.isdir(tdir):
        for d, dirs, _ in os.walk(tdir):
            if os.path.basename(d) == ".fingerprint":
                for x in list(dirs):
                    if re.match(r"brec|mon-|probe|[sb]\d+-", x):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                dirs[:] = []
    os.makedirs(tdir, exist_ok=True)
    e = env(CARGO_TARGET_DIR=tdir, **kw)
    try:
        r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "build timed out"
    out = r.stdout.decode("utf-8", "replace")
    if r.returncode == 0:
        with open(stamp, "w") as f:
            f.write(_hash)
    log(f"built {what}: rc {r.returncode}")
    return r.returncode, out


def errors_of(out):
    i = out.find("error")
    return out[i:i + 3000] if i >= 0 else out[-3000:]


def build():
    rc, out = cargo(["build", "--offline", "-q"], os.path.join(TARGET, "plain"), os.path.join(V, "harness"), "monitors", RUSTFLAGS="--cfg brec_verif")
    if rc != 0:
        print(errors_of(out), file=sys.stderr)
        give_up("the monitors do not build against the present /repo")
    return os.path.join(TARGET, "plain", "debug", "mon")


class Res:
    def __init__(self):
        self.kind = "ok"      # ok | violation | abort | stuck | broken
        self.data, self.stderr, self.rc = {}, "", 0


def run_mon(exe, pid, tier, opts, wall, extra_env=None, tag="m"):
    """One run of the monitor; the verdict is the monitor's own, abnormal ends are told apart."""
    r = Res()
    d = tempfile.mkdtemp(prefix=tag + "-", dir=WORK)
    out = os.path.join(d, "out.json")
    args = [exe, "run", pid, f"seed={SEED}", f"tier={tier}", f"work={d}/w", f"out={out}"] + opts
    os.makedirs(d + "/w", exist_ok=True)
    e = env(**(extra_env or {}))
    e["RUST_BACKTRACE"] = "0"
    with open(d + "/err", "wb") as err:
        p = subprocess.Popen(args, cwd=d, env=e, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
        try:
            p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            r.kind = "stuck"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    r.rc = p.returncode
    r.stderr = open(d + "/err", "rb").read().decode("utf-8", "replace")
    if os.path.exists(out):
        try:
            r.data = json.load(open(out))
        except ValueError:
            r.data = {}
    cur = out + ".cur"
    r.cur = [int(x) for x in open(cur).read().split() if x.isdigit()] if os.path.exists(cur) else []
    if r.kind != "stuck":
        if r.rc == 0 and r.data:
            r.kind = "ok"
        elif r.rc == 1 and r.data.get("violation"):
            r.kind = "violation"
        elif r.rc < 0 or r.rc in (134, 139):
            r.kind = "abort"
        else:
            r.kind = "broken"
    shutil.rmtree(d, ignore_errors=True)
    return r


def merge(dst, data):
    for k in ("cases", "trivial", "distinct"):
        dst[k] = dst.get(k, 0) + data.get(k, 0)
    c = dst.setdefault("counts", {})
    for k, v in data.get("counts", {}).items():
        c[k] = max(c.get(k, 0), v) if k.startswith("max_") else c.get(k, 0) + v
    dst.setdefault("samples", [])
    dst["samples"] = (dst["samples"] + data.get("samples", []))[:8]


def decide(exe, pid, tier, opts, cap, tot, extra=None):
    """Runs and classifies. Returns None or (message, replay dict)."""
    r = run_mon(exe, pid, tier, opts + [f"cap={cap}"], cap + 150, extra)
    rep = {"property": pid, "seed": SEED, "tier": tier, "opts": opts}
    log(f"{pid} {tier} {opts}: {r.kind} rc {r.rc}, {r.data.get('cases', 0)} cases")
    if r.kind == "ok":
        merge(tot, r.data)
        return None
    if r.kind == "violation":
        merge(tot, r.data)
        v = r.data["violation"]
        rep["case"] = v["case"]
        return v["message"], rep
    if r.kind == "broken":
        give_up(f"monitor ended with {r.rc}: {r.stderr[-2000:]}")
    # abnormal end: find the case
    why = f"process died (signal {-r.rc if r.rc < 0 else r.rc - 128}): {r.stderr[-600:]}" if r.kind == "abort" else "does not come to an end"
    for case in r.cur:
        rr = run_mon(exe, pid, tier, opts + [f"only={case}"], 150, extra)
        if rr.kind == "violation":
            rep["case"] = case
            return rr.data["violation"]["message"], rep
        if rr.kind in ("abort", "stuck"):
            rep["case"] = case
            w = f"process died (rc {rr.rc}): {rr.stderr[-600:]}" if rr.kind == "abort" else "does not come to an end within 150 s"
            return f"case {case}: {w}", rep
    if r.kind == "stuck":
        give_up("did not finish in time, no single case reproduces it")
    r2 = run_mon(exe, pid, tier, opts + [f"cap={cap}"], cap + 150, extra)
    if r2.kind == "ok":
        tot.setdefault("notes", []).append("one run ended abnormally and was not reproducible: " + why[:300])
        merge(tot, r2.data)
        return None
    if r2.kind == "violation":
        rep["case"] = r2.data["violation"]["case"]
        return r2.data["violation"]["message"], rep
    rep["cases"] = r.cur
    return why, rep


def finish(pid, tier, tot, viol, extra=None):
    known = [x for x in spec.known(V) if x["property"] == pid]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    judged = sum(tot.get("counts", {}).get(k, 0) for k in spec.UNIT.get(pid, []))
    cov = {"evaluations": max(judged, tot.get("cases", 0)), "cases": tot.get("cases", 0), "distinct_nontrivial": tot.get("distinct", 0), "rule": spec.RULE[pid],
           "samples": tot.get("samples", []) or ["(stopped before a sample was kept)"], "observed": tot.get("counts", {}), "trivial_cases": tot.get("trivial", 0)}
    if tot.get("notes"):
        cov["notes"] = tot["notes"]
    if extra:
        cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": spec.LEVEL.get(pid, "exploration"), "coverage": cov,
          "assumptions": spec.ASSUME_ALL + spec.ASSUME.get(pid, []), "wall_s": round(time.time() - T0, 1), "violations": 1 if viol else 0}
    if viol:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        path = os.path.join(V, "replays", f"{pid}.json")
        msg, rep = viol
        rep["message"] = msg
        rep["how"] = f"python3 {V}/check.py {pid} replay {path}"
        json.dump(rep, open(path, "w"), indent=1)
        ev["coverage"]["violation"] = msg[:2000]
    json.dump(ev, open(os.path.join(V, "evidence", f"{pid}.json"), "w"), indent=1)
    cleanup()
    if viol:
        print(viol[0][:3000])
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        sys.exit(1)
    if not tot.get("cases") or not tot.get("distinct"):
        give_up("nothing was observed")
    for k in known:
        if tot.get("known", {}).get(k["id"], False):
            print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)
    print(f"{pid}: held; {tot['cases']} cases, {tot['distinct']} distinct, observed {json.dumps(tot.get('counts', {}))}")
    sys.exit(0)


# ---------------------------------------------------------------------------------------------------------------- C21
def build_proto(i, n):
    gen = os.path.join(WORK, f"proto{i}.rs")
    subprocess.run([sys.executable, os.path.join(V, "tools", "genproto.py"), "random", str(SEED * 1000 + i), str(n), gen], check=True, stdout=subprocess.DEVNULL)
    t = os.path.join(TARGET, f"proto{i}")
    rc, out = cargo(["build", "--offline", "-q", "-j", "4"], t, os.path.join(V, "harness"), f"random declarations {i}", RUSTFLAGS="--cfg brec_verif", MON_PROTO=gen)
    return i, rc, out, os.path.join(t, "debug", "mon"), gen


def c21(tier):
    tot = {}
    exe = build()
    cap = 60 if tier == "quick" else 240
    v = decide(exe, "C21", tier, [], cap, tot)
    n, protos, par = (70, 2, 2) if tier == "quick" else (120, 8, 2)
    decls = 0
    if not v:
        with ThreadPoolExecutor(par) as ex:
            for i, rc, out, e, gen in ex.map(lambda i: build_proto(i, n), range(protos)):
                rep = {"property": "C21", "seed": SEED, "tier": tier, "proto": i, "declarations": n}
                if v:
                    continue
                if rc == 124:
                    give_up("building the random declarations took too long")
                if rc != 0:
                    if "could not compile `mon`" not in out:
                        print(errors_of(out), file=sys.stderr)
                        give_up("dependencies of the random declarations do not build")
                    rep["source"] = open(gen).read()
                    v = ("generated code does not compile for admissible declarations: " + errors_of(out), rep)
                    continue
                decls += n
                v = decide(e, "C21", tier, [], cap, tot)
                if v:
                    v[1].update(rep)
                    v[1]["source"] = open(gen).read()
                if tier != "quick":
                    shutil.rmtree(os.path.join(TARGET, f"proto{i}"), ignore_errors=True)
    finish("C21", tier, tot, v, {"random_protocols_compiled": protos, "random_declarations": decls})


# ---------------------------------------------------------------------------------------------------------------- C25
def shapes(tier, frm, upto, tot, cap):
    """Generates the crates frm..upto, builds and runs each. Returns None or (message, replay)."""
    gen = os.path.join(WORK, f"shapes{frm}")
    subprocess.run([sys.executable, os.path.join(V, "tools", "genshapes.py"), str(SEED), str(upto), gen, str(frm)], check=True, stdout=subprocess.DEVNULL)
    viol = None
    for ws in ("full", "bare"):
        d = os.path.join(gen, ws)
        if viol or not os.path.isdir(d):
            continue
        t = os.path.join(TARGET, "shapes-" + ws)
        names = sorted((x for x in os.listdir(d) if os.path.exists(os.path.join(d, x, "about.txt"))), key=lambda x: int(x[1:]))
        about = {n: open(os.path.join(d, n, "about.txt")).read().strip() for n in names}
        for n in names:
            for x in glob.glob(os.path.join(t, "debug", n)) + glob.glob(os.path.join(t, "debug", "deps", n + "-*")):
                os.remove(x)
        rc, out = cargo(["build", "--offline", "-q", "--keep-going"], t, d, f"declarations {ws} {frm}..{upto}")
        if rc == 124:
            give_up("building the declarations took too long")

        def rep(n, msg):
            src = {f: open(os.path.join(d, n, "src", f)).read() for f in os.listdir(os.path.join(d, n, "src"))}
            return f"{about[n]}: {msg}", {"property": "C25", "seed": SEED, "tier": tier, "shape": [frm, upto, ws, n], "source": src}
        if rc != 0:
            failed = [n for n in names if f"could not compile `{n}`" in out]
            if not failed:
                print(errors_of(out), file=sys.stderr)
                give_up("the declarations cannot be built")
            m = re.search(r"^error.*?(?=^error: could not compile)", out, re.S | re.M)
            viol = rep(failed[0], f"documented declarations do not compile ({len(failed)} of {len(names)}): " + errors_of(out))
            merge(tot, {"cases": len(names)})
            continue

        def run(n):
            w = tempfile.mkdtemp(prefix=n, dir=WORK)
            try:
                r = subprocess.run([os.path.join(t, "debug", n), str(SEED), w], cwd=w, env=env(RUST_BACKTRACE="0"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=cap)
                return n, r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                return n, 124, "", "does not come to an end"
            finally:
                shutil.rmtree(w, ignore_errors=True)
        with ThreadPoolExecutor(8) as ex:
            for n, rc, o, e in ex.map(run, names):
                if rc != 0:
                    viol = viol or rep(n, f"ended with {rc}: {e[-1500:]}")
                    continue
                c = json.loads(o)
                c["crates_built"] = 1
                merge(tot, {"cases": 1, "distinct": 1 if sum(c.values()) > 1 else 0, "counts": c, "samples": [about[n]]})
        for n in names:
            for x in glob.glob(os.path.join(t, "debug", n)) + glob.glob(os.path.join(t, "debug", "*", n + "-*")) + glob.glob(os.path.join(t, "debug", ".fingerprint", n + "-*")):
                shutil.rmtree(x, ignore_errors=True) if os.path.isdir(x) else os.remove(x)
    shutil.rmtree(gen, ignore_errors=True)
    return viol


def c25(tier):
    tot, v = {}, None
    build()  # the library itself has to be usable, or there is no answer
    n, step = (24, 24) if tier == "quick" else (240, 40)
    for frm in range(0, n, step):
        if not v and time.time() - T0 < 2400:
            v = shapes(tier, frm, min(n, frm + step), tot, 60)
    finish("C25", tier, tot, v)


# ---------------------------------------------------------------------------------------------------------------- C08
HOST = "x86_64-unknown-linux-gnu"
SAN_SIG = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL}
SAN_CHECKS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C14", "C15", "C18", "C19", "C20", "C21", "C22", "C23", "C13", "C24", "C17", "C16", "C26"]
TSAN_CHECKS = ["C17", "C24", "C16", "C08", "C11", "C10"]


def san_verdict(r):
    """Only what the instrumentation itself reports counts here: other properties judge results."""
    m = re.search(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|ERROR: ThreadSanitizer|runtime error:|unsafe precondition\(s\) violated|Undefined Behavior)[^\n]*(\n.*){0,14}", r.stderr)
    if m and "AddressSanitizer: out of memory" not in m.group(0) and "allocation-size-too-big" not in m.group(0) and "stack-overflow" not in m.group(0):
        return m.group(0)
    if r.rc < 0 and -r.rc in SAN_SIG:
        return f"killed by signal {-r.rc}: {r.stderr[-600:]}"
    return None


def build_asan():
    t = os.path.join(TARGET, "asan")
    a = cargo(["build", "--offline", "-q", "--target", HOST, "-j", "4"], t, os.path.join(V, "harness"), "monitors with AddressSanitizer",
              RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="--cfg brec_verif -Zsanitizer=address")
    # the probe of the known finding
    p = cargo(["build", "--offline", "-q", "--target", HOST, "-j", "4"], t, os.path.join(V, "probe"), "probe", RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=address")
    return a, p, os.path.join(t, HOST, "debug")


def build_tsan():
    t = os.path.join(TARGET, "tsan")
    a = cargo(["build", "--offline", "-q", "-Zbuild-std", "--target", HOST, "-j", "4"], t, os.path.join(V, "harness"), "monitors with ThreadSanitizer",
              RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="--cfg brec_verif -Zsanitizer=thread")
    return a, os.path.join(t, HOST, "debug", "mon")


MIRIENV = dict(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="--cfg brec_verif", MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check")


def build_miri():
    t = os.path.join(TARGET, "miri")
    a = cargo(["miri", "run", "--offline", "-q", "--", "run", "C08", "tier=san", "jobs=1", "cases=0", f"out={WORK}/miri0.json"], t, os.path.join(V, "harness"), "monitors for Miri", **MIRIENV)
    return a


def run_miri(shard, frm, n, wall):
    """One shard under the interpreter. The monitor stops by itself at the cap."""
    r = Res()
    d = tempfile.mkdtemp(prefix="miri-", dir=WORK)
    out = os.path.join(d, "out.json")
    e = env(CARGO_TARGET_DIR=os.path.join(TARGET, "miri"), **MIRIENV)
    e["MIRIFLAGS"] += f" -Zmiri-seed={SEED * 100 + shard}"
    args = ["cargo", "miri", "run", "--offline", "-q", "--", "run", "C08", "tier=san", "jobs=1", f"seed={SEED}", f"from={frm}", f"cases={n}", f"cap={wall}", "keep=1", f"out={out}", f"work={d}"]
    with open(d + "/err", "wb") as err:
        p = subprocess.Popen(args, cwd=os.path.join(V, "harness"), env=e, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
        try:
            p.wait(timeout=wall + 150)
        except subprocess.TimeoutExpired:
            r.kind = "stuck"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    r.rc = p.returncode
    r.stderr = open(d + "/err", "rb").read().decode("utf-8", "replace")
    r.data = json.load(open(out)) if os.path.exists(out) and os.path.getsize(out) else {}
    r.cur = [int(x) for x in open(out + ".cur").read().split() if x.isdigit()] if os.path.exists(out + ".cur") else []
    shutil.rmtree(d, ignore_errors=True)
    return r


def judged(pid, data):
    return {"executions_judged": max(data["cases"], sum(data["counts"].get(k, 0) for k in spec.UNIT.get(pid, [])))}


def c08(tier):
    quick = tier == "quick"
    tot, viol = {}, None
    with ThreadPoolExecutor(3) as ex:
        fa, ft, fm = ex.submit(build_asan), ex.submit(build_tsan), ex.submit(build_miri)
        (a, pr, abin), (t, tbin), m = fa.result(), ft.result(), fm.result()
    for what, (rc, out) in (("ASan", a), ("TSan", t)):
        if rc != 0:
            print(errors_of(out), file=sys.stderr)
            give_up(f"the {what} build of the monitors failed")
    by = {"asan": {}, "tsan": {}, "miri": {}}
    asan_env = {"ASAN_OPTIONS": "allocator_may_return_null=1:detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=99"}
    tsan_env = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=99:report_signal_unsafe=0"}

    def one(tool, exe, pid, opts, cap, e):
        """the monitor may report a violation of its own property here: not this property's business"""
        nonlocal viol
        if viol:
            return
        r = run_mon(exe, pid, "san", opts + ["keep=1", f"cap={cap}"], cap + 120, e)
        log(f"{tool} {pid} {opts}: rc {r.rc}, {r.data.get('cases', 0)} cases")
        bad = san_verdict(r)
        if bad:
            viol = (f"{tool}, workload {pid}: {bad}", {"property": "C08", "tool": tool, "workload": pid, "opts": opts, "seed": SEED, "cases": r.cur})
            return
        if r.data:
            merge(tot, {"cases": r.data["cases"], "distinct": r.data["distinct"], "trivial": r.data["trivial"], "counts": judged(pid, r.data), "samples": [f"{tool} {pid}: {s[:300]}" for s in r.data["samples"][:1]]})
            by[tool][pid] = {"cases": r.data["cases"], "observed": r.data["counts"]}
        else:
            tot.setdefault("notes", []).append(f"{tool} {pid}: ended without a report ({r.kind}, rc {r.rc})")

    # known finding
    if pr[0] == 0:
        p = subprocess.run([os.path.join(abin, "probe")], env=env(**asan_env), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        if b"heap-use-after-free" in p.stderr:
            tot.setdefault("known", {})["view-lifetime"] = True
    mult = 1 if quick else 20
    one("asan", os.path.join(abin, "mon"), "C08", [f"cases={60000 * mult}"], 60 if quick else 240, asan_env)
    for pid in SAN_CHECKS:
        base = SAN_CASES[pid]
        one("asan", os.path.join(abin, "mon"), pid, [f"cases={base * mult}"], 15 if quick else 90, asan_env)
    for pid in TSAN_CHECKS:
        one("tsan", tbin, pid, [f"cases={SAN_CASES[pid] * mult}"], 15 if quick else 120, tsan_env)
    if not viol and m[0] == 0:
        wall = 110 if quick else 900
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda i: run_miri(i, i * 1_000_000, 1_000_000, wall), range(8)))
        for i, r in enumerate(rs):
            bad = san_verdict(r) or (r.stderr[-1500:] if "error: abnormal termination" in r.stderr or "memory access" in r.stderr else None)
            if bad and "unsupported operation" in bad:
                bad = None
            if bad and not viol:
                viol = (f"Miri, shard {i}: {bad}", {"property": "C08", "tool": "miri", "workload": "C08", "from": i * 1_000_000, "seed": SEED, "cases": r.cur, "miri_seed": SEED * 100 + i})
            if r.data:
                merge(tot, {"cases": r.data["cases"], "distinct": r.data["distinct"], "trivial": 0, "counts": judged("C08", r.data)})
                b = by["miri"].setdefault("C08", {"cases": 0, "observed": {}})
                b["cases"] += r.data["cases"]
                for k, v in r.data["counts"].items():
                    b["observed"][k] = b["observed"].get(k, 0) + v
            elif not bad:
                tot.setdefault("notes", []).append(f"miri shard {i}: no report (rc {r.rc}): {r.stderr[-300:]}")
        log("miri done", by["miri"].get("C08", {}).get("cases"))
    elif m[0] != 0:
        tot.setdefault("notes", []).append("Miri did not run: " + errors_of(m[1])[:400])
    finish("C08", tier, tot, viol, {"by_tool": by})


SAN_CASES = {"C01": 3000, "C02": 4000, "C03": 4000, "C04": 5000, "C05": 300, "C06": 4000, "C07": 20000, "C08": 4000, "C09": 5000, "C10": 4000, "C11": 60, "C12": 20, "C13": 20, "C14": 20,
             "C15": 60, "C16": 40, "C17": 60, "C18": 20000, "C19": 20000, "C20": 4000, "C21": 6000, "C22": 3000, "C23": 100, "C24": 60, "C26": 20000}


def replay(pid, path):
    global SEED
    rep = json.load(open(path))
    SEED = rep.get("seed", 1)
    if pid == "C08":
        print(json.dumps(rep, indent=1))
        c08("quick")
    if "shape" in rep:
        frm, upto, ws, n = rep["shape"]
        v = shapes(rep["tier"], frm, upto, {}, 60)
        if v:
            print(v[0])
            print(f"VIOLATION property={pid} replay={path}")
        cleanup()
        sys.exit(1 if v else 0)
    if "proto" in rep:
        i, rc, out, exe, gen = build_proto(rep["proto"], rep["declarations"])
        if rc != 0:
            print(errors_of(out))
            print(f"VIOLATION property={pid} replay={path}")
            sys.exit(1)
    else:
        exe = build()
    opts = rep.get("opts", []) + ([f"only={rep['case']}"] if "case" in rep else [])
    r = run_mon(exe, pid, rep["tier"], opts, 300)
    print(r.kind, r.data.get("violation"), r.stderr[-2000:])
    if r.kind in ("violation", "abort", "stuck"):
        print(f"VIOLATION property={pid} replay={path}")
        cleanup()
        sys.exit(1)
    cleanup()
    sys.exit(0)


def main():
    global WORK
    if len(sys.argv) < 3 or sys.argv[1] not in spec.RULE:
        print(__doc__)
        sys.exit(64)
    pid, tier = sys.argv[1], sys.argv[2]
    os.makedirs(os.path.join(V, "work"), exist_ok=True)
    WORK = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(V, "work"))
    try:
        if tier == "replay":
            replay(pid, sys.argv[3])
        ev = os.path.join(V, "evidence", f"{pid}.json")
        if os.path.exists(ev):
            os.remove(ev)
        if pid == "C21":
            c21(tier)
        if pid == "C25":
            c25(tier)
        if pid == "C08":
            c08(tier)
        tot = {}
        exe = build()
        v = decide(exe, pid, tier, [], 240 if tier == "quick" else 1500, tot)
        finish(pid, tier, tot, v)
    finally:
        cleanup()


main()
