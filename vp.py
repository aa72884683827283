#!/usr/bin/env python3
"""Solver-based checks of /repo's real code.

    vp.py check ID [--tier quick|thorough]     decide one property
    vp.py replay FILE                          re-run a recorded counterexample natively
    vp.py setup                                compile everything once (fills the cache)

One check = one harness file harness/ID.c.  The library's current sources are
compiled with goto-cc, the harness is linked in place of the functions it stubs,
and cbmc decides every assertion of every entry for all values of the symbolic
draws.  Each counterexample is replayed against a native (sanitized) build of the
same sources; only what reproduces is reported.  See DESIGN.md.
"""
import concurrent.futures as cf
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
JOBS = int(os.environ.get("VP_JOBS", "8"))

INC = [f"-I{REPO}/headers", f"-I{REPO}/headers/RadarKit"]
BASE = ["-std=gnu11", "-march=haswell", "-mfpmath=sse", "-D_GNU_SOURCE", "-fPIC"]
GOTO_CFLAGS = BASE + [f"-I{VERIF}/lib/shim"] + INC
NATIVE_CFLAGS = BASE + ["-O0", "-g", "-w", "-ffp-contract=off", "-fno-omit-frame-pointer",
                        "-fsanitize=address,bounds", "-fno-sanitize-recover=all"] + INC
LIBS = ["-lfftw3f", "-lnetcdf", "-lpthread", "-lz", "-lm", "-lrt"]
# Not part of the library proper: the built-in test program
SKIP = {"RKTest.c"}


class Inconclusive(Exception):
    pass


def run(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def sources():
    s = sorted(glob.glob(f"{REPO}/source/*.c") + glob.glob(f"{REPO}/source/*/*.c"))
    return [x for x in s if os.path.basename(x) not in SKIP]


def headers_digest():
    files = sorted(glob.glob(f"{REPO}/headers/**/*.h", recursive=True) + glob.glob(f"{REPO}/source/**/*.h", recursive=True)
                   + glob.glob(f"{VERIF}/lib/shim/**/*.h", recursive=True))
    return sha(*[f.encode() + read(f) for f in files])


def atomic(out, cmd, what):
    """Run cmd with OUT replaced by a temporary name, then move it into place."""
    tmp = f"{out}.{os.getpid()}.tmp"
    rc, o, e = run([tmp if c == "OUT" else c for c in cmd])
    if rc != 0 or not os.path.exists(tmp):
        raise Inconclusive(f"cannot build {what}: {(o + e)[-1500:]}")
    os.replace(tmp, out)


def mangle(path):
    return "__CPROVER_file_local_" + re.sub(r"[^A-Za-z0-9]", "_", os.path.basename(path)) + "_"


def use_scale(scale, layout=()):
    """Scaled-down constants: compile everything (library and harness, symbolic and native) against a
    copy of /repo's headers in which the named #defines have the given small values.  LAYOUT (pairs of
    a regular expression and its replacement) gives a member of a structure an object of its own."""
    global INC, GOTO_CFLAGS, NATIVE_CFLAGS
    os.makedirs(CACHE, exist_ok=True)
    out = f"{CACHE}/scale-{sha(headers_digest(), json.dumps([scale, layout], sort_keys=True))}"
    if not os.path.isdir(out):
        tmp = f"{out}.{os.getpid()}.tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(f"{REPO}/headers", tmp)
        left = set(scale) | {x[0] for x in layout}
        for f in glob.glob(f"{tmp}/**/*.h", recursive=True):
            text = read(f).decode("utf-8", "surrogateescape")
            new = text
            for name, value in scale.items():
                new, n = re.subn(rf"^([ \t]*#[ \t]*define[ \t]+{name})([ \t]+)[^\n]*$", rf"\g<1> {value}", new, flags=re.M)
                if n:
                    left.discard(name)
            for pattern, to in layout:
                new, n = re.subn(pattern, to, new)
                if n:
                    left.discard(pattern)
            if new != text:
                with open(f, "wb") as g:
                    g.write(new.encode("utf-8", "surrogateescape"))
        if left:
            shutil.rmtree(tmp, ignore_errors=True)
            raise Inconclusive(f"constants to scale not found: {sorted(left)}")
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    new = [f"-I{out}", f"-I{out}/RadarKit"]
    GOTO_CFLAGS = [x for x in GOTO_CFLAGS if x not in INC] + new
    NATIVE_CFLAGS = [x for x in NATIVE_CFLAGS if x not in INC] + new
    INC = new


def build_objects(kind, only=None):
    """Compile every library source (or those named); kind is 'goto' or 'native'.  Returns the objects and a digest."""
    os.makedirs(CACHE, exist_ok=True)
    hd = headers_digest()
    srcs = sources()
    if only:
        want = {os.path.splitext(x)[0] for x in only}
        srcs = [s for s in srcs if os.path.splitext(os.path.basename(s))[0] in want]
    flags = GOTO_CFLAGS if kind == "goto" else NATIVE_CFLAGS

    def one(src):
        key = sha(kind, "2", hd, " ".join(flags), src, read(src))
        out = f"{CACHE}/{kind}-{os.path.basename(src)[:-2]}-{key}.o"
        if not os.path.exists(out):
            if kind == "goto":
                atomic(out, ["goto-cc", "-c"] + flags + ["--export-file-local-symbols", src, "-o", "OUT"], src)
            else:
                # File-local functions get the names goto-cc gives them, and everything becomes weak, so that
                # what a harness defines replaces the library's body (also for calls within a file).
                raw = f"{out}.{os.getpid()}.raw"
                rc, o, e = run(["gcc", "-S"] + flags + [src, "-o", raw + ".s"])
                if rc != 0:
                    raise Inconclusive(f"cannot compile {src}: {e[-1500:]}")
                asm = read(raw + ".s").decode("utf-8", "surrogateescape")
                local = set(re.findall(r"^\t\.type\t([A-Za-z_]\w*), @function", asm, re.M)) - set(re.findall(r"^\t\.globl\t(\w+)", asm, re.M))
                local = sorted(f for f in local if not f.startswith(("_sub_", "_GLOBAL", "__")))
                with open(raw + ".s", "a") as f:
                    f.write("".join(f"\t.weak\t{x}\n" for x in local))
                rc, o, e = run(["gcc", "-c", raw + ".s", "-o", raw])
                if rc != 0:
                    raise Inconclusive(f"cannot assemble {src}: {e[-1500:]}")
                args = [a for x in local for a in ("--redefine-sym", f"{x}={mangle(src)}{x}")]
                rc, o, e = run(["objcopy"] + args + [raw, raw + "2"])
                rc2, o2, e2 = run(["objcopy", "--weaken", raw + "2", raw + "3"])
                if rc or rc2:
                    raise Inconclusive(f"objcopy {src}: {e}{e2}")
                os.replace(raw + "3", out)
                for x in (raw, raw + "2", raw + ".s"):
                    os.unlink(x)
        return out, key

    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, srcs))
    return [r[0] for r in res], sha(*[r[1] for r in res])


# ---------------------------------------------------------------- harness

def load_spec(pid):
    path = f"{VERIF}/harness/{pid}.c"
    text = read(path).decode()
    m = re.search(r"/\*VP\s*(\{.*?\})\s*VP\*/", text, re.S)
    spec = json.loads(m.group(1))
    spec["path"] = path
    return spec


def defined_functions(gb):
    _, o, _ = run(["goto-instrument", "--list-goto-functions", gb])
    out = set()
    for line in o.splitlines():
        m = re.match(r"^(\S+) /\* (\S+) \*/ \(body available\)", line)
        m2 = re.match(r"^(\S+)\s+\(body available\)", line)
        if m:
            out.add(m.group(2))
        elif m2:
            out.add(m2.group(1))
    return out


def goto_binary(spec, defines, lib_objs, lib_key, work):
    if spec.get("sources"):
        # Only these files are linked: fewer candidates behind every function pointer
        want = {os.path.splitext(x)[0] for x in spec["sources"]}
        lib_objs = [o for o in lib_objs if os.path.basename(o).split("-")[1] in want]
        if len(lib_objs) != len(want):
            raise Inconclusive(f"sources missing: {want}")
        lib_key = sha(*lib_objs)
    d = [f"-D{x}" for x in defines]
    key = sha(lib_key, spec["path"], read(spec["path"]), read(f"{VERIF}/lib/vp.h"), read(f"{VERIF}/lib/vp_stubs.c"),
              *[read(x) for x in sorted(glob.glob(f"{VERIF}/harness/*.h"))], *d)
    out = f"{CACHE}/bin-{os.path.basename(spec['path'])[:-2]}-{key}.gb"
    if b"#define VP_OWN_LOG" in read(spec["path"]):
        d.append("-DVP_OWN_LOG=1")
    fl = GOTO_CFLAGS + ["-DVP_SYMBOLIC=1", f"-I{VERIF}/lib", f"-I{VERIF}/harness"] + d
    if os.path.exists(out):
        return out
    lib = f"{CACHE}/lib-{lib_key}.gb"
    if not os.path.exists(lib):
        atomic(lib, ["goto-cc", "-o", "OUT"] + lib_objs, "library goto binary")
    h, s = f"{work}/h-{key}.gb", f"{work}/s-{key}.gb"
    for src, o in ((spec["path"], h), (f"{VERIF}/lib/vp_stubs.c", s)):
        rc, so, e = run(["goto-cc", "-c"] + fl + [src, "-o", o])
        if rc != 0:
            raise Inconclusive(f"cannot compile {src}: {(so + e)[-1500:]}")
    mine = sorted((defined_functions(h) | defined_functions(s)) & defined_functions(lib))
    # static inline helpers of headers are in both; they are the same code
    lib2 = f"{work}/lib-{key}.gb"
    args = []
    for f in mine:
        args += ["--remove-function-body", f]
    rc, so, e = run(["goto-instrument"] + args + [lib, lib2])
    if rc != 0:
        raise Inconclusive(f"goto-instrument: {(so + e)[-1500:]}")
    atomic(out, ["goto-cc", "-o", "OUT", h, s, lib2], "harness goto binary")
    return out


_native_lock = __import__("threading").Lock()


def native_binary(spec, entry, defines, work):
    d = [f"-D{x}" for x in defines]
    with _native_lock:
        objs, lib_key = build_objects("native")
    exe = f"{work}/native-{entry}-{sha(*d)}"
    if os.path.exists(exe):
        return exe
    main = f"{work}/main-{entry}-{sha(*d)}.c"
    with open(main, "w") as f:
        f.write(f"#include <stdio.h>\nvoid {entry}(void);\nint main(void) {{ {entry}(); printf(\"VP-DONE\\n\"); return 0; }}\n")
    if b"#define VP_OWN_LOG" in read(spec["path"]):
        d.append("-DVP_OWN_LOG=1")
    fl = NATIVE_CFLAGS + [f"-I{VERIF}/lib", f"-I{VERIF}/harness"] + d
    rc, o, e = run(["gcc"] + fl + [main, spec["path"], f"{VERIF}/lib/vp_stubs.c"] + objs + ["-o", exe] + LIBS)
    if rc != 0:
        raise Inconclusive(f"native link: {e[-1500:]}")
    return exe


def replay_native(exe, values, work, tag, timeout=20):
    path = f"{work}/values-{tag}.txt"
    with open(path, "w") as f:
        f.write("\n".join(str(v) for v in values) + "\n")
    scratch = tempfile.mkdtemp(dir=work)
    env = dict(os.environ, VP_REPLAY=path, ASAN_OPTIONS="exitcode=98:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=97:print_stacktrace=1")
    rc, o, e = run([exe], timeout=timeout, env=env, cwd=scratch)
    shutil.rmtree(scratch, ignore_errors=True)
    return rc, o, e


# ---------------------------------------------------------------- solving

CHECKS = {
    "mem": ["--no-standard-checks", "--pointer-check", "--bounds-check", "--div-by-zero-check", "--unwinding-assertions"],
    "func": ["--no-standard-checks", "--unwinding-assertions"],
}


def cbmc_cmd(gb, entry, ent):
    cmd = ["cbmc", gb, "--function", entry, "--drop-unused-functions", "--no-malloc-may-fail", "--object-bits",
           str(ent.get("object_bits", 12)), "--unwind", str(ent["unwind"])]
    if ent.get("unwindset"):
        cmd += ["--unwindset", ",".join(ent["unwindset"])]
    cmd += CHECKS[ent.get("checks", "func")]
    cmd += ent.get("flags", [])
    if ent.get("solver"):
        cmd += ent["solver"].split()
    return cmd


def trace_values(trace):
    vals = []
    for st in trace:
        if st.get("stepType") == "assignment" and st.get("lhs") == "vp_logged" and not st.get("hidden", False):
            if st.get("sourceLocation", {}).get("function", "") not in ("vp_draw",):
                continue
            v = st.get("value", {})
            b = v.get("binary")
            if b is not None:
                vals.append(int(b, 2))
            else:
                m = re.match(r"(\d+)", str(v.get("data", "0")))
                vals.append(int(m.group(1)) if m else 0)
    return vals


def parse(out):
    try:
        return json.loads(out)
    except ValueError:
        # cut off output: take what is complete
        return None


def solve(gb, entry, ent, extra=(), timeout=600):
    t0 = time.time()
    mem = ent.get("mem_gb", 12)
    cmd = ["timeout", "-k", "5", str(int(timeout) + 30), "bash", "-c", f"ulimit -v {mem * 1024 * 1024}; exec \"$@\"", "cbmc"] + cbmc_cmd(gb, entry, ent) + ["--json-ui", "--verbosity", "8", "--trace"] + list(extra)
    rc, out, err = run(cmd, timeout=timeout)
    wall = time.time() - t0
    if rc is None:
        raise Inconclusive(f"{entry}: no verdict within {timeout} s")
    js = parse(out)
    if js is None and rc in (15, -15, 143, 137, -9) and wall < timeout / 2:
        # ended from outside (memory ran low, say): once more
        rc, out, err = run(cmd, timeout=timeout - wall)
        wall = time.time() - t0
        if rc is None:
            raise Inconclusive(f"{entry}: no verdict within {timeout} s")
        js = parse(out)
    if js is None:
        raise Inconclusive(f"{entry}: cbmc output unreadable (rc {rc}): {out[-600:]} {err[-300:]}")
    results, msgs = [], []
    for it in js:
        if "result" in it:
            results = it["result"]
        if "messageText" in it:
            msgs.append(it["messageText"])
            if it.get("messageType") == "ERROR":
                raise Inconclusive(f"{entry}: cbmc: {it['messageText'][:600]}")
    if not results:
        raise Inconclusive(f"{entry}: cbmc gave no results (rc {rc}): {' | '.join(msgs[-6:])[:900]}")
    absent = [r for r in results if ".no-body." in r.get("property", "")]
    results = [r for r in results if ".no-body." not in r.get("property", "")]
    text = "\n".join(msgs)
    st = {"wall_s": round(wall, 2)}
    m = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", text)
    if m:
        st["vccs"], st["vccs_after_simplification"] = int(m.group(1)), int(m.group(2))
    m = re.search(r"size of program expression: (\d+) steps", text)
    if m:
        st["ssa_steps"] = int(m.group(1))
    m = re.search(r"(\d+) variables, (\d+) clauses", text)
    if m:
        st["sat_variables"], st["sat_clauses"] = int(m.group(1)), int(m.group(2))
    m = re.findall(r"Runtime (?:Solver|decision procedure): ([0-9.e+-]+)s", text)
    st["solver_s"] = round(sum(float(x) for x in re.findall(r"Runtime Solver: ([0-9.e+-]+)s", text)), 3)
    nobody = re.findall(r"no body for (?:function|callee) '?([A-Za-z0-9_$]+)'?", text)
    st["no_body"] = sorted(set(nobody) | {r["property"].split(".no-body.")[1] for r in absent if r.get("status") == "FAILURE"})
    return results, st


def run_entry(spec, entry, ent, gb, work, deadline, verbose):
    """Decide one entry.  Returns a dict for the evidence and a list of violations."""
    ent = dict(ent)
    for attempt in range(4):
        timeout = max(20, min(ent.get("timeout", 400), deadline - time.time()))
        results, st = solve(gb, entry, ent, timeout=timeout)
        # A loop that was moved or rewritten may need a bound of its own: when nothing but unwinding
        # assertions fail, raise those bounds and decide again.
        bad = [r for r in results if r.get("status") == "FAILURE" and not r.get("description", "").startswith("VPREACH")]
        loops = [r["property"] for r in bad if "unwinding" in r.get("description", "")]
        if not loops or len(loops) != len(bad) or attempt == 3 or deadline - time.time() < 60:
            break
        more = dict(x.rsplit(":", 1) for x in ent.get("unwindset", []))
        top = max([int(x) for x in more.values()] + [int(ent["unwind"])] +
                  [int(x) for f in ent.get("flags", []) for x in re.findall(r":(\d+)", f)])
        for l in loops:
            name = re.sub(r"\.unwind\.(\d+)$", r".\1", l)
            more[name] = str(max(2 * int(more.get(name, ent["unwind"])), min(top, 300)) + 1)
        ent["unwindset"] = [f"{k}:{v}" for k, v in more.items()]
    bad, reach_missing, reach_ok, ok, unknown = [], [], [], 0, []
    for r in results:
        d = r.get("description", "")
        s = r.get("status")
        if d.startswith("VPREACH"):
            (reach_ok if s == "FAILURE" else reach_missing).append(r)
        elif s == "SUCCESS":
            ok += 1
        elif s == "FAILURE":
            bad.append(r)
        else:
            unknown.append(r)
    info = {"entry": entry, "bounds": ent.get("bounds", ""), "unwind": ent["unwind"], "assertions": ok + len(bad), "discharged": ok,
            "reachability_witnesses": [r["description"][8:] for r in reach_ok], **st}
    if st["no_body"]:
        info["unmodelled_externals"] = st["no_body"]
    viol, notes = [], []
    # Counterexamples: harness assertions first, then memory, then loop bounds
    bad.sort(key=lambda r: (0 if r["description"].startswith("VP ") else 2 if "unwinding" in r["description"] else 1))
    known = known_findings()
    for r in bad[:8]:
        vals = trace_values(r.get("trace", []))
        exe = native_binary(spec, entry, ent.get("defines", []), work)
        rc, o, e = replay_native(exe, vals, work, f"{entry}-{sha(r['property'])}")
        rec = {"property": spec["id"], "entry": entry, "defines": ent.get("defines", []), "assertion": r["description"],
               "cbmc_property": r["property"], "source": r.get("sourceLocation", {}), "values": vals,
               "native": {"rc": rc, "stdout": o[-2000:], "stderr": e[-3000:]}}
        reproduced = rc is None or (rc != 0 and rc != 77)
        rec["reproduced"] = reproduced
        if reproduced:
            viol.append(rec)
            if not any(matches(k, rec) for k in known):
                break
            continue
        notes.append(f"{entry}: counterexample to '{r['description']}' ({r['property']}) does not reproduce natively (rc {rc})")
        if verbose:
            print(notes[-1], vals[:40], o[-300:], e[-300:], file=sys.stderr)
    info["unreproduced"] = notes
    if bad and notes and all(any(matches(k, v) for k in known) for v in viol):
        raise Inconclusive("; ".join(notes))
    if viol:
        return info, viol
    if unknown:
        raise Inconclusive(f"{entry}: undecided: {unknown[0].get('property')}; unwinding: " + ", ".join(r["property"] for r in bad))
    info["reach_missing"] = [r["description"][8:] for r in reach_missing]
    if not reach_ok:
        raise Inconclusive(f"{entry}: vacuous: " + ", ".join(r["description"] for r in reach_missing))
    # Replay witnesses on the real code: the encoding and the implementation must agree
    validated = 0
    samples = []
    for r in reach_ok[:ent.get("witnesses", 2)]:
        if time.time() > deadline - 60:
            break
        vals = trace_values(r.get("trace", []))
        exe = native_binary(spec, entry, ent.get("defines", []), work)
        rc, o, e = replay_native(exe, vals, work, f"w-{entry}-{sha(r['property'])}")
        label = r["description"][8:]
        hit = f"VP-REACHED {label}" in o
        samples.append({"entry": entry, "witness": label, "draws": vals[:24], "native_rc": rc, "reached": hit})
        if rc in (97, 98, 99) or (rc is not None and rc < 0):
            viol.append({"property": spec["id"], "entry": entry, "defines": ent.get("defines", []), "assertion": f"native replay of witness '{label}' fails",
                         "values": vals, "reproduced": True, "native": {"rc": rc, "stdout": o[-2000:], "stderr": e[-3000:]}})
        elif rc == 0 and hit:
            validated += 1
        else:
            info["unreproduced"].append(f"witness '{label}' not reached natively (rc {rc}) {o[-200:]}")
            if verbose:
                print(info["unreproduced"][-1], e[-500:], file=sys.stderr)
    info["witnesses_validated"] = validated
    info["samples"] = samples
    return info, viol


def known_findings():
    path = f"{VERIF}/known_findings.jsonl"
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def matches(k, v):
    return (k.get("kind") == "finding" and k.get("property") == v["property"] and k.get("entry") == v["entry"]
            and k.get("assertion") == v["assertion"])


def check(pid, tier, verbose=False, only=None):
    t0 = time.time()
    budget = 840 if tier == "quick" else float(os.environ.get("VP_BUDGET", "840"))
    deadline = t0 + budget
    spec = load_spec(pid)
    spec["id"] = pid
    work = tempfile.mkdtemp(prefix=f"vp-{pid}-")
    entries = []
    for e in spec["entries"]:
        if only and e["name"] not in only:
            continue
        ent = dict(e)
        if tier == "quick" and ent.get("tier") == "thorough":
            continue
        if tier == "thorough" and "thorough" in ent:
            ent.update(ent.pop("thorough"))
        ent.pop("thorough", None)
        entries.append(ent)
    infos, violations, problems = [], [], []
    try:
        if spec.get("scale") or spec.get("layout"):
            use_scale(spec.get("scale", {}), spec.get("layout", []))
        objs, lib_key = build_objects("goto", spec.get("sources"))
        bins = {}
        for ent in entries:
            k = tuple(ent.get("defines", []))
            if k not in bins:
                bins[k] = goto_binary(spec, k, objs, lib_key, work)
        workers = spec.get("parallel", 6)
        with cf.ThreadPoolExecutor(workers) as ex:
            futs = {ex.submit(run_entry, spec, ent["name"], ent, bins[tuple(ent.get("defines", []))], work, deadline, verbose): ent for ent in entries}
            for f in cf.as_completed(futs):
                ent = futs[f]
                try:
                    info, viol = f.result()
                    infos.append(info)
                    violations += viol
                except Inconclusive as x:
                    problems.append(str(x))
    except Inconclusive as x:
        problems.append(str(x))
    finally:
        if verbose and (violations or problems):
            print("work dir", work, file=sys.stderr)
        else:
            shutil.rmtree(work, ignore_errors=True)
    missing = {x for i in infos for x in i.pop("reach_missing", [])} - {x for i in infos for x in i["reachability_witnesses"]}
    if missing and not only and not violations and not problems:
        problems.append("vacuous: " + ", ".join(sorted(missing)))
    known = known_findings()
    new = []
    for v in violations:
        k = [x for x in known if matches(x, v)]
        if k:
            print(f"KNOWN-FINDING: property={pid} {k[0]['what']}")
        else:
            new.append(v)
    infos.sort(key=lambda i: i["entry"])
    samples = [s for i in infos for s in i.pop("samples", [])][:6]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "explanation": "Bounded symbolic execution of the real sources (goto-cc) decided by cbmc's SAT back end. 'states' counts the SSA steps "
                           "executed symbolically, 'transitions' the verification conditions generated; every condition is decided for all values of the symbolic draws "
                           "within the bounds of its entry. 'traces_validated_against_impl' counts solver witnesses replayed on a native build of the same sources.",
            "states": sum(i.get("ssa_steps", 0) for i in infos),
            "transitions": sum(i.get("vccs", 0) for i in infos),
            "traces_validated_against_impl": sum(i.get("witnesses_validated", 0) for i in infos),
            "samples": samples,
            "functions_encoded": spec.get("functions", []),
            "queries": sum(i["assertions"] for i in infos),
            "discharged": sum(i["discharged"] for i in infos),
            "solver_s": round(sum(i.get("solver_s", 0) for i in infos), 2),
            "entries": infos,
            "outside_the_claim": spec.get("outside", ""),
        },
        "assumptions": spec.get("assumptions", []),
        "violations": len(new),
        "wall_s": round(time.time() - t0, 1),
    }
    if problems:
        ev["coverage"]["inconclusive"] = problems
    if not only:
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
    for i in infos:
        print(f"{pid} {i['entry']}: {i['discharged']}/{i['assertions']} discharged, "
              f"{i.get('vccs', 0)} VCCs, {len(i['reachability_witnesses'])} reachable, {i.get('witnesses_validated', 0)} replayed, "
              f"solver {i.get('solver_s', 0)} s, {i['wall_s']} s")
    for v in new:
        os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True)
        path = f"{VERIF}/evidence/replay/{pid}-{v['entry']}-{sha(v['assertion'])[:8]}.json"
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print(f"  {v['entry']}: {v['assertion']}   native rc {v['native']['rc']}")
        print(f"VIOLATION property={pid} replay={path}")
    for p in problems:
        print(f"INCONCLUSIVE property={pid} {p}")
    if new:
        return 1
    return 2 if problems else 0


def replay(path):
    v = json.load(open(path))
    spec = load_spec(v["property"])
    if spec.get("scale") or spec.get("layout"):
        use_scale(spec.get("scale", {}), spec.get("layout", []))
    work = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        exe = native_binary(spec, v["entry"], v["defines"], work)
        rc, o, e = replay_native(exe, v["values"], work, "replay")
        print(f"assertion: {v['assertion']}\nnative exit: {rc}\n{o}\n{e[-4000:]}")
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "setup"])
    ap.add_argument("what", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only", nargs="*")
    a = ap.parse_args()
    if a.cmd == "setup":
        objs, key = build_objects("goto")
        print(f"{len(objs)} sources encoded")
        return 0
    if a.cmd == "replay":
        return replay(a.what)
    return check(a.what, a.tier, a.v, a.only)


if __name__ == "__main__":
    sys.exit(main())
