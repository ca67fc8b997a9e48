#!/usr/bin/env python3
"""Decides one property: builds its harnesses from /repo's working tree, explores them exhaustively within bounds,
writes /verif/evidence/<id>.json and reports.  Exit 0: held on everything explored, 1: VIOLATION, 2: could not decide."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from table import CHECKS, UNITS  # noqa: E402

CXX = ["g++", "-std=c++20"]
HFLAGS = ["-O1", "-g1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-Wno-tsan",
          "-D_GLIBCXX_ASSERTIONS", "-DRPP_VERIF"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h


def files_under(*dirs):
    r = []
    for d in dirs:
        for root, _, fs in os.walk(d):
            r += [os.path.join(root, f) for f in fs if f.endswith((".hpp", ".h", ".cpp", ".proto"))]
    return r


def includes():
    return ["-I" + os.path.join(REPO, "src/rpp"), "-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "conc")] + \
        ["-I" + os.path.join(REPO, "src/extensions", e) for e in ("rppqt", "rppgrpc", "rppasio")]


def build(units):
    """Compiles every unit (in parallel) into a directory keyed by the content it is made from."""
    base = digest(files_under(os.path.join(REPO, "src"), os.path.join(VERIF, "engine"), os.path.join(VERIF, "ref")) +
                  [p for p in files_under(os.path.join(VERIF, "conc")) if p.endswith((".hpp", ".h"))])
    base.update(" ".join(HFLAGS).encode())
    os.makedirs(BUILD, exist_ok=True)
    prune()
    out = {}
    rt_key = digest(files_under(os.path.join(VERIF, "engine"))).hexdigest()[:16]
    rt = os.path.join(BUILD, "rt-" + rt_key + ".o")

    def compile_rt():
        if os.path.exists(rt):
            return None
        tmp = f"{rt}.{os.getpid()}.o"
        r = sh(CXX + ["-O2", "-g1", "-I" + os.path.join(VERIF, "engine"), "-c", os.path.join(VERIF, "engine/mc_rt.cpp"), "-o", tmp])
        if r.returncode:
            return r.stdout
        os.replace(tmp, rt)

    keys = {}
    for u in units:
        src = os.path.join(VERIF, "conc", UNITS[u].get("src", u + ".cpp"))
        k = base.copy()
        with open(src, "rb") as f:
            k.update(f.read())
        k.update(json.dumps(UNITS[u], sort_keys=True).encode())
        keys[u] = (src, os.path.join(BUILD, u + "-" + k.hexdigest()[:16]))

    def compile_part(u, part):
        """one object file (several pieces of one unit share their source)"""
        src, d = keys[u]
        obj = os.path.join(d, f"{u}.{part}.{os.getpid()}.o")
        r = sh(CXX + UNITS[u].get("opt", HFLAGS) + includes() + UNITS[u].get("cflags", []) +
               [f"-DH_PARTS={UNITS[u].get('parts', 1)}", f"-DH_PART={part}", "-c", src, "-o", obj])
        return u, obj, (u + ":\n" + r.stdout) if r.returncode else None

    def link(t):
        u, objs = t
        d = keys[u][1]
        exe = os.path.join(d, u)
        tmp = f"{exe}.{os.getpid()}"
        r = sh(CXX + objs + [rt, "-o", tmp] + UNITS[u].get("ldflags", []) + ["-ldl", "-lpthread"])
        for o in objs:
            os.unlink(o)
        if r.returncode:
            return u + ":\n" + r.stdout
        os.replace(tmp, exe)

    with cf.ThreadPoolExecutor(8) as ex:
        f0 = ex.submit(compile_rt)
        fs, todo = [], {}
        for u in units:
            d = keys[u][1]
            exe = os.path.join(d, u)
            out[u] = exe
            if os.path.exists(exe):
                os.utime(d)
                continue
            os.makedirs(d, exist_ok=True)
            todo[u] = []
            fs += [ex.submit(compile_part, u, p) for p in range(UNITS[u].get("parts", 1))]
        errs = [f0.result()]
        for f in fs:
            u, obj, err = f.result()
            errs.append(err)
            todo[u].append(obj)
        errs = [e for e in errs if e]
        if errs:
            for os_ in todo.values():
                for o in os_:
                    if os.path.exists(o):
                        os.unlink(o)
            return None, "\n".join(errs)
        errs = [e for e in ex.map(link, todo.items()) if e]
        if errs:
            return None, "\n".join(errs)
    return out, None


def prune(keep=120):
    try:
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d != "replay"), key=os.path.getmtime)
        for d in ds[:-keep]:
            shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.unlink(d)
    except OSError:
        pass


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    chk = CHECKS[prop]
    t0 = time.time()
    budget = chk.get("quick_s", 60) if tier == "quick" else chk.get("thorough_s", 600)
    units = chk["units"]
    exes, err = build(units)
    if err:
        print(f"ERROR property={prop}: harness does not build against {REPO}\n" + err[-6000:])
        return 2
    t_build = time.time() - t0
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    known, descr = known_of(prop)
    kfile = os.path.join(rdir, f"{prop}.{os.getpid()}.known")
    with open(kfile, "w") as f:
        f.write("".join(k + "\n" for k in known))
    results, found, knownhits, unconfirmed, problems = [], [], [], [], []
    tmo = budget
    for i, u in enumerate(units):
        out = os.path.join(rdir, f"{prop}-{u}.{os.getpid()}.json")
        share = max(5.0, (budget - (time.time() - t0 - t_build)) * UNITS[u].get("weight", 1.0) / sum(UNITS[x].get("weight", 1.0) for x in units[i:]))
        cmd = [exes[u], "--tier", tier, "--out", out, "--property", prop, "--time", f"{share:.1f}", "--replay-dir", rdir]
        if known:
            cmd += ["--known", kfile]
        env = dict(os.environ)
        env.update(UNITS[u].get("env", {}))
        r = sh(cmd, env=env)
        for line in r.stdout.splitlines():
            if line.startswith("FOUND"):
                m = re.match(r"FOUND scenario=(\S+) kind=(\S+) replay=(.*)", line)
                if m.group(2) not in chk.get("not_kinds", ()):
                    found.append((u, m.group(1), m.group(2), m.group(3)))
            elif line.startswith("KNOWN"):
                knownhits.append(line)
            elif line.startswith("UNCONFIRMED"):
                unconfirmed.append(line)
        if not os.path.exists(out):
            problems.append(f"{u}: no result (exit {r.returncode})\n" + r.stdout[-3000:])
            continue
        for s in json.load(open(out))["scenarios"]:
            s["unit"] = u
            results.append(s)
        os.unlink(out)
        if found:
            print(r.stdout[-6000:])
            break  # (one violation is enough)
    os.unlink(kfile)
    wall = time.time() - t0
    rdescs = []
    for k in sorted(set(knownhits)):
        # KNOWN scenario=<s> <s>|<kind>|<substr>
        rdescs.append(k.split(" ", 2)[2])
    for k in rdescs:
        print(f"KNOWN-FINDING: property={prop} {descr.get(k, k)}")
    cov = {
        "states": sum(s["nodes"] for s in results),
        "transitions": sum(s["ops"] for s in results),
        "traces_validated_against_impl": sum(s["executions"] for s in results),
        "samples": [{"scenario": s["name"], "outcome": o} for s in results for o in s["sample_outcomes"][:2]][:40],
        "scenarios": len(results),
        "scenarios_exhausted_to_bound": sum(1 for s in results if s["exhausted"]),
        "note": "states: distinct nodes of the schedule/choice trees; transitions: instrumented operations executed; every trace is an execution of the real implementation compared with the oracle",
        "per_scenario": [{k: s[k] for k in ("unit", "name", "executions", "nodes", "bound", "completed_bound", "exhausted", "by_preemptions", "max_decisions", "threads", "accesses_checked", "outcomes", "wall_s")} for s in results],
        "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "wall_s": round(wall, 1), "violations": [{"scenario": s, "kind": k, "replay": p} for _, s, k, p in found],
          "assumptions": chk.get("assumptions", []) + ["sequentially consistent interleavings, with happens-before race detection that honours the memory orders used"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(results)} scenarios, {cov['traces_validated_against_impl']} executions, {cov['states']} states, {cov['transitions']} transitions, build {t_build:.1f}s, total {wall:.1f}s")
    for s in results:
        if not s["exhausted"]:
            print(f"  capped: {s['name']} completed bound {s['completed_bound']} of {s['bound']} ({s['executions']} executions)")
    for l in unconfirmed:
        print("  " + l)
    if found:
        for u, s, k, p in found:
            print(f"VIOLATION property={prop} replay={p}")
        print(f"  replay with: {exes[found[0][0]]} --property {prop} --replay {found[0][3]}")
        return 1
    if problems:
        print("\n".join(problems))
        return 2
    if not results or cov["traces_validated_against_impl"] == 0:
        print("ERROR: nothing explored")
        return 2
    return 0


def known_of(prop):
    """lines 'known: property=<id> match=<scenario>|<kind>|<part of the message> :: <what fails>'"""
    keys, descr = [], {}
    for line in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", line.rstrip("\n"))
        if m and m.group(1) == prop:
            keys.append(m.group(2))
            descr[m.group(2)] = m.group(3)
    return keys, descr


if __name__ == "__main__":
    sys.exit(main())
