#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   build the harness of a property against /repo's working tree,
explore it exhaustively within the tier's bounds, replay what fails, write evidence/<property>.json.
check.py --replay <file>                 re-run a recorded counterexample.
Exit 0: held on everything explored (listed known findings aside). 1: VIOLATION printed. 2: no answer."""
import array, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("QTT_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
CONFIG = json.load(open(os.path.join(VERIF, "harness", "config.json")))


def torch_dir():
    for d in (os.path.join(REPO, "extern/pytorch/torch"), "/opt/vp/torch-site/torch"):
        if os.path.isdir(os.path.join(d, "include")):
            return d
    sys.exit("no libtorch found")


def build_dir():
    d = os.path.join(VERIF, "build")
    try:
        os.makedirs(d, exist_ok=True)
        t = tempfile.NamedTemporaryFile(dir=d)
        t.close()
        return d
    except OSError:
        return tempfile.mkdtemp(prefix="qttverif.")


BUILD = build_dir()


def digest_tree(root, exts=None):
    h = hashlib.sha256()
    for dp, dn, fn in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fn):
            p = os.path.join(dp, f)
            if exts is None or f.endswith(exts):
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def source_list():
    s = open(os.path.join(REPO, "sources/CMakeLists.txt")).read()
    m = re.search(r"set\(SOURCE_LIST(.*?)\)", s, re.S)
    names = re.findall(r"[\w./-]+\.cpp", m.group(1)) if m else []
    return [n for n in names if os.path.exists(os.path.join(REPO, "sources", n))]


class BuildError(Exception):
    pass


def build(prop, cfg):
    T = torch_dir()
    opt = cfg.get("opt", "-O1")
    flags = ["-std=gnu++17", "-D_GLIBCXX_USE_CXX11_ABI=0", "-DFMT_HEADER_ONLY=1", "-DFMT_DEPRECATED_OSTREAM",
             "-DDOCTEST_CONFIG_DISABLE", "-D_GLIBCXX_ASSERTIONS", "-w", opt, "-fPIC",
             "-I" + REPO + "/extern/boost", "-I" + REPO + "/extern/doctest", "-I" + REPO + "/include",
             "-isystem", T + "/include", "-isystem", T + "/include/torch/csrc/api/include"] + cfg.get("flags", [])
    ldflags = [f for f in cfg.get("flags", []) if f.startswith("-fsanitize")]
    inc = digest_tree(os.path.join(REPO, "include"))
    har = digest_tree(os.path.join(VERIF, "harness"), (".h",))

    def attempt(names):
        jobs = []
        for n in names:
            p = os.path.join(REPO, "sources", n)
            more = [f.replace("@H", os.path.join(VERIF, "harness")) for f in cfg.get("source_flags", {}).get(n, [])]
            key = hashlib.sha256((inc + (har if more else "") + " ".join(flags + more) + p).encode() + open(p, "rb").read()).hexdigest()[:32]
            jobs.append((p, key, flags + more))
        for n in cfg["harness"]:
            p = os.path.join(VERIF, "harness", n)
            key = hashlib.sha256((inc + har + " ".join(flags) + p).encode() + open(p, "rb").read()).hexdigest()[:32]
            jobs.append((p, key, flags + ["-I" + os.path.join(VERIF, "harness")]))
        # longest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))

        def comp(j):
            p, key, fl = j
            o = os.path.join(BUILD, "obj-%s.o" % key)
            if os.path.exists(o):
                return o, 0, ""
            tmp = "%s.%d.tmp" % (o, os.getpid())
            r = subprocess.run(["g++"] + fl + ["-c", p, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                os.replace(tmp, o)
            return o, r.returncode, r.stdout

        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(comp, jobs))
        for (o, rc, msg), j in zip(res, jobs):
            if rc:
                raise BuildError("compiling %s failed:\n%s" % (j[0], msg[-3000:]))
        key = hashlib.sha256(" ".join(sorted(o for o, _, _ in res)).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "%s-%s" % (prop, key))
        if not os.path.exists(exe):
            tmp = "%s.%d.tmp" % (exe, os.getpid())
            r = subprocess.run(["g++"] + ldflags + ["-o", tmp] + [o for o, _, _ in res] +
                               ["-L" + T + "/lib", "-Wl,-rpath," + os.path.realpath(T) + "/lib", "-Wl,--no-as-needed",
                                "-ltorch", "-ltorch_cpu", "-lc10", "-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("linking failed:\n" + r.stdout[-3000:])
            os.replace(tmp, exe)
        return exe

    subset = cfg.get("sources", "all")
    every = source_list()
    if subset != "all":
        try:
            return attempt([n for n in every if n in subset])
        except BuildError:
            pass
    return attempt(every)


ENV = dict(os.environ, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=0")


def run_replay(exe, suite, path, thorough, limit):
    r = subprocess.run([exe, "--suite", suite, "--replay", path, "--limit", str(limit)] + (["--thorough"] if thorough else []),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
    return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    if sys.argv[1] == "--replay":
        rep = json.load(open(sys.argv[2]))
        exe = build(rep["property"], CONFIG[rep["property"]])
        rc, out, err = run_replay(exe, rep["suite"], rep["path"], rep["tier"] == "thorough", rep.get("limit", 20))
        print(out + err)
        return 0 if rc == 0 else 1
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    cfg = CONFIG[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    evf = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evf), exist_ok=True)
    try:
        exe = build(prop, cfg)
    except BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (prop, e))
        return 2
    t_build = time.time() - t0
    limit = cfg.get("limit", 20)
    deadline = cfg.get("deadline_thorough", 7200) if thorough else cfg.get("deadline", 600)
    tmp = tempfile.mkdtemp(prefix=prop + ".", dir=BUILD)
    procs = []
    for i in range(NPROC):
        out = os.path.join(tmp, "out.%d" % i)
        log = open(os.path.join(tmp, "log.%d" % i), "wb")
        procs.append((out, subprocess.Popen([exe, "--shard", "%d/%d" % (i, NPROC), "--out", out, "--limit", str(limit),
                                             "--deadline", str(deadline)] + (["--thorough"] if thorough else []),
                                            stdout=log, stderr=subprocess.STDOUT, env=ENV)))
    for out, p in procs:
        p.wait()
    fails, suites, samples, ended = [], {}, [], 0
    states = set()
    for out, p in procs:
        if not os.path.exists(out):
            continue
        for line in open(out, errors="replace"):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if r["kind"] == "fail":
                fails.append(r)
            elif r["kind"] == "end":
                ended += 1
            else:
                s = suites.setdefault(r["suite"], {"executions": 0, "transitions": 0, "skipped": 0, "complete": True, "cpu_s": 0.0})
                for k in ("executions", "transitions", "skipped"):
                    s[k] += r[k]
                s["cpu_s"] = round(s["cpu_s"] + r["cpu"], 2)
                s["complete"] = s["complete"] and r["complete"]
                samples += [x for x in r["samples"] if x]
        if os.path.exists(out + ".states"):
            a = array.array("Q")
            b = open(out + ".states", "rb").read()
            a.frombytes(b[:len(b) // 8 * 8])
            states.update(a)
    incomplete = ended < NPROC
    known = load_known()
    mine = [k for k in known.get("findings", []) if k["property"] == prop]
    seen_known, new = {}, []
    for f in fails:
        for k in mine:
            if k.get("suite", f["suite"]) == f["suite"] and re.search(k["desc"], f["desc"]) and re.search(k.get("msg", ""), f["msg"]):
                seen_known.setdefault(k["what"], 0)
                seen_known[k["what"]] += 1
                break
        else:
            new.append(f)
    # replay what is new, shortest counterexamples first; one per suite is enough to report
    new.sort(key=lambda f: (len(f["path"].split(",")), len(f["desc"])))
    per_suite, confirmed, unconfirmed = {}, [], []
    for f in new:
        if per_suite.get(f["suite"], 0) >= 2 or len(confirmed) >= 8:
            continue
        rc, out, err = run_replay(exe, f["suite"], f["path"], thorough, limit)
        if rc != 0:
            per_suite[f["suite"]] = per_suite.get(f["suite"], 0) + 1
            confirmed.append((f, out))
        else:
            unconfirmed.append(f)
            if len(unconfirmed) > 40:
                break
    if new and not confirmed:
        # depends on what ran before in the same process: the failing worker run itself is the reproducer
        f = new[0]
        confirmed.append((f, "  only reproduces after the executions before it in the same worker\n"))
    vfile = None
    if confirmed:
        rdir = os.path.join(BUILD, "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, (f, out) in enumerate(confirmed):
            vfile = os.path.join(rdir, "%s-%d.json" % (prop, n))
            json.dump({"property": prop, "suite": f["suite"], "path": f["path"], "tier": tier, "case": f["desc"], "message": f["msg"],
                       "limit": limit, "how": "python3 /verif/check.py --replay " + vfile}, open(vfile, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, vfile))
            print("  suite %s, case: %s\n  %s" % (f["suite"], f["desc"][:600], f["msg"][:600]))
    for k, n in seen_known.items():
        print("KNOWN-FINDING: property=%s %s (%d executions)" % (prop, k, n))
    execs = sum(s["executions"] for s in suites.values())
    trans = sum(s["transitions"] for s in suites.values())
    step = max(1, len(samples) // 6)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": len(states), "transitions": trans, "traces_validated_against_impl": execs,
                       "evaluations": execs, "exhaustive": (not incomplete) and all(s["complete"] for s in suites.values()),
                       "rule": cfg.get("rule", ""),
                       "samples": samples[::step][:8], "suites": suites, "build_s": round(t_build, 1),
                       "failing_executions": len(fails), "known_finding_executions": sum(seen_known.values()),
                       "unreproduced": len(unconfirmed) if confirmed and confirmed[0][0] in unconfirmed else 0},
          "assumptions": cfg.get("assumptions", []), "violations": len(new), "wall_s": round(time.time() - t0, 1)}
    json.dump(ev, open(evf, "w"), indent=1)
    for n, s in suites.items():
        print("%s %-28s executions=%d transitions=%d complete=%s cpu=%.1fs" % (prop, n, s["executions"], s["transitions"], s["complete"], s["cpu_s"]))
    print("%s %s: states=%d transitions=%d executions=%d violations=%d wall=%.1fs (build %.1fs)" %
          (prop, tier, len(states), trans, execs, len(new), time.time() - t0, t_build))
    if confirmed:
        shutil.rmtree(tmp, ignore_errors=True)
        return 1
    if incomplete:
        for i in range(NPROC):
            sys.stdout.write(open(os.path.join(tmp, "log.%d" % i), errors="replace").read()[-500:])
        print("INCOMPLETE: %d of %d workers finished" % (ended, NPROC))
        return 2
    shutil.rmtree(tmp, ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
