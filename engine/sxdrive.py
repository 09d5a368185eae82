#!/usr/bin/env python3
"""Driver: builds the instrumented and the native binaries from /repo's working tree, explores every scenario of a
property symbolically, replays solver models natively, writes evidence, prints VIOLATION / KNOWN-FINDING lines."""
import concurrent.futures as cf
import hashlib, json, math, os, queue, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
CACHE = os.environ.get("SX_CACHE", os.path.join(VERIF, "build"))
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
JOBS = int(os.environ.get("SX_JOBS", str(os.cpu_count() or 8)))
COMMON = ["-std=c++11", "-O1", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-ffp-contract=off",
          "-w", "-fPIC", "-ftemplate-depth=2000"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class BuildError(Exception):
    pass


class Builder:
    def __init__(self):
        os.makedirs(CACHE, exist_ok=True)
        inc = []
        for d, _, fs in sorted(os.walk(os.path.join(REPO, "include"))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                inc.append(os.path.relpath(p, REPO).encode() + b"\0" + rd(p))
        self.inc_hash = sha(*inc)
        self.cfgdir = os.path.join(CACHE, "gen", "state-observation")
        os.makedirs(self.cfgdir, exist_ok=True)
        cfg = rd(os.path.join(REPO, "include/state-observation/config.h.in")).decode()
        cfg = cfg.replace("$<CONFIG:Release>", "0").replace("$<CONFIG:Debug>", "1").replace(
            "$<CONFIG:RelWithDebInfo>", "0")
        self.put(os.path.join(self.cfgdir, "config.h"), cfg)
        self.incs = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(CACHE, "gen"), "-I" + ENGINE,
                     "-isystem", "/usr/include/eigen3"]

    @staticmethod
    def put(path, text):
        if os.path.exists(path) and open(path).read() == text:
            return
        tmp = path + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(text)
        os.replace(tmp, path)

    def step(self, out, cmd):
        if os.path.exists(out):
            return out
        tmp = out + ".tmp%d" % os.getpid() + os.path.splitext(out)[1]
        r = run([c if c != "@OUT" else tmp for c in cmd])
        if r.returncode != 0 or not os.path.exists(tmp):
            raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
        os.replace(tmp, out)
        return out

    def engine(self):
        h = sha(rd(os.path.join(ENGINE, "SxPass.cpp")))
        self.passh = h
        self.plugin = os.path.join(CACHE, "pass-%s.so" % h)
        rt = os.path.join(CACHE, "rt-%s.o" % sha(rd(os.path.join(ENGINE, "sx_rt.cpp"))))
        nat = os.path.join(CACHE, "nat-%s.o" % sha(rd(os.path.join(ENGINE, "sx_native.cpp"))))
        with cf.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(self.step, self.plugin,
                            [CLANG, "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", "-I/usr/include/llvm-18",
                             "-I/usr/include/llvm-c-18", os.path.join(ENGINE, "SxPass.cpp"), "-o", "@OUT"]),
                  ex.submit(self.step, rt, ["g++", "-std=c++17", "-O2", "-frounding-math", "-c",
                                            os.path.join(ENGINE, "sx_rt.cpp"), "-o", "@OUT"]),
                  ex.submit(self.step, nat, ["g++", "-std=c++17", "-O2", "-c",
                                             os.path.join(ENGINE, "sx_native.cpp"), "-o", "@OUT"])]
            for f in fs:
                f.result()
        self.rt, self.nat = rt, nat

    def harness_headers(self, src):
        d = os.path.join(VERIF, "harness")
        text = rd(src)
        return b"\0".join(rd(os.path.join(d, f)) for f in sorted(os.listdir(d))
                          if f.endswith(".hpp") and (f == "common.hpp" or f.encode() in text))

    def obj(self, src, sym, defs=()):
        key = sha(self.inc_hash, rd(src), os.path.basename(src), self.passh if sym else "native",
                  rd(os.path.join(ENGINE, "sx.h")), self.harness_headers(src), " ".join(COMMON), " ".join(defs))
        out = os.path.join(CACHE, "%s-%s-%s.o" % (os.path.basename(src).replace(".cpp", ""), "s" if sym else "n", key))
        cmd = [CLANG] + COMMON + list(defs) + self.incs
        if sym:
            cmd += ["-fpass-plugin=" + self.plugin, "-DSX_SYMBOLIC"]
        else:
            cmd += ["-DSX_NATIVE"]
        return self.step(out, cmd + ["-c", src, "-o", "@OUT"])

    def repo_sources(self):
        d = os.path.join(REPO, "src")
        return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))

    def binaries(self, harness_files, need, defs=()):
        """need: basenames of repo sources expected to suffice; every other source is added when linking fails."""
        self.engine()
        allsrc = self.repo_sources()
        pick = [s for s in allsrc if os.path.basename(s)[:-4] in need]
        for attempt in (0, 1):
            jobs = [(s, sym, ()) for s in pick for sym in (True, False)]
            jobs = [(h, sym, tuple(defs)) for h in harness_files for sym in (True, False)] + jobs
            with cf.ThreadPoolExecutor(JOBS) as ex:
                objs = list(ex.map(lambda j: self.obj(*j), jobs))
            so = [o for o, j in zip(objs, jobs) if j[1]]
            no = [o for o, j in zip(objs, jobs) if not j[1]]
            sb = os.path.join(CACHE, "sym-%s" % sha(self.rt, *so))
            nb = os.path.join(CACHE, "natbin-%s" % sha(self.nat, *no))
            try:
                self.step(sb, [CLANG, "-o", "@OUT"] + so + [self.rt, "-lgmpxx", "-lgmp", "-lm"])
                self.step(nb, [CLANG, "-o", "@OUT"] + no + [self.nat, "-lm"])
                return sb, nb
            except BuildError as e:
                if attempt == 1 or "undefined reference" not in str(e) and "undefined symbol" not in str(e):
                    raise
                log("link: adding every library source")
                pick = allsrc


def prune_cache(limit_mb=6000):
    try:
        ents = [(os.stat(os.path.join(CACHE, f)).st_atime, os.path.join(CACHE, f)) for f in os.listdir(CACHE)
                if os.path.isfile(os.path.join(CACHE, f))]
        tot = sum(os.path.getsize(p) for _, p in ents)
        for _, p in sorted(ents):
            if tot < limit_mb << 20:
                break
            tot -= os.path.getsize(p)
            os.unlink(p)
    except OSError:
        pass


class Explorer:
    def __init__(self, symbin, natbin, prop, seed, opts):
        self.symbin, self.natbin, self.prop, self.seed = symbin, natbin, prop, seed
        self.opts = opts
        self.tmp = tempfile.mkdtemp(prefix="sx-%s-" % prop)

    def one(self, scen, prefix, left):
        pt = min(self.opts["path_timeout"], max(5, left))
        cmd = [self.symbin, scen, "--prefix", prefix, "--path-timeout", str(int(pt)), "--assert-timeout",
               str(self.opts["assert_timeout"]), "--feas-timeout", str(self.opts["feas_timeout"]), "--seed",
               str(self.seed), "--tmp", self.tmp]
        env = dict(os.environ)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=pt + 120)
            line = r.stdout.decode(errors="replace").strip().splitlines()
            if line:
                return json.loads(line[-1])
            return {"path": prefix, "status": "engine-died", "detail": "rc=%s %s" % (
                r.returncode, r.stderr.decode(errors="replace")[-300:]), "new": [], "failures": []}
        except subprocess.TimeoutExpired:
            return {"path": prefix, "status": "timeout", "detail": "process", "new": [], "failures": []}
        except json.JSONDecodeError as e:
            return {"path": prefix, "status": "engine-died", "detail": "bad report %s" % e, "new": [], "failures": []}

    def replay(self, scen, inputs, choices, name):
        path = os.path.join(self.tmp, name)
        with open(path, "w") as f:
            f.write("scenario %s\n" % scen)
            for k, v in (inputs or {}).items():
                f.write("in %s %.17g\n" % (k, v))
            big = max([abs(v) for v in (inputs or {}).values()] + [0])
            if big > 30:
                f.write("tolmul %g\n" % (big / 30.0) ** 4)
            for k, v in choices:
                f.write("choice %d %s\n" % (v, k))
        try:
            r = subprocess.run([self.natbin, scen, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=90)
            out = r.stdout.decode(errors="replace").splitlines()
        except subprocess.TimeoutExpired:
            out = ["CRASH timeout"]
        return path, out

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def nonfinite(f):
    """The code's value is not finite where the expected one is."""
    return len(f) > 4 and not math.isfinite(float(f[2])) and math.isfinite(float(f[3]))


def confirming(label, out):
    """Lines of a native replay which confirm the symbolic failure called `label`."""
    base = label.split(" [")[0]
    if base.startswith("lemma "):
        base = base[6:]
    bad = []
    for l in out:
        if l.startswith("CRASH") and not any(x.startswith(("A ", "T ", "F ")) and
                                             x.split(" ", 4)[-1].split(" [")[0] == base for x in out):
            bad.append(l)
        elif l.startswith("F "):
            f = l.split(" ", 4)
            lb = f[4] if len(f) > 4 else ""
            lb = lb[6:] if lb.startswith("lemma ") else lb
            if lb.split(" [")[0] == base or lb.startswith(base + " <= +tol") or lb.startswith(base + " >= -tol"):
                if not (f[2].lower().endswith("nan") and f[3].lower().endswith("nan")):
                    bad.append(l)
    return bad


def scenario_list(binary):
    return run([binary, "--list"]).stdout.split()


def check(prop, harness, need, tier, seed, filt=None, budget=None, path_timeout=None, verbose=False, level="model_checking",
          assumptions=(), bounds="", defs=()):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    thorough = tier == "thorough"
    defs = list(defs) + (["-DSX_THOROUGH"] if thorough else [])
    opts = dict(path_timeout=path_timeout or (600 if thorough else 90), assert_timeout=60 if thorough else 10,
                feas_timeout=4 if thorough else 2)
    budget = budget or (7200 if thorough else 300)
    b = Builder()
    files = [os.path.join(VERIF, "harness", h) for h in harness]
    built = True
    try:
        symbin, natbin = b.binaries(files, need, defs)
    except BuildError as e:
        # A tree whose public API no longer compiles against the harness gives no verdict about behaviour.
        log("BUILD FAILED:\n" + str(e)[-4000:])
        write_evidence(prop, tier, seed, level, dict(states=0, transitions=0, traces_validated_against_impl=0,
                       samples=[], exhaustive=False, error="harness does not build against this tree"), t0, 0, assumptions)
        print("BUILD-ERROR property=%s (harness does not build; no verdict)" % prop)
        return 2
    tb = time.time()
    known = load_known(prop)
    ex = Explorer(symbin, natbin, prop, seed, opts)
    viol, knownhit = [], {}
    tot = dict(paths=0, decisions=0, asserts=0, proved=0, trivial=0, unknown=0, failed=0, feasQ=0, assertQ=0, unsat=0,
               sat=0, solverUnknown=0, rawQ=0, rawUnsat=0, solver_s=0.0, nodes=0)
    status = {}
    funcs = set()
    validated = mismatched = 0
    unknowns, unconfirmed, samples, nowitness = [], [], [], []
    perscen = {}
    scens = [s for s in scenario_list(symbin) if not filt or re.search(filt, s)]
    labels_seen = set()
    incomplete = []
    stop = False
    try:
        tasks, results = queue.Queue(), queue.Queue()
        outstanding = 0

        def worker():
            while True:
                t = tasks.get()
                if t is None:
                    return
                sc, pre = t
                try:
                    r = ex.one(sc, pre, budget - (time.time() - tb))
                except Exception as e:
                    r = {"path": pre, "status": "engine-died", "detail": str(e), "new": [], "failures": []}
                results.put((sc, r))

        workers = [threading.Thread(target=worker, daemon=True) for _ in range(JOBS)]
        for w in workers:
            w.start()
        if True:
            for s in scens:
                tasks.put((s, ""))
                outstanding += 1
                perscen[s] = dict(paths=0, asserts=0, proved=0, unknown=0, feasible=0)
            maxp = 2000000 if thorough else 150000
            while outstanding:
                try:
                    done = [results.get(timeout=5)]
                except queue.Empty:
                    done = []
                left = budget - (time.time() - tb)
                for s, r in done:
                    outstanding -= 1
                    tot["paths"] += 1
                    perscen[s]["paths"] += 1
                    status[r["status"]] = status.get(r["status"], 0) + 1
                    for k in tot:
                        if k in r and k != "paths":
                            tot[k] += r[k]
                    tot["decisions"] += len([x for x in r.get("path", "").split(".") if x])
                    for k in ("asserts", "proved", "unknown"):
                        perscen[s][k] += r.get(k, 0)
                    funcs.update(r.get("funcs", []))
                    if r["status"] not in ("ok", "infeasible", "crash"):
                        if r.get("feasible") != "no":
                            unknowns.append("%s path %s: %s %s" % (s, r["path"], r["status"], r["detail"]))
                    unknowns += ["%s: %s" % (s, u) for u in r.get("unknowns", [])]
                    if r.get("feasible") == "yes":
                        perscen[s]["feasible"] += 1
                    if verbose:
                        log("%s [%s] %s feas=%s asserts=%s proved=%s unk=%s fail=%s new=%d nodes=%s solver=%.1f %s" % (
                            s, r["path"][-60:], r["status"], r.get("feasible"), r.get("asserts"), r.get("proved"),
                            r.get("unknown"), r.get("failed"), len(r["new"]), r.get("nodes"), r.get("solver_s", 0),
                            r["detail"][:200]))
                    # failures -> native replay
                    for k, fl in enumerate(r.get("failures", [])):
                        if sum(1 for v in viol if v["label"] == fl["label"]) >= 1:
                            continue
                        conf = None
                        cands = sorted(fl["candidates"] or [{}], key=lambda c: max([abs(v) for v in c.values()] + [0]))
                        for ci, c in enumerate(cands):
                            p, out = ex.replay(s, c, fl["choices"], "cand")
                            bad = confirming(fl["label"], out)
                            if bad:
                                conf = (p, bad, c)
                                break
                        if conf is None:
                            unconfirmed.append("%s %s: %s" % (s, fl["label"], fl["detail"][:200]))
                            if verbose:
                                log("  UNCONFIRMED", s, fl["label"], fl["detail"][:300])
                            continue
                        kf = match_known(known, s, fl["label"], conf[1])
                        if kf:
                            knownhit[kf["id"]] = kf
                            continue
                        rp = os.path.join(VERIF, "replays", "%s-%s-%d.txt" % (prop, s, len(viol)))
                        shutil.copy(conf[0], rp)
                        with open(rp, "a") as fh:
                            fh.write("# label: %s\n# detail: %s\n" % (fl["label"], fl["detail"]))
                            for l in conf[1][:20]:
                                fh.write("# native: %s\n" % l)
                        viol.append(dict(scenario=s, label=fl["label"], replay=rp, native=conf[1][:5]))
                        print("VIOLATION property=%s replay=%s  [%s: %s]" % (prop, rp, s, fl["label"]), flush=True)
                    # a value which is not finite stops the symbolic execution: the input found for the path is replayed
                    if r["status"] == "unsupported" and r.get("witness") is not None and re.search("non-finite|infinity", r["detail"]):
                        p, out = ex.replay(s, r["witness"], r["choices"], "nan")
                        bad = [l for l in out if l.startswith("F ") and nonfinite(l.split(" ", 4))]
                        if bad and not any(v["scenario"] == s for v in viol):
                            label = bad[0].split(" ", 4)[4]
                            kf = match_known(known, s, label, bad)
                            if kf:
                                knownhit[kf["id"]] = kf
                            else:
                                rp = os.path.join(VERIF, "replays", "%s-%s-%d.txt" % (prop, s, len(viol)))
                                shutil.copy(p, rp)
                                with open(rp, "a") as fh:
                                    fh.write("# label: %s\n# detail: not a finite value on this path\n" % label)
                                    for l in bad[:20]:
                                        fh.write("# native: %s\n" % l)
                                viol.append(dict(scenario=s, label=label, replay=rp, native=bad[:5]))
                                print("VIOLATION property=%s replay=%s  [%s: %s is not finite]" % (prop, rp, s, label), flush=True)
                    # translator validation on the path witness
                    if r.get("witness") and r["status"] == "ok" and (validated + mismatched) < (4000 if thorough else 400):
                        p, out = ex.replay(s, r["witness"], r["choices"], "wit")
                        nat = [l.split(" ", 4) for l in out if l[:2] in ("A ", "F ")]
                        obs = r["obs"]
                        okc = 0
                        good = len(nat) >= 1 or len(obs) == 0
                        for a, o in zip(nat, obs):
                            x, y = float(a[2]), float(a[3])
                            if all(abs(u - v) <= 1e-5 * max(1, abs(u), abs(v)) or (v == 1e300) for u, v in ((x, o[0]), (y, o[1]))):
                                okc += 1
                            else:
                                good = False
                        if good:
                            validated += 1
                            if len(samples) < 3:
                                samples.append(dict(scenario=s, path=r["path"], choices=r["choices"], inputs=r["witness"],
                                                    asserts=r["asserts"], operands_matched=okc))
                        else:
                            mismatched += 1
                            if verbose:
                                log("  MISMATCH native/symbolic", s, r["path"], r["choices"])
                    if len(viol) >= 3:
                        stop = True
                    for n in r["new"]:
                        if tot["paths"] + outstanding > maxp or left < 0 or stop:
                            incomplete.append("%s:%s" % (s, n))
                            continue
                        tasks.put((s, n))
                        outstanding += 1
                if stop or left < -30:
                    # drop what has not started; what runs ends within its own timeout
                    try:
                        while True:
                            t = tasks.get_nowait()
                            outstanding -= 1
                            incomplete.append("%s:%s" % t)
                    except queue.Empty:
                        pass
                    if stop or left < -150:
                        break
            for w in workers:
                tasks.put(None)
    finally:
        ex.close()
    for k in knownhit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    vacuous = [s for s in scens if perscen[s]["feasible"] == 0 or perscen[s]["asserts"] == 0]
    cov = dict(states=tot["paths"], transitions=tot["decisions"], traces_validated_against_impl=validated,
               samples=samples or [dict(note="no path completed with a concrete witness")],
               exhaustive=(not incomplete and not unknowns and not viol),
               explanation="bounded symbolic execution of the instrumented LLVM IR of /repo's current sources; one state "
                           "per explored path, one transition per symbolic decision; every assertion of every path is "
                           "decided over the reals by normalisation + z3",
               bounds=bounds, scenarios=perscen, path_status=status,
               assertions=tot["asserts"], assertions_discharged=tot["proved"], assertions_trivial=tot["trivial"],
               assertions_unknown=tot["unknown"], assertion_queries=tot["assertQ"], solver_queries_feasibility=tot["feasQ"],
               solver_unsat=tot["unsat"], solver_sat=tot["sat"], solver_unknown=tot["solverUnknown"],
               raw_crosscheck_queries=tot["rawQ"], raw_crosscheck_unsat=tot["rawUnsat"],
               solver_time_s=round(tot["solver_s"], 2), native_mismatches=mismatched,
               functions_encoded=sorted(funcs), unknown=unknowns[:40], unconfirmed_candidates=unconfirmed[:20],
               unexplored_prefixes=len(incomplete), vacuous_scenarios=vacuous, build_s=round(tb - t0, 1),
               known_findings=[k["what"] for k in knownhit.values()])
    write_evidence(prop, tier, seed, level, cov, t0, len(viol), assumptions)
    log("%s: paths=%d asserts=%d proved=%d unknown=%d solver=%.1fs validated=%d mism=%d unexplored=%d vacuous=%s unconf=%d wall=%.0fs (build %.0f)" % (
        prop, tot["paths"], tot["asserts"], tot["proved"], len(unknowns), tot["solver_s"], validated, mismatched,
        len(incomplete), vacuous, len(unconfirmed), time.time() - t0, tb - t0))
    for u in unknowns[:8]:
        log("  unknown:", u[:300])
    for u in unconfirmed[:8]:
        log("  unconfirmed:", u[:300])
    prune_cache()
    return 1 if viol else 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k.get("property") == prop and k.get("status") == "open"]


def match_known(known, scen, label, native):
    for k in known:
        if re.fullmatch(k["scenario"], scen) and re.fullmatch(k["label"], label):
            return k
    return None


def write_evidence(prop, tier, seed, level, cov, t0, nviol, assumptions):
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(assumptions),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
