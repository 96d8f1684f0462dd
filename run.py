#!/usr/bin/env python3
"""Decide one property: build its driver from /repo's working tree in several configurations, record
traces of the real code, and have TLC check every recorded event against the TLA+ specification.
usage: run.py PROPERTY [--tier quick|thorough] [--keep]"""
import concurrent.futures as cf, glob, importlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
sys.path.insert(0, HERE)
from gen import checks  # noqa: E402

JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class Broken(Exception):
    """the machinery itself failed: neither a pass nor a violation"""

class NoBuild(Broken):
    """the driver does not compile in one configuration"""

CONFIGS = {
    "A": ("g++", "-std=c++20 -O1 -Dalways_inline=unused -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"),
    "B": ("g++", "-std=c++11 -O2 -Dalways_inline=unused"),
    "C": ("clang++", "-std=c++17 -O1 -fno-exceptions -DIPADDRESS_NO_EXCEPTIONS"),
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

class Run:
    def __init__(self, prop, tier, keep=False):
        self.prop, self.tier, self.keep = prop, tier, keep
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.check = checks.CHECKS[prop]
        self.dir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.configs = dict(CONFIGS); self.configs.update(self.check.get("configs", {}))
        self.states = self.transitions = 0
        self.models = {}
        self.violations = []
        self.uncompiled = set()
        self.lock = threading.Lock()
        self.modules, self.module_lock = {}, threading.Lock()
        self.t0 = time.time()
        for f in glob.glob(os.path.join(HERE, "evidence", "replay", prop + "-*.json")):
            os.unlink(f)
        self.pool = cf.ThreadPoolExecutor(16)
        self.compilers = cf.ThreadPoolExecutor(8)

    # ---- building -------------------------------------------------------------------------
    def build(self, driver, cfg):
        cc, flags = self.configs[cfg]
        exe = os.path.join(self.dir, "%s_%s" % (driver, cfg))
        cmd = [cc] + flags.split() + ["-w", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "drivers"),
               os.path.join(HERE, "drivers", driver + ".cpp"), "-o", exe]
        if "-DDRIVER_IMPORTS_MODULE" in flags.split():
            cmd += self.module(cc, flags, cfg)
        r = sh(cmd, timeout=800)
        if r.returncode:
            r = sh(cmd, timeout=800)              # not for want of memory or time
        if r.returncode:
            raise NoBuild("cannot build %s in configuration %s:\n%s" % (driver, cfg, r.stdout[-3000:]))
        return exe

    def module(self, cc, flags, cfg):
        """build the C++20 module of the library once; returns what a program importing it needs"""
        with self.module_lock:
            if cfg not in self.modules:
                at = os.path.join(self.dir, "module_" + cfg)
                base = [cc] + [x for x in flags.split() if x != "-DDRIVER_IMPORTS_MODULE"] + ["-w", "-I" + os.path.join(REPO, "include")]
                for cmd in [base + ["-x", "c++-module", os.path.join(REPO, "src", "ipaddress.ixx"), "--precompile", "-o", at + ".pcm"], base + ["-c", at + ".pcm", "-o", at + ".o"]]:
                    r = sh(cmd, timeout=800)
                    if r.returncode:
                        r = sh(cmd, timeout=800)
                    if r.returncode:
                        self.modules[cfg] = NoBuild("cannot build the module in configuration %s:\n%s" % (cfg, r.stdout[-3000:]))
                        break
                else:
                    self.modules[cfg] = ["-fmodule-file=ipaddress=" + at + ".pcm", at + ".o"]
            if isinstance(self.modules[cfg], NoBuild):
                raise self.modules[cfg]
            return self.modules[cfg]

    # ---- TLC ------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=8, timeout=700, mem="6g", extra=()):
        meta = tempfile.mkdtemp(prefix="tlc_", dir=self.dir)
        cmd = ["java"] + self.check.get("java", ["-XX:+UseParallelGC"]) + ["-Xmx" + mem, "-Xss64m", "-cp", JAVA_CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [os.path.join(HERE, "spec", module + ".tla")]
        e = dict(os.environ); e.update(env or {})
        try:
            r = sh(cmd, cwd=self.dir, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on " + module)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
        if r.returncode or not m or "Model checking completed. No error" not in r.stdout:
            raise Broken("TLC failed on %s:\n%s" % (module, r.stdout[-3000:]))
        shutil.rmtree(meta, ignore_errors=True)
        return r.stdout, int(m[-1][1]), int(m[-1][0])

    def model(self, name, workers=4):
        """exhaustively check a design model (NAME.cfg; the module is NAME up to '_deep' or '@'); returns what it printed"""
        module = name.split("@")[0].split("_deep")[0]
        if module.startswith("Gen_"):
            workers = 1                       # the same texts every time
        out, distinct, gen = self.tlc(module, os.path.join(HERE, "spec", name + ".cfg"), workers=workers, timeout=3 * 3600 if self.tier == "thorough" else 700)
        self.models[name] = {"distinct_states": distinct, "transitions": gen}
        return re.findall(r'^"?@@T (.*?)"?$', out, re.M)

    def trace_cfg(self, module, consts):
        fd, p = tempfile.mkstemp(prefix=module, suffix=".cfg", dir=self.dir)
        with os.fdopen(fd, "w") as f:
            f.write("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
            for k, v in consts.items():
                f.write("CONSTANT %s = %s\n" % (k, v))
        return p

    def validate(self, module, lines, consts, mem="6g", workers=8):
        """lines: JSON histories.  Returns {history index: (event index, expectation)} of the first rejected events."""
        if not lines:
            return {}, 0
        fd, path = tempfile.mkstemp(suffix=".ndjson", dir=self.dir)
        with os.fdopen(fd, "w") as f:
            f.writelines(x if x.endswith("\n") else x + "\n" for x in lines)
        out, distinct, gen = self.tlc(module, self.trace_cfg(module, consts), env={"TRACE": path}, workers=workers, mem=mem)
        bad = {}
        for m in re.finditer(r'@@M (\d+) (\d+) (.*)', out):
            h, l = int(m.group(1)) - 1, int(m.group(2)) - 1
            if h not in bad or l < bad[h][0]:
                bad[h] = (l, m.group(3).rstrip('"').replace('\\"', '"'))
        with self.lock:
            self.states += distinct
            self.transitions += gen
        os.unlink(path)
        return bad, distinct

    # ---- recording ------------------------------------------------------------------------
    def record(self, exe, lines, tag):
        """run the driver over the histories; returns their traces. A crash or hang is a violation."""
        inp, outp = os.path.join(self.dir, tag + ".in"), os.path.join(self.dir, tag + ".out")
        with open(inp, "w") as f:
            f.writelines(x + "\n" for x in lines)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
                   UBSAN_OPTIONS="print_stacktrace=0")
        try:
            r = sh([exe, inp, outp], env=env, timeout=600)
        except subprocess.TimeoutExpired:
            raise Broken("driver did not finish: " + tag)
        with open(outp, errors="replace") as f:
            got = [x for x in f if x.endswith("\n")]
        if r.returncode == 3:
            raise Broken("driver rejected its input: %s\n%s" % (tag, r.stdout[-2000:]))
        if r.returncode == 0 and len(got) != len(lines):
            raise Broken("driver lost histories: " + tag)
        return r.returncode, got, r.stdout

    def record_all(self, exe, lines, tag, depth=0):
        """like record, but a crashing history is reported and skipped (a few times)"""
        rc, got, log = self.record(exe, lines, tag)
        if rc == 0:
            return got
        k = len(got)
        rc2, got2, log2 = self.record(exe, [lines[k]], tag + "_again")
        if rc2 == 0:
            # not reproducible on its own: try the whole prefix once more
            rc3, got3, log3 = self.record(exe, lines, tag + "_again")
            if rc3 == 0:
                raise Broken("crash of %s did not repeat:\n%s" % (tag, log[-2000:]))
            log2 = log3
        self.report(lines[k], tag, None, None, "the code crashed or hung (exit %d):\n%s" % (rc, log2[-3000:]))
        if depth >= 3:
            return got + [None] * (len(lines) - k)
        return got + [None] + self.record_all(exe, lines[k + 1:], tag, depth + 1)

    # ---- generated programs (constant evaluation) -------------------------------------------
    def compile_lines(self, header, cfg, tag, tests, mode):
        """one translation unit, one line per test [(index, text)].  Returns (executable or None, indexes of tests the compiler complained about, log)"""
        cc, flags = self.configs[cfg]
        src = os.path.join(self.dir, tag + ".cpp")
        first = 3
        with open(src, "w") as f:
            f.write('#include "%s"\nvolatile bool opaque = true;\n' % header)
            for i, t in tests:
                f.write(t + "\n")
            if mode == "run":
                f.write("int main() {" + " ".join("t%d();" % i for i, _ in tests) + "}\n")
        limits = ["-fmax-errors=0", "-fconstexpr-ops-limit=300000000", "-fconstexpr-loop-limit=2000000", "-fno-inline"] if "g++" == cc else ["-ferror-limit=0", "-fconstexpr-steps=100000000", "-ftemplate-backtrace-limit=0", "-fconstexpr-backtrace-limit=0"]
        exe = src[:-4]
        cmd = [cc] + flags.split() + limits + ["-w", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "drivers"), src]
        try:
            r = sh(cmd + (["-o", exe] if mode == "run" else ["-fsyntax-only"]), timeout=600)
        except subprocess.TimeoutExpired:
            raise Broken("compiling %s timed out" % tag)
        if r.returncode == 0:
            return exe, set(), ""
        at = set(int(x) - first for x in re.findall(re.escape(src) + r":(\d+):", r.stdout))
        return None, {tests[k][0] for k in at if 0 <= k < len(tests)}, r.stdout

    def record_program(self, s, cfg, lines, tag):
        """lines: HEAD <TAB> standard <TAB> declarations <TAB> expression.  HEAD is the JSON of the event up to its observation."""
        std = int(re.search(r"-std=c\+\+(\d+)", self.configs[cfg][1]).group(1))
        out, run, accept = [None] * len(lines), [], []
        none = '[{"op":"none","i":{},"o":{"alt":[]}}]\n'
        event = lambda i, o: "[{%s,%s}]\n" % (lines[i].split("\t")[0], o)
        for i, x in enumerate(lines):
            head, need, decl, expr = x.split("\t")
            if std < int(need):
                out[i] = none
            elif head.startswith('"op":"accept"'):
                accept.append((i, "namespace n%d { %s constexpr auto p = %s; }" % (i, decl, expr)))
            else:
                run.append((i, "void t%d() { %s constexpr B fixed = %s; const B run = opaque ? %s : B(); emit(%d, fixed, run); }" % (i, decl.replace("constexpr", "static constexpr"), expr, expr, i)))
        def chunk(k, tests):
            got = {}
            while tests:
                exe, bad, log = self.compile_lines(s["program"], cfg, "%s_p%d" % (tag, k), tests, "run")
                if exe:
                    break
                if not bad:
                    raise Broken("cannot compile generated program %s:\n%s" % (tag, log[-3000:]))
                for i in bad:                               # not constant expressions
                    got[i] = event(i, '"o":{"constant":false}')
                tests = [t for t in tests if t[0] not in bad]
            if tests:
                try:
                    r = sh([exe], timeout=300)
                    for x in r.stdout.split("\n"):
                        m = re.match(r"(\d+)\t(.*)$", x)
                        if m:
                            got[int(m.group(1))] = event(int(m.group(1)), m.group(2))
                except subprocess.TimeoutExpired:
                    pass
                os.unlink(exe)
            for i, _ in tests:                              # crashed or hung at run time
                got.setdefault(i, event(i, '"o":{"finished":false}'))
            return got
        def accepts():
            got = {}
            exe, bad, log = self.compile_lines(s["program"], cfg, tag + "_a", accept, "syntax")
            if not exe and not bad:
                raise Broken("cannot compile generated program %s:\n%s" % (tag, log[-3000:]))
            for i, _ in accept:
                got[i] = event(i, '"o":{"accepted":%s,"alt":[]}' % ("false" if i in bad else "true"))
            return got
        per = s.get("chunk", 60)
        futs = [self.compilers.submit(chunk, k, run[k:k + per]) for k in range(0, len(run), per)]
        if accept:
            futs.append(self.compilers.submit(accepts))
        for f in futs:
            for i, x in f.result().items():
                out[i] = x
        return out

    # ---- verdict --------------------------------------------------------------------------
    def report(self, inp, tag, event, expected, why):
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        with self.lock:
            path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
            self.violations.append(path)
            few = len(self.violations) <= 20
        if few:
            with open(path, "w") as f:
                json.dump({"property": self.prop, "configuration": self.configs.get(tag.split("_")[-1], tag), "driver": tag, "seed": self.seed,
                           "input_history": inp, "rejected_event": event, "specification_expects": expected, "why": why}, f, indent=1)

    def corrupt(self, line, rng):
        """a copy of a history with one recorded observation changed, or None"""
        ev = json.loads(line)
        spots = []
        def walk(x, put):
            if isinstance(x, bool):
                spots.append(lambda: put(not x))
            elif isinstance(x, int):
                spots.append(lambda: put(x + 1 if x < 255 else x - 1))
            elif isinstance(x, list):
                for i, y in enumerate(x):
                    walk(y, lambda v, i=i: x.__setitem__(i, v))
            elif isinstance(x, dict):
                for k, y in x.items():
                    if not k.startswith("x_"):
                        walk(y, lambda v, k=k: x.__setitem__(k, v))
        if not ev:
            return None
        e = rng.choice(ev)
        walk(e["o"], lambda v: None)
        if not spots:
            return None
        rng.choice(spots)()
        return json.dumps(ev, separators=(",", ":"))

    def main(self):
        ck = self.check
        stages = ck["stages"]                    # list of dicts: driver, trace module, inputs, configs, consts
        models = {m: self.pool.submit(self.model, m) for m in ck.get("models", []) + (ck.get("thorough_models", []) if self.tier == "thorough" else [])}
        builds = {}
        for s in stages:
            for c in s.get("configs", ["A", "B", "C"]) if "driver" in s else []:
                if (s["driver"], c) not in builds:
                    builds[(s["driver"], c)] = self.pool.submit(self.build, s["driver"], c)
        printed = {}
        def model_out(m):
            if m not in printed:
                printed[m] = models[m].result()
            return printed[m]
        total = dict(histories=0, self_tests=0, compared=0)
        samples, ops = [], {}
        def one(k):
            return self.stage(k, stages[k], random.Random("%s/%d/%d" % (self.prop, self.seed, k)), builds, model_out)
        with cf.ThreadPoolExecutor(ck.get("parallel", 1)) as side:
            for r in side.map(one, range(len(stages))):
                for key in total:
                    total[key] += r[key]
                samples += r["samples"]
                for key, v in r["ops"].items():
                    ops[key] = ops.get(key, 0) + v
        for m in models:
            model_out(m)
        self.finish(total["histories"], samples, total["self_tests"], total["compared"], ops)

    def buildable(self, driver, cfgs, builds):
        """the configurations in which the driver compiles: the others are C26's business, unless there is none"""
        ok, no = [], {}
        for c in cfgs:
            try:
                builds[(driver, c)].result()
                ok.append(c)
            except NoBuild as e:
                no[c] = str(e)
        if no and not ok:
            raise Broken("\n".join(no.values()))
        for c, why in no.items():
            if self.check.get("must_compile"):
                with self.lock:
                    again = (driver, c) in self.uncompiled
                    self.uncompiled.add((driver, c))
                if not again:
                    self.report(None, driver + "_" + c, None, None, why)
            else:
                print("note: configuration %s left out: %s" % (c, why[:600]))
        return ok

    def stage(self, k, s, rng, builds, model_out):
        """record one set of histories in every configuration of the stage and validate the traces"""
        lines = list(dict.fromkeys(s["inputs"](rng, self.tier, model_out)))
        cfgs = s.get("configs", ["A", "B", "C"])
        if "driver" in s:
            cfgs = self.buildable(s["driver"], cfgs, builds)
        consts = s.get("config_consts", {}).get(cfgs[0], s.get("consts", {}))
        mem = s.get("mem", "6g")
        recs = {}
        if "program" in s:
            futs = {c: self.pool.submit(self.record_program, s, c, lines, "program.%d_%s" % (k, c)) for c in cfgs}
        else:
            futs = {c: self.pool.submit(self.record_all, builds[(s["driver"], c)].result(), lines, "%s.%d_%s" % (s["driver"], k, c)) for c in cfgs}
        for c in cfgs:
            recs[c] = futs[c].result()
        base = cfgs[0]
        todo = [(i, x) for i, x in enumerate(recs[base]) if x is not None]
        good = [x for _, x in todo]
        ntests = min(s.get("corruptions", 200), len(good))
        mut = [m for m in (self.corrupt(x, rng) for x in rng.sample(good, ntests)) if m]
        bad, distinct = self.validate(s["trace"], good + mut, consts, mem, s.get("workers", 8))
        want = sum(len(json.loads(x)) + 1 for x in good + mut)
        if distinct != want:
            raise Broken("TLC saw %d states of %s, not %d" % (distinct, s["trace"], want))
        first = {j: v for j, v in bad.items() if j < len(good)}
        missed = [m for j, m in enumerate(mut) if len(good) + j not in bad]
        if missed and not first:
            raise Broken("a corrupted trace was accepted by %s: %s" % (s["trace"], missed[0][:1500]))
        self.recheck(k, s, base, builds, [(todo[j][0], v) for j, v in first.items()], lines, consts)
        out = {"histories": len(good), "self_tests": len(mut), "compared": 0, "ops": {}, "samples": []}
        for x in good:
            for m in re.findall(r'"op":"(\w+)"', x):
                out["ops"][m] = out["ops"].get(m, 0) + 1
        # other configurations: traces already accepted under the same constants need no second look
        key = lambda c: json.dumps(c, sort_keys=True)
        accepted = {key(consts): set(x for j, x in enumerate(good) if j not in first)}
        groups = {}
        for c in cfgs[1:]:
            own = s.get("config_consts", {}).get(c, s.get("consts", {}))
            seen = accepted.get(key(own), set())
            diff = [(c, i, x) for i, x in enumerate(recs[c]) if x is not None and x not in seen]
            out["compared"] += len(recs[c])
            out["histories"] += len(recs[c])
            groups.setdefault(key(own), (own, []))[1].extend(diff)
        for own, diff in groups.values():
            texts = list(dict.fromkeys(x for _, _, x in diff))
            bad, _ = self.validate(s["trace"], texts, own, mem, s.get("workers", 8))
            wrong = {texts[j]: v for j, v in bad.items()}
            for c in cfgs[1:]:
                self.recheck(k, s, c, builds, [(i, wrong[x]) for d, i, x in diff if d == c and x in wrong], lines, own)
        for x in rng.sample(good, min(2, len(good))):
            out["samples"].append(json.loads(x[:100000]) if len(x) < 3000 else x[:600] + " ...")
        return out

    def recheck(self, k, s, cfg, builds, bad, lines, consts):
        """a rejection counts once a second recording of the same history is rejected as well"""
        if not bad:
            return
        bad = bad[:20]
        name = s.get("driver", s.get("program"))
        if "program" in s:
            rc, got, log = 0, self.record_program(s, cfg, [lines[i] for i, _ in bad], "program.%d.re_%s" % (k, cfg)), ""
        else:
            exe = builds[(s["driver"], cfg)].result()
            rc, got, log = self.record(exe, [lines[i] for i, _ in bad], "%s.%d.re_%s" % (s["driver"], k, cfg))
        if rc:
            for i, _ in bad:
                self.report(lines[i], name + "_" + cfg, None, None, "crash on replay: " + log[-2000:])
            return
        again, _ = self.validate(s["trace"], got, consts)
        if not again:
            raise Broken("rejections of %s did not repeat" % s["trace"])
        for j, (l, exp) in again.items():
            self.report(lines[bad[j][0]], name + "_" + cfg, json.loads(got[j])[l], exp, "TLC rejects this event of the recorded trace")

    def finish(self, total, samples, self_tests, compared, ops):
        known = []
        kf = os.path.join(HERE, "known_findings.txt")
        if os.path.exists(kf):
            known = [x for x in open(kf) if x.startswith("KNOWN property=%s " % self.prop)]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states + sum(m["distinct_states"] for m in self.models.values()),
                           "transitions": self.transitions + sum(m["transitions"] for m in self.models.values()),
                           "traces_validated_against_impl": total,
                           "trace_states": self.states, "design_models": self.models, "events_by_operation": ops,
                           "traces_compared_across_configurations": compared, "corrupted_traces_rejected": self_tests,
                           "configurations": {c: " ".join(self.configs[c]) for s in self.check["stages"] for c in s.get("configs", ["A", "B", "C"])},
                           "samples": samples[:4]},
              "assumptions": self.check.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:
            print("KNOWN-FINDING: " + k[len("KNOWN "):].strip())
        for v in self.violations[:20]:
            print("VIOLATION property=%s replay=%s" % (self.prop, v))
        print("%s: %d histories, %d trace states, models %s, %d violations, %.1f s" % (
            self.prop, total, self.states, {k: v["distinct_states"] for k, v in self.models.items()}, len(self.violations), time.time() - self.t0))

def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    r = Run(args[0], tier, "--keep" in args)
    rc = 2
    try:
        r.main()
        rc = 1 if r.violations else 0
    except Broken as e:
        if r.violations:
            r.finish(0, [], 0, 0, {})
            rc = 1
        print("CHECK BROKEN: %s" % e, file=sys.stderr)
    except Exception:
        traceback.print_exc()
    finally:
        if not r.keep:
            shutil.rmtree(r.dir, ignore_errors=True)
        else:
            print("kept", r.dir)
    sys.stdout.flush()
    os._exit(rc)

if __name__ == "__main__":
    main()
