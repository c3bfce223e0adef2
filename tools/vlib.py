"""Machinery shared by all checks: build the C++ conformance drivers from /repo's
working tree, run them, hand the recorded steps to TLC, report."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRIVER = os.path.join(VERIF, "driver")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))
GXX = os.environ.get("VERIF_CXX", "g++")

# instruction-set configurations: (name, flags, cpu flags needed to run)
# GCC 13's RTL combine pass turns an AVX-512 compare whose 8-bit mask is both used and widened into
# a write of the low byte of an otherwise undefined 16-bit register (DESIGN.md, "Toolchain defect")
NOCOMBINE = "-fdisable-rtl-combine"
ISAS = {
    "sse2": (["-march=x86-64"], []),
    "ssse3": (["-march=core2"], ["ssse3"]),
    "sse4": (["-march=nehalem"], ["sse4_2", "popcnt"]),
    "avx": (["-march=sandybridge"], ["avx", "popcnt"]),
    "avx2": (["-march=haswell"], ["avx2", "fma", "bmi2", "f16c"]),
    "avx512f": (["-march=haswell", "-mavx512f", "-mavx512cd", NOCOMBINE], ["avx2", "fma", "avx512f", "avx512cd"]),
    "skx": (["-march=skylake-avx512", NOCOMBINE], ["avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512cd"]),
    # thorough tier only.  (AVX-512 subsets no processor has, such as BW without VL, are not supported by the headers.)
    "avxfma": (["-march=sandybridge", "-mfma", "-mf16c"], ["avx", "fma", "f16c", "popcnt"]),
}
BASE_ISAS = ["sse2", "ssse3", "sse4", "avx", "avx2", "avx512f", "skx"]
INT_TYPES = ["signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long"]
FP_TYPES = ["float", "double"]
ALIAS_TYPES = ["char", "wchar_t", "char16_t", "char32_t", "long long", "unsigned long long"]


class CheckError(Exception):
    """the check itself could not decide (exit 2)"""


def cpu_flags():
    for line in open("/proc/cpuinfo"):
        if line.startswith("flags"):
            return set(line.split(":", 1)[1].split())
    return set()


_cpu = cpu_flags()


def runnable(isa):
    return all(f in _cpu for f in ISAS[isa][1])


class Job:
    def __init__(self, src, isa, defs=None, extra=None, args=None, link=True):
        self.src, self.isa = src, isa
        self.defs = dict(defs or {})
        self.extra = list(extra if extra is not None else ["-O2"])
        self.args = args or []

    def name(self):
        d = ",".join("%s=%s" % kv for kv in sorted(self.defs.items()))
        return "%s[%s]%s %s" % (self.src, self.isa, d, " ".join(self.extra))

    def std(self):
        """strict mode and the GNU mode (g++'s default) differ in what the library declares constexpr"""
        if os.environ.get("VERIF_STD"):
            return "-std=" + os.environ["VERIF_STD"]
        k = sum(map(ord, self.isa + "".join(map(str, self.defs.values()))))
        return "-std=" + ("c++17", "gnu++17", "gnu++20")[k % (3 if os.environ.get("VERIF_TIER") == "thorough" else 2)]

    def cmd(self, out, recobj):
        std = [] if any(x.startswith("-std") for x in self.extra) else [self.std()]
        return ([GXX, *std, "-w", "-fmax-errors=5"] + self.extra + ISAS[self.isa][0]
                + ["-DISA_NAME=\"%s\"" % self.isa, "-DISA_IDX=%d" % list(ISAS).index(self.isa)] + ["-D%s=%s" % kv for kv in sorted(self.defs.items())]
                + ["-I" + REPO, "-I" + DRIVER, os.path.join(DRIVER, self.src), recobj, "-o", out])


class NamedCmd:
    def __init__(self, label, argv):
        self.label, self.argv = label, argv

    def name(self):
        return str(self.label)

    def cmd(self, out, rec):
        return self.argv


def errlines(txt):
    ls = [x for x in txt.splitlines() if "error:" in x]
    return "\n".join(ls[:12])[:3000]


def parse_tables(fn):
    """integer tables facts_* from gas assembly"""
    out, cur, size = {}, None, {}
    for ln in open(fn):
        m = re.match(r"\s*\.size\s+(facts_\w+),\s*(\d+)", ln)
        if m:
            size[m.group(1)] = int(m.group(2)) // 4
        m = re.match(r"(facts_\w+):", ln)
        if m:
            cur = out.setdefault(m.group(1), [])
            continue
        if cur is None:
            continue
        m = re.match(r"\s*\.(long|word|4byte|zero|space)\s+(-?\d+)\s*$", ln)
        if m:
            if m.group(1) in ("zero", "space"):
                cur += [0] * (int(m.group(2)) // 4)
            else:
                cur.append(int(m.group(2)))
        else:
            cur = None
    # drop alignment padding after the object
    return {k: v[:size.get(k, len(v))] for k, v in out.items()}


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "build", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.lanes = {}       # (op, type) -> {tuple-json: prov}
        self.vecs = {}        # event-json -> prov
        self.prov_more = {}   # key -> number of further configurations
        self.jobof = {}
        self.crashes = []
        self.compiler_died = []
        self.directed = {}    # rounding direction -> lanes recorded under it
        self.rejects = []     # dicts
        self.states = 0
        self.transitions = 0
        self.cov = {}
        self.notes = []
        self.samples = []
        self.steps_validated = 0
        self.raw_lines = 0
        self.isas_run = set()
        self.isas_skipped = set()
        self.jobs_run = 0
        self.known = load_known(prop)
        self.known_hit = {}

    # ------------------------------------------------------------ building
    def recobj(self):
        o = os.path.join(self.dir, "rec.o")
        if not os.path.exists(o):
            r = subprocess.run([GXX, "-std=c++17", "-O2", "-w", "-c", os.path.join(DRIVER, "rec.cpp"), "-o", o],
                               capture_output=True, text=True)
            if r.returncode:
                raise CheckError("recorder does not build: " + r.stderr[-2000:])
        return o

    def header_ok(self, isa):
        r = subprocess.run([GXX, "-std=c++17", "-w", "-fsyntax-only", "-I" + REPO, "-x", "c++", "-"] + ISAS[isa][0],
                           input="#include <experimental/simd>\n", capture_output=True, text=True)
        return r.returncode == 0

    def _one(self, idx, job, rec):
        exe = os.path.join(self.dir, "j%d" % idx)
        ev = exe + ".ev"
        for attempt in (0, 1):
            r = subprocess.run(job.cmd(exe, rec), capture_output=True, text=True)
            if r.returncode == 0:
                break
        if r.returncode:
            return idx, "compile", r.stderr
        tier = "1" if self.tier == "thorough" else "0"
        try:
            r = subprocess.run([exe, ev, str(self.seed), tier] + job.args, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            return idx, "timeout", "did not terminate within 600 s"
        if r.returncode:
            return idx, "run", "exit %d\n%s" % (r.returncode, r.stderr[-2000:])
        return idx, "ok", ev

    def run_jobs(self, jobs):
        rec = self.recobj()
        todo = []
        for j in jobs:
            if runnable(j.isa):
                todo.append(j)
                self.isas_run.add(j.isa)
            else:
                self.isas_skipped.add(j.isa)
        if not todo:
            raise CheckError("no runnable configuration")
        base = self.jobs_run
        evs = {}
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for idx, st, out in ex.map(lambda a: self._one(a[0], a[1], rec), [(base + i, j) for i, j in enumerate(todo)]):
                job = todo[idx - base]
                self.jobof[idx] = job
                if st == "compile" and "internal compiler error" in out:
                    self.compiler_died.append(job.name())  # says nothing about the library
                elif st == "compile":
                    if "error:" in out and self.header_ok(job.isa):
                        self.crashes.append((job, "public operations no longer compile: " + errlines(out)))
                    else:
                        raise CheckError("driver %s does not build: %s" % (job.name(), out[-2000:]))
                elif st == "timeout":
                    self.crashes.append((job, out))
                elif st == "run":
                    raise CheckError("driver %s failed: %s" % (job.name(), out))
                else:
                    evs[idx] = out
        if len(self.compiler_died) * 4 > base + len(todo):
            raise CheckError("the compiler dies on too many drivers: %s" % self.compiler_died[:5])
        self.jobs_run += len(todo)
        for idx in sorted(evs):
            self._collect(idx, evs[idx])
            os.unlink(evs[idx])

    def _collect(self, idx, path):
        lanes, vecs = self.lanes, self.vecs
        with open(path, errors="replace") as f:
            for line in f:
                self.raw_lines += 1
                p = line.rstrip("\n").split("\t")
                if p[0] == "L":
                    op, _, rdir = p[1].partition("@")
                    d = (self.directed.setdefault(rdir, {}) if rdir else lanes).setdefault((op, p[2]), {})
                    if p[3] not in d:
                        d[p[3]] = (idx, p[4])
                elif p[0] == "V":
                    if p[1] not in vecs:
                        vecs[p[1]] = (idx, p[2])
                elif p[0] == "X":
                    self.crashes.append((self.jobof[idx], "abnormal termination (%s) in: %s" % (p[1], p[2])))
        return

    # ------------------------------------------------------------ compile-time facts
    def facts(self, src, cfgs, std="c++17"):
        """cfgs: list of (label, compiler argv, flags, defs).  Compile src to assembly for
        every configuration and return {label: {table: [ints]}}.  The program is not run."""
        def go(i):
            label, cc, flags, defs = cfgs[i]
            out = os.path.join(self.dir, "f%d.s" % i)
            cmd = [cc, "-std=" + std, "-w", "-O1", "-S", "-fmax-errors=5"] + flags + ["-I" + REPO, "-I" + DRIVER] + ["-D%s=%s" % kv for kv in sorted(defs.items())] + [os.path.join(DRIVER, src), "-o", out]
            for attempt in (0, 1):
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode == 0:
                    break
            if r.returncode:
                return i, None, (r.stderr, cmd)
            t = parse_tables(out)
            os.unlink(out)
            return i, t, None
        res = {}
        ok_hdr = {}
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for i, t, err in ex.map(go, range(len(cfgs))):
                label, cc, flags, defs = cfgs[i]
                self.jobs_run += 1
                if err is None:
                    res[label] = t
                    continue
                key = (cc, tuple(flags))
                if key not in ok_hdr:
                    r = subprocess.run([cc, "-std=" + std, "-w", "-fsyntax-only", "-I" + REPO, "-x", "c++", "-"] + flags,
                                       input="#include <experimental/simd>\n", capture_output=True, text=True)
                    ok_hdr[key] = r.returncode == 0
                if "error:" in err[0] and ok_hdr[key]:
                    self.crashes.append((NamedCmd(label, err[1]), "public declarations are ill-formed (hard error): " + errlines(err[0])))
                else:
                    raise CheckError("facts %s for %s do not compile: %s" % (src, label, err[0][-2000:]))
        return res

    def add_fact(self, ev, prov):
        self.jobof["facts"] = None
        self.raw_lines += 1
        self.vecs.setdefault(json.dumps(ev, separators=(",", ":")), ("facts", prov))

    def run_model(self, module, workers=None, timeout=600, envs=({},)):
        """exhaustively check a model of the specification itself (once per environment)"""
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for e, (r, st) in zip(envs, ex.map(lambda e: self.tlc(module, env=e, workers=workers or max(1, NCPU // len(envs)), timeout=timeout), envs)):
                if "No error has been found" not in r.stdout:
                    raise CheckError("model %s %s: %s" % (module, e, r.stdout[-2000:]))
                self.states += st[1]
                self.transitions += st[0]
                self.cov.setdefault("models", {})[module + "".join(" " + v for v in e.values())] = {"states_generated": st[0], "distinct": st[1]}

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=1, args=None, timeout=800, xmx="2g", wdir=None, nofail=False):
        meta = os.path.join(self.dir, "meta-%s-%d-%d" % (module, os.getpid(), time.monotonic_ns()))
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + xmx, "-Xss64m", "-Djava.io.tmpdir=" + self.dir, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + (args or []) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=wdir or SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated[^\n]*?([\d,]+) distinct", r.stdout)
        st = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        if r.returncode and not nofail:
            raise CheckError("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, (r.stdout + r.stderr)[-4000:]))
        return r, st

    def _validate_shards(self, module, shards, keep, env=None):
        """shards: list of list of (json line, weight, ref).  Returns rejected (shard, line, item)."""
        os.makedirs(self.dir, exist_ok=True)
        files = []
        for i, sh in enumerate(shards):
            fn = os.path.join(self.dir, "%s-%s-%d.ndjson" % (module, keep, i))
            with open(fn, "w") as f:
                for ln in sh:
                    f.write(ln[0] + "\n")
            files.append(fn)

        def go(i):
            r, st = self.tlc(module, env={"TRACE": files[i], **(env or {})})
            rej = []
            for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', r.stdout):
                rej.append((i, int(m.group(1)) - 1, int(m.group(2)) - 1))
            return st, rej
        out = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for st, rej in ex.map(go, range(len(files))):
                self.states += st[1]
                self.transitions += st[0]
                out += rej
        for fn in files:
            os.unlink(fn)
        return out

    def validate_lanes(self, module="LaneTrace", weight=None, chunk=100, rdir=None):
        lines = []
        store = self.directed.get(rdir, {}) if rdir else self.lanes
        for (op, t), d in sorted(store.items()):
            ks = list(d)
            w = (weight or default_weight)(op, t)
            for i in range(0, len(ks), chunk):
                part = ks[i:i + chunk]
                lines.append(('["%s","%s",[%s]]' % (op, t, ",".join(part)), w * len(part), (op, t, part)))
            self.steps_validated += len(ks)
            if ks and len(self.samples) < 6:
                self.samples.append({"op": op, "type": t, "lane": json.loads(ks[len(ks) // 2]), "observed_at": d[ks[len(ks) // 2]][1]})
        shards = balance(lines)
        rej = self._validate_shards(module, shards, "lane", {"RDIR": rdir} if rdir else None)
        for s, l, k in rej:
            op, t, part = shards[s][l][2]
            idx, prov = store[(op, t)][part[k]]
            self.rejects.append({"kind": "lane", "op": op, "type": t, "tuple": json.loads(part[k]), "where": prov,
                                 "job": self.jobof[idx], "key": part[k], "module": module, **({"rounding": rdir} if rdir else {})})

    def validate_vecs(self, module, weight=None):
        lines = [(k, (weight or (lambda s: len(s)))(k), k) for k in self.vecs]
        if not lines:
            return
        self.steps_validated += len(lines)
        for i in (0, len(lines) // 3, 2 * len(lines) // 3):
            if len(lines[i][0]) < 2000:
                self.samples.append({"event": json.loads(lines[i][0]), "observed_at": self.vecs[lines[i][0]][1]})
        shards = balance(lines)
        for s, l, k in self._validate_shards(module, shards, "vec"):
            key = shards[s][l][2]
            idx, prov = self.vecs[key]
            self.rejects.append({"kind": "vec", "event": json.loads(key), "where": prov, "job": self.jobof[idx], "key": key, "module": module, "item": k})

    def programs(self, cls, width, depth, num, seed):
        """programs for the register machine, generated by TLC from SimdGen (simulation mode)"""
        r, st = self.tlc("SimdGen", env={"GEN_CLASS": cls, "GEN_WIDTH": str(width), "GEN_DEPTH": str(depth)},
                         args=["-simulate", "num=%d" % num, "-depth", str(depth + 4), "-seed", str(seed)], nofail=True)
        return self._progs(r, num, "SimdGen")

    def sys_programs(self, cls, width, per, num, seed):
        """systematic programs (every instruction under every visibility pattern), from SimdSys"""
        r, st = self.tlc("SimdSys", env={"GEN_CLASS": cls, "GEN_WIDTH": str(width), "GEN_DEPTH": str(per), "GEN_PROGS": str(num), "GEN_SEED": str(seed)}, nofail=True)
        self.states += st[1]
        self.transitions += st[0]
        return self._progs(r, num, "SimdSys")

    def _progs(self, r, num, mod):
        out = []
        for m in re.finditer(r'<<"PROG", "(.*?)">>', r.stdout.replace("\n", " ")):
            out.append(json.loads(m.group(1).replace('\\"', '"')))
        if len(out) < num or "Error:" in r.stdout:
            raise CheckError("%s: %d programs of %d\n%s" % (mod, len(out), num, r.stdout[-1500:]))
        self.cov["programs_generated"] = self.cov.get("programs_generated", 0) + num
        return out[:num]

    # ------------------------------------------------------------ verdict
    def confirm(self, rej):
        """re-run the driver that produced a rejected step; keep it only if it reappears"""
        job = rej["job"]
        if job is None:
            return True
        ck = id(job)
        if not hasattr(self, "_re"):
            self._re = {}
        if ck not in self._re:
            if len(self._re) > 6:
                return True
            idx, st, out = self._one(900000 + len(self._re), job, self.recobj())
            keys = set()
            if st == "ok":
                for line in open(out, errors="replace"):
                    p = line.rstrip("\n").split("\t")
                    keys.add("\t".join(p[1:4]) if p[0] == "L" else p[1])
            self._re[ck] = keys
        k = "%s\t%s\t%s" % (rej["op"] + ("@" + rej["rounding"] if "rounding" in rej else ""), rej["type"], rej["key"]) if rej["kind"] == "lane" else rej["key"]
        return k in self._re[ck]

    def finish(self, level="model_checking", assumptions=None, extra=None):
        viol = []
        for job, msg in self.crashes:
            viol.append({"kind": "crash", "where": job.name(), "message": msg, "job": job})
        unstable = 0
        nknown = 0
        for r in self.rejects:
            kf = match_known(self.known, r)
            if kf is not None:
                self.known_hit.setdefault(kf, []).append(r)
                nknown += 1
                continue
            if len(viol) < 400:
                if self.confirm(r):
                    viol.append(r)
                else:
                    unstable += 1
        for kf, rs in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[kf]["what"]))
        for i, k in enumerate(self.known):
            if i not in self.known_hit and k.get("kind") == "finding":
                print("note: known finding not observed this run: " + k["what"])
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.steps_validated,
               "raw_observations": self.raw_lines, "driver_programs": self.jobs_run,
               "configurations_on_which_the_compiler_died": self.compiler_died, "isas": sorted(self.isas_run), "isas_not_runnable_here": sorted(self.isas_skipped),
               "steps_rejected_known": nknown, "samples": self.samples[:8] or ["none"]}
        cov.update(self.cov)
        cov.update(extra or {})
        evd = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
               "assumptions": assumptions or [], "wall_s": round(wall, 2), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1, default=str)
            f.write("\n")
        rc = 0
        if unstable and not viol:
            raise CheckError("%d rejected steps did not repeat" % unstable)
        if viol:
            rc = 1
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            groups = {}
            for v in viol:
                g = (v.get("op") or (v["event"][0] if "event" in v else v["kind"]), v.get("type"), v["where"])
                groups.setdefault(g, []).append(v)
            body = []
            for g, vs in list(groups.items())[:40]:
                v = vs[0]
                d = {k: v[k] for k in v if k not in ("job", "key")}
                if v.get("job") is not None:
                    d["driver"] = v["job"].name()
                    d["compile"] = " ".join(v["job"].cmd("OUT", "rec.o"))
                    d["run"] = "OUT trace.ev %d %d" % (self.seed, self.tier == "thorough")
                d["count_in_group"] = len(vs)
                body.append(d)
            h = hashlib.sha1(json.dumps(body, default=str).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, h))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "violations": body}, f, indent=1, default=str)
            for d in body[:8]:
                print("rejected by the specification: " + json.dumps(d, default=str)[:900])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        else:
            print("OK property=%s tier=%s steps=%d states=%d wall=%.1fs" % (self.prop, self.tier, self.steps_validated, self.states, wall))
        shutil.rmtree(self.dir, ignore_errors=True)
        return rc


def default_weight(op, t):
    w = {"i8": 1, "u8": 1, "i16": 1.3, "u16": 1.3, "i32": 1.6, "u32": 1.6, "i64": 2.5, "u64": 2.5, "f32": 10, "f64": 15, "f80": 20}.get(t, 2)
    return w


def balance(lines):
    n = NCPU
    total = sum(x[1] for x in lines)
    # small traces: fewer JVMs
    n = max(1, min(n, int(total // 600) + 1, len(lines)))
    sh = [[] for _ in range(n)]
    load = [0.0] * n
    for ln in sorted(lines, key=lambda x: -x[1]):
        i = load.index(min(load))
        sh[i].append(ln)
        load[i] += ln[1] + 0.5
    return [s for s in sh if s]


def load_known(prop):
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn))["findings"] if k["property"] == prop and k.get("kind") == "finding"]


def match_known(known, r):
    for i, k in enumerate(known):
        m = k["match"]
        if r["kind"] != m.get("kind", r["kind"]):
            continue
        if "op" in m and m["op"] != (r.get("op") or r.get("event", [None])[0]):
            continue
        if "type" in m and m["type"] != (r.get("type") or r.get("event", [None, None])[1]):
            continue
        if "keys" in m and r["key"] not in m["keys"]:
            continue
        if "where" in m and m["where"] not in r["where"]:
            continue
        return i
    return None
