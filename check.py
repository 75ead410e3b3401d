#!/usr/bin/env python3
"""Driver of all checks:  check.py <property id> [--cases N] [--only CASE] [--keep]

Builds the library sources of /repo's working tree with sanitizers in a private
scratch directory, runs the property's monitor over generated workloads in
parallel shards, collects what the monitors saw, writes evidence/<id>.json and
exits 0 (held on everything explored) or 1 (with VIOLATION lines).  Any other exit
is an error of the check itself."""
import os, sys, json, time, subprocess, tempfile, shutil, glob, re, struct, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "msan": ["-fsanitize=memory", "-fno-omit-frame-pointer", "-fsanitize-memory-track-origins=1"],
    "plain": [],
}
BASE_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:strict_string_checks=0:max_allocation_size_mb=6000:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "MSAN_OPTIONS": "exitcode=99:halt_on_error=1:print_stats=0:intercept_memcmp=0",
    "LC_ALL": "C", "LANG": "C",
}


class HarnessError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise HarnessError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def build_c(scratch, cfg, flavour, extra=()):
    """compile /repo/liboptv/src/*.c and the harness; return the binary (and those of the extra harnesses)"""
    out = os.path.join(scratch, "build-" + flavour)
    os.makedirs(out)
    srcs = sorted(glob.glob(REPO + "/liboptv/src/*.c"))
    if not srcs:
        raise HarnessError("no library sources in " + REPO)
    inc = ["-I", REPO + "/liboptv/include"]
    opt = ["-O1", "-g", "-w"] + SAN[flavour]
    cov = ["-fsanitize-coverage=inline-8bit-counters,pc-table"]
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(out, "lib_" + os.path.basename(s)[:-2] + ".o")
        objs.append(o)
        jobs.append(["clang", "-std=gnu11", "-c", s, "-o", o] + opt + cov + inc + cfg.get("lib_flags", []))
    hs = [cfg["src"]] + list(extra)
    flags = opt + inc + (["-fno-sanitize=undefined"] if flavour == "asan" else [])
    if flavour == "msan":  # the C++ library is not instrumented: use its templates from the headers
        flags = flags + ["-std=c++20", "-DVERIF_MSAN"]
    hobj = [os.path.join(out, h[:-4] + ".h.o") for h in hs]
    for h, ho in reversed(list(zip(hs, hobj))):
        jobs.insert(0, ["clang++", "-std=c++17", "-DVERIF_MAIN", "-c", os.path.join(VERIF, "harness", h), "-o", ho, "-I", VERIF + "/harness"] + flags)
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(run, jobs))
        bins = [os.path.join(out, h[:-4]) for h in hs]
        list(ex.map(run, [["clang", "-o", b, ho] + objs + opt + ["-lstdc++", "-lm", "-rdynamic"] + cfg.get("ldflags", []) for b, ho in zip(bins, hobj)]))
    return bins if extra else bins[0]


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)")


def crash_key(text, rc):
    kind = "signal%d" % -rc if rc < 0 else "exit%d" % rc
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
    if m:
        kind = m.group(1)
    else:
        m = re.search(r"MemorySanitizer: (\S+)", text)
        if m:
            kind = "msan-" + m.group(1)
        else:
            m = re.search(r"runtime error: ([^\n]*)", text)
            if m:
                kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?", "N", m.group(1))[:60].strip().replace(" ", "-")
    where = "?"
    m = re.search(r"harness/(c\d+)\.cpp", text)
    if m:
        where = m.group(1)
    for fn, loc in FRAME.findall(text):
        if "/liboptv/" in loc or "/py_bind/" in loc or "/optv/" in loc:
            where = fn + "@" + os.path.basename(loc.split(":")[0])
            break
    return "crash:%s:%s" % (kind, where)


def comma_locale(scratch):
    """a locale that writes numbers as 1.234,5, for the checks of files (see common.hpp ForeignNumbers)"""
    d = os.path.join(scratch, "locales")
    if not os.path.isdir(d):
        os.makedirs(d)
        with open(d + "/comma", "w") as f:
            f.write('comment_char %\nescape_char /\nLC_NUMERIC\ndecimal_point ","\nthousands_sep "."\ngrouping 3;3\nEND LC_NUMERIC\n')
        try:
            subprocess.run(["localedef", "-c", "-i", "./comma", "-f", "ANSI_X3.4-1968", "--no-archive", d + "/comma_XX"],
                           cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except OSError:
            pass    # the harnesses count how often it was used
    return d


def run_shards(binary, cfg, flavour, ncases, seed, tier, scratch, only=None, tmo=None):
    env = dict(os.environ)
    env.update(BASE_ENV)
    env.update(cfg.get("env", {}))
    env["VERIF_SEED"] = str(seed)
    env["LOCPATH"] = comma_locale(scratch)
    nsh = 1 if only is not None else max(1, min(NPROC, ncases))
    tmo = tmo or cfg.get("timeout", 240 if tier == "quick" else 10800)
    # a private copy of the example data, so that no harness touches /repo
    data = os.path.join(scratch, "data")
    if not os.path.isdir(data):
        shutil.copytree(REPO + "/liboptv/tests/testing_fodder", data)

    def one(k):
        sd = os.path.join(scratch, "%s-shard%d" % (flavour, k))
        os.makedirs(sd, exist_ok=True)
        out = os.path.join(scratch, "%s-out%d" % (flavour, k))
        fr, to = (only, only + 1) if only is not None else (k, ncases)
        cmd = (cfg.get("wrap", []) + [binary, "--seed", str(seed), "--from", str(fr), "--to", str(to), "--step", str(nsh),
               "--out", out, "--scratch", sd, "--data", data, "--thorough", "1" if tier == "thorough" else "0",
               "--aux", cfg.get("aux", "")])
        err = open(out + ".err", "wb")
        p = subprocess.Popen(cmd, stdout=err, stderr=err, env=env, cwd=sd, start_new_session=True)
        try:
            rc = p.wait(timeout=tmo)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
        err.close()
        return k, rc, out
    with ThreadPoolExecutor(nsh) as ex:
        return list(ex.map(one, range(nsh)))


class Acc:
    def __init__(self):
        self.evals = 0
        self.hashes = set()
        self.counts, self.maxima, self.samples = {}, {}, []
        self.fails = {}
        self.rule = ""
        self.cov = []
        self.notes = []

    def add_fail(self, key, case, msg, flavour):
        self.fails.setdefault(key, []).append((case, msg, flavour))

    def merge_cov(self, cov):
        for i, (bits, n) in enumerate(cov):
            if i < len(self.cov):
                self.cov[i] = (self.cov[i][0] | bits, n)
            else:
                self.cov.append((bits, n))

    def parse(self, out, flavour):
        cov_i = 0
        end = False
        with open(out, errors="replace") as f:
            for line in f:
                t = line.rstrip("\n").split("\t")
                if t[0] == "RULE":
                    self.rule = t[1]
                elif t[0] == "EVALS":
                    self.evals += int(t[1])
                elif t[0] == "COUNT":
                    self.counts[t[1]] = self.counts.get(t[1], 0) + int(t[2])
                elif t[0] == "MAX":
                    v = float(t[2])
                    if not v <= self.maxima.get(t[1], float("-inf")):
                        self.maxima[t[1]] = v
                elif t[0] == "SAMPLE":
                    if len(self.samples) < 6:
                        self.samples.append(t[1])
                elif t[0] == "FAIL":
                    self.add_fail(t[1], int(t[2]), t[3], flavour)
                elif t[0] == "COVMAP":
                    bits = int(t[1], 2) if t[1] else 0
                    if cov_i < len(self.cov):
                        self.cov[cov_i] = (self.cov[cov_i][0] | bits, len(t[1]))
                    else:
                        self.cov.append((bits, len(t[1])))
                    cov_i += 1
                elif t[0] == "END":
                    end = True
        if os.path.exists(out + ".hash"):
            b = open(out + ".hash", "rb").read()
            self.hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        return end


def judge_shards(acc, results, binary, cfg, flavour, n, seed, tier, scratch, crashes_only=False):
    hung = False
    for k, rc, out in results:
        if rc == 0:
            if crashes_only:
                sub = Acc()
                if not sub.parse(out, flavour):
                    raise HarnessError("shard %d ended without its results" % k)
                acc.evals += sub.evals
                acc.hashes |= sub.hashes
                acc.counts["checks of other properties run under the sanitizers"] = acc.counts.get("checks of other properties run under the sanitizers", 0) + sub.evals
                acc.merge_cov(sub.cov)
            elif not acc.parse(out, flavour):
                raise HarnessError("shard %d ended without its results" % k)
            continue
        err = open(out + ".err", errors="replace").read()
        case = -1
        try:
            case = int(open(out + ".cur").read().split()[0])
        except Exception:
            pass
        if rc == "timeout":
            if crashes_only or hung:
                continue
            # inconclusive: run the case it was in once more, alone
            r2 = run_shards(binary, cfg, flavour, n, seed, tier, scratch, only=case, tmo=100)[0]
            if r2[1] == "timeout":
                acc.add_fail("hang", case, "case does not end (twice)", flavour)
                hung = True
                continue
            if r2[1] == 0:
                raise HarnessError("shard %d timed out, case %d alone did not: inconclusive" % (k, case))
            rc, err = r2[1], open(r2[2] + ".err", errors="replace").read()
        if rc == 3 or rc == 127 or rc == 126:
            raise HarnessError("harness error in shard %d: %s" % (k, err[-3000:]))
        if rc == -signal.SIGKILL:
            raise HarnessError("shard %d was killed (memory?)" % k)
        acc.add_fail(crash_key(err, rc), case, ("in %s: " % os.path.basename(binary) if crashes_only else "") + err[:6000], flavour)


def run_c_check(pid, cfg, tier, seed, scratch, cases=None, only=None, acc=None):
    acc = acc or Acc()
    for flavour in cfg.get("flavours", ["asan"]):
        sweep = cfg.get("sweep", {}) if flavour == cfg.get("sweep_flavour", "asan") and only is None else {}
        bins = build_c(scratch, cfg, flavour, list(sweep))
        binary = bins[0] if sweep else bins
        n = cases or cfg["cases"][0 if tier == "quick" else 1]
        if flavour != cfg.get("flavours", ["asan"])[0]:
            n = max(1, int(n * cfg.get("second_share", 0.3)))
        judge_shards(acc, run_shards(binary, cfg, flavour, n, seed, tier, scratch, only), binary, cfg, flavour, n, seed, tier, scratch)
        # the monitors of the other properties as further workloads: only what the sanitizers report counts here
        for (src, share), b in zip(sweep.items(), bins[1:] if sweep else []):
            oc = dict(CHECKS[src[:-4].upper()])
            oc["env"] = dict(oc.get("env", {}), **cfg.get("env", {}))
            n = max(8, int(oc["cases"][0 if tier == "quick" else 1] * share))
            judge_shards(acc, run_shards(b, oc, flavour + "-" + src[:-4], n, seed + 7777, tier, scratch), b, oc, flavour, n, seed + 7777, tier, scratch, crashes_only=True)
    return acc


def known_findings():
    kf = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m:
                kf[(m.group(1), m.group(2))] = m.group(3)
    return kf


def main():
    args = sys.argv[1:]
    pid = args[0]
    cases = int(args[args.index("--cases") + 1]) if "--cases" in args else None
    only = int(args[args.index("--only") + 1]) if "--only" in args else None
    keep = "--keep" in args
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    os.chmod(scratch, 0o755)
    try:
        acc = None
        if cfg.get("src"):
            acc = run_c_check(pid, cfg, tier, seed, scratch, cases, only)
        if cfg.get("py"):
            import pycheck
            acc = pycheck.run_py_check(pid, cfg, tier, seed, scratch, REPO, VERIF, cases, only, acc or Acc())
        # recovery rates: (key, hits, tries, least share)
        if only is None:
            for key, hit, tries, least in cfg.get("rates", []):
                t = acc.counts.get(tries, 0)
                if t >= 20 and acc.counts.get(hit, 0) < least * t:
                    acc.add_fail("rate:" + key, 0, "%s: %d of %d %s, at least %g expected" % (
                        key, acc.counts.get(hit, 0), t, tries, least), "all")
        kf = known_findings()
        known, bad = {}, {}
        for key, lst in acc.fails.items():
            (known if (pid, key) in kf else bad)[key] = lst
        covered = sum(bin(b).count("1") for b, n in acc.cov)
        total = sum(n for b, n in acc.cov)
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": acc.evals, "distinct_nontrivial": len(acc.hashes), "rule": acc.rule,
                "samples": acc.samples[:6], "observed": acc.counts,
                "largest_deviation_seen": {k: v if v == v and abs(v) != float("inf") else str(v) for k, v in acc.maxima.items()},
                "library_edges_reached": covered, "library_edges_total": total,
                "sanitizers": cfg.get("flavours", ["asan"]) if cfg.get("src") else cfg.get("py_flavour", "none"),
                "known_findings_hit": sorted(known),
            },
            "assumptions": cfg.get("assumptions", []) + acc.notes,
            "wall_s": round(time.time() - t0, 2), "violations": len(bad),
        }
        if only is None:
            os.makedirs(VERIF + "/evidence", exist_ok=True)
            with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
                json.dump(ev, f, indent=1)
        for key in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (pid, kf[(pid, key)]))
        rd = VERIF + "/replays"
        for key in sorted(bad):
            os.makedirs(rd, exist_ok=True)
            path = "%s/%s-%s.txt" % (rd, pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:80])
            with open(path, "w") as f:
                f.write("property %s key %s seed %d tier %s\n" % (pid, key, seed, tier))
                for case, msg, fl in bad[key][:6]:
                    f.write("case %d (%s build): %s\n" % (case, fl, msg.replace("\\n", "\n")))
                    f.write("replay: cd %s && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s --only %d\n" % (VERIF, seed, tier, pid, case))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            c, m, fl = bad[key][0]
            print("  %s (%d reports) case %d: %s" % (key, len(bad[key]), c, m[:700].replace("\\n", "\n")))
        if bad:
            return 1
        # a run that observed nothing is not a pass
        if only is None and (acc.evals == 0 or len(acc.hashes) < 2):
            raise HarnessError("the monitors observed nothing")
        if only is None:
            for name, least in cfg.get("must_see", {}).items():
                if acc.counts.get(name, 0) < least and cases is None:
                    raise HarnessError("workload reached '%s' only %d times (needs %d)" % (name, acc.counts.get(name, 0), least))
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d edges=%d/%d %.1fs" % (
            pid, tier, seed, acc.evals, len(acc.hashes), covered, total, time.time() - t0))
        if "-v" in args:
            print(json.dumps(ev, indent=1))
        return 0
    finally:
        if keep:
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("CHECK-ERROR", e)
        sys.exit(2)
