"""Builds the Python bindings of the tree under test with AddressSanitizer and runs the
Python-level monitors on them, in parallel shards."""
import glob, os, shutil, signal, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/optv-venv/bin/python"
NPROC = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))


def libpath(name):
    return subprocess.run(["gcc", "-print-file-name=" + name], stdout=subprocess.PIPE, text=True).stdout.strip()


def build(scratch, repo, verif, run):
    out = os.path.join(scratch, "py")
    os.makedirs(out + "/inc")
    shutil.copytree(repo + "/py_bind/optv", out + "/optv", ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__"))
    os.symlink(repo + "/liboptv/include", out + "/inc/optv")
    san = ["-w", "-g", "-fPIC", "-fsanitize=address", "-fno-omit-frame-pointer"]
    pyx = sorted(os.path.basename(p)[:-4] for p in glob.glob(out + "/optv/*.pyx"))
    if not pyx:
        raise RuntimeError("no bindings in " + repo)
    cfg = subprocess.run([PY, "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include());print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         stdout=subprocess.PIPE, text=True).stdout.split()
    pyinc, npinc, suffix = cfg[0], cfg[1], cfg[2]
    env = dict(os.environ, PYTHONNOUSERSITE="1")
    env.pop("PYTHONPATH", None)
    libs = sorted(glob.glob(repo + "/liboptv/src/*.c"))

    def lib(s):
        o = out + "/lib_" + os.path.basename(s)[:-2] + ".o"
        run(["gcc", "-O1", "-c", s, "-o", o, "-I", repo + "/liboptv/include"] + san)
        return o

    def ext(m):
        run([PY, "-m", "cython", "-2", "optv/%s.pyx" % m], cwd=out, env=env)
        run(["gcc", "-O0", "-c", "optv/%s.c" % m, "-o", m + ".o", "-I", pyinc, "-I", npinc, "-I", ".", "-I", "inc", "-I", repo + "/liboptv/include"] + san, cwd=out)
        return m
    core = out + "/core.o"
    with ThreadPoolExecutor(NPROC) as ex:
        fm = [ex.submit(ext, m) for m in pyx]
        fl = [ex.submit(lib, s) for s in libs]
        fc = ex.submit(run, ["gcc", "-O1", "-c", verif + "/harness/py/pycore.c", "-o", core, "-I", repo + "/liboptv/include"] + san)
        objs = [f.result() for f in fl]
        fc.result()
        [f.result() for f in fm]
        list(ex.map(lambda m: run(["gcc", "-shared", "-fsanitize=address", "-o", "optv/%s%s" % (m, suffix), m + ".o"] + objs + ["-lm"], cwd=out), pyx))
    run(["gcc", "-shared", "-fsanitize=address", "-o", out + "/libcore.so", core] + objs + ["-lm"])
    return out


def run_py_check(pid, cfg, tier, seed, scratch, repo, verif, cases, only, acc):
    import check
    out = build(scratch, repo, verif, check.run)
    n = cases or cfg["py_cases"][0 if tier == "quick" else 1]
    env = dict(os.environ)
    env.update(check.BASE_ENV)
    env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("quarantine_size_mb=64", "quarantine_size_mb=%d" % cfg.get("quarantine", 64)).replace("detect_stack_use_after_return=1", "detect_stack_use_after_return=0")
    env.update({"LD_PRELOAD": libpath("libasan.so"), "PYTHONPATH": out + ":" + verif + "/harness/py", "PYTHONNOUSERSITE": "1",
                "PYTHONDONTWRITEBYTECODE": "1", "PYTHONMALLOC": "malloc", "VERIF_CORE": out + "/libcore.so", "OPENBLAS_NUM_THREADS": "1", "PYTHONHASHSEED": "0"})
    data = scratch + "/pydata"
    if not os.path.isdir(data):
        shutil.copytree(repo + "/liboptv/tests/testing_fodder", data)
        shutil.copytree(repo + "/py_bind/test/testing_fodder", data + "-py")
    script = verif + "/harness/py/" + cfg["py"]

    def shards(ncases, only=None, tmo=None):
        nsh = 1 if only is not None else max(1, min(NPROC, ncases))
        tmo = tmo or (600 if tier == "quick" else 10800)

        def one(k):
            sd = os.path.join(scratch, "py-shard%d" % k)
            os.makedirs(sd, exist_ok=True)
            o = os.path.join(scratch, "py-out%d" % k)
            fr, to = (only, only + 1) if only is not None else (k, ncases)
            cmd = [PY, script, "--seed", str(seed), "--from", str(fr), "--to", str(to), "--step", str(nsh), "--out", o, "--scratch", sd,
                   "--data", data, "--pydata", data + "-py", "--thorough", "1" if tier == "thorough" else "0"]
            err = open(o + ".err", "wb")
            p = subprocess.Popen(cmd, stdout=err, stderr=err, env=env, cwd=sd, start_new_session=True)
            try:
                rc = p.wait(timeout=tmo)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
            err.close()
            return k, rc, o
        with ThreadPoolExecutor(nsh) as ex:
            return list(ex.map(one, range(nsh)))
    hung = False
    for k, rc, o in shards(n, only):
        err = open(o + ".err", errors="replace").read()
        if rc == 0:
            if not acc.parse(o, "python"):
                raise check.HarnessError("shard %d ended without its results" % k)
            continue
        case = -1
        try:
            case = int(open(o + ".cur").read().split()[0])
        except Exception:
            raise check.HarnessError("Python monitor could not start: " + err[-3000:])
        if rc == "timeout":
            if hung:
                continue
            r = shards(n, case, 100)[0]
            if r[1] == "timeout":
                acc.add_fail("hang", case, "case does not end (twice)", "python")
                hung = True
                continue
            if r[1] == 0:
                raise check.HarnessError("shard %d timed out, case %d alone did not: inconclusive" % (k, case))
            rc, err = r[1], open(r[2] + ".err", errors="replace").read()
        if rc == -signal.SIGKILL:
            raise check.HarnessError("shard %d was killed (memory?)" % k)
        if rc == 1 and "Traceback" in err:  # an error of the monitor itself
            raise check.HarnessError("Python monitor failed: " + err[-3000:])
        acc.add_fail(check.crash_key(err, rc), case, err[:6000], "python")
    return acc
