"""Builds the driver, runs TLC and the driver, compares what they say."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FK_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRIVER = os.path.join(VERIF, "driver")
JARS = ":".join(["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])
CORES = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself could not be carried out."""


# ------------------------------------------------------------------ variants
# A variant is a name like "gtest-single-clang-c++17": test framework (default standalone), header
# (default the sources; "single" the packaged one, "gen" one generated by the check), compiler,
# language standard, optimisation.
FRAMEWORKS = ["standalone", "tpunit", "gtest", "catch", "boost", "doctest", "cute", "mettle", "mstest", "nunit", "qtest"]
LIBS = {"gtest": ["-lgtest", "-lpthread"], "catch": ["-lCatch2"], "boost": ["-lboost_unit_test_framework"]}
GENERATED = [None]               # directory with the headers the check generated


def variant(name):
    std, cxx, fw, header = "c++14", "g++", "standalone", "sources"
    opt = ["-g0", "-O0", "-fsanitize=address", "-fno-omit-frame-pointer"]
    for part in name.split("-"):
        if part in ("c++14", "c++17", "c++20"):
            std = part
        elif part == "clang":
            cxx = "clang++"
        elif part == "O2":
            opt = ["-g0", "-O2"]
        elif part in ("single", "gen"):
            header = part
        elif part in FRAMEWORKS:
            fw = part
        else:
            raise CheckError("no variant " + name)
    inc = {"sources": [REPO + "/include", REPO + "/config/" + fw], "single": [REPO + "/single_header/" + fw],
           "gen": ["%s/single_header/%s" % (GENERATED[0], fw)]}[header]
    if fw != "standalone":
        opt = opt + ["-DFK_FW_" + fw.upper(), "-I" + DRIVER + "/fw"]
    if fw == "doctest":
        opt = opt + ["-I/usr/include/doctest"]
    if fw == "boost":
        opt = opt + ["-DBOOST_TEST_DYN_LINK", "-DBOOST_TEST_NO_MAIN", "-DBOOST_TEST_ALTERNATIVE_INIT_API"]
    if fw == "catch" and std == "c++14":
        std = "c++17"            # what the installed framework needs
    return cxx, ["-std=" + std, "-w"] + opt, inc, LIBS.get(fw, [])


class Build:
    """Compiles driver executables into a scratch directory, each once."""

    def __init__(self, work):
        self.work = work
        self.pool = cf.ThreadPoolExecutor(CORES)
        self.futures = {}

    def _compile(self, src, var, out):
        cxx, flags, inc, _ = variant(var)
        cmd = [cxx] + flags + ["-I" + i for i in inc] + ["-I" + DRIVER, "-c", os.path.join(DRIVER, src), "-o", out]
        rc, err = run(cmd)
        if rc != 0:
            raise CheckError("compiling %s (%s) failed:\n%s" % (src, var, err[-4000:]))
        return out

    def _object(self, src, var):
        key = (src, var)
        if key not in self.futures:
            out = os.path.join(self.work, "%s.%s.o" % (src.replace(".cpp", ""), var))
            self.futures[key] = self.pool.submit(self._compile, src, var, out)
        return self.futures[key]

    def start(self, world, var):
        import worlds
        for src in worlds.sources(world):
            self._object(src, var)

    def exe(self, world, var):
        import worlds
        out = os.path.join(self.work, "%s.%s" % (world, var))
        if not os.path.exists(out):
            objs = [self._object(src, var).result() for src in worlds.sources(world)]
            cxx, flags, _, libs = variant(var)
            rc, err = run([cxx] + flags + objs + libs + ["-o", out])
            if rc != 0:
                raise CheckError("linking %s failed:\n%s" % (world, err[-4000:]))
        return out


# ------------------------------------------------------------------ driver
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=3000:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
           LC_ALL="C")


def run_driver(exe, scripts, work, tag, max_restarts=25):
    """Outcomes per script id; None when the process died in that script."""
    src = os.path.join(work, tag + ".in")
    with open(src, "w") as f:
        for s in scripts:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
    res, done, n = {}, 0, 0
    while done < len(scripts):
        out = os.path.join(work, "%s.out%d" % (tag, n))
        if os.path.exists(out):
            os.remove(out)
        rc, err = run([exe, src, out, str(done)], 600, ENV)
        if rc in (2, 3):
            raise CheckError("driver: " + err[-2000:])
        with open(out, encoding="utf8", errors="replace") as f:
            for line in f:
                if line.endswith("]}\n"):
                    j = json.loads(line, strict=False)
                    res[j["id"]] = j["outs"]
                    done += 1
        os.remove(out)
        if rc == 0:
            break
        if done < len(scripts):
            res[scripts[done]["id"]] = {"crash": rc, "err": err[-3000:]}
            done += 1
        n += 8 if rc == 124 else 1
        if n > max_restarts:
            for s in scripts[done:]:
                res[s["id"]] = {"notrun": True}
            break
    os.remove(src)
    return res


def run_sharded(exe, scripts, work, tag, pool):
    """Outcomes per script id, and which scripts the process of a script had run up to it."""
    k = max(1, min(CORES, len(scripts) // 200 + 1))
    shards = [scripts[i::k] for i in range(k)]
    futs = [pool.submit(run_driver, exe, sh, work, "%s.%d" % (tag, i)) for i, sh in enumerate(shards)]
    res = {}
    for f in futs:
        res.update(f.result())

    def order(sid):
        for sh in shards:
            for i, s in enumerate(sh):
                if s["id"] == sid:
                    return sh[:i + 1]
    return res, order


# ------------------------------------------------------------------ TLC
def tlc_cmd(module, meta, heap):
    return ["java", "-XX:+UseSerialGC", "-XX:-UsePerfData", "-Djava.io.tmpdir=" + os.path.dirname(meta), "-Xss64m", "-Xmx%dm" % heap, "-cp", JARS, "tlc2.TLC", "-workers", "1",
            "-metadir", meta, "-noGenerateSpecTE", "-config", module + ".cfg", module + ".tla"]


RUNNING = set()                  # processes that must not outlive the check


def stop_all():
    for p in list(RUNNING):
        p.kill()


def tlc_lines(cmd, env, timeout):
    p = subprocess.Popen(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True)
    RUNNING.add(p)
    timer = threading.Timer(timeout, p.kill)
    timer.daemon = True
    timer.start()
    try:
        for line in p.stdout:
            yield line
        p.wait()
    finally:
        timer.cancel()
        if p.poll() is None:
            p.kill()
            p.wait()
        RUNNING.discard(p)


def run(cmd, timeout=None, env=None):
    """Runs a command; its exit code (124 after the time limit) and what it wrote to stderr."""
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)
    RUNNING.add(p)
    try:
        err = p.communicate(timeout=timeout)[1].decode("utf8", "replace")
        return p.returncode, err
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return 124, "time limit"
    finally:
        RUNNING.discard(p)


def payload(line, mark):
    """The JSON value behind a line printed by PrintT(mark \\o ToJson(..)), or None."""
    if not line.startswith('"' + mark):
        return None
    return json.loads(json.loads(line)[1:])


class Exploration:
    def __init__(self):
        self.items = []          # (path, {operation number: outcome})
        self.states = 0
        self.generated = 0
        self.violated = None


def explore(world, cfg, work, tag, timeout=600):
    """Model checks the property on the alphabet; returns the predicted outcomes."""
    wf, cfgf = os.path.join(work, tag + ".world.json"), os.path.join(work, tag + ".cfg.json")
    json.dump(world, open(wf, "w"))
    json.dump(cfg, open(cfgf, "w"))
    meta = os.path.join(work, tag + ".tlc")
    ex = Exploration()
    ok = False
    other = []
    for line in tlc_lines(tlc_cmd("Gen", meta, 3500), {"FK_WORLD": wf, "FK_CFG": cfgf}, timeout):
        j = payload(line, "@")
        if j is not None:
            ex.items.append((tuple(j["p"]), dict(zip(j["i"], j["o"]))))
            continue
        m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
        if m:
            ex.generated, ex.states = int(m.group(1)), int(m.group(2))
        if "PROPERTY VIOLATED" in line:
            ex.violated = line[:3000]
        if "Model checking completed. No error has been found" in line:
            ok = True
        other.append(line)
    shutil.rmtree(meta, ignore_errors=True)
    if not ok and ex.violated is None:
        raise CheckError("TLC did not finish the exploration:\n" + "".join(other)[-3000:])
    return ex


def validate(world, prop, traces, work, tag, timeout=600):
    """Validates recorded traces; returns rejections [{id, at, exp}] and the states TLC visited."""
    wf, tf = os.path.join(work, tag + ".world.json"), os.path.join(work, tag + ".trace")
    json.dump(world, open(wf, "w"))
    with open(tf, "w") as f:
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    meta = os.path.join(work, tag + ".tlc")
    bad, done, other, states = [], False, [], 0
    for line in tlc_lines(tlc_cmd("Trace", meta, 3000), {"FK_WORLD": wf, "FK_TRACE": tf, "FK_PROP": prop}, timeout):
        j = payload(line, "#")
        if j is not None:
            if j == "DONE":
                done = True
            else:
                bad.append(j)
            continue
        j = payload(line, "!")
        if j is not None:
            raise CheckError("the specification breaks %s on the operations of trace %s" % (prop, j))
        m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
        if m:
            states = int(m.group(2))
        other.append(line)
    shutil.rmtree(meta, ignore_errors=True)
    os.remove(tf)
    if not done:
        raise CheckError("TLC did not finish the validation:\n" + "".join(other)[-3000:])
    return bad, states


# ------------------------------------------------------------------ comparison
def project(out, fields):
    return {f: out[f] for f in fields}


def agrees(exp, obs, fields):
    if exp["k"] == "live":
        return obs["k"] == "live" and set(exp["w"][0]) <= set(obs["w"]) <= set(exp["w"][1])
    return all(exp[f] == obs[f] for f in fields)
