"""Which headers property C24 has to run: packaged ones and freshly generated ones.

Texts are compared only to leave out runs that would repeat another one token by token.
"""
import os
import re
import shutil

import engine as e

SCRIPT = "generate_fakeit_single_header.py"


def generate(work):
    """Runs the generator on a copy of the sources; the directory with the result."""
    d = os.path.join(work, "generated")
    if not os.path.isdir(d):
        os.makedirs(d)
        for sub in ("include", "config"):
            shutil.copytree(os.path.join(e.REPO, sub), os.path.join(d, sub))
        shutil.copy(os.path.join(e.REPO, SCRIPT), d)
        rc, err = e.run(["python3", "-B", os.path.join(d, SCRIPT), "-a"], 120)
        if rc != 0:
            raise e.CheckError("the generator failed: " + err[-2000:])
    return d


def tokens(path):
    try:
        text = open(path, encoding="utf8", errors="replace").read()
    except OSError:
        raise e.CheckError("missing header " + path)
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    text = re.sub(r"//(?![^\"\n]*\"\s*$)[^\n]*", " ", text, flags=re.M)
    return [" ".join(l.split()) for l in text.splitlines() if l.split()]


def header(root, fw):
    return os.path.join(root, "single_header", fw, "fakeit.hpp")


def adapter_lines():
    """Lines of the adapters and of the files that only some of them include, which end up in different places."""
    r = set()
    used = {}
    for fw in e.FRAMEWORKS:
        d = os.path.join(e.REPO, "config", fw)
        for f in os.listdir(d):
            lines = tokens(os.path.join(d, f))
            r.update(lines)
            for l in lines:
                m = re.match(r'#\s*include\s*"([^"]+)"', l)
                if m:
                    used.setdefault(os.path.normpath(os.path.join(e.REPO, "include", m.group(1))), set()).add(fw)
    for f, by in used.items():
        if len(by) < len(e.FRAMEWORKS) and os.path.exists(f):
            r.update(tokens(f))
    return r


class Packages:
    def __init__(self, check):
        gen = generate(check.work)
        e.GENERATED[0] = gen
        packed = {fw: tokens(header(e.REPO, fw)) for fw in e.FRAMEWORKS}
        made = {fw: tokens(header(gen, fw)) for fw in e.FRAMEWORKS}
        self.adapters = [fw + "-single" for fw in e.FRAMEWORKS] + [fw + "-gen" for fw in e.FRAMEWORKS if made[fw] != packed[fw]]
        known = adapter_lines()

        def core(text):
            return [l for l in text if l not in known]

        self.battery = ["standalone-single"]
        seen = [core(packed["standalone"])]
        for kind, texts in (("single", packed), ("gen", made)):
            for fw in e.FRAMEWORKS:
                c = core(texts[fw])
                if c not in seen:
                    seen.append(c)
                    self.battery.append("%s-%s" % (fw, kind))
        if check.tier == "thorough":
            self.adapters += e.FRAMEWORKS + ["standalone-single-c++20", "gtest-single-c++17", "catch-single-c++20", "boost-single-c++17",
                                             "doctest-single-clang-c++20", "tpunit-single-clang-c++14"]
            self.battery += ["standalone-single-c++17", "standalone-single-clang-c++20"]


def of(check):
    if not hasattr(check, "packages"):
        check.packages = Packages(check)
    return check.packages


def adapters(check):
    return of(check).adapters


def battery(check):
    return of(check).battery
