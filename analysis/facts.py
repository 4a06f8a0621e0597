"""Builds the extractor, runs it over the current tree of /repo and loads the resulting facts."""
import hashlib, json, os, subprocess, sys, fcntl, shutil, time, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TIRO_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
EXTRACTOR_SRC = os.path.join(VERIF, "extractor", "extractor.cpp")


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (missing anchor, nothing to analyse, tool failure)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def build_extractor():
    key = sha(read(EXTRACTOR_SRC))
    out = os.path.join(CACHE, "extractor-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        tmp = out + ".tmp%d" % os.getpid()
        cmd = ["clang++-18", "-O1", "-w", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", EXTRACTOR_SRC, "-o", tmp,
               "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18", "-Wl,-rpath,/usr/lib/llvm-18/lib"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("cannot build extractor: " + r.stdout[-2000:])
        os.rename(tmp, out)
    return out


def source_files(repo):
    res = []
    for d in ("src", "include"):
        for root, dirs, files in os.walk(os.path.join(repo, d)):
            dirs.sort()
            for f in sorted(files):
                res.append(os.path.join(root, f))
    return res


def gen_include(repo):
    """The build generates tiro/version.h from a template; generate an equivalent one for parsing."""
    inc = os.path.join(CACHE, "include", "tiro")
    os.makedirs(inc, exist_ok=True)
    tmpl = None
    for c in (os.path.join(repo, "include/tiro/version.h.in"), os.path.join(repo, "src/version.h.in")):
        if os.path.exists(c):
            tmpl = read(c).decode()
    if tmpl is None:
        for p in source_files(repo) + []:
            if "version.h" in os.path.basename(p) and p.endswith(".in"):
                tmpl = read(p).decode()
    built = os.path.join(repo, "_build/include/tiro/version.h")
    if tmpl is None and os.path.exists(built):
        tmpl = read(built).decode()
    if tmpl is None:
        tmpl = '#pragma once\n#include "tiro/def.h"\n'
    import re
    tmpl = re.sub(r"@PROJECT_VERSION_[A-Z]+@", "0", tmpl)
    tmpl = re.sub(r"@[A-Z_]+@", "x", tmpl)
    dst = os.path.join(inc, "version.h")
    if not os.path.exists(dst) or read(dst).decode() != tmpl:
        tmp = dst + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(tmpl)
        os.rename(tmp, dst)
    return os.path.dirname(inc)


def flags(repo, gen):
    return ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-std=gnu++17", "-fno-rtti", "-w", "-ferror-limit=0", "-DFMT_SHARED",
            "-DTIRO_BUILDING_LIBRARY", "-I" + os.path.join(repo, "src"), "-I" + os.path.join(repo, "include"), "-I" + gen,
            "-isystem", "/usr/include/utf8cpp", "-isystem", "/opt/vp/deps/cxxopts/include"]


def extract(repo=None, extra_files=()):
    """Returns the list of fact files for the current tree."""
    repo = repo or REPO
    ex = build_extractor()
    gen = gen_include(repo)
    files = source_files(repo)
    if not files:
        raise AnalysisBroken("no source files under %s" % repo)
    wdir = os.path.join(VERIF, "analysis/witness")
    wit = [os.path.join(wdir, f) for f in sorted(os.listdir(wdir)) if f.endswith(".cpp")]
    key = sha(ex, repo, *[x for f in files + wit for x in (f, read(f))])
    out = os.path.join(CACHE, "facts-" + key)
    if os.path.exists(os.path.join(out, "done")):
        return sorted(os.path.join(out, f) for f in os.listdir(out) if f.endswith(".jsonl"))
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "xlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "done")):
            return sorted(os.path.join(out, f) for f in os.listdir(out) if f.endswith(".jsonl"))
        # keep the cache small
        old = sorted((os.path.getmtime(os.path.join(CACHE, d)), d) for d in os.listdir(CACHE) if d.startswith("facts-"))
        for i, (t, d) in enumerate(old):
            if time.time() - t > 3600 * 3 or len(old) - i > 6 and time.time() - t > 600 or len(old) - i > 40:
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        tus = [f for f in files if f.endswith((".cpp", ".cc", ".cxx", ".c"))]
        tus += wit
        tus.sort(key=lambda f: -os.path.getsize(f))
        n = max(1, os.cpu_count() or 1)
        groups = [tus[i::n] for i in range(n)]
        procs = []
        for i, g in enumerate(groups):
            if not g:
                continue
            o = os.path.join(tmp, "f%02d.jsonl" % i)
            roots = os.path.join(repo, "src") + "/:" + os.path.join(repo, "include") + "/:" + wdir + "/"
            procs.append(subprocess.Popen([ex, o, roots] + g + ["--"] + flags(repo, gen), stdout=subprocess.DEVNULL,
                                          stderr=subprocess.DEVNULL))
        for p in procs:
            p.wait()
            if p.returncode != 0:
                raise AnalysisBroken("extractor failed with code %s" % p.returncode)
        with open(os.path.join(tmp, "done"), "w") as f:
            f.write("ok")
        os.rename(tmp, out)
    return sorted(os.path.join(out, f) for f in os.listdir(out) if f.endswith(".jsonl"))


if __name__ == "__main__":
    t = time.time()
    fs = extract()
    print("facts: %d files in %.1fs" % (len(fs), time.time() - t))
