#!/usr/bin/env python3
"""Builds the simulation binary from the working tree of the repository."""
import glob, hashlib, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SIM = ["core.cc", "solver.cc", "oracle.cc", "world.cc", "props.cc", "main.cc"]


def run(cmd):
    # a crash of the compiler that does not repeat is no answer
    for _ in range(3):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return
        time.sleep(1)
    if p.returncode != 0:
        sys.stderr.write(" ".join(cmd) + "\n" + p.stdout)
        raise SystemExit(3)


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def build(variant="asan"):
    """variant: asan, race or plain. Returns the path of the binary."""
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    gen = os.path.join(out, "gen")
    os.makedirs(gen, exist_ok=True)
    run([sys.executable, os.path.join(HERE, "gen_wrap.py"), os.path.join(gen, "wrap.cc"), os.path.join(gen, "redef.txt"),
         os.path.join(gen, "fn.inc"), variant])
    redef = os.path.join(gen, "redef.txt")
    common = ["clang++", "-fno-crash-diagnostics", "-std=c++17", "-g", "-O1", "-fno-omit-frame-pointer", "-pthread"]
    repo_inc = ["-I" + os.path.join(REPO, "libclingo-dl"), "-I" + os.path.join(REPO, "app/lib")]
    cov = "trace-pc-guard"
    san = []
    if variant == "asan":
        san = ["-fsanitize=address"]
    elif variant == "race":
        cov += ",trace-loads,trace-stores"
    repo_src = sorted(glob.glob(REPO + "/libclingo-dl/src/*.cc") + glob.glob(REPO + "/app/lib/src/*.cc") +
                      glob.glob(REPO + "/app/src/*.cc"))
    if len(repo_src) < 3:
        sys.stderr.write("no sources found in %s\n" % REPO)
        raise SystemExit(3)
    repo_hdr = [p for d in ("libclingo-dl", "app") for p in glob.glob(REPO + "/" + d + "/**/*.h*", recursive=True)]
    sim_hdr = glob.glob(HERE + "/*.hh") + glob.glob(HERE + "/*.def") + [os.path.join(gen, "fn.inc"), HERE + "/gen_wrap.py"]
    jobs = []
    objs = []
    for s in repo_src:
        o = os.path.join(out, "repo_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
        cmd = common + san + ["-fsanitize-coverage=" + cov, "-D_GLIBCXX_ASSERTIONS", "-UNDEBUG", "-Dmain=clingodl_app_main"]
        if variant == "race":
            cmd += ["-fno-builtin"]
        jobs.append((cmd + repo_inc + ["-c", s, "-o", o], o, digest([s] + repo_hdr + [redef, "/usr/include/clingo.hh", "/usr/include/clingo.h"], variant + " ".join(cmd)), True))
        objs.append(o)
    for s in [os.path.join(HERE, x) for x in SIM] + [os.path.join(gen, "wrap.cc")]:
        o = os.path.join(out, "sim_" + os.path.basename(s) + ".o")
        cmd = common + san + ["-I" + HERE, "-I" + gen, "-I" + os.path.join(REPO, "libclingo-dl"), "-Wall", "-Wno-unused-function"]
        jobs.append((cmd + ["-c", s, "-o", o], o, digest([s] + sim_hdr + [REPO + "/libclingo-dl/clingo-dl.h"], variant + " ".join(cmd)), False))
        objs.append(o)

    def job(j):
        cmd, o, d, repo = j
        stamp = o + ".sum"
        if os.path.exists(o) and os.path.exists(stamp) and open(stamp).read() == d:
            return False
        if os.path.exists(stamp):
            os.unlink(stamp)
        run(cmd)
        if repo:
            run(["objcopy", "--redefine-syms=" + redef, o])
        with open(stamp, "w") as f:
            f.write(d)
        return True

    with ThreadPoolExecutor(8) as ex:
        changed = list(ex.map(job, jobs))
    binary = os.path.join(out, "sim")
    if any(changed) or not os.path.exists(binary):
        run(["clang++", "-pthread"] + san + ["-o", binary] + objs + ["-lclingo"])
    return binary


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]:
        print(build(v))
