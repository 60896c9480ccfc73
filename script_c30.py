"""C30: every build configuration of the library computes the same results."""
import os, subprocess, concurrent.futures as cf


class CannotAnswer(Exception):
    pass


AUTO_P = "-ftrivial-auto-var-init=pattern"
AUTO_Z = "-ftrivial-auto-var-init=zero"
QUICK = [
    ("g++ -O0", ["g++", "-O0"]),
    ("g++ -O2 -D_FORTIFY_SOURCE=2 -D_GLIBCXX_ASSERTIONS, locals filled with a pattern",
     ["g++", "-O2", "-D_FORTIFY_SOURCE=2", "-D_GLIBCXX_ASSERTIONS", AUTO_P]),
    ("g++ -O3 -std=gnu++17 -DNDEBUG -flto -fvisibility=hidden",
     ["g++", "-O3", "-std=gnu++17", "-DNDEBUG", "-flto", "-fvisibility=hidden"]),
    ("clang++ -O1, locals filled with zeros", ["clang++", "-O1", AUTO_Z]),
    ("clang++ -O2 -DNDEBUG -funsigned-char", ["clang++", "-O2", "-DNDEBUG", "-funsigned-char"]),
    ("g++ -O1 -std=c++20 -D_DEBUG -DDEBUG", ["g++", "-O1", "-std=c++20", "-D_DEBUG", "-DDEBUG"]),
    ("g++ -Os -std=gnu++23 -D_GLIBCXX_DEBUG", ["g++", "-Os", "-std=gnu++23", "-D_GLIBCXX_DEBUG"]),
    ("clang++ -O1 -std=c++20 -fno-rtti", ["clang++", "-O1", "-std=c++20", "-fno-rtti"]),
    ("g++ -O2 -pthread -fPIC, all vector instructions", ["g++", "-O2", "-pthread", "-fPIC", "VECTOR", "-ffp-contract=off"]),
]
MORE = [
    ("g++ -O0, locals filled with zeros", ["g++", "-O0", AUTO_Z]),
    ("g++ -O0, locals filled with a pattern", ["g++", "-O0", AUTO_P]),
    ("g++ -Os", ["g++", "-Os"]),
    ("g++ -O3 -DNDEBUG", ["g++", "-O3", "-DNDEBUG"]),
    ("g++ -Og -fsanitize=address,undefined", ["g++", "-Og", "-fsanitize=address,undefined"]),
    ("clang++ -O1 -fsanitize=undefined -std=c++2c", ["clang++", "-O1", "-fsanitize=undefined", "-std=c++2c"]),
    ("g++ -O1 -fsanitize=thread", ["g++", "-O1", "-fsanitize=thread"]),
    ("g++ -O2 -D_GLIBCXX_USE_CXX11_ABI=0", ["g++", "-O2", "-D_GLIBCXX_USE_CXX11_ABI=0"]),
    ("g++ -O2 -fno-threadsafe-statics -fno-math-errno -static", ["g++", "-O2", "-fno-threadsafe-statics", "-fno-math-errno", "-static"]),
    ("clang++ -O2 -fno-plt -D_FORTIFY_SOURCE=3", ["clang++", "-O2", "-fno-plt", "-D_FORTIFY_SOURCE=3"]),
    ("g++ -O2 -frounding-math -fsignaling-nans -fexcess-precision=standard", ["g++", "-O2", "-frounding-math", "-fsignaling-nans", "-fexcess-precision=standard"]),
    ("g++ -O2", ["g++", "-O2"]),
    ("clang++ -O2", ["clang++", "-O2"]),
    ("g++ -O3 -fno-inline", ["g++", "-O3", "-fno-inline"]),
    ("g++ -O2 -std=c++23", ["g++", "-O2", "-std=c++23"]),
    ("g++ -O2 -fno-strict-aliasing -fwrapv", ["g++", "-O2", "-fno-strict-aliasing", "-fwrapv"]),
    ("clang++ -O0", ["clang++", "-O0"]),
    ("clang++ -O3, locals filled with a pattern", ["clang++", "-O3", AUTO_P]),
    ("clang++ -Os", ["clang++", "-Os"]),
    ("clang++ -O2 -std=c++20", ["clang++", "-O2", "-std=c++20"]),
]


def run(repo, here, bdir, tier, seed):
    confs = [(name, list(flags)) for name, flags in QUICK + (MORE if tier == "thorough" else [])]
    try:
        cpu = open("/proc/cpuinfo").read()
    except OSError:
        cpu = ""
    for name, flags in confs:
        if "VECTOR" in flags:
            at = flags.index("VECTOR")
            flags[at:at + 1] = ["-mavx2", "-mfma"] if " avx2 " in cpu and " fma " in cpu else []
    inc = ["-w", "-I" + os.path.join(repo, "include"), "-I" + os.path.join(here, "harness")]
    res = {"status": 0, "verdict": "holds", "states": 0, "transitions": 0, "traces": 0,
           "distinct_outcomes": 0, "samples": [], "info": {}, "known": {}, "message": "",
           "replay_args": "", "confirm": ""}
    cmp_exe = os.path.join(bdir, "cmp")
    p = subprocess.run(["g++", "-O2", "-std=c++17", "-w", os.path.join(here, "harness", "c30_cmp.cpp"), "-o", cmp_exe],
                       capture_output=True, text=True)
    if p.returncode:
        raise CannotAnswer(p.stderr[:2000])

    def one(k):
        name, flags = confs[k]
        exe = os.path.join(bdir, "eval%d" % k)
        std = [] if any(f.startswith("-std=") for f in flags) else ["-std=c++17"]
        cmd = flags + std + inc + [os.path.join(here, "harness", "c30_eval.cpp"), "-o", exe]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            return "build", p.stderr[:1500]
        out = os.path.join(bdir, "out%d" % k)
        p = subprocess.run([exe, out, tier], capture_output=True, text=True)
        if p.returncode:
            return "run", "the evaluation ended with status %d %s" % (p.returncode, p.stderr[:500])
        return "ok", out

    with cf.ThreadPoolExecutor(8) as ex:
        done = list(ex.map(one, range(len(confs))))
    if all(d[0] == "build" for d in done):
        raise CannotAnswer("the harness does not build:\n" + done[0][1])
    for k, d in enumerate(done):
        if d[0] != "ok":
            res["status"] = 1
            res["message"] = "configuration '%s' does not %s although others do:\n%s" % (
                confs[k][0], "build" if d[0] == "build" else "run", d[1])
            return res
    res["states"] = len(confs)
    outcomes = 0
    for k in range(1, len(confs)):
        p = subprocess.run([cmp_exe, done[0][1], done[k][1]], capture_output=True, text=True)
        w = p.stdout.split()
        if not w:
            raise CannotAnswer("comparison failed")
        if w[0] == "differ":
            a = subprocess.run([os.path.join(bdir, "eval0"), "-", tier, w[1]], capture_output=True, text=True).stdout
            b = subprocess.run([os.path.join(bdir, "eval%d" % k), "-", tier, w[1]], capture_output=True, text=True).stdout
            res["status"] = 1
            res["message"] = "the result depends on how the library is built:\n  %s: %s  %s: %s" % (
                confs[0][0], a, confs[k][0], b)
            return res
        res["transitions"] += int(w[1])
        res["traces"] += int(w[1])
        outcomes = max(outcomes, int(w[3]))
        res["info"]["results equal to the last bit: %s / %s" % (confs[0][0], confs[k][0])] = int(w[2])
    res["transitions"] += int(w[1])
    res["info"]["evaluations per configuration"] = int(w[1])
    res["info"]["configurations"] = len(confs)
    res["distinct_outcomes"] = outcomes
    for i in (5, int(w[1]) // 2, int(w[1]) - 9):
        t = subprocess.run([os.path.join(bdir, "eval0"), "-", tier, str(i)], capture_output=True, text=True).stdout
        res["samples"].append(t.strip() + " in every configuration")
    for k in range(len(confs)):
        os.remove(done[k][1])
    return res
