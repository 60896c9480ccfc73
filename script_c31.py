"""C31: an installed Engabra serves a separate project as its source tree does.

Explored: compilers x build types of the library, each configured, built, installed and
then moved; for each package, consumer projects (found by find_package alone, the source
tree out of sight) x consumer compilers x build types; every installed header alone
against nothing but the installed tree; and the identity functions at every moment of a
program (before any constructor, in main, in threads, in destructors).
"""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess


class CannotAnswer(Exception):
    pass


BUILDS = {
    "quick": [("g++", ""), ("g++", "Release"), ("clang++", "Debug"), ("clang++", "Release")],
    "thorough": [(c, b) for c in ("g++", "clang++")
                 for b in ("", "Debug", "Release", "RelWithDebInfo", "MinSizeRel")],
}
CONSUMERS = {
    "quick": [("g++", "17", "Debug"), ("clang++", "17", "Release"), ("g++", "20", "Release")],
    "thorough": [(c, s, b) for c in ("g++", "clang++") for s in ("17", "20", "23") for b in ("", "Debug", "Release")],
}

PROJECT = """cmake_minimum_required(VERSION 3.13)
project(Consumer LANGUAGES CXX)
set(CMAKE_CXX_STANDARD %s)
find_package(Engabra %s REQUIRED NO_MODULE)
find_package(Threads REQUIRED)
message("FOUND-VERSION=${Engabra_VERSION}")
message("FOUND-IN=${Engabra_DIR}")
foreach(prog values identity)
  add_executable(${prog} ${prog}.cpp other.cpp)
  target_link_libraries(${prog} PRIVATE Engabra::Engabra Threads::Threads)
endforeach()
"""

# the project file that the documentation of Engabra shows (doc/exProj_CMakeLists.txt)
DOCUMENTED = """cmake_minimum_required(VERSION 3.0)
project(MyProjectName DESCRIPTION "Some s/w project using Engabra" LANGUAGES CXX)
find_package(Engabra REQUIRED NO_MODULE)
message("Engabra Found: " ${Engabra_FOUND})
message("Engabra Version: " ${Engabra_VERSION})
add_executable(foo foo.cpp)
target_link_libraries(foo PRIVATE Engabra::Engabra)
"""
# which versions a project may ask for
ASKING = """cmake_minimum_required(VERSION 3.13)
project(Asking LANGUAGES CXX)
find_package(Engabra %s QUIET NO_MODULE)
message("ASKED-FOUND=${Engabra_FOUND}")
"""

# one unit prints a digest of every sort of operation; the other proves that several units link
VALUES = r"""
#include <Engabra>
#include <iostream>
#include <sstream>
#include <cstdio>
double other(double);
int main()
{
	using namespace engabra;
	std::ostringstream out;
	out.precision(12);
	double const v[]{ -2., -.5, 0., 1., 1.75 };
	for (double a : v) for (double b : v)
	{
		g3::Scalar const s{ a };
		g3::Vector const u{ a, b, .5 };
		g3::BiVector const w{ b, .25, a };
		g3::TriVector const t{ b };
		g3::Spinor const p{ a, b, .25, 1. };
		g3::ImSpin const i{ b, a, .25, 1. };
		g3::ComPlex const c{ a, b };
		g3::DirPlex const d{ a, b, 1., b, a, .5 };
		g3::MultiVector const m{ a, b, 1., .5, b, a, .25, 2. };
		out << s * u << u * w << t * p << p * i << c * d << d * m << u + w << p - s << m * m << '\n'
			<< reverse(m) << dirverse(p) << oddverse(i) << dual(d) << magSq(m) << g3::ampSq(m)
			<< direction(u) << g3::exp(w) << g3::logG2(p) << g3::sqrtG2(p) << g3::inverse(u) << '\n'
			<< nearlyEquals(u, u) << isValid(m) << g3::io::fixed(u, 4u, 3u) << g3::io::enote(w, 5u)
			<< g3::e12 << g3::e123 << g3::pi << g3::null<g3::Spinor>() << '\n';
	}
	out << other(2.) << '\n';
	std::fputs(out.str().c_str(), stdout);
	return 0;
}
"""
OTHER = r"""
#include <engabra.hpp>
double other(double x) { using namespace engabra; return magSq(x * g3::e12 * g3::e23); }
"""
IDENTITY = r"""
#include <engabra.hpp>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <thread>
#include <vector>
static int bad = 0;
static void see(char const * when, char const * wantVer)
{
	// a copy taken earlier, and then changed by its owner, must not show
	std::string ver{ engabra::projectVersion() };
	std::string src{ engabra::sourceIdentity() };
	static std::string const firstSrc{ src };
	if (ver != wantVer) { std::printf("%s: projectVersion is '%s' and not '%s'\n", when, ver.c_str(), wantVer); bad = 1; }
	if (src.empty() || src != firstSrc) { std::printf("%s: sourceIdentity is '%s', was '%s'\n", when, src.c_str(), firstSrc.c_str()); bad = 1; }
	ver += "changed";
	src.clear();
}
double other(double);
__attribute__((constructor(101))) static void early() { see("before any static object", WANT); }
struct AtStart { AtStart() { see("in static initialisation", WANT); } ~AtStart() { see("in static destruction", WANT); if (bad) { std::fflush(stdout); std::_Exit(1); } } };
static AtStart const atStart{};
static void atEnd() { see("at exit", WANT); }
int main()
{
	std::atexit(atEnd);
	for (int n = 0; n < 3; ++n) see("in main", WANT);
	std::vector<std::thread> them;
	for (int n = 0; n < 4; ++n) them.emplace_back([] { for (int k = 0; k < 50; ++k) { std::string const v{ engabra::projectVersion() }; if (v != WANT) bad = 1; } });
	for (std::thread & t : them) t.join();
	see("after threads", WANT);
	std::printf("%g\n", other(1.));
	return bad;
}
"""


def call(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600, **kw)


def tail(text, n=1500):
    """the telling part of a tool's output: first error onwards, or the end"""
    m = re.search(r"^.*(\berror:|CMake Error).*$", text, re.M) or re.search(r"(?i)^.*\b(not find|FAILED)\b.*$", text, re.M)
    return text[m.start():m.start() + n] if m else text[-n:]


def run(repo, here, bdir, tier, seed):
    res = {"status": 0, "verdict": "holds", "states": 0, "transitions": 0, "traces": 0,
           "distinct_outcomes": 0, "samples": [], "info": {}, "known": {}, "message": "",
           "replay_args": "", "confirm": ""}
    for tool in ("cmake", "ninja", "g++", "clang++"):
        if not shutil.which(tool):
            raise CannotAnswer("no " + tool)
    env = dict(os.environ)
    for name in ("CXX", "CC", "CXXFLAGS", "CFLAGS", "LDFLAGS", "CMAKE_PREFIX_PATH", "CPATH", "DESTDIR"):
        env.pop(name, None)
    version = re.search(r'set\(aProjVersion\s+"([^"]*)"', open(os.path.join(repo, "CMakeLists.txt")).read())
    version = version.group(1) if version else None

    class Broken(Exception):
        pass

    packing = shutil.which("cpack") and shutil.which("dpkg-deb")
    packed = []

    def files(top):
        r = {}
        for at, _, names in os.walk(top):
            for n in names:
                with open(os.path.join(at, n), "rb") as f:
                    r[os.path.relpath(os.path.join(at, n), top)] = f.read()
        return r

    def distribution(what, b, prefix):
        """the distribution package holds what an installation installs, under the version of the project"""
        p = call(["cpack", "-G", "DEB"], env=env, cwd=b)
        made = [n for n in os.listdir(b) if n.endswith(".deb")]
        if p.returncode or len(made) != 1:
            raise Broken("%s makes no distribution package:\n%s" % (what, tail(p.stdout)))
        deb = os.path.join(b, made[0])
        out = os.path.join(b, "unpacked package")
        p = call(["dpkg-deb", "-x", deb, out], env=env)
        if p.returncode:
            raise CannotAnswer("dpkg-deb does not unpack: " + p.stdout[-500:])
        got, want = files(os.path.join(out, prefix.lstrip("/"))), files(prefix)
        for n in sorted(set(got) | set(want)):
            if n not in got or n not in want or got[n] != want[n]:
                raise Broken("%s: %s %s" % (what, n, "is not in the distribution package" if n not in got else "is only in the distribution package"
                                            if n not in want else "differs between the distribution package and an installation"))
        p = call(["dpkg-deb", "-f", deb, "Version"], env=env)
        if version and p.stdout.strip() != version:
            raise Broken("%s: the distribution package calls itself version %s, the project %s" % (what, p.stdout.strip(), version))
        packed.append(len(want))

    def package(k):
        """configure, build, install and move a package; where it is then"""
        cxx, kind = BUILDS[tier][k]
        what = "library built with %s %s" % (cxx, kind or "(no build type)")
        b, first, moved = (os.path.join(bdir, "%s%d" % (n, k)) for n in ("lib", "installed", "moved here "))
        p = call(["cmake", "-S", repo, "-B", b, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=" + cxx, "-DBUILD_TESTING=OFF",
                  "-DCMAKE_BUILD_TYPE=" + kind, "-DCMAKE_INSTALL_PREFIX=" + first,
                  "-DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON"], env=env)
        if p.returncode:
            raise Broken("%s does not configure:\n%s" % (what, tail(p.stdout)))
        for step, cmd in (("build", ["ninja", "-j2", "-C", b, "Engabra"]), ("install", ["cmake", "--install", b])):
            p = call(cmd, env=env)
            if p.returncode:
                raise Broken("%s does not %s:\n%s" % (what, step, tail(p.stdout)))
        if packing and (k == 0 or tier == "thorough"):
            distribution(what, b, first)
        shutil.rmtree(b)
        os.rename(first, moved)
        return moved

    def header(arg):
        """one installed header alone, nothing else in sight"""
        inc, name, cxx = arg
        src = "#include <%s>\n#include <%s>\nint main() { return 0; }\n" % (name, name)
        p = call([cxx, "-std=c++17", "-w", "-x", "c++", "-fsyntax-only", "-I" + inc, "-"], input=src, env=env, cwd=bdir)
        if p.returncode:
            raise Broken("the installed header %s does not compile with %s against the installed package:\n%s"
                         % (name, cxx, tail(p.stdout)))

    def reference(k):
        """what the same program gives in the source tree"""
        d = os.path.join(bdir, "ref%d" % k)
        os.makedirs(d)
        write(d)
        p = call(["g++", "-std=c++17", "-O%d" % k, "-w", "-I" + os.path.join(repo, "include"), "values.cpp", "other.cpp", "-o", "values"],
                 cwd=d, env=env)
        if p.returncode:
            raise Broken("a program of two units does not build in the source tree:\n" + tail(p.stdout))
        return call(["./values"], cwd=d, env=env).stdout

    def write(d, std="17"):
        for name, text in (("CMakeLists.txt", PROJECT % (std, version or "")), ("values.cpp", VALUES), ("other.cpp", OTHER),
                           ("identity.cpp", '#define WANT "%s"\n' % version + IDENTITY)):
            with open(os.path.join(d, name), "w") as f:
                f.write(text)

    def consume(arg):
        k, prefix, j, want = arg
        cxx, std, kind = CONSUMERS[tier][j]
        what = "project with %s -std=c++%s %s on the package of %s %s" % ((cxx, std, kind) + BUILDS[tier][k])
        d = os.path.join(bdir, "use%d_%d" % (k, j))
        os.makedirs(d)
        write(d, std)
        p = call(["cmake", "-S", d, "-B", d + "/b", "-G", "Ninja", "-DCMAKE_CXX_COMPILER=" + cxx, "-DCMAKE_BUILD_TYPE=" + kind,
                  "-DCMAKE_CXX_FLAGS=-w", "-DCMAKE_PREFIX_PATH=" + prefix, "-DCMAKE_FIND_USE_PACKAGE_REGISTRY=OFF"], env=env)
        if p.returncode:
            raise Broken("%s does not configure:\n%s" % (what, tail(p.stdout)))
        if version and "FOUND-VERSION=%s\n" % version not in p.stdout:
            raise Broken("%s finds a version other than %s:\n%s" % (what, version, p.stdout[-500:]))
        if "FOUND-IN=" + prefix not in p.stdout:
            raise CannotAnswer("%s found another Engabra: %s" % (what, p.stdout[-500:]))
        p = call(["ninja", "-j2", "-C", d + "/b"], env=env)
        if p.returncode:
            raise Broken("%s does not build:\n%s" % (what, tail(p.stdout)))
        p = call([d + "/b/values"], env=env)
        got = p.stdout
        if p.returncode or not same(got, want):
            raise Broken("%s computes other values than in the source tree:\n%s" % (what, first_difference(got, want)))
        if version:
            p = call([d + "/b/identity"], env=env)
            if p.returncode:
                raise Broken("%s: the identity of the library is not what it should be (status %d):\n%s" % (what, p.returncode, p.stdout[:800]))
        shutil.rmtree(d)
        return got

    def configure(d, prefix, cxx="g++", *more):
        return call(["cmake", "-S", d, "-B", d + "/b", "-G", "Ninja", "-DCMAKE_CXX_COMPILER=" + cxx, "-DCMAKE_CXX_FLAGS=-w",
                     "-DCMAKE_PREFIX_PATH=" + prefix, "-DCMAKE_FIND_USE_PACKAGE_REGISTRY=OFF", "-Wno-dev"] + list(more), env=env)

    def documented(arg):
        """the documented project with the demonstration program, and that program from the source tree"""
        k, prefix, cxx = arg
        demo = os.path.join(repo, "demo", "helloEngabra.cpp")
        if not os.path.exists(demo):
            return 0
        d = os.path.join(bdir, "doc%d%s" % (k, cxx))
        os.makedirs(d)
        with open(d + "/CMakeLists.txt", "w") as f:
            f.write(DOCUMENTED)
        shutil.copy(demo, d + "/foo.cpp")
        what = "the documented project (%s) with the demonstration program on the package of %s %s" % ((cxx,) + BUILDS[tier][k])
        p = configure(d, prefix, cxx)
        if p.returncode:
            raise Broken("%s does not configure:\n%s" % (what, tail(p.stdout)))
        if version and "Engabra Version: %s\n" % version not in p.stdout:
            raise Broken("%s finds a version other than %s:\n%s" % (what, version, p.stdout[-500:]))
        p = call(["ninja", "-C", d + "/b"], env=env)
        if p.returncode:
            raise Broken("%s does not build:\n%s" % (what, tail(p.stdout)))
        got = call([d + "/b/foo"], env=env)
        p = call(["g++", "-std=c++17", "-w", "-I" + os.path.join(repo, "include"), "foo.cpp", os.path.join(repo, "src", "engabra.cpp"),
                  '-DEngabra_Project_Version="x"', '-DEngabra_Source_Identity="x"', "-o", "there"], cwd=d, env=env)
        if p.returncode:
            raise Broken("the demonstration program does not build in the source tree:\n" + tail(p.stdout))
        want = call(["./there"], cwd=d, env=env)
        if got.returncode or want.returncode or not same(got.stdout, want.stdout):
            raise Broken("%s prints something else than in the source tree (status %d, %d):\n%s"
                         % (what, got.returncode, want.returncode, first_difference(got.stdout, want.stdout)))
        shutil.rmtree(d)
        return 1

    def asked(arg):
        """packages answer for the versions they are compatible with, and for no others"""
        prefix, ask, found = arg
        d = os.path.join(bdir, "ask " + re.sub(r"\W", "_", ask))
        os.makedirs(d)
        with open(d + "/CMakeLists.txt", "w") as f:
            f.write(ASKING % ask)
        p = configure(d, prefix)
        got = re.search(r"ASKED-FOUND=(\S*)", p.stdout)
        if p.returncode or not got:
            raise Broken("a project that asks for version '%s' does not configure:\n%s" % (ask, tail(p.stdout)))
        if (got.group(1) in ("1", "TRUE")) != found:
            raise Broken("a package of version %s %s a project that asks for version '%s'" % (version, "refuses" if found else "offers itself to", ask))
        shutil.rmtree(d)
        return 1

    try:
        with cf.ThreadPoolExecutor(8) as ex:
            refs = [ex.submit(reference, k) for k in (0, 2)]
            prefixes = list(ex.map(package, range(len(BUILDS[tier]))))
            want = refs[0].result()
            if not same(refs[1].result(), want) or len(want) < 5000:
                raise CannotAnswer("the program differs from itself")
            jobs = []
            names = set()
            for n, prefix in enumerate(prefixes):
                inc = os.path.join(prefix, "include", "Engabra")
                if not os.path.isdir(inc):
                    raise Broken("the package has no include/Engabra directory: " + ", ".join(os.listdir(prefix)))
                here_names = sorted(os.listdir(inc))
                if n and set(here_names) != names:
                    raise Broken("packages install different headers: " + " ".join(set(here_names) ^ names))
                names = set(here_names)
            inc = os.path.join(prefixes[0], "include", "Engabra")
            compilers = ("g++", "clang++") if tier == "thorough" else ("g++",)
            uses = [ex.submit(consume, (k, p, j, want)) for k, p in enumerate(prefixes) for j in range(len(CONSUMERS[tier]))]
            heads = [ex.submit(header, (inc, n, c)) for n in sorted(names) for c in compilers]
            docs = [ex.submit(documented, (k, p, c)) for k, p in enumerate(prefixes) for c in ("g++", "clang++")]
            asks = []
            v = re.match(r"(\d+)\.(\d+)\.(\d+)$", version or "")
            if v:
                a, b, c = (int(x) for x in v.groups())
                asks = [(version, True), ("%d.%d" % (a, b), True), ("%d" % a, True), (version + " EXACT", True),
                        ("%d.0" % (a + 1), False), ("%d.%d" % (a, b + 1), False), ("%d.%d.%d" % (a, b, c + 1), False),
                        ("%d.%d.%d EXACT" % (a, b, c + 1), False)] + ([("%d.%d" % (a, b - 1), True)] if b else [])
                asks = [ex.submit(asked, (prefixes[0], q, f)) for q, f in asks]
            outs = set(u.result() for u in uses)
            for h in heads:
                h.result()
            documents = sum(u.result() for u in docs)
            for u in asks:
                u.result()
    except Broken as ex:
        res["status"] = 1
        res["message"] = str(ex)
        return res
    res["states"] = len(prefixes) + len(uses) + len(heads) + documents + len(asks)
    res["transitions"] = 3 * len(prefixes) + 5 * len(uses) + len(heads)
    res["traces"] = 2 * len(uses)
    res["distinct_outcomes"] = len(outs) + len(names)
    res["info"] = {"packages built, installed and moved": len(prefixes), "consumer projects": len(uses),
                   "installed headers": len(names), "headers compiled alone": len(heads),
                   "documented projects with the demonstration program": documents, "versions asked for": len(asks), "lines of values compared per project": want.count("\n")}
    if packed:
        res["states"] += len(packed)
        res["info"]["distribution packages compared with installations"] = len(packed)
    res["samples"] = ["package of %s %s moved, used from %s -std=c++%s %s" % (BUILDS[tier][0] + CONSUMERS[tier][0]),
                      "installed header %s alone" % sorted(names)[3], "identity before any static object, in threads and at exit"]
    for p in prefixes:
        shutil.rmtree(p)
    return res


NUMBER = re.compile(r"[-+]?(?:nan|inf|\d+\.?\d*(?:[eE][-+]?\d+)?)")


def first_difference(got, want):
    for a, b in zip(got.splitlines(), want.splitlines()):
        if not same(a, b):
            return "  here %s\n  there %s" % (a[:400], b[:400])
    return "  %d lines here, %d there" % (got.count("\n"), want.count("\n"))


def same(got, want):
    """equal texts, last digits of the numbers aside"""
    if got == want:
        return True
    a, b = got.splitlines(), want.splitlines()
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != y:
            p, q = NUMBER.findall(x), NUMBER.findall(y)
            if len(p) != len(q) or any(abs(float(m) - float(n)) > 2e-6 for m, n in zip(p, q) if m != n and "nan" not in m + n):
                return False
            if any(("nan" in m) != ("nan" in n) for m, n in zip(p, q)):
                return False
    return True
