"""C27: the headers can be used in any translation unit, in any order, any number of times.

Explored: every public header on its own (twice in a row, g++ and clang++),
ordered pairs of headers, the contexts from which operators can be used, the
complete table of kind predicates, and programs of several translation units.
"""
import concurrent.futures as cf
import os, re
import subprocess


class CannotAnswer(Exception):
    pass


KINDS = ["Scalar", "Vector", "BiVector", "TriVector", "Spinor", "ImSpin", "ComPlex", "DirPlex", "MultiVector"]
BLADES = KINDS[:4]
# pairs of kinds with a sum and a difference
ADD = {
    "Scalar": "Scalar BiVector TriVector Spinor ComPlex MultiVector",
    "Vector": "Vector BiVector TriVector ImSpin DirPlex MultiVector",
    "BiVector": "Scalar Vector BiVector Spinor DirPlex MultiVector",
    "TriVector": "Scalar Vector TriVector ImSpin ComPlex MultiVector",
    "Spinor": "Scalar BiVector Spinor ImSpin MultiVector",
    "ImSpin": "Vector TriVector Spinor ImSpin MultiVector",
    "ComPlex": "Scalar TriVector ComPlex DirPlex MultiVector",
    "DirPlex": "Vector BiVector ComPlex DirPlex MultiVector",
    "MultiVector": "Scalar Vector BiVector TriVector Spinor ImSpin ComPlex DirPlex MultiVector",
}


def body():
    """all arithmetic expressions, each an unqualified use of an operator"""
    out = ["namespace E = engabra::g3;"]
    for k in KINDS:
        out.append("inline void take%s(E::%s const & a, E::%s const & b, double s) {" % (k, k, k))
        out.append("  auto n = -a; auto l = s * a; auto r = a * s; (void)n; (void)l; (void)r; (void)b;")
        for o in KINDS:
            out.append("  { E::%s c{}; auto p = a * c; auto q = c * a; (void)p; (void)q;%s }" % (
                o, " auto u = a + c; auto v = a - c; (void)u; (void)v;" if o in ADD[k].split() else ""))
        out.append("}")
    return "\n".join(out)


def contexts():
    b = body()
    own = ("struct Mine {}; Mine operator+(Mine, Mine); Mine operator-(Mine, Mine); Mine operator-(Mine);"
           " Mine operator*(Mine, Mine); std::ostream & operator<<(std::ostream &, Mine);\n")
    return [
        ("global namespace", "#include \"engabra.hpp\"\n" + b),
        ("another namespace", "#include \"engabra.hpp\"\nnamespace app { namespace deep {\n" + b + "\n} }"),
        ("a namespace with operators of its own", "#include \"engabra.hpp\"\nnamespace app {\n" + own + b + "\n}"),
        ("a namespace using engabra", "#include \"engabra.hpp\"\nnamespace app { using namespace engabra;\n" + b + "\n}"),
        ("using namespace engabra::g3", "#include \"engabra.hpp\"\nusing namespace engabra::g3;\n" + b),
        ("the alternative main header", "#include \"Engabra\"\n" + b),
        ("only the operator headers", "#include \"g3ops.hpp\"\n" + b),
        ("streams in the global namespace", "#include \"engabra.hpp\"\n" + "\n".join(
            "void put%s(std::ostream & o, std::istream & i) { engabra::g3::%s x{}; o << x; i >> x; }" % (k, k) for k in KINDS)),
    ]


def promises():
    """what one header alone provides, used inside the library's namespace"""
    pre = "namespace E = engabra::g3;\nusing namespace engabra::g3;\n"

    def binary(op, pairs):
        return "\n".join("inline auto f%s%s(E::%s const & a, E::%s const & b) { return a %s b; }" % (a, b, a, b, op)
                         for a, b in pairs)

    def each(text):
        return "\n".join("inline void f%s(E::%s const & a) { (void)a; %s }" % (k, k, text.replace("KIND", "E::" + k)) for k in KINDS)
    sums = [(a, b) for a in KINDS for b in ADD[a].split()]
    prods = [(a, b) for a in KINDS for b in KINDS]
    scale = each("auto r = 2. * a; auto l = a * 2.; (void)r; (void)l;").replace("void f", "void g")
    uni = each("auto n = -a; auto r = reverse(a); auto d = dirverse(a); auto o = oddverse(a); auto u = dual(a);"
               " (void)n; (void)r; (void)d; (void)o; (void)u;")
    valid = each("bool b = isValid(a); auto n = null<KIND>(); (void)b; (void)n;")
    near = each("bool b = nearlyEquals(a, a); bool c = nearlyEquals(a, a, 1e-9); (void)b; (void)c;")
    func = each("double m = magSq(a) + magnitude(a); auto q = ampSq(a); auto p = amplitude(a); auto d = direction(a);"
                " auto e = pairMagDirFrom(a); (void)m; (void)q; (void)p; (void)d; (void)e;")
    special = ("inline void special(E::Spinor s, E::MultiVector m, E::Vector v) { auto a = exp(s); auto b = exp(s.theBiv);"
               " auto c = exp(m); auto d = logG2(s); auto e = sqrtG2(s); auto f = inverse(v); auto g = sq(s); auto h = cube(m);"
               " (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; (void)h; }")
    text = "\n".join("inline void t%s(std::ostream & o, std::istream & i) { E::%s x{}; o << x; i >> x; %s }" % (
        k, k, "" if k in ("ComPlex", "DirPlex") else "o << io::fixed(x) << io::enote(x);") for k in KINDS)
    values = (pre + "static double const a[] = { E::pi, E::piHalf, E::piQtr, E::turnFull, E::turnHalf, E::turnQtr };\n"
              "static auto const v = E::e1; static auto const b = E::e12; static auto const t = E::e123; static auto const s = E::e0;")
    # operators named in the global namespace
    published = "namespace E = engabra::g3;\n" + "\n".join(
        ["inline void p%s(E::%s const & a) { auto n = ::operator-(a); auto s = ::operator+(a, a); auto d = ::operator-(a, a);"
         " (void)n; (void)s; (void)d; }" % (k, k) for k in KINDS]
        + ["inline auto p%s%s(E::%s const & a, E::%s const & b) { return ::operator*(a, b); }" % (a, b, a, b) for a in KINDS for b in KINDS]
        + ["inline auto p%s(E::%s const & a, double b) { return ::operator*(a, b); }" % (a, a) for a in KINDS]
        + ["inline auto p%s(double a, E::%s const & b) { return ::operator*(a, b); }" % (b, b) for b in KINDS])
    return [
        ("sums", "g3opsAdd.hpp", pre + binary("+", sums)),
        ("differences", "g3opsSub.hpp", pre + binary("-", sums)),
        ("products", "g3opsMul.hpp", pre + binary("*", prods) + "\n" + scale),
        ("unary operations", "g3opsUni.hpp", pre + uni),
        ("sums", "g3ops.hpp", pre + binary("+", sums)),
        ("differences", "g3ops.hpp", pre + binary("-", sums)),
        ("products", "g3ops.hpp", pre + binary("*", prods) + "\n" + scale),
        ("unary operations", "g3ops.hpp", pre + uni),
        ("validity", "g3validity.hpp", pre + valid),
        ("comparison", "g3compare.hpp", pre + near),
        ("functions", "g3func.hpp", pre + func + "\n" + special),
        ("text operations", "g3io.hpp", pre + text),
        ("constants", "g3const.hpp", values),
        ("published operators", "g3publish.hpp", published),
    ]


def user_names():
    """a program with names of its own: those of Engabra live in its namespaces, but for the operators"""
    types = KINDS + ["string", "vector", "array", "complex", "pair"]
    values = ["e0", "e1", "e2", "e3", "e23", "e31", "e12", "e123", "pi", "piHalf", "piQtr", "turnFull", "turnHalf", "turnQtr",
              "cout", "endl", "numeric_limits"]
    funcs = ["null", "zero", "one", "isValid", "bothAreValid", "isSmall", "isSmallAbs", "nearlyEquals", "magnitude", "magSq",
             "pairMagDirFrom", "direction", "inverse", "amplitude", "ampSq", "reverse", "oddverse", "dirverse", "dual", "sq",
             "cube", "logG2", "sqrtG2", "fixed", "enote", "put", "prodComm", "prodAnti", "swap", "transform", "projectVersion"]
    text = "\n".join(["struct %s { int own; };" % t for t in types] + ["int %s = 1;" % v for v in values]
                     + ["inline int %s(int x) { return x; }" % f for f in funcs]
                     + ["namespace io { int own; } namespace is { int own; } namespace priv { int own; } namespace g3 { int own; }"])
    use = "inline int useOwn() { int r = io::own + is::own + priv::own + g3::own; " + "".join("r += %s{ 1 }.own; " % t for t in types) \
        + "".join("r += %s; " % v for v in values) + "".join("r += %s(1); " % f for f in funcs) + "return r; }"
    layout = ("struct Laid { char c; double d; }; static_assert(sizeof(Laid) == 2 * alignof(double) && alignof(Laid) == alignof(double), \"layout\");\n"
              "#if defined(__FAST_MATH__)\n#error floating point mode changed\n#endif\n")
    return text, use, layout


def macros(repo_inc, cc, header, bdir, n):
    """names the header leaves in, or takes from, the preprocessor"""
    src = os.path.join(bdir, "m%d.cpp" % n)
    open(src, "w").write('#include "%s"\n' % header)
    p = subprocess.run([cc] + FLAGS + ["-I" + repo_inc, "-E", "-dD", src], capture_output=True, text=True)
    if p.returncode:
        return "does not preprocess: " + p.stderr[:500]
    here, own = False, set()
    for line in p.stdout.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', line)
        if m:
            here = os.path.realpath(m.group(1)).startswith(os.path.realpath(repo_inc) + os.sep)
        elif here:
            m = re.match(r"#(define|undef) (\w+)", line)
            if m and m.group(1) == "define":
                own.add(m.group(2))
            elif m and m.group(2) in own:
                own.discard(m.group(2))
            elif m:
                return "the macro %s is taken away" % m.group(2)
    for name in sorted(own):
        if not re.search("engabra|g3|_INCL|_HPP|_H_?$", name, re.I):
            return "the macro %s is left defined" % name
    return ""


def predicates():
    """every predicate on every type: true exactly for its own kind(s)"""
    types = ["engabra::g3::" + k for k in KINDS] + ["double", "int", "void", "std::string", "Foo",
             "engabra::g3::Vector const", "engabra::g3::Vector &", "engabra::g3::Vector *", "std::array<double, 3>"]
    lines = ["#include \"engabra.hpp\"", "#include <cstdio>", "struct Foo {};", "int main() {", "int bad = 0;"]
    n = 0
    for p in ["blade"] + KINDS:
        for t in types:
            true = (p == "blade" and t in ["engabra::g3::" + b for b in BLADES]) or t == "engabra::g3::" + p
            lines.append("if (engabra::g3::is::%s<%s>::value != %s) { std::printf(\"is::%s<%s> is not %s\\n\"); bad = 1; }" % (
                p, t, str(true).lower(), p, t, str(true).lower()))
            n += 1
    lines.append("return bad; }")
    return "\n".join(lines), n


UNIT = """
#include "engabra.hpp"
namespace engabra { extern std::string projectVersion(); extern std::string sourceIdentity(); }
double use%d(double s)
{
    using namespace engabra::g3;
    MultiVector m(Vector{ s, 2., 3. });
    m = m + s * e123;
    m[5] = 2.;
    std::ostringstream o;
    o << m << io::fixed(m) << io::enote(m);
    std::istringstream i(o.str());
    i >> m;
    Spinor const q(exp(BiVector{ .1, .2, s * .01 }));
    double r(magnitude(m * m) + magnitude(q) + (isValid(m) ? 1. : 0.) + (nearlyEquals(q, q) ? 1. : 0.));
    r += magnitude(logG2(q)) + magnitude(sqrtG2(q)) + magnitude(exp(m * .01)) + magnitude(inverse(e1 + e2)) + magnitude(direction(m));
    r += ampSq(m).theSca[0] + amplitude(m).theSca[0] + pairMagDirFrom(m).first + magnitude(dual(reverse(oddverse(dirverse(m)))));
    r += null<Vector>()[0] != null<Vector>()[0] ? 1. : 0.;
    r += zero<MultiVector>()[0] + one<Spinor>()[0] + std::complex<double>(ComPlex::from({ 1., s })).real();
    r += double(engabra::projectVersion().size() + engabra::sourceIdentity().size());
    r += sq(s) + cube(m * .1)[0];
    return r;
}
"""
MAIN = """
#include <cmath>
#include <cstdio>
double use0(double); double use1(double); double use2(double);
int main()
{
    for (double s = -4.; s < 5.; s += .5)
    {
        double const a(use0(s)), b(use1(s)), c(use2(s));
        if (! (std::fabs(a - b) <= 1e-9 * std::fabs(a) && std::fabs(b - c) <= 1e-9 * std::fabs(a))) { std::printf("the translation units disagree at %g: %.17g %.17g %.17g\\n", s, a, b, c); return 1; }
    }
    std::puts("agree");
    return 0;
}
"""
FLAGS = ["-std=c++17", "-w", "-DEngabra_Project_Version=\"v\"", "-DEngabra_Source_Identity=\"s\""]


def run(repo, here, bdir, tier, seed):
    inc = os.path.join(repo, "include")
    headers = sorted(h for h in os.listdir(inc) if (h.endswith(".hpp") and h != "_.hpp") or h == "Engabra")
    res = {"status": 0, "verdict": "holds", "states": 0, "transitions": 0, "traces": 0,
           "distinct_outcomes": 0, "samples": [], "info": {}, "known": {}, "message": "",
           "replay_args": "", "confirm": ""}
    probe = os.path.join(bdir, "probe.cpp")
    open(probe, "w").write("#include <string>\nint main() { return 0; }\n")
    for cc in ("g++", "clang++"):
        if subprocess.run([cc, "-std=c++17", "-fsyntax-only", probe], capture_output=True).returncode:
            raise CannotAnswer(cc + " does not work")
    jobs = []

    def add(what, text, cc="g++", extra=()):
        src = os.path.join(bdir, "u%d.cpp" % len(jobs))
        open(src, "w").write(text)
        jobs.append((what, [cc] + FLAGS + list(extra) + ["-I" + inc, "-fsyntax-only", src]))

    own, use, layout = user_names()
    for h in headers:
        for cc in ("g++", "clang++"):
            add("header %s alone, included twice (%s)" % (h, cc), '#include "%s"\n#include "%s"\n' % (h, h) + layout, cc)
    add("all headers in order", "".join('#include "%s"\n' % h for h in headers))
    add("all headers in reverse order", "".join('#include "%s"\n' % h for h in reversed(headers)))
    add("all headers, C++20", "".join('#include "%s"\n' % h for h in headers), "g++", ["-std=c++20"])
    add("all headers, as the project is compiled", "".join('#include "%s"\n' % h for h in headers), "g++",
        ["-fno-operator-names", "-fstrict-enums", "-pedantic-errors"])
    if tier == "thorough":
        for a in headers:
            for b in headers:
                if a != b:
                    add("header %s before %s" % (a, b), '#include "%s"\n#include "%s"\n' % (a, b))
    else:
        step = list(headers)
        for a, b in list(zip(step, step[1:])):
            add("header %s before %s" % (b, a), '#include "%s"\n#include "%s"\n' % (b, a))
    for cc in ("g++", "clang++"):
        add("a program with names of its own, before it includes the headers (%s)" % cc, own + '\n#include "engabra.hpp"\n' + use, cc)
        add("a program with names of its own, after it includes the headers (%s)" % cc, '#include "engabra.hpp"\n' + own + "\n" + use, cc)
    nh = len(jobs)
    for name, text in contexts():
        for cc in ("g++", "clang++"):
            add("operators from %s (%s)" % (name, cc), text, cc)
    for name, h, text in promises():
        for cc in ("g++", "clang++"):
            add("%s with the header %s alone (%s)" % (name, h, cc), '#include "%s"\n' % h + text, cc)
        # and with any other header before it
        for o in headers:
            if o != h and (tier == "thorough" or o[:3] != "g3o" or "_" not in o):
                add("%s with the header %s after %s" % (name, h, o), '#include "%s"\n#include "%s"\n' % (o, h) + text)
    nc = len(jobs) - nh

    def compile_one(job):
        p = subprocess.run(job[1], capture_output=True, text=True)
        return job, p.returncode, p.stderr

    with cf.ThreadPoolExecutor(8) as ex:
        done = list(ex.map(compile_one, jobs))
    res["states"] += len(jobs)
    res["transitions"] += len(jobs)
    for job, rc, err in done:
        if rc:
            res["status"] = 1
            res["message"] = "does not compile: %s\n%s\n(%s)" % (job[0], err[:1500], " ".join(job[1]))
            return res
    with cf.ThreadPoolExecutor(8) as ex:
        which = [(h, cc) for h in headers for cc in ("g++", "clang++")]
        left = list(ex.map(lambda x: macros(inc, x[1][1], x[1][0], bdir, x[0]), enumerate(which)))
    res["states"] += len(which)
    res["transitions"] += len(which)
    for (h, cc), what in zip(which, left):
        if what:
            res["status"] = 1
            res["message"] = "the header %s (%s): %s" % (h, cc, what)
            return res
    # programs
    text, n = predicates()
    open(os.path.join(bdir, "pred.cpp"), "w").write(text)
    for k in range(3):
        open(os.path.join(bdir, "unit%d.cpp" % k), "w").write(UNIT % k)
    open(os.path.join(bdir, "main.cpp"), "w").write(MAIN)
    cmds = [["g++"] + FLAGS + ["-I" + inc, os.path.join(bdir, "pred.cpp"), "-o", os.path.join(bdir, "pred")]]
    objs = []
    for k in range(3):
        # every unit with its own settings and compiler: they must still fit
        cc = ["g++ -O0", "g++ -O2", "clang++ -O1"][k].split()
        objs.append(os.path.join(bdir, "unit%d.o" % k))
        cmds.append(cc + FLAGS + ["-I" + inc, "-c", os.path.join(bdir, "unit%d.cpp" % k), "-o", objs[-1]])
    srcdir = os.path.join(repo, "src")
    for s in sorted(os.listdir(srcdir)):
        if s.endswith(".cpp"):
            objs.append(os.path.join(bdir, "lib_" + s + ".o"))
            cmds.append(["g++"] + FLAGS + ["-I" + inc, "-I" + srcdir, "-c", os.path.join(srcdir, s), "-o", objs[-1]])
    objs.append(os.path.join(bdir, "main.o"))
    cmds.append(["g++"] + FLAGS + ["-c", os.path.join(bdir, "main.cpp"), "-o", objs[-1]])
    with cf.ThreadPoolExecutor(8) as ex:
        done = list(ex.map(compile_one, [("a program of several translation units", c) for c in cmds]))
    for job, rc, err in done:
        if rc:
            res["status"] = 1
            res["message"] = "does not compile: %s\n%s" % (" ".join(job[1]), err[:1500])
            return res
    p = subprocess.run([os.path.join(bdir, "pred")], capture_output=True, text=True)
    res["transitions"] += n
    res["states"] += n
    if p.returncode:
        res["status"] = 1
        res["message"] = "kind predicate: " + p.stdout
        return res
    orders = [objs, list(reversed(objs))]
    for k, o in enumerate(orders):
        exe = os.path.join(bdir, "several%d" % k)
        p = subprocess.run(["g++"] + o + ["-o", exe], capture_output=True, text=True)
        res["states"] += 1
        if p.returncode:
            res["status"] = 1
            res["message"] = "a program of several translation units does not link:\n" + p.stderr[:1500]
            return res
        p = subprocess.run([exe], capture_output=True, text=True)
        res["transitions"] += 3 * 18
        res["traces"] += 18
        if p.returncode:
            res["status"] = 1
            res["message"] = "a program of several translation units: " + p.stdout[:500]
            return res
    res["info"] = {"public headers": len(headers), "translation units of headers": nh,
                   "translation units of operator contexts": nc, "predicate evaluations": n,
                   "linked programs": len(orders)}
    res["distinct_outcomes"] = len({j[0] for j in jobs})
    res["samples"] = [jobs[3][0], jobs[nh - 1][0], jobs[nh][0]]
    return res
