"""Front end: compiles every translation unit of the current /repo tree to
LLVM IR (real build flags, -O0, debug info, mem2reg only) in a scratch
directory.  Nothing of the analysed program is ever executed."""
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis itself cannot be carried out (exit code 2)."""


def _var(text, name):
    m = re.search(r"^%s\s*=\s*((?:.*\\\n)*.*)$" % re.escape(name), text, re.M)
    return m.group(1).replace("\\\n", " ").split() if m else []


def sources():
    """(library sources, program sources) read from Makefile.am."""
    mk = open(os.path.join(REPO, "Makefile.am")).read()
    lib = []
    todo = _var(mk, "libcloog_isl_la_SOURCES")
    while todo:
        w = todo.pop(0)
        m = re.match(r"\$\((\w+)\)$", w)
        if m:
            if m.group(1) != "GET_MEMORY_FUNCTIONS":
                todo = _var(mk, m.group(1)) + todo
        elif w.endswith(".c"):
            lib.append(w)
    prog = [w for w in _var(mk, "cloog_SOURCES") if w.endswith(".c")]
    if len(lib) < 15 or not prog:
        raise AnalysisError("source lists of Makefile.am not understood")
    return lib, prog


def _subst(src, dst, table):
    t = open(src).read()
    for k, v in table.items():
        t = t.replace("@%s@" % k, v)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    open(dst, "w").write(t)


class Build:
    """Scratch directory holding the IR of the tree."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="cloogsa.")
        self.units = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def prepare(self):
        d = self.dir
        ver = "0.0.0"
        m = re.search(r"AC_INIT\(\[?[\w-]+\]?\s*,\s*\[?([\d.]+)", open(REPO + "/configure.ac").read())
        if m:
            ver = m.group(1)
        parts = (ver.split(".") + ["0", "0"])[:3]
        tbl = {"CLOOG_INT_CONFIGURE": "CLOOG_INT_GMP",
               "VERSION_MAJOR": parts[0], "VERSION_MINOR": parts[1],
               "VERSION_REVISION": parts[2]}
        _subst(REPO + "/include/cloog/int.h.in", d + "/include/cloog/int.h", tbl)
        _subst(REPO + "/include/cloog/version.h.in", d + "/include/cloog/version.h", tbl)
        open(d + "/version.h", "w").write('#define CLOOG_HEAD "%s-sa"\n' % ver)
        gen = REPO + "/source/version.c.in"
        if os.path.exists(gen):
            _subst(gen, d + "/source/version.c", tbl)
        self.flags = ["-std=gnu11", "-w", "-I" + d, "-I" + d + "/include",
                      "-I" + REPO + "/include", "-DISL_USING_GMP_VAL=1",
                      "-DCLOOG_RUSAGE=", "-DHAVE_GETRUSAGE=1", "-DHAVE_STRTOL=1",
                      "-DHAVE_DECL_MP_GET_MEMORY_FUNCTIONS=1", '-DPACKAGE="cloog"',
                      '-DPACKAGE_NAME="cloog"', '-DVERSION="%s"' % ver,
                      '-DPACKAGE_VERSION="%s"' % ver]

    def path_of(self, rel):
        p = os.path.join(REPO, rel)
        if os.path.exists(p):
            return p
        p = os.path.join(self.dir, rel)
        if os.path.exists(p):
            return p
        raise AnalysisError("source %s not found" % rel)

    def compile_one(self, rel):
        src = self.path_of(rel)
        out = os.path.join(self.dir, rel.replace("/", "_")[:-2])
        r = subprocess.run(["clang", "-O0", "-Xclang", "-disable-O0-optnone",
                            "-fno-discard-value-names", "-femit-all-decls", "-g", "-S", "-emit-llvm",
                            *self.flags, src, "-o", out + ".0.ll"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisError("clang failed on %s:\n%s" % (rel, r.stdout))
        r = subprocess.run(["opt", "-S", "-passes=mem2reg", out + ".0.ll", "-o", out + ".ll"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisError("opt failed on %s:\n%s" % (rel, r.stdout))
        os.unlink(out + ".0.ll")
        return rel, out + ".ll"

    def compile(self):
        self.prepare()
        lib, prog = sources()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for rel, ll in ex.map(self.compile_one, lib + prog):
                self.units[rel] = ll
        self.lib, self.prog = lib, prog
        return self.units

    def preprocess(self, text, extra=()):
        r = subprocess.run(["clang", "-E", "-P", "-x", "c", *self.flags, *extra, "-"],
                           input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise AnalysisError("preprocessing failed:\n" + r.stderr)
        return r.stdout
