"""/repo's current source -> LLVM IR (clang, no optimisation, then SROA).

std:: and gmpxx wrapper functions are inlined (always-inline), so that the IR
functions that remain are falcon's own; nothing else is transformed."""
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("FALCON_REPO", "/repo")


class BuildError(Exception):
    pass


FLAGS = ["-std=c++20", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-exceptions", "-Xclang", "-fignore-exceptions",
         "-gline-tables-only", "-fno-discard-value-names"]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd)[:200], r.stderr.decode("utf-8", "replace")[-3000:]))
    return r.stdout


def plain_find(outdir):
    """a copy of the standard library's header in which std::find_if (and with it all_of, any_of,
    none_of, find) is its plain loop for every kind of iterator: the one unrolled by four
    computes the same, in a form that is harder to analyse"""
    pre = run(["clang++-18", "-std=c++20", "-E", "-x", "c++", "-"], input=b"#include <bits/stl_algobase.h>\n").decode("utf-8", "replace")
    m = re.search(r'^# \d+ "([^"]*/bits/stl_algobase\.h)"', pre, re.M)
    if not m:
        return []
    txt = open(m.group(1), encoding="utf-8").read()
    new, n = re.subn(r"(return __find_if\(__first, __last, __pred,\s*)std::__iterator_category\(__first\)\)", r"\1std::input_iterator_tag())", txt)
    if n != 1:
        return []
    d = os.path.join(outdir, "std")
    os.makedirs(os.path.join(d, "bits"), exist_ok=True)
    with open(os.path.join(d, "bits/stl_algobase.h"), "w", encoding="utf-8") as f:
        f.write(new)
    return ["-I", d]


def build(outdir, source=None, tag="unit", extra=()):
    src = source or os.path.join(HERE, "driver.cpp")
    a = os.path.join(outdir, tag + ".a.ll")
    b = os.path.join(outdir, tag + ".ll")
    run(["clang++-18"] + FLAGS + plain_find(outdir) + list(extra) + ["-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "support/model_sha3"), "-I", os.path.join(VERIF, "support/model_gmp"), "-S", "-emit-llvm",
         src, "-o", a])
    txt = open(a, encoding="utf-8", errors="surrogateescape").read()

    # add the attribute right after the parameter list:  define ... @name(...) 
    out = []
    for ln in txt.split("\n"):
        if ln.startswith("define "):
            m = re.search(r'(@)("[^"]*"|[-$.\w]+)\(', ln)
            name = m.group(2).strip('"')
            inl = re.match(r"_Z(NK?St|St)", name) or ("__gmp" in name and not re.search(r"\d(ntru_gen|karatsuba|falcon|keygen)[L0-9]", name))
            if inl:
                k = re.search(r"\)( unnamed_addr| local_unnamed_addr)? #\d+", ln)
                if k:
                    p = k.end()
                    ln = ln[:p] + " alwaysinline" + ln[p:]
        elif ln.startswith("attributes #"):
            ln = ln.replace(" noinline ", " ")
        out.append(ln)
    with open(a, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write("\n".join(out))
    run(["opt", "-passes=always-inline,function(sroa,loop-simplify,lcssa)", "-S", a, "-o", b])
    os.unlink(a)
    return b


if __name__ == "__main__":
    print(build(sys.argv[1]))
