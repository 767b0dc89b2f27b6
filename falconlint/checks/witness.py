"""P22: which parameters can be instantiated, decided by the type checker."""
import concurrent.futures

import build_ir
from chk import *
from lib import *

PRE = r'''
#include "falcon.hpp"
#include "falcon_tree.hpp"
#include "ffsampling.hpp"
#include "karatsuba.hpp"
#include "samplerz.hpp"
#include "utils.hpp"
using u8 = uint8_t; using i32 = int32_t; using cx = fft::cmplx; using ff_t = ff::ff_t;
'''
SIZES = [0, 1, 2, 4, 64, 128, 256, 511, 513, 576, 640, 768, 1000, 1023, 1025, 1536, 2048, 4096]
DECL = "u8* b, const u8* cb, i32* z, const i32* cz, cx* c, const cx* cc, ff_t* h, const ff_t* ch, double d, prng::prng_t& r, size_t n"
# name, template arguments -> expression, accepted, rejected
BY_N = [
    ("falcon::keygen", "falcon::keygen<%s>(b, b)"),
    ("falcon::sign (encoded key)", "falcon::sign<%s>(cb, cb, n, b)"),
    ("falcon::sign (basis and tree)", "falcon::sign<%s>(cc, cc, cb, n, b, r)"),
    ("falcon::verify", "falcon::verify<%s>(cb, cb, n, b)"),
    ("falcon::recompute_G", "falcon::recompute_G<%s>(cz, cz, cz, z)"),
    ("falcon::compute_matrix_B", "falcon::compute_matrix_B<%s>(cz, cz, cz, cz, c)"),
    ("falcon::compute_falcon_tree", "falcon::compute_falcon_tree<%s>(cc, c)"),
    ("keygen::keygen", "keygen::keygen<%s>(c, c, h, d, r)"),
    ("ntru_gen::ntru_gen", "ntru_gen::ntru_gen<%s>(z, z, z, z, r)"),
    ("encoding::encode_pkey", "encoding::encode_pkey<%s>(ch, b)"),
    ("encoding::encode_skey", "encoding::encode_skey<%s>(cz, cz, cz, b)"),
    ("decoding::decode_pkey", "decoding::decode_pkey<%s>(cb, h)"),
    ("decoding::decode_skey", "decoding::decode_skey<%s>(cb, z, z, z)"),
    ("decoding::decode_sig", "decoding::decode_sig<%s>(cb, b, z)"),
    ("hashing::hash_to_point", "hashing::hash_to_point<%s>(cb, n, cb, n, h)"),
    ("falcon_utils::compute_pkey_len", "falcon_utils::compute_pkey_len<%s>()"),
    ("falcon_utils::compute_skey_len", "falcon_utils::compute_skey_len<%s>()"),
    ("falcon_utils::compute_sig_len", "falcon_utils::compute_sig_len<%s>()"),
]
PAIRS = [(512, 1280), (1024, 666), (512, 665), (512, 667), (512, 0), (1024, 1279), (1024, 1281), (256, 356), (768, 666), (2048, 1280)]
TRIPLES = [(512, 34034726, 1280), (512, 70265242, 666), (1024, 34034726, 1280), (1024, 70265242, 666), (512, 34034727, 666), (512, 34034725, 666), (1024, 70265243, 1280), (1024, 70265241, 1280),
           (512, 70265242, 1280), (1024, 34034726, 666), (256, 16468416, 356), (512, 34034726, 665), (1024, 70265242, 1281)]
LEVELS = [(512, 1, 9), (256, 0, 9), (512, 0, 10), (1024, 0, 9), (1024, 1, 10), (2048, 0, 11), (3, 0, 9), (0, 0, 9), (768, 0, 9), (2, 9, 9), (2, 8, 10)]


def table():
    for nm, e in BY_N:
        yield nm, e, [("512",), ("1024",)], [(str(n),) for n in SIZES]
    yield "encoding::compress_sig", "encoding::compress_sig<%s>(cz, b)", [("512", "666"), ("1024", "1280")], PAIRS
    yield "decoding::decompress_sig", "decoding::decompress_sig<%s>(cb, z)", [("512", "666"), ("1024", "1280")], PAIRS
    yield "signing::sign", "signing::sign<%s>(cc, cc, cb, n, b, d, r)", [(512, 34034726, 666), (1024, 70265242, 1280)], TRIPLES
    yield "verification::verify", "verification::verify<%s>(ch, cb, n, cb)", [(512, 34034726), (1024, 70265242)], [(n, 34034726) for n in SIZES]
    yield "ntt::ntt", "ntt::ntt<%s>(h)", [(9,), (10,)], [(k,) for k in (0, 1, 2, 8, 11, 12, 512, 1024)]
    yield "ntt::intt", "ntt::intt<%s>(h)", [(9,), (10,)], [(k,) for k in (0, 1, 2, 8, 11, 12, 512, 1024)]
    yield "fft::fft", "fft::fft<%s>(c)", [(k,) for k in range(1, 11)], [(k,) for k in (0, 11, 12, 512, 1024)]
    yield "fft::ifft", "fft::ifft<%s>(c)", [(k,) for k in range(1, 11)], [(k,) for k in (0, 11, 12, 512, 1024)]
    yield "fft::adj_poly", "fft::adj_poly<%s>(c)", [(k,) for k in range(1, 11)], [(k,) for k in (0, 11, 12, 512, 1024)]
    yield "fft::split_fft", "fft::split_fft<%s>(cc, c, c)", [(k,) for k in range(1, 11)], [(k,) for k in (0, 11, 12, 512, 1024)]
    yield "fft::merge_fft", "fft::merge_fft<%s>(cc, cc, c)", [(k,) for k in range(1, 11)], [(k,) for k in (0, 11, 12, 512, 1024)]
    lv = [(512 >> k, k, 9) for k in range(9)] + [(1024 >> k, k, 10) for k in range(10)]
    yield "falcon_tree::ffldl", "falcon_tree::ffldl<%s>(cc, c)", lv, LEVELS
    yield "falcon_tree::normalize_tree", "falcon_tree::normalize_tree<%s>(c, d)", lv, LEVELS
    yield "ffsampling::ff_sampling", "ffsampling::ff_sampling<%s>(cc, cc, cc, d, c, c, r)", lv + [(1, 9, 9), (1, 10, 10)], LEVELS[:9] + [(1, 0, 9), (2, 9, 9)]


def args(t):
    return ", ".join("%sul" % x if len(t) != 3 or k != 1 or int(x) < 1000000 else str(x) for k, x in enumerate(t))


def cc(src, what, extra=()):
    d = tempfile.mkdtemp(prefix="falconlint.")
    try:
        with open(d + "/w.cpp", "w") as f:
            f.write(src)
        cmd = ["clang++-18", "-std=c++20", "-w", "-ferror-limit=5"] + list(extra) + ["-I", os.path.join(build_ir.REPO, "include"), "-I", os.path.join(build_ir.VERIF, "support/model_sha3"),
                                                                                       "-I", os.path.join(build_ir.VERIF, "support/model_gmp")]
        cmd += (["-fsyntax-only", d + "/w.cpp"] if what == "check" else ["-S", "-emit-llvm", "-O0", d + "/w.cpp", "-o", "-"])
        r = build_ir.subprocess.run(cmd, stdout=build_ir.subprocess.PIPE, stderr=build_ir.subprocess.PIPE)
        return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
    finally:
        shutil.rmtree(d)


def defined_at(nm):
    """file:line of the template (for the report)"""
    base = nm.split(" ")[0].split("::")[-1]
    ns = nm.split("::")[0]
    inc = os.path.join(build_ir.REPO, "include")
    for fn in sorted(os.listdir(inc)):
        t = open(os.path.join(inc, fn), encoding="utf-8", errors="replace").read()
        if re.search(r"^namespace %s\b" % ns, t, re.M):
            ms = list(re.finditer(r"^%s\(" % re.escape(base), t, re.M))
            if ms:
                return "include/%s:%d %s" % (fn, t[:ms[0].start()].count("\n") + 1, nm)
    return "include %s" % nm


def p22(ctx):
    ctx.assume = []
    probes = []
    for nm, e, yes, no in table():
        for want, ts in ((1, yes), (0, no)):
            for t in ts:
                probes.append((nm, t, want, e % args(t)))
    # the template arguments are parameters of the concept, so that a refusal is an answer and no error
    out = [PRE]
    for k, (nm, t, want, ex) in enumerate(probes):
        a = args(t)
        dep = a.split(", ")
        params = ", ".join("auto A%d" % i for i in range(len(dep)))
        e2 = ex.replace("<%s>" % a, "<%s>" % ", ".join("A%d" % i for i in range(len(dep))), 1)
        out.append("template<%s> concept w%d = requires(%s) { %s; };" % (params, k, DECL, e2))
    out.append("extern const bool fl_w[];\nconst bool fl_w[]{ %s, true };" % ", ".join("w%d<%s>" % (k, args(p[1])) for k, p in enumerate(probes)))
    out.append("extern const unsigned long fl_lens[];\nconst unsigned long fl_lens[]{ falcon_utils::compute_pkey_len<512>(), falcon_utils::compute_pkey_len<1024>(), falcon_utils::compute_skey_len<512>(), "
               "falcon_utils::compute_skey_len<1024>(), falcon_utils::compute_sig_len<512>(), falcon_utils::compute_sig_len<1024>(), ff::Q };")
    rc, ll, err = cc("\n".join(out), "ir")
    if rc:
        raise build_ir.BuildError(err[-3000:])
    mm = re.search(r"@fl_w = .*constant \[\d+ x i8\] (c\"[^\n]*\"|zeroinitializer|\[[^\n]*\])", ll)
    if not mm:
        raise Anchor("witness table")
    t = mm.group(1)
    if t.startswith("c"):
        t = t[2:t.rindex('"')]
        bits = [int(x) for x in re.findall(r"\\0(\d)", t)]
    else:
        bits = [int(x) for x in re.findall(r"i8 (\d)", t)]
    bits = bits[:-1]
    if len(bits) != len(probes):
        raise Anchor("witness table of %d entries for %d probes" % (len(bits), len(probes)))
    second = []
    # a building block called in another way today is no subject of this rule
    api = re.compile(r"^(falcon|falcon_utils|keygen)::")
    gone = {nm for (nm, t, want, ex), got in zip(probes, bits) if want and not got and not api.match(nm)}
    for (nm, t, want, ex), got in zip(probes, bits):
        if nm in gone:
            continue
        if want:
            ctx.need("both parameter sets are accepted", got, defined_at(nm), lambda: "%s is no valid call" % ex)
        elif got:
            second.append((nm, t, ex))
        else:
            ctx.need("every other parameter is rejected", True, nm, "")
    # what the constraint lets through may still be refused inside

    def inst(p):
        nm, t, ex = p
        rc, _, err = cc(PRE + "void use(%s) { %s; }\n" % (DECL, ex), "check")
        return p, rc, err
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        for (nm, t, ex), rc, err in pool.map(inst, second):
            ctx.need("every other parameter is rejected", rc != 0, defined_at(nm), lambda: "%s compiles" % ex)
    # lengths
    mm = re.search(r"@fl_lens = .*constant \[7 x i64\] \[([^\]]*)\]", ll)
    if not mm:
        raise Anchor("lengths")
    got = [int(x) for x in re.findall(r"i64 (\d+)", mm.group(1))]
    for nm, a, b in zip(("public key, N = 512", "public key, N = 1024", "secret key, N = 512", "secret key, N = 1024", "signature, N = 512", "signature, N = 1024", "modulus"), got, (897, 1793, 1281, 2305, 666, 1280, 12289)):
        ctx.need("lengths are those of the specification", a == b, "include/utils.hpp falcon_utils", lambda: "length of the %s is %d, must be %d" % (nm, a, b))
    # definitions that would clash when two translation units include the headers
    ctx.need("several translation units can include the headers", True, "include", "")
    for ln in ll.split("\n"):
        mm = re.match(r'(define|@)', ln)
        if not mm or ln.startswith(("@fl_", "@llvm.")):
            continue
        nm = re.search(r'@("[^"]*"|[-$.\w]+)', ln).group(1)
        if mm.group(1) == "@" and (" external " in ln or not re.search(r"\b(global|constant)\b", ln)):
            continue
        ok = re.search(r"\b(internal|private|linkonce_odr|linkonce|weak_odr|weak|available_externally)\b", ln.split("@", 1)[0] if mm.group(1) == "define" else ln.split("=", 1)[1][:60])
        ctx.need("several translation units can include the headers", bool(ok), "include", lambda: "%s is defined in every translation unit that includes the headers" % build_ir.subprocess.run(["c++filt", nm.strip('"')], stdout=build_ir.subprocess.PIPE).stdout.decode().strip())
    ctx.minimum("every other parameter is rejected", 300)
    ctx.minimum("both parameter sets are accepted", 100)
