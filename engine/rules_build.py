"""The public headers compile and assemble for every advertised architecture, from C and C++ (C29).

Each driver (every operation, ordering primitive, accessor and pool macro) is compiled to an object for each target; the
deciding step is the compiler's and the assembler's own acceptance.  Declarations without a definition in the headers
must be defined with external linkage by the library's sources."""
import json, os, re, subprocess, tempfile
import asmx, cc
from ir import Module
from report import parallel
P = ("C29",)
LANGS = [("gnu11", "c", ["-D_GNU_SOURCE"]), ("c11", "c", []), ("c++11", "c++", ["-D_GNU_SOURCE"]), ("gnu++17", "c++", ["-D_GNU_SOURCE"])]
DRIVERS = ["drv.c", "bar.c", "abi.c", "pool.c", "sig.c"]
STUBBED = {"off_t"}     # declared by the C library's headers only outside strict ISO C mode

def flags(arch, std, lang, defs):
    return ["--target=" + arch.triple, "-nostdlibinc", "-isystem", os.path.join(asmx.DRV, "stubs"), "-I" + cc.REPO + "/include", "-Wno-everything", "-x", lang, "-std=" + std, *defs, *arch.extra]

def classify(err):
    """(True, text) for a defect of the headers, (False, text) when the stand-in C library headers may be to blame"""
    first = None
    for l in err.splitlines():
        m = re.search(r"^(.*?):(\d+):\d+: (?:fatal )?error: (.*)$", l) or re.search(r"^(.*?):(\d+): (?:Error|error): (.*)$", l)
        if not m:
            if "error:" in l: first = first or (False, l)
            continue
        f, ln, t = m.groups(); loc = "%s:%s" % (f.replace(cc.REPO + "/", ""), ln)
        if re.search(r"file not found|unknown target|unable to create target|no such file", t, re.I):
            first = first or (None if "rseq/" in t else False, loc + ": " + t); continue
        u = re.search(r"(?:undeclared (?:function|identifier)|unknown type name|use of undeclared identifier|call to undeclared (?:library )?function|no member named|no type named|unknown class name|implicit declaration of function) '([^']+)'", t)
        if u and not re.match(r"_*(rseq|RSEQ)", u.group(1)) and u.group(1) not in STUBBED and u.group(1) != "asm":
            first = first or (False, loc + ": " + t); continue
        return True, loc + ": " + t
    return first or (False, err[:200])

def build(rep, rule, where, cmd, n):
    r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if r.returncode == 0: rep.ok(P, rule, where, n); return
    e = r.stderr.decode(errors="replace"); k, t = classify(e)
    if k: rep.bad(P, rule, where, t[:400], site=t.split(": ")[0] + " (" + where + ")")
    else: rep.und(P, rule, where, t[:400])

def job(arch, drv):
    def go(rep):
        with tempfile.TemporaryDirectory() as d:
            o = os.path.join(d, "o.o"); src = os.path.join(asmx.DRV, drv)
            for std, lang, defs in LANGS:
                opts = [("-O2", ["-fgnuc-version=14.0.0"], "")]
                if lang == "c" and std == "gnu11": opts += [("-O1", ["-fgnuc-version=14.0.0"], ""), ("-O2", [], "older compiler")]
                if lang == "c" and std == "gnu11" and drv == "drv.c": opts += [("-O2", ["-fgnuc-version=14.0.0", "-DRSEQ_COMPARE_TWICE", "-DDRV_FEW"], "RSEQ_COMPARE_TWICE"), ("-O2", ["-fgnuc-version=14.0.0", "-fPIC"], "PIC")]
                for opt, ex, nm in opts:
                    build(rep, "build", "%s %s %s %s%s" % (arch.name, drv, std, opt, " " + nm if nm else ""), ["clang", *flags(arch, std, lang, defs), opt, *ex, "-c", src, "-o", o], "compiled and assembled")
    return go

def gccjob(bits, drv):
    def go(rep):
        with tempfile.TemporaryDirectory() as d:
            o = os.path.join(d, "o.o"); src = os.path.join(asmx.DRV, drv)
            inc = subprocess.run(["gcc", "-print-file-name=include"], stdout=subprocess.PIPE).stdout.decode().strip()
            for std, lang, defs in LANGS:
                for opt, ex in (("-O2", []), ("-O2", ["-fPIC"]), ("-O2", ["-DRSEQ_COMPARE_TWICE", "-DDRV_FEW"])):
                    if ex and std != "gnu11": continue
                    build(rep, "build-gcc", "%s %s %s %s %s" % ("x86-64" if bits == 64 else "i386", drv, std, opt, " ".join(ex)), ["gcc" if lang == "c" else "g++", "-m%d" % bits, "-nostdinc", *(["-nostdinc++"] if lang != "c" else []), "-isystem", inc, "-isystem", os.path.join(asmx.DRV, "stubs"), "-I" + cc.REPO + "/include", "-w", "-x", lang, "-std=" + std, *defs, opt, *ex, "-c", src, "-o", o], "compiled and assembled (gcc)")
    return go

def headers(arch):
    def go(rep):
        top = sorted(f for f in os.listdir(os.path.join(cc.REPO, "include/rseq")) if f.endswith(".h"))
        for h in top:
            if h in ("pseudocode.h", "arch.h"): continue            # included by rseq.h, not on their own
            for std, lang, defs in LANGS:
                with tempfile.NamedTemporaryFile("w", suffix=".c") as t:
                    t.write("#include <rseq/%s>\n#include <rseq/%s>\n" % (h, h)); t.flush()
                    build(rep, "header", "%s rseq/%s %s" % (arch.name, h, std), ["clang", *flags(arch, std, lang, defs), "-fgnuc-version=14.0.0", "-fsyntax-only", t.name], "builds on its own, twice")
        rep.analysed("%s: %d headers" % (arch.name, len(top)))
    return go

def select(arch):
    """the architecture is recognised and brings its operations"""
    def go(rep):
        r = subprocess.run(["clang", *flags(arch, "gnu11", "c", ["-D_GNU_SOURCE"]), "-fgnuc-version=14.0.0", "-M", os.path.join(asmx.DRV, "drv.c")], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode: return
        inc = set(re.findall(r"rseq/arch/(\w+)(?:\.h|/bits\.h)", r.stdout.decode())) - {"generic", "templates"}
        if inc == {arch.fam}: rep.ok(P, "select", arch.name, "architecture headers of " + arch.fam)
        elif inc and arch.fam not in inc: rep.bad(P, "select", arch.name, "builds with the headers of %s" % ", ".join(sorted(inc)), "include/rseq/arch.h")
        else: rep.und(P, "select", arch.name, "headers %s" % sorted(inc))
    return go

def declared():
    src = "".join("#include <rseq/%s>\n" % h for h in ("rseq.h", "mempool.h"))
    with tempfile.NamedTemporaryFile("w", suffix=".c") as t:
        t.write(src); t.flush()
        r = subprocess.run(["clang", "-D_GNU_SOURCE", "-I" + cc.REPO + "/include", "-Wno-everything", "-fsyntax-only", "-Xclang", "-ast-dump=json", t.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode: return None
    out = {}; cur = [None]
    def upd(l):
        for q in (l.get("spellingLoc", {}), l.get("expansionLoc", {})) if "expansionLoc" in l else (l,):
            if "file" in q: cur[0] = q["file"]
        return cur[0]
    def walk(n):
        """the dump names a file only where it changes: follow every location in order"""
        if not isinstance(n, dict): return
        for k, v in list(n.items()):
            if k == "loc": n["_f"] = upd(v)
            elif k == "range": upd(v.get("begin", {})); upd(v.get("end", {}))
            elif k == "inner":
                for c in v: walk(c)
    for n in json.loads(r.stdout)["inner"]:
        walk(n); f = n.get("_f")
        if n.get("kind") not in ("FunctionDecl", "VarDecl") or not f or "/rseq/" not in f: continue
        if n.get("isImplicit") or n["name"].startswith("__builtin") or n.get("storageClass") == "static" or n.get("inline"): continue
        if any(c.get("kind") == "CompoundStmt" for c in n.get("inner", ())): continue
        out.setdefault(n["name"], f.replace(cc.REPO + "/", ""))
    return out

def exports(rep):
    d = declared()
    if d is None: rep.und(P, "exports", "headers", "not parsed"); return
    have = {}
    for s in sorted(os.listdir(os.path.join(cc.REPO, "src"))):
        if not s.endswith(".c"): continue
        try: txt = cc.emit(os.path.join(cc.REPO, "src", s))
        except cc.CompileError as e: rep.und(P, "exports", s, str(e)[-300:]); return
        for l in txt.splitlines():
            m = re.match(r"define (.*?)@([\w.$]+)\(", l) or re.match(r"@([\w.$]+) = (.*)$", l)
            if not m: continue
            nm, at = (m.group(2), m.group(1)) if l.startswith("define") else (m.group(1), m.group(2)[:80])
            if re.search(r"\b(internal|private|external|available_externally|hidden)\b", at): continue
            have[nm] = s
    rep.analysed("src: %d exported names" % len(have))
    for n, f in sorted(d.items()):
        if n in have: rep.ok(P, "exports", n, "declared in %s, defined in src/%s" % (f, have[n]))
        else: rep.bad(P, "exports", n, "declared in %s but not defined with external linkage in the library" % f, f + " " + n)

def run(rep, m=None):
    js = [job(a, d) for d in DRIVERS for a in asmx.ARCHS] + [gccjob(b, d) for b in (64, 32) for d in DRIVERS] + [headers(a) for a in asmx.ARCHS] + [select(a) for a in asmx.ARCHS] + [exports]
    for a in asmx.ARCHS: rep.analysed(a.name)
    parallel(rep, js)

if __name__ == "__main__":
    from report import Report
    r = Report(); run(r)
    for k, v in r.obl.items():
        if v[1] != "holds": print(v[1], k, v[2][:300])
    print(len(r.obl))
