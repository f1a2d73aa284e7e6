"""Type-level witnesses: claims the compiler's type checker decides.

A unit is a prelude (includes /repo's current headers) and a list of claims:
  (id, text, what)            `text` is a constant expression that must be true
  (id, "{...}", what)         `text` is code that must compile
  (id, "@...", what)          `text` is namespace-scope code that must compile
  (id, "!...", what)          the rest must not compile (and the prelude alone
                              must)
Everything true is established by one compilation; only when that fails are
the claims compiled one by one to name the ones that do not hold."""
import re
from concurrent.futures import ThreadPoolExecutor
import ir


def _compile(name, text, flags=(), pch=None, emit=None):
    import os
    d = ir.scratch()
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(text)
    out = ["-x", "c++-header", "-o", emit] if emit else ["-fsyntax-only"]
    if pch:
        out += ["-include-pch", pch]
    return ir.run([ir.CLANG] + ir.BASE_FLAGS + list(flags) + ["-ferror-limit=0", "-ftemplate-depth=300", "-w"] + out + [p])


def _render(cid, text, n):
    if text.startswith("@"):
        return "namespace witness_ns_%d { %s }\n" % (n, text[1:])
    if text.startswith("{"):
        return "void witness_%d() %s\n" % (n, text)
    return 'static_assert(%s, "W:%s");\n' % (text, cid)


def decide(rep, name, prelude, claims, where, flags=()):
    """Adds one obligation per claim."""
    pos = [(n, c) for n, c in enumerate(claims) if not c[1].startswith("!")]
    negs = [(n, c) for n, c in enumerate(claims) if c[1].startswith("!")]
    import os
    pch = os.path.join(ir.scratch(), name + ".pch")
    base = _compile(name + "-base.h", prelude, flags, emit=pch)
    if base.returncode:
        errs = [l for l in base.stderr.splitlines() if " error: " in l]
        if any("/src/arpc/" in l for l in base.stderr.splitlines()):
            rep.bad(name + ":prelude", "%s: the headers no longer compile for these types: %s" % (where, errs[0][-300:] if errs else ""))
            return
        raise ir.AnalysisError("witness prelude %s: %s" % (name, base.stderr[:1500]))
    failed = {}
    r = _compile(name + ".cpp", "".join(_render(c[0], c[1], n) for n, c in pos), flags, pch)
    if r.returncode:
        def single(nc):
            n, c = nc
            q = _compile("%s-%d.cpp" % (name, n), _render(c[0], c[1], n), flags, pch)
            if q.returncode:
                e = [l for l in q.stderr.splitlines() if "error:" in l]
                return n, (e[0] if e else q.stderr[:200])
            return n, None
        with ThreadPoolExecutor(8) as ex:
            for n, e in ex.map(single, pos):
                if e:
                    failed[n] = e

    def refuted(nc):
        n, c = nc
        q = _compile("%s-%d.cpp" % (name, n), _render(c[0], c[1][1:], n), flags, pch)
        return n, q.returncode
    with ThreadPoolExecutor(8) as ex:
        for n, rc in ex.map(refuted, negs):
            if rc == 0:
                failed[n] = "it compiles"
    for n, c in enumerate(claims):
        w = c[3] if len(c) > 3 else where
        rep.check(n not in failed, c[0], "holds for the type checker: " + c[1][:200],
                  "%s: %s does not hold (%s): %s" % (w, c[2], c[1][:300], re.sub(r"^.*?error: ", "", failed.get(n, ""))[:300]))
