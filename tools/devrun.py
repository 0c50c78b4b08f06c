#!/usr/bin/env python3
"""devrun.py PROP: check.py with TLC's answers kept in $VERIF_DEVCACHE (development only: tools/mutants.py runs the
same check on hundreds of changed trees, and most TLC runs do not depend on the code). Registered commands never use it."""
import hashlib, os, pickle, re, sys, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from mbv import core
CACHE = os.environ["VERIF_DEVCACHE"]
os.makedirs(CACHE, exist_ok=True)


def specs(path, seen):
    """The texts of the specifications a module extends."""
    out = b""
    for m in re.findall(r"\w+", " ".join(re.findall(r"^(?:EXTENDS|INSTANCE)\s+(.*)$", open(path).read(), re.M))):
        q = os.path.join(core.SPEC, m + ".tla")
        if m not in seen and os.path.exists(q):
            seen.add(m)
            out += open(q, "rb").read() + specs(q, seen)
    return out


real = core.Ctx.tlc


def tlc(self, module, cfg, workers=1, env=None, timeout=600, extra=(), heap="4g", simulate=None):
    h = hashlib.sha256(specs(module, set()))
    stem = os.path.basename(module)[:-4]
    txt = lambda p: open(p).read().replace(stem, "STEM")
    h.update(txt(module).encode())
    h.update(txt(cfg).encode())
    h.update(repr(list(extra)).encode())
    for k, v in sorted((env or {}).items()):
        h.update(k.encode())
        h.update(open(v, "rb").read() if os.path.exists(v) else v.encode())
    p = os.path.join(CACHE, h.hexdigest())
    if os.path.exists(p):
        try:
            return pickle.loads(zlib.decompress(open(p, "rb").read()))
        except Exception:
            pass
    r = real(self, module, cfg, workers, env, timeout, extra, heap, simulate)
    if r[0] == 0 or "MATCHED" in r[1]:
        t = p + ".%d" % os.getpid()
        open(t, "wb").write(zlib.compress(pickle.dumps(r), 1))
        os.rename(t, p)
    return r


core.Ctx.tlc = tlc
import check
sys.exit(check.main())
