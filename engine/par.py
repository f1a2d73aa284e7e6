"""Runs independent obligations on all cores (fork: the analysed program is shared)."""
import multiprocessing as mp
import os
from ir import AnalysisError, Splits

_fn = None


class Sub:
    """Collects what a worker reports."""

    def __init__(self):
        self.out = []

    def ok(self, oid, detail=""):
        self.out.append((oid, True, detail))

    def bad(self, key, message):
        self.out.append((key, False, message))

    def check(self, cond, key, okdetail, badmessage):
        if cond:
            self.ok(key, okdetail)
        else:
            self.bad(key, badmessage)
        return cond

    def require(self, n, what, found):
        if found < n:
            raise AnalysisError("only %d instances of '%s' found (at least %d expected): the analysis is broken" % (found, what, n))


def _one(item):
    s = Sub()
    try:
        _fn(s, item)
    except Splits as e:
        s.bad("undetermined:%s" % (item,), "%s: the outcome depends on a value that nothing determines: %s" % (item, e))
    except AnalysisError as e:
        return s.out, str(e)
    return s.out, None


def each(rep, fn, items):
    """fn(sub, item) for every item; results go to rep in item order."""
    global _fn
    _fn = fn
    err = None
    items = list(items)
    n = min(8, os.cpu_count() or 1, max(1, len(items)))
    if n == 1:
        res = map(_one, items)
    else:
        pool = mp.get_context("fork").Pool(n)
        res = pool.imap(_one, items, chunksize=max(1, min(8, len(items) // (4 * n))))
    for out, e in res:
        for oid, ok, d in out:
            if ok:
                rep.ok(oid, d)
            else:
                rep.bad(oid, d)
        err = err or e
    if n > 1:
        pool.close()
        pool.join()
    if err:
        raise AnalysisError(err)
