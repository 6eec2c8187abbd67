"""Runs independent analyses in parallel processes."""
import multiprocessing, os, sys, traceback

_FN = None
_CTX = None


def _run(x):
    sys.setrecursionlimit(100000)
    try:
        return x, _FN(_CTX, x), None
    except Exception:
        return x, None, traceback.format_exc()[-1500:]


def parallel(fn, ctx, items):
    """[(item, result, error)] in the order of items; the heaviest items should come first"""
    global _FN, _CTX
    _FN, _CTX = fn, ctx
    items = list(items)
    n = min(len(items), os.cpu_count() or 4)
    if n <= 1:
        return [_run(x) for x in items]
    mp = multiprocessing.get_context("fork")
    with mp.Pool(n) as pool:
        return pool.map(_run, items, chunksize=1)
