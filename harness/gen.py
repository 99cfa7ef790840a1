"""Running scenario families: trace generation in parallel processes."""
import multiprocessing
import os
import signal
import traceback
import zlib

import numpy as np
import scen

HERE = os.path.dirname(os.path.abspath(__file__))
LIMIT = int(os.environ.get("TRACE_LIMIT", "100"))          # seconds for one trace


def crc(s):
    return zlib.crc32(s.encode()) & 0x7fffffff


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


class Skip(BaseException):
    pass


HANGS = multiprocessing.Value("i", 0)       # traces that came to no end, in all processes


class deadline:
    """An end for everything: less time after some have been cut off, none
    after many."""

    def __init__(self, limit=LIMIT):
        self.limit = limit

    def __enter__(self):
        n = HANGS.value
        if n >= 12:
            raise Skip()
        signal.signal(signal.SIGALRM, _alarm)
        # again and again: the library has places which catch everything
        signal.setitimer(signal.ITIMER_REAL, self.limit if n < 3 else min(10, self.limit), .7)

    def __exit__(self, t, e, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        if t is not None and issubclass(t, Hang):
            with HANGS.get_lock():
                HANGS.value += 1


def run_one(task):
    """(family, index, seed, masked[, kw]) -> ("ok", trace) | ("raised", id, text) | ("skip",)

    raised: the library refused a well-formed model or query, or did not come
    to an end."""
    fam, i, seed, masked = task[:4]
    kw = task[4] if len(task) > 4 else {}
    id = "%s.%d.%s%s" % (fam, i, "m" if masked else "u", "" if not kw else "." + "_".join(map(str, kw.values())))
    rng = np.random.RandomState((crc(fam) + 7919 * i + 104729 * seed + (50021 if masked else 0)) % (2 ** 31))
    np.random.seed((seed * 1009 + i) % (2 ** 31))
    try:
        with deadline():
            m = getattr(scen, "f_" + fam)(rng, id, masked=masked, **kw)
            return ("ok", m.json())
    except Skip:
        return ("skip",)
    except Hang:
        return ("raised", id, "does not come to an end")
    except (MemoryError, OSError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        h = [f for f in tb if f.filename.startswith(HERE)]
        return ("raised", id, "%s: %s at %s:%d (%s)" % (
            type(e).__name__, str(e)[:200].replace("\n", " "), os.path.basename(tb[-1].filename), tb[-1].lineno,
            "%s:%d" % (os.path.basename(h[-1].filename), h[-1].lineno) if h else ""))


def run_many(tasks, procs=8, f=run_one):
    if procs <= 1 or len(tasks) < 4:
        return [f(t) for t in tasks]
    import multiprocessing as mp
    with mp.get_context("fork").Pool(procs) as p:
        return p.map(f, tasks, chunksize=max(1, len(tasks) // (procs * 8)))
