"""work on all cores, within the time a check has"""
import multiprocessing, os, resource, time

START = time.time()
LIMIT = {"quick": 660, "thorough": 7200}


def left():
    return START + LIMIT.get(os.environ.get("VERIF_TIER", "quick"), 660) - time.time()


_W = {}


def _limit():
    # a case that needs more is undecided (MemoryError), it does not end the process
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))


def _chunk(lo):
    return [_W["f"](i) for i in range(lo, min(lo + _W["c"], _W["n"]))]


def each(cx, work, n, chunk=4):
    """results of work(i) for i < n, as they come; what does not fit in the time is recorded as undecided"""
    got = 0
    _W.update(f=work, c=chunk, n=n)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1), _limit) as pool:
        it = pool.imap_unordered(_chunk, range(0, n, chunk))
        while got < n:
            try:
                rs = it.next(timeout=max(1, left()))
            except multiprocessing.TimeoutError:
                cx.undec("%d of %d cases not analysed: out of time" % (n - got, n))
                pool.terminate()
                return
            except StopIteration:
                return
            got += len(rs)
            yield from rs
