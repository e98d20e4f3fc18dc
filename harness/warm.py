"""Fill a fresh numba cache for /repo's package in parallel (one share of the functions per process).

Only a speed-up: the process that runs the scenarios imports the package normally afterwards and compiles
whatever is not in the cache.  The cache directory is created empty by the caller for every check, so no
stale machine code of an earlier tree can be used."""
import sys, os

def share(i, n, modules):
    import numba
    real = numba.njit
    count = [0]
    def njit(*args, **kw):
        if args and not callable(args[0]):
            c = count[0]; count[0] += 1
            if c % n == i:
                return real(*args, **kw)
            return real(**kw)
        return real(*args, **kw)
    numba.njit = njit
    import importlib
    for m in modules:
        try:
            importlib.import_module(m)
        except Exception as e:
            print('warm: %s: %r' % (m, e), file=sys.stderr)

if __name__ == '__main__':
    share(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:])
