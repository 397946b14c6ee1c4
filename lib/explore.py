"""Enumerations shared by the checks: bounded-exhaustive, simplest first."""
import itertools


def seqs(alpha, n, lo=1):
    """Every sequence of lo..n elements of alpha, shortest first."""
    for k in range(lo, n + 1):
        for s in itertools.product(alpha, repeat=k):
            yield s


def cat(parts):
    """Flatten: elements are Lines or lists of Lines."""
    o = []
    for p in parts:
        if isinstance(p, (list, tuple)):
            o += p
        else:
            o.append(p)
    return o


def subsets(xs):
    for k in range(len(xs) + 1):
        for s in itertools.combinations(xs, k):
            yield s
