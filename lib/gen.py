"""Enumeration helpers: contexts (expressions with holes '%%') and fillers."""
import itertools

H = "%%"


def fill(ctx, *xs):
    """replace the holes of ctx from left to right; a single filler fills all of them"""
    if len(xs) == 1:
        return ctx.replace(H, xs[0])
    out, i = [], 0
    for part in ctx.split(H):
        out.append(part)
        if i < len(xs):
            out.append(xs[i])
            i += 1
    return "".join(out)


def holes(ctx):
    return ctx.count(H)


def nest(contexts, leaves, depth):
    """all contexts nested exactly `depth` deep around every leaf (each context's holes all
    get the same filler)"""
    if depth == 0:
        yield from leaves
        return
    inner = list(nest(contexts, leaves, depth - 1))
    for c in contexts:
        for x in inner:
            yield c.replace(H, x)


def seqs(ops, depth, start=1):
    for d in range(start, depth + 1):
        yield from itertools.product(ops, repeat=d)


def trees(ctxs, leaves, size):
    """all terms with exactly `size` nodes, every hole filled independently"""
    memo = {}

    def go(n):
        if n in memo:
            return memo[n]
        r = []
        if n == 1:
            r = list(leaves)
        else:
            for c in ctxs:
                k = holes(c)
                for split in compositions(n - 1, k):
                    for xs in itertools.product(*[go(s) for s in split]):
                        r.append(fill(c, *xs) if k != 1 else c.replace(H, xs[0]))
        memo[n] = r
        return r
    return go(size)


def compositions(n, k):
    if k == 0:
        if n == 0:
            yield ()
        return
    if k == 1:
        if n >= 1:
            yield (n,)
        return
    for i in range(1, n - k + 2):
        for rest in compositions(n - i, k - 1):
            yield (i,) + rest
