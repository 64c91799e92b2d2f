"""bottom-up rewriting of terms"""
from ..terms import *


def up(t, f):
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x in memo:
            return memo[x]
        a = tuple(go(y) for y in x.args)
        y = norm(mk(x.op, *a)) if a != x.args else x
        for _ in range(6):
            z = f(y) if isinstance(y, T) else None
            if z is None or z is y:
                break
            y = norm(z)
        memo[x] = y
        return y
    return go(norm(t, do_strip=True))
