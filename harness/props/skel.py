"""Arrays that share the structure of their outer lists."""


def shape(g, k, top=None):
    """list lengths: k list levels below the top; rectangular levels are tuples (n, sub) repeated"""
    n = top if top is not None else (0 if g.ch(0.1) else g.r.randint(1, 4))
    if k == 0:
        return n
    if g.ch(0.15) and n:
        one = shape(g, k - 1, g.r.randint(1, 3))
        return [one] * n
    return [shape(g, k - 1, 0 if g.ch(0.2) else g.r.randint(0, 3)) for _ in range(n)]


def lens(s):
    return s if isinstance(s, int) else len(s)


def fill(g, s, k, E, popt=0.12, preg=0.3):
    """(type, values) with that shape and elements of type E"""
    if k == 0:
        return E, [g.value(E) for _ in range(s)]
    flat = [x for x in s]
    ns = [lens(x) for x in flat]
    if k == 1:
        T, vals = E, [[g.value(E) for _ in range(n)] for n in ns]
    else:
        inner = [y for x in flat for y in x]
        T, vs = fill(g, inner, k - 1, E, popt, preg)
        vals, p = [], 0
        for n in ns:
            vals.append(vs[p:p + n])
            p += n
    if ns and len(set(ns)) == 1 and ns[0] > 0 and g.ch(preg):
        T = ("reg", ns[0], T)
    else:
        T = ("list", T)
    if g.ch(popt):
        T = ("opt", T)
        vals = [None if g.ch(0.25) else v for v in vals]
    return T, vals
