"""How an error of a station moves positions (balanced tangential steps)."""
from . import geo


def jac(c, t, k, j, e, twice=False):
    """movement of station j's position step (tangents t, depths md) when
    station k's depth, inclination and azimuth move by e: the balanced
    tangential step ending (j = k) or starting (j = k + 1) at station k"""
    md, inc, azi = t
    si, ci = c.sin(inc[k]), c.cos(inc[k])
    sa, ca = c.sin(azi[k]), c.cos(azi[k])
    a, b = (k - 1, k) if j == k else (k, k + 1)
    L = md[b] - md[a]
    f = 2 if twice and j == k == 1 else 1
    u = [(x + y) / 2 for x, y in zip(geo.tangent(c, inc[a], azi[a]),
                                     geo.tangent(c, inc[b], azi[b]))]
    s = 1 if j == k else -1
    return [e[0] * s * u[0] + L / 2 * (f * e[1] * ci * ca - e[2] * si * sa),
            e[0] * s * u[1] + L / 2 * (f * e[1] * ci * sa + e[2] * si * ca),
            e[0] * s * u[2] - L / 2 * f * e[1] * si]


def add(*v):
    return [sum(x[1:], x[0]) for x in zip(*v)]


def vectors(c, t, E, model):
    """per station: (full, own) error vectors; none at the tie-on.  From
    revision 5 on the inclination error of the first station counts over the
    whole first interval."""
    w = 'rev4' not in model.lower()
    n = len(E)
    z = [c.num(0)] * 3
    full, own = [z], [z]
    for k in range(1, n):
        o = jac(c, t, k, k, E[k], w)
        own.append(o)
        full.append(add(o, jac(c, t, k, k + 1, E[k])) if k + 1 < n else o)
    return full, own
