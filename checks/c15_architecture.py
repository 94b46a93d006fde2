"""C15 string architecture: sections stay contiguous, ordered, inside the
string and consistent in length, whatever sequence of additions built them."""
from symwell.harness import harness


def consistent(c, s, n, complete=None):
    k = list(s.sections.keys())
    c.true(k == list(range(n)), 'numbered from the top')
    v = [s.sections[i] for i in k]
    for i in range(n):
        c.le(v[i]['top'], v[i]['bottom'], 'top above bottom')
        c.le(s.top, v[i]['top'], 'below the top of the string')
        c.le(v[i]['bottom'], s.bottom, 'above the bottom of the string')
        if i:
            c.eq(v[i]['top'], v[i - 1]['bottom'], 'contiguous')
        if 'length' in v[i]:
            c.eq(v[i]['length'], v[i]['bottom'] - v[i]['top'], 'length')
    return v


def bounds(c):
    top = c.real('top', 0, 1000)
    return top, top + c.pos('L', 5000)


@harness('C15', functions='architecture.String.add_section_bottom_up', bounds='up to 3 sections by length, in any string; lengths in (0,5000]')
def bottom_up_by_length(c):
    top, bot = bounds(c)
    s = c.W.architecture.String('s', top, bot)
    at = bot
    for k in range(3):
        L = c.pos(f'l{k}', 5000)
        s.add_section(length=L, od=k)
        v = consistent(c, s, k + 1)
        c.eq(v[0]['bottom'], at, 'on top of what was there')
        c.eq(v[-1]['bottom'], bot, 'hangs down to the bottom')
        c.true(v[0]['od'] == k, 'attributes stay with the section')
        c.true(v[-1]['od'] == 0, 'attributes stay with the section')
        # cut off where the string ends
        new = at - L
        if new < top:
            new = top
        c.eq(v[0]['top'], new, 'as long as asked for, within the string')
        at = new
        c.true(bool(s.complete) == bool(at == top), 'complete when the top is reached')
        if at == top:
            return


@harness('C15', functions='architecture.String.add_section_bottom_up', bounds='sections by length, by top and by default; any string')
def bottom_up_by_top_and_default(c):
    top, bot = bounds(c)
    s = c.W.architecture.BHA('s', top, bot)
    a = c.real('a', 0, 6000)
    c.assume(a > top)
    c.assume(a < bot)
    s.add_section(top=a, od=1)
    v = consistent(c, s, 1)
    c.eq(v[0]['top'], a, 'the top asked for')
    c.eq(v[0]['length'], bot - a, 'length')
    c.true(not s.complete, 'not complete')
    s.add_section(od=2)
    v = consistent(c, s, 2)
    c.eq(v[0]['top'], top, 'the rest')
    c.eq(v[0]['length'], a - top, 'length of the rest')
    c.true(s.complete, 'complete')
    c.true(v[0]['od'] == 2 and v[1]['od'] == 1, 'attributes')
    c.eq(v[0]['density'], c.num(7.85), 'steel by default')
    one = c.W.architecture.String('s', top, bot)
    one.add_section()
    v = consistent(c, one, 1)
    c.eqs([v[0]['top'], v[0]['bottom'], v[0]['length']], [top, bot, bot - top],
          'a single section spans the string')


@harness('C15', functions='architecture.String.add_section_top_down', bounds='up to 3 sections by bottom depth, in any string')
def top_down(c):
    top, bot = bounds(c)
    s = c.W.architecture.WellBore('w', top, bot, method='top_down')
    at = top
    for k in range(3):
        b = at + c.pos(f'l{k}', 5000)
        c.assume(b <= bot)
        s.add_section(id=k, bottom=b, coeff_friction_sliding=c.real(f'f{k}', 0, 1))
        v = consistent(c, s, k + 1)
        c.eq(v[k]['top'], at, 'below what was there')
        c.eq(v[k]['bottom'], b, 'as deep as asked for')
        c.eq(v[0]['top'], top, 'starts at the top')
        c.true(v[k]['id'] == k, 'attributes stay with the section')
        c.true(bool(s.complete) == bool(b == bot), 'complete when the bottom is reached')
        at = b


@harness('C15', functions='architecture.String.add_section', bounds='one good section and one that does not fit; both methods')
def refused_sections(c):
    top, bot = bounds(c)
    a = c.real('a', 0, 6000)
    c.assume(a > top)
    c.assume(a < bot)
    x = c.real('x', 0, 7000)
    A = c.W.architecture
    s = A.String('s', top, bot, method='top_down')
    s.add_section(bottom=a)
    c.assume(c.either(x > bot, x < top))
    c.raises(AssertionError, lambda: s.add_section(bottom=x), 'outside the string')
    consistent(c, s, 1)
    w = A.String('s', top, bot)
    w.add_section(top=a)
    c.assume(c.either(x > a, x < 0, c.both(x > 0, x < top)))
    c.raises(AssertionError, lambda: w.add_section(top=x), 'outside the free part')
    consistent(c, w, 1)
    c.raises(AssertionError, lambda: A.String('s', top, bot, method='sideways'), 'unknown method')
    c.raises(AssertionError, lambda: A.WellBore('s', top, bot, method='top_down').add_section(bottom=a), 'missing parameters')


@harness('C15', functions='architecture.String.depth', bounds='string of 3 sections built either way, run to any depth inside it')
def run_to_a_depth(c):
    top, bot = bounds(c)
    p = c.real('p', 0, 6000)
    q = c.real('q', 0, 6000)
    c.assume(top < p)
    c.assume(p < q)
    c.assume(q < bot)
    A = c.W.architecture
    how = c.choice('how', ['top_down', 'bottom_up'])
    s = A.String('s', top, bot, method=how)
    if how == 'top_down':
        for k, b in enumerate((p, q, bot)):
            s.add_section(bottom=b, od=k)
    else:
        s.add_section(length=bot - q, od=2)
        s.add_section(top=p, od=1)
        s.add_section(od=0)
    c.true(s.complete, 'complete')
    md = c.real('md', 0, 6000)
    c.assume(md > top)
    c.assume(md <= bot)
    r = s.depth(md)
    n = len(r.sections)
    v = consistent(c, r, n)
    c.eq(v[0]['top'], top, 'hangs from the top')
    c.eq(v[-1]['bottom'], md, 'down to the depth')
    c.true(r.complete, 'complete')
    L = [bot - q, q - p, p - top]
    at = md
    for k in range(n):
        w = v[n - 1 - k]
        c.true(w['od'] == 2 - k, 'sections in the same order')
        if k < n - 1:
            c.eq(w['length'], L[k], 'whole sections')
        else:
            c.le(w['length'], L[k], 'the last one as far as it fits')
    # the original is left alone
    u = consistent(c, s, 3)
    c.eqs([x['bottom'] for x in u], [p, q, bot], 'string unchanged')
    c.raises(AssertionError, lambda: s.depth(top), 'not above the string')
    c.raises(AssertionError, lambda: s.depth(bot + 1), 'not below the string')


@harness('C15', functions='architecture.String.add_section', bounds='one good section and one with its own top or bottom that leaves a gap or overlaps; both methods')
def gaps_and_overlaps_refused(c):
    top, bot = bounds(c)
    a, x, y = (c.real(n, 0, 7000) for n in 'axy')
    c.assume(c.both(a > top, a < bot))
    c.assume(c.either(x < a, x > a))
    A = c.W.architecture
    if c.choice('how', [0, 1]):
        s = A.String('s', top, bot, method='top_down')
        s.add_section(bottom=a)
        c.assume(c.both(y > x, y <= bot))
        c.raises(AssertionError, lambda: s.add_section(top=x, bottom=y), 'does not follow the last')
    else:
        s = A.String('s', top, bot)
        s.add_section(top=a)
        c.assume(c.both(y >= top, y < x, y > 0))
        c.raises(AssertionError, lambda: s.add_section(top=y, bottom=x), 'does not end on the last')
    v = consistent(c, s, 1)
    c.eqs([v[0]['top'], v[0]['bottom']], [top, a] if s.method == 'top_down' else [a, bot], 'nothing changed')
