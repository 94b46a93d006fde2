"""C09 a weighting formula evaluates to the value of what it says."""
import glob
import json
import os
import re
from symwell.harness import harness
from symwell.formula import Formula

def published():
    """every formula of the tool definitions"""
    import welleng
    root = os.path.join(os.environ.get('WELLENG_REPO', '/repo'), 'welleng/errors/iscwsa_json')
    out = set()
    for f in glob.glob(root + '/**/*.json', recursive=True):
        try:
            for t in json.load(open(f)).get('terms', []):
                for k in ('depth_formula', 'inclination_formula', 'azimuth_formula'):
                    out.add(t[k])
        except (ValueError, KeyError, AttributeError):
            continue
    return sorted(x for x in out if isinstance(x, str))


NAMES = ['MD', 'Inc', 'AzT', 'AzM', 'Az', 'TVD', 'Gfield', 'GField', 'Dip',
         'BField', 'Bfield', 'EarthRate', 'Latitude', 'RAD', 'MDPrev',
         'IncPrev', 'AzPrev', 'XCLTortuosity', 'NoiseReductionFactor',
         'Z_Gyro_Drift', 'XY_Gyro_Drift', 'GZRunningSpeed', 'GXYRunningSpeed',
         'XY_Gyro_Random_Walk']


def env(c, text):
    """arbitrary values of the variables a formula mentions"""
    e = {}
    for n in NAMES:
        if not re.search(rf'\b{n}\b', text) or n.lower() in e:
            continue
        if n in ('Inc', 'IncPrev'):
            v = c.angle(n, 0, 1, open_lo=True, open_hi=True)
            c.known(c.sin(v) > 0)
        elif n in ('AzT', 'AzM', 'Az', 'AzPrev'):
            v = c.angle(n, 0, 2)
        elif n in ('Dip', 'Latitude'):
            v = c.angle(n, '-1/2', '1/2', open_lo=True, open_hi=True)
            c.known(c.cos(v) > 0)
        elif n == 'RAD':
            v = c.pi / 180
        elif n == 'MDPrev':
            v = c.real(n, 0, 100)
        elif n == 'MD':
            v = c.real(n, 101, 5000)
        else:
            v = c.real(n, .01, 10)
        e[n.lower()] = v
    return e


def bind(e, text):
    return {n: e[n.lower()] for n in NAMES
            if re.search(rf'\b{n}\b', text)}


def same(c, text):
    e = env(c, text)
    for v in ('inc', 'latitude'):
        if v in e:
            c.assume(c.cos(e[v]) != 0)
    if 'incprev' in e and 'inc' in e and '/ 2)' in text:
        m = (e['inc'] + e['incprev']) / 2
        c.assume(c.cos(m) != 0)
        c.known(c.sin(m) > 0)
    if '1 - ' in text and 'azm' in e:
        c.assume(c.sin(e['inc']) ** 2 * c.sin(e['azm']) ** 2 < 1)
    want = Formula(text).value(c, e)
    got = c.W.errors.interpreter.evaluate_formula(text, bind(e, text))
    c.eq(got, want, text[:60])


def each(c, texts):
    texts = list(texts)
    k = c.choice('formula', list(range(len(texts))))
    same(c, texts[k])


def chunk(k, n):
    return published()[k::n]


def make(k, n):
    @harness('C09', f'published_formulas_{k}', functions='errors.interpreter.evaluate_formula', bounds='the formulas of all supplied tool definitions; every value of their variables away from poles', secs=200, paths=600)
    def h(c):
        each(c, chunk(k, n))


for _k in range(4):
    make(_k, 4)


def small(c, texts, paths=0):
    """expressions over three arbitrary positive or negative numbers"""
    v = {n: c.real(n, -3, 3, nz=True) for n in 'xyz'}
    v['maxx'] = c.real('MaxX', -3, 3)
    v['sinx'] = c.real('SinX', -3, 3)
    text = c.choice('expr', list(texts))
    f = Formula(text)
    if '/' in text:
        for s in ('y', 'z', 'y + z', 'y - z', 'y * z', 'y / z'):
            if '/ (' + s in text or '/ ' + s in text or s in 'yz':
                q = Formula(s).value(c, v)
                c.assume(c.either(q > .001, q < -.001))
    if 'Log' in text or 'Sqrt(x' in text or 'Sqr(x' in text:
        c.assume(v['x'] > .001)
    if 'Asin' in text or 'Acos' in text:
        c.assume(v['x'] < 1)
        c.assume(v['x'] > -1)
    want = f.value(c, v)
    names = {'x': 'x', 'y': 'y', 'z': 'z', 'MaxX': 'maxx', 'SinX': 'sinx'}
    got = c.W.errors.interpreter.evaluate_formula(
        text, {n: v[k] for n, k in names.items()})
    c.eq(got, want, text)


OPS = '+-*/'


@harness('C09', functions='errors.interpreter.evaluate_formula', bounds='x op y op z, plain and bracketed either way, op in + - * /; all values in [-3,3]', paths=600)
def two_operators(c):
    small(c, [t for a in OPS for b in OPS for t in
              (f'x {a} y {b} z', f'(x {a} y) {b} z', f'x {a} (y {b} z)')])


@harness('C09', functions='errors.interpreter.evaluate_formula', bounds='signs and powers with constant exponents; all values in [-3,3]', paths=600)
def signs_and_powers(c):
    small(c, ['-x + y', '-x * y', '-x - -y', 'x - -y', 'x*-y', '-(x - y)', '+x',
              '-x ^ 2', '(-x) ^ 2', 'x ^ 2 * y', 'x * y ^ 2', 'x ^ 2 / y ^ 2',
              'x + y ^ 3', '(x + y) ^ 2', 'x ^ 2 - y ^ 2', '2 ^ 3 ^ 2 * x',
              'x ^ (1 + 1)', '2 * x ^ 3', 'x^2+y^2+z^2', '1.5 * x', '.5 * x',
              '1e-2 * x', '2.5e3 * x', 'pi * x', '(pi / 2) - x', 'x ** 2'][:-1])


@harness('C09', functions='errors.interpreter.evaluate_formula', bounds='every supported function, and names that contain function names; all values in [-3,3]', paths=600)
def functions(c):
    small(c, ['Sin(x)', 'Cos(x)', 'Sin (x) * Cos( y )', 'Tan(x / 4)', 'Abs(x)',
              'Abs(x - y) * z', 'Sqr(x)', 'Sqrt(x)', 'sqrt(x) * y', 'Max(x, y)',
              'Min(x, y)', 'Max(x, Min(y, z))', 'Max(1, sqrt(10 / (4 + x)))',
              'MaxX * Max(x, y)', 'SinX - Sin(x)', 'MaxX + SinX', 'Log(x)', 'Exp(x)',
              'Asin(x)', 'Acos(x)', 'Atan(x)', 'Sin(x) ^ 2 + Cos(x) ^ 2',
              '-Sin(x)', '-(Abs(Cos(x)) * Sin(y)) / 2'])


@harness('C09', functions='errors.interpreter.evaluate_formula', bounds='two stations at once: element by element; numbers instead of text')
def stations_at_once(c):
    i = [c.angle(f'i{k}', 0, 1) for k in range(2)]
    a = [c.angle(f'a{k}', 0, 2) for k in range(2)]
    x = [c.real(f'x{k}', 0, 3) for k in range(2)]
    ev = c.W.errors.interpreter.evaluate_formula
    b = {'Inc': c.arr(i), 'AzT': c.arr(a), 'MD': c.arr(x), 'G': c.real('G', 9, 10)}
    r = ev('-Sin(Inc) * Cos(AzT) / G + MD ^ 2', b)
    c.eqs(r, [-c.sin(p) * c.cos(q) / b['G'] + m * m for p, q, m in zip(i, a, x)], 'element by element')
    r = ev('Max(1, MD)', b)
    c.eqs(r, [m if m >= 1 else 1 for m in x], 'Max element by element')
    r = ev('Min(MD, 2) - Abs(Cos(Inc))', b)
    c.eqs(r, [(m if m <= 2 else 2) - (c.cos(p) if c.cos(p) >= 0 else -c.cos(p))
              for m, p in zip(x, i)], 'Min and Abs element by element')
    c.eq(ev(0, b), 0, 'a number')
    c.eq(ev(1.5, b), 1.5, 'a number')
    c.eq(ev('0', b), 0, 'a number as text')
    c.eqs(b['Inc'], i, 'variables unchanged')


BAD = ['__import__("os")', 'x.y', 'x[0]', 'lambda: 1', '(x for x in y)', 'x if y else z',
       '"a"', 'foo(x)', 'x < y', 'x and y', 'sin(x)(y)', '[x]', '{x}', 'x % y',
       'open(x)', '__builtins__', 'eval(x)', 'x // y', 'x | y', 'not x', 'x @ y']


@harness('C09', functions='errors.interpreter.evaluate_formula', bounds='a list of 20 texts that are not arithmetic')
def other_texts_are_refused(c):
    x = c.real('x', 0, 1)
    t = c.choice('text', BAD[:6] + BAD[7:])
    c.raises((Exception,), lambda: c.W.errors.interpreter.evaluate_formula(
        t, {'x': x, 'y': x, 'z': x}), t)
