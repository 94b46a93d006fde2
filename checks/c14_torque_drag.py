"""C14 torque and drag: the soft-string balance from the bit upwards."""
from symwell.harness import harness
from symwell import geo


def turn(c, a, b):
    """the azimuth change, the short way"""
    d = b - a
    if d >= c.pi:
        return d - 2 * c.pi
    if d < -c.pi:
        return d + 2 * c.pi
    return d


def climb(c, rows, F, T):
    """rows: (average inclination, change of inclination, of azimuth, buoyed
    weight, friction, radius) per interval, from the bit upwards; F: tension at
    the bit for pulling, lowering, rotating.  The values at every station from
    the bit upwards."""
    Fs, Ts = [list(F)], [T]
    for av, di, da, w, mu, r in rows:
        s = c.sin(av)
        N = [c.sqrt((f * da * s) ** 2 + (f * di + w * s) ** 2) for f in Fs[-1]]
        Fs.append([f + w * c.cos(av) + k * mu * n
                   for f, n, k in zip(Fs[-1], N, (1, -1, 0))])
        Ts.append(Ts[-1] + mu * N[2] * r)
    return Fs, Ts


def string(c, cuts, top=0, kind='BHA', joints=False):
    """a string whose sections end at the given depths"""
    s = c.W.architecture.BHA('s', c.num(top), cuts[-1])
    v = []
    for k in reversed(range(len(cuts))):
        od, uw = c.pos(f'od{k}', 1), c.real(f'uw{k}', 1, 5000)
        rho = c.real(f'rho{k}', 2, 12)
        kw = dict(od=od, unit_weight=uw, density=rho)
        if joints and k == 0:
            kw['tooljoint_od'] = od = c.pos('tj', 1, 0.01)
        s.add_section(top=cuts[k - 1] if k else c.num(top), **kw)
        v.insert(0, (od, uw, rho))
    return s, v


def hole(c, cuts):
    w = c.W.architecture.WellBore('w', c.num(0), cuts[-1], method='top_down')
    mu = []
    for k, b in enumerate(cuts):
        m = c.real(f'mu{k}', 0, 1)
        w.add_section(bottom=b, id=c.num(.3), coeff_friction_sliding=m)
        mu.append(m)
    return w, mu


def survey(c, md, inc, azi, **k):
    A = c.arr
    return c.W.survey.Survey(A(md), A(inc), A(azi), deg=False,
                             header=geo.header(c), **k)


def well3(c):
    """three stations, any building/dropping/turning between them"""
    m1 = c.pos('m1', 2000, 1)
    m2 = m1 + c.pos('m2', 2000, 1)
    inc = [c.angle(f'i{k}', 0, '3/4') for k in range(3)]
    azi = [c.angle(f'a{k}', 0, 2, open_hi=True) for k in range(3)]
    return [c.num(0), m1, m2], inc, azi


def turning(c):
    """three stations turning less than half way round between stations"""
    md, inc, azi = well3(c)
    e = [c.angle(f'e{k}', -1, 1, open_lo=True, open_hi=True) for k in range(2)]
    return md, inc, [azi[0], azi[0] + e[0], azi[0] + e[0] + e[1]]


def rows3(c, md, inc, azi, v, mu, rf):
    out = []
    for k in (1, 0):
        od, uw, rho = v[min(k, len(v) - 1)]
        w = uw * (md[k + 1] - md[k]) * (rho - rf) / rho
        out.append(((inc[k] + inc[k + 1]) / 2, inc[k + 1] - inc[k],
                    turn(c, azi[k], azi[k + 1]), w, mu[min(k, len(mu) - 1)], od / 2))
    return out


def compare(c, td, Fs, Ts, names, tname):
    n = len(Fs)
    for j, name in enumerate(names):
        t = td.tension[name]
        c.true(len(t) == n, 'one value per station')
        for i in range(n):
            c.eq(t[n - 1 - i], Fs[i][j], f'{name} {i} up')
    t = td.torque[tname]
    for i in range(n):
        c.eq(t[n - 1 - i], Ts[i], f'torque {i} up')


BND = '3 stations, any inclinations up to 135 deg, azimuths, intervals; 2 string and 2 hole sections with any weights, diameters, densities, friction'


@harness('C14', functions='torque_drag.TorqueDrag, force_normal, force_tension_delta, torsion_delta, buoyancy_factor', bounds=BND, secs=300)
def free_string(c):
    c.split_floors()
    md, inc, azi = well3(c)
    s, v = string(c, md[1:], joints=True)
    w, mu = hole(c, md[1:])
    rf = c.real('rf', 0, 2)
    with geo.lazy_survey(c, 'survey', 'torque_drag'):
        td = c.W.torque_drag.TorqueDrag(survey(c, md, inc, azi), w, s, rf)
    Fs, Ts = climb(c, rows3(c, md, inc, azi, v, mu, rf), [0, 0, 0], 0)
    compare(c, td, Fs, Ts, ('pickup', 'slackoff', 'rotating'), 'rotating')


@harness('C14', functions='torque_drag.TorqueDrag.get_forces_and_torsion', bounds=BND + '; any weight and torque on bit and overpull', secs=300)
def loaded_string(c):
    c.split_floors()
    md, inc, azi = turning(c)
    s, v = string(c, md[1:])
    w, mu = hole(c, md[1:])
    rf = c.real('rf', 0, 2)
    wob, tob, over = c.pos('wob', 1e6), c.pos('tob', 1e5), c.pos('over', 1e6)
    with geo.lazy_survey(c, 'survey', 'torque_drag'):
        td = c.W.torque_drag.TorqueDrag(survey(c, md, inc, azi), w, s, rf,
                                        wob=wob, tob=tob, overpull=over)
    rows = rows3(c, md, inc, azi, v, mu, rf)
    Fs, Ts = climb(c, rows, [0, 0, 0], 0)
    compare(c, td, Fs, Ts, ('pickup', 'slackoff', 'rotating'), 'rotating')
    Fs, Ts = climb(c, rows, [over, -wob, -wob], tob)
    compare(c, td, Fs, Ts, ('overpull', 'sliding', 'drilling'), 'drilling')


@harness('C14', functions='torque_drag.TorqueDrag.get_forces_and_torsion', bounds=BND + '; overpull only', secs=300)
def overpull_alone(c):
    c.split_floors()
    md, inc, azi = turning(c)
    s, v = string(c, md[1:])
    w, mu = hole(c, md[1:])
    over = c.pos('over', 1e6)
    with geo.lazy_survey(c, 'survey', 'torque_drag'):
        td = c.W.torque_drag.TorqueDrag(survey(c, md, inc, azi), w, s, c.num(1),
                                        overpull=over)
    rows = rows3(c, md, inc, azi, v, mu, c.num(1))
    Fs, Ts = climb(c, rows, [over, 0, 0], 0)
    compare(c, td, Fs, Ts, ('overpull', 'slackoff', 'rotating'), 'rotating')
    Fs, Ts = climb(c, rows, [0, 0, 0], 0)
    compare(c, td, Fs, Ts, ('pickup',), 'rotating')


def line(c):
    """a straight well of two stations"""
    i, a = c.angle('i', 0, '1/2'), c.angle('a', 0, 2, open_hi=True)
    c.known(c.sin(i) >= 0)
    c.known(c.cos(i) >= 0)
    return i, a


@harness('C14', functions='torque_drag.TorqueDrag.add_survey_points_from_strings, interpolate_md', bounds='straight well of 2 stations at any inclination to 90 deg and azimuth; 2 string sections and 2 hole sections ending anywhere between, string ending above the end of the well', secs=300)
def sections_between_stations(c):
    """every section end becomes a station; weights, radii and friction are
    those of the interval's own sections"""
    i, a = line(c)
    L = c.pos('L', 5000, 100)
    x = [c.real(f'x{k}', 1, 4000) for k in range(3)]
    c.assume(x[0] < x[2])
    c.assume(x[1] < x[2])
    c.assume(x[2] < L)
    s, v = string(c, [x[0], x[2]])
    w, mu = hole(c, [x[1], x[2]])
    rf = c.real('rf', 0, 2)
    with geo.lazy_survey(c, 'survey', 'torque_drag'):
        td = c.W.torque_drag.TorqueDrag(
            survey(c, [c.num(0), L], [i, i], [a, a]), w, s, rf)
    if x[0] < x[1]:
        cut, own = [x[0], x[1], x[2]], [(0, 0), (1, 0), (1, 1)]
    elif x[0] > x[1]:
        cut, own = [x[1], x[0], x[2]], [(0, 0), (0, 1), (1, 1)]
    else:
        cut, own = [x[0], x[2]], [(0, 0), (1, 1)]
    top = [c.num(0)] + cut[:-1]
    rows = []
    for t, b, (j, h) in reversed(list(zip(top, cut, own))):
        od, uw, rho = v[j]
        rows.append((i, 0, 0, uw * (b - t) * (rho - rf) / rho, mu[h], od / 2))
    n = len(cut)
    c.eqs(td.survey.md, [0] + cut + [L], 'stations')
    pu, so, ro, tq = [c.num(0)], [c.num(0)], [c.num(0)], [c.num(0)]
    for av, _, _, wt, m, r in rows:
        # side force of a straight string: the normal part of its weight
        N = wt * c.sin(i)
        if N < 0:
            N = -N
        ro.append(ro[-1] + wt * c.cos(i))
        pu.append(pu[-1] + wt * c.cos(i) + m * N)
        so.append(so[-1] + wt * c.cos(i) - m * N)
        tq.append(tq[-1] + m * N * r)
    for name, e in (('pickup', pu), ('slackoff', so), ('rotating', ro)):
        c.eqs(td.tension[name], e[::-1], name)
    c.eqs(td.torque['rotating'], tq[::-1], 'torque')


@harness('C14', functions='torque_drag.HookLoad', bounds='straight well at any inclination to 90 deg; collars of 20 m under pipe to 70 m, any weights; depths in steps of 30 m; two friction factors', secs=300)
def hook_loads_straight(c):
    """without friction the hook load is the buoyed weight times the vertical
    depth it hangs over; friction adds and subtracts the normal part"""
    i, a = line(c)
    W = c.W.architecture
    s = W.BHA('s', c.num(0), c.num(70))
    uw = [c.real(f'uw{k}', 1, 5000) for k in range(2)]
    s.add_section(length=c.num(20), od=c.num(.2), unit_weight=uw[0])
    s.add_section(od=c.num(.1), unit_weight=uw[1])
    w = W.WellBore('w', c.num(0), c.num(100), method='top_down')
    w.add_section(bottom=c.num(100), id=c.num(.3), coeff_friction_sliding=c.num(.9))
    rf = c.real('rf', 0, 2)
    with geo.lazy_survey(c, 'survey', 'torque_drag'):
        h = c.W.torque_drag.HookLoad(
            survey(c, [c.num(0), c.num(50), c.num(200)], [i] * 3, [a] * 3),
            w, s, rf, step=30, ff_range=(0, .5, .5))
    c.eqs(c.arr(h.ff_range), [0, .5], 'friction factors')
    c.eqs(c.arr(h.md_range), [30, 60, 70], 'depths')
    bf = (c.num(7.85) - rf) / c.num(7.85)
    for ff, d in h.data.items():
        for k, md in enumerate((30, 60, 70)):
            wt = (20 * uw[0] + (md - 20) * uw[1]) * bf
            c.eq(d['rotating'][k], wt * c.cos(i), 'rotating')
            c.eq(d['pickup'][k], wt * (c.cos(i) + c.num(ff) * c.sin(i)), 'pickup')
            c.eq(d['slackoff'][k], wt * (c.cos(i) - c.num(ff) * c.sin(i)), 'slackoff')
    c.eq(w.sections[0]['coeff_friction_sliding'], .9, 'well bore unchanged')
