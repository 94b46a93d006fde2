"""C17 engineering-data queries return exactly the matching records."""
import xml.etree.ElementTree as ET
from symwell.harness import harness

FN = 'exchange.edm.EDM'
BND = ('any of the values (compared for equality only) in files of the stated records, each with or '
       'without each attribute')


def edm(c, records):
    """the library's EDM of a file with these records"""
    m = c.W.exchange.edm
    root = ET.Element('export')
    for tag, attrib in records:
        ET.SubElement(root, tag)
        root[-1].attrib.update(attrib)
    old = m.ET

    class Tree:
        @staticmethod
        def getroot():
            return root

    class Stub:
        parse = staticmethod(lambda f: Tree)
    m.ET = Stub
    try:
        return m.EDM('file.xml')
    finally:
        m.ET = old


def values(c, pre, keys, n):
    """n records with symbolic attributes, some of them absent"""
    out = []
    for j in range(n):
        out.append({k: c.real(f'{pre}{j}{k}', 0, 3) for k in keys
                    if c.bool(f'{pre}{j}has{k}')})
    return out


def same(c, got, want, label):
    """the same records (by identity of their contents), in the same order"""
    c.true(len(got) == len(want), label + f': {len(want)} records')
    for g, w in zip(got, want):
        c.true(set(g) == set(w) and all(g[k] is w[k] or g[k] == w[k] for k in w), label)


def query(logic):
    def f(c):
        keys = ['a', 'b'] if logic else ['a']
        recs = values(c, 'r', keys, 2)
        for j, r in enumerate(recs):
            r['id'] = f'i{j}'
        other = {'id': 'other', 'a': c.real('oa', 0, 3)}
        e = edm(c, [('A', recs[0]), ('B', other), ('A', recs[1])])
        q = {k: c.real('q' + k, 0, 3) for k in keys}
        agg = any if logic == 'OR' else all
        hit = [r for r in recs if agg([k in r and bool(r[k] == q[k]) for k in keys])]
        kw = {'logic': logic} if logic else {}
        q0 = dict(q)
        for _ in range(2):
            got = e.get_attributes('A', q, **kw)
            same(c, got.get('A', []), hit, 'matching records')
            c.true(set(got) <= {'A'}, 'no other tag')
        c.true(all(q[k] is q0[k] for k in q) and len(q) == len(q0), 'the query is unchanged')
    return f


for _l, _n in (('', 'one_attribute'), ('AND', 'all_attributes'), ('OR', 'any_attribute')):
    harness('C17', _n, functions=FN + '.get_attributes', bounds=BND + '; 3 records of 2 tags')(query(_l))


@harness('C17', 'list_of_values', functions=FN + '.get_attributes', bounds=BND + '; 2 records, a query with 2 values')
def list_of_values(c):
    recs = values(c, 'r', ['a'], 2)
    for j, r in enumerate(recs):
        r['id'] = f'i{j}'
    e = edm(c, [('A', r) for r in recs])
    q = [c.real('q0', 0, 3), c.real('q1', 0, 3)]
    got = e.get_attributes(['A'], {'a': q}).get('A', [])
    hit = [r for r in recs if 'a' in r and bool(c.either(r['a'] == q[0], r['a'] == q[1]))]
    same(c, got, hit, 'records with any of the values')


@harness('C17', 'tags', functions=FN + '.get_attributes, get_tags', bounds=BND + '; 3 records')
def tags(c):
    recs = [{'id': f'i{j}', 'a': c.real(f'a{j}', 0, 3)} for j in range(3)]
    tag = [c.choice(f't{j}', ['A', 'B']) for j in range(3)]
    e = edm(c, list(zip(tag, recs)))
    for t in ('A', 'B', ['A', 'B'], ['B'], None):
        want = set('AB') if t is None else set(t)
        got = e.get_attributes(t)
        c.true(set(got) == want & set(tag), 'tags found')
        for k in got:
            same(c, got[k], [r for r, g in zip(recs, tag) if g == k], 'every record of the tag')
    c.true(e.get_tags() == sorted(set(tag)), 'tags')
    q = c.real('q', 0, 3)
    got = e.get_attributes(attributes={'a': q})
    for k in ('A', 'B'):
        same(c, got.get(k, []), [r for r, g in zip(recs, tag) if g == k and bool(r['a'] == q)],
             'matching records of every tag')


def bores(c, n):
    """wellbores, each the side track of an earlier one or none"""
    par = [c.choice(f'par{j}', [-1] + list(range(j))) for j in range(n)]
    recs = []
    for j in range(n):
        r = dict(wellbore_id=f'w{j}', wellbore_name=f'n{j}', well_id=f'well{j % 2}')
        if par[j] >= 0:
            r['parent_wellbore_id'] = f'w{par[j]}'
        recs.append(r)
    anc = []
    for j in range(n):
        a, k = [], par[j]
        while k >= 0:
            a.append(f'w{k}')
            k = par[k]
        anc.append(a)
    return recs, anc


@harness('C17', 'ancestors', functions=FN + '.get_parents', bounds='4 wellbores in any hierarchy, in file order or reversed, queried one after another')
def ancestors(c):
    recs, anc = bores(c, 4)
    if c.bool('reversed'):
        e = edm(c, [('CD_WELLBORE', r) for r in recs[::-1]])
    else:
        e = edm(c, [('CD_WELLBORE', r) for r in recs])
    for rep in range(2):
        for j in range(4):
            c.true(list(e.get_parents(f'w{j}')) == anc[j], 'all ancestors, nearest first')


@harness('C17', 'wellbore_data', functions=FN + '.get_wellbore_data, get_wellbore, add_attributes',
         bounds='3 wellbores in any hierarchy, 2 wells, one survey header, station, well and datum each, queried twice by name and id')
def wellbore_data(c):
    recs, anc = bores(c, 3)
    rows = [('CD_WELLBORE', r) for r in recs]
    for j in range(2):
        rows += [('CD_WELL', dict(well_id=f'well{j}', x=c.real(f'w{j}', 0, 1))),
                 ('CD_DATUM', dict(well_id=f'well{j}', datum_id=f'd{j}'))]
    for j in range(3):
        rows += [('CD_SURVEY_HEADER', dict(wellbore_id=f'w{j}', survey_header_id=f'h{j}')),
                 ('CD_SURVEY_STATION', dict(wellbore_id=f'w{j}', survey_header_id=f'h{j}',
                                            md=c.real(f'md{j}', 0, 100))),
                 ('CD_CASE', dict(wellbore_id=f'w{j}', case_id=f'c{j}'))]
    e = edm(c, rows)
    for rep in range(2):
        for j in range(3):
            w = e.get_wellbore(f'n{j}', name=True) if rep else e.get_wellbore(f'w{j}')
            c.true(w.wellbore_id == f'w{j}' and w.wellbore_name == f'n{j}', 'the wellbore')
            for t in sorted({t for t, _ in rows}):
                ids = [f'w{j}']
                if t in ('CD_SURVEY_HEADER', 'CD_SURVEY_STATION'):
                    ids += anc[j]
                own = [r for g, r in rows if g == t and r.get('wellbore_id') in ids[:1]]
                want = own + [r for g, r in rows if g == t and r.get('wellbore_id') in ids[1:]]
                if t in ('CD_WELL', 'CD_DATUM'):
                    want = [r for g, r in rows if g == t and r['well_id'] == f'well{j % 2}']
                same(c, w.well_data.get(t, []), want, f'{t} of the wellbore')


@harness('C17', 'gradients', functions='exchange.edm.Well.get_ppfpt_data', bounds='3 points of 2 groups at any depths')
def gradients(c):
    W = c.W.exchange.edm.Well
    out = {}
    data = {}
    for tag, gid, key, name in (
            ('CD_PORE_PRESSURE', 'pore_pressure_group_id', 'pore_pressure', 'pore_pressure'),
            ('CD_FRAC_GRADIENT', 'frac_gradient_group_id', 'frac_gradient_pressure', 'fracture_pressure'),
            ('CD_TEMP_GRADIENT', 'temp_gradient_group_id', 'temperature', 'temperature')):
        if name == 'temperature':
            continue
        rows = [{gid: f'g{j // 2}', 'tvd': c.real(f'{key}t{j}', 0, 100),
                 key: c.real(f'{key}v{j}', 0, 100)} for j in range(3)]
        data[tag] = rows
        out[name] = rows, key
    r = W('w0', 'n0', data).get_ppfpt_data()
    c.true(r['temperature'] is None, 'nothing where there is no record')
    for name, (rows, key) in out.items():
        got = r[name]
        c.true(set(got) == {'g0', 'g1'}, 'groups')
        c.eqs(got['g1'], [[rows[2]['tvd'], rows[2][key]]], 'the group of one')
        a, b = [(x['tvd'], x[key]) for x in rows[:2]]
        if b[0] < a[0]:
            a, b = b, a
        c.eqs(got['g0'], [a, b], 'in order of depth')


@harness('C17', 'rows_of_a_record', functions='exchange.edm.Well.get_data, make_case', bounds='3 rows with any identifiers')
def rows_of_a_record(c):
    rows = [dict(fluid_id=c.real(f'f{j}', 0, 3), n=j) for j in range(3)]
    W = c.W.exchange.edm.Well('w0', 'n0', {'CD_FLUID': rows})
    q = c.real('q', 0, 3)
    want = [r for r in rows if bool(r['fluid_id'] == q)]
    got = W.get_data(q, label='fluid')
    if not want:
        c.true(got is None, 'none')
    else:
        same(c, got, want, 'rows with the identifier')


@harness('C17', 'names', functions=FN + '.get_wells, get_sites, get_wellbore_ids, get_case_name_from_id',
         bounds='2 records of each kind')
def names(c):
    v = [c.real(f'v{j}', 0, 1) for j in range(2)]
    rows = []
    for j in range(2):
        rows += [('CD_WELL_ALL', dict(well_common_name=f'a{j}', v=v[j])),
                 ('CD_SITE', dict(site_name=f's{j}', v=v[j])),
                 ('CD_WELLBORE', dict(wellbore_id=f'w{j}', wellbore_name=f'n{j}', well_id=f'x{j}')),
                 ('CD_CASE', dict(case_id=f'c{j}', case_name=f'cn{j}'))]
    e = edm(c, rows)
    c.true(set(e.get_wells()) == {'a0', 'a1'}, 'wells')
    c.true(set(e.get_sites()) == {'s0', 's1'}, 'sites')
    c.true(set(e.get_wellbore_ids()) == {'n0', 'n1'}, 'wellbores')
    for j in range(2):
        c.eq(e.get_wells()[f'a{j}']['v'], v[j], 'of the well')
        c.eq(e.get_sites()[f's{j}']['v'], v[j], 'of the site')
        c.true(e.get_wellbore_ids()[f'n{j}']['wellbore_id'] == f'w{j}', 'of the wellbore')
        c.true(e.get_case_name_from_id(f'c{j}') == f'cn{j}', 'name of the case')
    c.true(e.get_case_name_from_id('none') is None, 'no such case')
