"""Models of material properties: sessions of calls, data sets, fits and the
materials that are shipped."""
import csv
import os
import warnings
import kit
from auxi.modelling.process.materials.core import Material
from auxi.tools.materialphysicalproperties import (
    coals, core, gases, idealgas, liquids, slags)
from auxi.tools.materialphysicalproperties.core import DataSet, StateOfMatter
from auxi.tools.materialphysicalproperties.polynomial import PolynomialModelT

HERE = os.path.dirname(os.path.abspath(core.__file__))
MIX = {'Wilke': gases.WilkeMuTx, 'Herning': gases.HerningZippererMuTx,
       'IdealCp': gases.IdealCpTx}
SLAG = {'UrbainX': slags.UrbainViscosityTx, 'UrbainY': slags.UrbainViscosityTy,
        'RiboudX': slags.RiboudViscosityTx,
        'RiboudY': slags.RiboudViscosityTy}
COAL = {'DafCp': coals.DafCpTy, 'DafH': coals.DafHTy}
SIMPLE = ['BetaT', 'RhoT', 'RhoTP', 'RhoTPx', 'Poly']
PROPS = ['alpha', 'beta', 'Cp', 'k', 'mu', 'nu', 'rho']
COUNT = [0]


def scratch(ext):
    COUNT[0] += 1
    return os.path.abspath('m%d%s' % (COUNT[0], ext))


def flat(k='', mm='0', P='0', c=(), lo='', hi=''):
    return {'kind': k, 'mm': mm, 'P': P, 'c': list(c), 'lo': lo, 'hi': hi}


class Made:
    """A model and how the specification is to know it."""
    def __init__(self, model, **kw):
        self.model, self.desc = model, flat(**kw)


def build(kind, r):
    if kind == 'BetaT':
        return Made(idealgas.BetaT(), k=kind)
    if kind == 'RhoT':
        mm, P = r.uniform(2, 100), r.choice([101325.0, 1e5, r.uniform(0, 1e7)])
        return Made(idealgas.RhoT(mm, P), k=kind, mm=kit.num(mm), P=kit.num(P))
    if kind == 'RhoTP':
        mm = r.uniform(2, 100)
        return Made(idealgas.RhoTP(mm), k=kind, mm=kit.num(mm))
    if kind == 'RhoTPx':
        return Made(idealgas.RhoTPx(), k=kind)
    if kind == 'Poly':
        n = r.randint(0, 8)
        c = [r.uniform(-5, 5) * 10.0 ** (-2.5 * (n - i))
             for i in range(n + 1)]
        m = PolynomialModelT('M', 'density', 'rho', '\\rho', 'kg/m3',
                             ['a'], ['b'], c)
        return Made(m, k=kind, c=kit.nums(c), lo='0')
    for d in (MIX, SLAG, COAL):
        if kind in d:
            return Made(d[kind](), k=kind)


KINDS = ['BetaT', 'RhoT', 'RhoTP', 'RhoTPx', 'Poly'] + list(MIX) + \
    list(SLAG) + list(COAL)


def to_state(fields):
    st = {}
    for f in fields:
        t = f['t']
        st[f['k']] = (float(f['v']) if t == 'num' else
                      {a['c']: float(a['v']) for a in f['d']} if t == 'dict'
                      else None if t == 'none' else
                      [1.0, 2.0] if t == 'list' else 'hot')
    return st


def fields(st):
    out = []
    for k, v in st.items():
        f = {'k': k, 't': 'num', 'v': '0', 'd': []}
        if isinstance(v, dict):
            f.update(t='dict', d=[{'c': c, 'v': kit.num(x)}
                                  for c, x in v.items()])
        elif v is None:
            f['t'] = 'none'
        elif isinstance(v, str):
            f['t'] = 'text'
        elif isinstance(v, list):
            f['t'] = 'list'
        elif isinstance(v, (bool, int)):
            f['t'] = type(v).__name__
        else:
            f['v'] = kit.num(v)
        out.append(f)
    return out


def pure(st):
    """What is known about the pure gases of a composition."""
    out = []
    x, T = st.get('x'), st.get('T')
    if isinstance(x, dict) and isinstance(T, float):
        for c in x:
            if c in gases.materials:
                m = gases.materials[c]
                e1, mu = kit.attempt(lambda: m.mu(T=T))
                e2, cp = kit.attempt(lambda: m.Cp(T=T))
                out.append({'c': c, 'mu': '' if e1 else kit.num(mu),
                            'Cp': '' if e2 else kit.num(cp)})
    return out


def change(made, f, v):
    setattr(made.model, f, v / 1000.0 if f == 'mm' else v)
    made.desc = dict(made.desc)
    made.desc[f] = kit.num(v)


def call(rec, made, st, how):
    m = made.model
    before = fields(st)
    f = m if how else m.calculate
    err, v = kit.attempt(lambda: f(**st))
    rec.event('call', model=made.desc, how='call' if how else 'calculate',
              state=before, after=fields(st), err=err,
              v='' if err else kit.num(v), pure=pure(st)
              if made.desc['kind'] in MIX else [])


# ---- states -----------------------------------------------------------------
SLAGS = ['SiO2', 'P2O5', 'CaO', 'MgO', 'Na2O', 'K2O', 'CaF2', 'FeO', 'MnO',
         'TiO2', 'ZrO2', 'Al2O3', 'Fe2O3', 'B2O3', 'Cr2O3']
HALF = ['PO2.5', 'FeO1.5', 'BO1.5']


def temperature(r, kind):
    if kind in SLAG:
        return r.choice([1773.15, r.uniform(1200, 2500), r.uniform(1200, 2500),
                         r.uniform(600, 5000)])
    if kind in COAL or kind in SIMPLE and r.random() < .3:
        return r.choice([3000.0, r.uniform(2500, 20000), r.uniform(1, 60),
                         r.uniform(1, 6)])
    return r.choice([300.0, 373.15, r.uniform(1, 2500), r.uniform(240, 600),
                     r.uniform(240, 600)])


def share(r):
    return r.choice([r.random(), r.random(), 1.0, 0.0, 1e-6, 50 * r.random()])


def comp(r, pool):
    cs = r.sample(pool, r.randint(1, min(7, len(pool))))
    return {c: share(r) for c in cs}


def state(r, kind):
    st = {'T': temperature(r, kind)}
    if kind in ('RhoTP', 'RhoTPx'):
        st['P'] = r.choice([101325.0, 0.0, r.uniform(0, 1e7)])
    if kind == 'RhoTPx':
        st['x'] = comp(r, ['H2', 'O2', 'N2', 'CO2', 'CH4', 'H2O', 'SO2',
                           'Fe(CO)5', 'HCl'])
    elif kind in MIX:
        st['x'] = comp(r, list(gases.materials) + ['XeF6', 'H2'])
        if r.random() < .4:
            # a gas in its range, and others of which there is none
            st['T'] = r.uniform(150, 450)
            st['x'] = dict.fromkeys(r.sample(list(gases.materials), 3), 0.0)
            st['x'][r.choice(['N2', 'O2', 'Air', 'CO2'])] = share(r) + .01
    elif kind in ('UrbainX', 'RiboudX'):
        st['x'] = comp(r, SLAGS + HALF)
        if r.random() < .75:
            st['x']['SiO2'] = .1 + share(r)
        elif r.random() < .7:
            st['x']['P2O5'] = .1 + share(r)
        st['x'].setdefault(r.choice(['CaO', 'Al2O3']), .3)
    elif kind in SLAG:
        st['y'] = comp(r, SLAGS)
        if r.random() < .75:
            st['y']['SiO2'] = .1 + share(r)
        elif r.random() < .7:
            st['y']['P2O5'] = .1 + share(r)
        st['y'].setdefault(r.choice(['CaO', 'Al2O3']), .3)
    elif kind in COAL:
        for e in 'CHONS':
            st['y_' + e] = r.choice([r.random(), r.random(), 0.0, 1.0])
    if kind not in MIX and r.random() < .15:
        keys = list(st)
        r.shuffle(keys)
        st = {k: st[k] for k in keys}
    return st


def spoil(r, st, kind):
    st = dict(st)
    k = r.choice(list(st))
    w = r.choice(['missing', 'extra', 'text', 'none', 'low', 'list', 'number',
                  'dict', 'high', 'int', 'int', 'bool'])
    if w == 'missing':
        del st[k]
    elif w == 'extra':
        st[r.choice(['t', 'z', 'X', 'P_', 'P', 'x', 'y_Z'])] = r.choice(
            [1.0, 0.0, None, None, 'hot', {'N2': 1.0}])
        if r.random() < .5 and 'P' not in st:
            st['P'] = None
    elif w == 'text':
        st[k] = 'hot'
    elif w == 'none':
        st[k] = None
    elif w == 'list':
        st[k] = [1.0, 2.0]
    elif w == 'low':
        ks = [a for a in st if isinstance(st[a], float)]
        st[r.choice(ks)] = -r.choice([1.0, 1e-9, 300.0])
    elif w == 'high':
        ks = [a for a in st if a[:2] == 'y_']
        if ks:
            st[r.choice(ks)] = r.choice([1.0000001, 2.0, 83.0])
    elif w == 'int':
        ks = [a for a in st if isinstance(st[a], float)]
        k = r.choice(ks)
        st[k] = int(st[k]) if st[k] > 1 else 1
    elif w == 'bool':
        st[k] = True
    elif w == 'number':
        st[k] = .5
    else:
        st[k] = {'N2': 1.0}
    return st


# ---- data sets --------------------------------------------------------------
def write_table(path, name, text, ref, cols, rows, r):
    """A data set file; cells are quoted when they have to be."""
    with open(path, 'w', newline='') as f:
        w = csv.writer(f, quoting=r.choice(
            [csv.QUOTE_MINIMAL, csv.QUOTE_NONNUMERIC]))
        w.writerow(['Name', name])
        w.writerow(['Description', text])
        w.writerow(['Reference', ref])
        for k in range(4):
            w.writerow([c[k] for c in cols])
        gap = r.random()
        for j, row in enumerate(rows):
            if j and gap < .1 and r.random() < .3:
                w.writerow([])
            w.writerow(row)
        if .05 < gap < .2:
            for _ in range(r.randint(1, 2)):
                w.writerow([])


def dataset_seen(d):
    return {'name': d.name, 'material': d.material, 'text': d.description,
            'ref': d.reference, 'names': list(d.col_names),
            'display': list(d.col_display_symbols), 'units': list(d.col_units),
            'symbols': list(d.col_symbols),
            'by': [{'s': s, 'name': d.names_dict[s],
                    'display': d.display_symbols_dict[s],
                    'units': d.units_dict[s]} for s in sorted(d.names_dict)],
            'data': [{'s': s, 'v': kit.nums(d.data[s].tolist())}
                     for s in d.data.columns]}


def table(r):
    n = r.randint(1, 5)
    pool = [('Density', '\\rho', 'kg/m3', 'rho'),
            ('Specific, heat', 'C_p', 'J/kg/K', 'Cp'),
            ('Conductivity "k"', 'k', 'W/m/K', 'k'),
            ('Viscosity', '\\mu', 'Pa.s', 'mu'),
            ('Expansion', '\\beta', '1/K', 'beta'),
            ('Odd', 'x_{1}', '', 'z'), ('No. 1 #', '#', '# / m', 'p#1'),
            ("Don't; | \t tab", "'", 'a;b', 'q r'), ('NA', 'NaN', '-', 'n')]
    cols = r.sample(pool, n)
    cols.insert(r.randint(0, n) if r.random() < .3 else 0,
                ('Temperature', 'T', 'K', 'T'))
    T = sorted(r.sample(range(200, 1500), r.choice([r.randint(5, 14), r.randint(2, 5)])))
    if r.random() < .3:
        r.shuffle(T)
    T = [t + r.choice([0.0, .25]) for t in T]
    if r.random() < .5:
        # measured more than once
        for _ in range(r.randint(1, 3)):
            T.insert(r.randint(0, len(T)), r.choice(T))
    rows = []
    size = [10.0 ** r.choice([0, -5, 3, -9, -12, -15, 7]) for _ in cols]
    for t in T:
        rows.append([t if c[3] == 'T' else
                     size[j] * round(r.choice([1, 1e-3, 10]) *
                                     r.uniform(.1, 9), 9)
                     if j % 2 else size[j] * (500 - .3 * t + 2e-4 * t * t)
                     for j, c in enumerate(cols)])
    return cols, T, rows


def dataset_case(rec, r):
    rec.case('data set')
    cols, T, rows = table(r)
    p = scratch('-Set.csv')
    text = r.choice(['plain', 'a, b and "c"', 'caf\u00e9', '# 5', '', "it's"])
    write_table(p, 'Stuff', text, 'smith2006, p. 4', cols, rows, r)
    err, d = kit.attempt(lambda: DataSet(p))
    rec.event('dataset', err=err, want={
        'name': os.path.basename(p), 'material': 'Stuff', 'text': text,
        'ref': 'smith2006, p. 4', 'names': [c[0] for c in cols],
        'display': [c[1] for c in cols], 'units': [c[2] for c in cols],
        'symbols': [c[3] for c in cols],
        'by': [{'s': c[3], 'name': c[0], 'display': c[1], 'units': c[2]}
               for c in sorted(cols, key=lambda c: c[3])],
        'data': [{'s': c[3], 'v': kit.nums([row[j] for row in rows])}
                 for j, c in enumerate(cols)]},
        got=dataset_seen(d) if not err else {})
    if err:
        return
    str(d)
    for _ in range(2):
        c = r.choice([c for c in cols if c[3] != 'T'])
        deg = r.randint(0, 3)
        if len(set(T)) <= 5 and r.random() < .6:
            deg = len(set(T)) - 1       # through every point
        fit(rec, r, d, c[3], deg, T, [row[cols.index(c)] for row in rows])
    # what was read does not change by fitting
    rec.event('again', got=dataset_seen(d), want=dataset_seen(DataSet(p)))
    os.remove(p)


def fit(rec, r, d, s, deg, T, y):
    err, m = kit.attempt(lambda: PolynomialModelT.create(d, s, deg))
    ev = {'err': err, 'd': d.name, 'material': d.material, 's': s,
          'deg': deg, 'T': kit.nums(T), 'y': kit.nums(y), 'at': [],
          'meta': {}, 'probe': []}
    if not err:
        for t in T:
            e, v = kit.attempt(lambda: m(T=float(t)))
            ev['at'].append('' if e else kit.num(v))
        ev['meta'] = {'material': m.material, 'property': m.property,
                      'symbol': m.symbol, 'display': m.display_symbol,
                      'units': m.units, 'datasets': list(m.datasets)}
        lo, hi = min(T), max(T)
        for t in (lo, hi, lo - .01, hi + .01, (lo + hi) / 2, lo / 2, hi * 2):
            e, v = kit.attempt(lambda: m(T=float(t)))
            ev['probe'].append({'T': kit.num(float(t)), 'err': e})
    rec.event('fit', **ev)


def template_case(rec, r):
    rec.case('template')
    name = r.choice(['Water', 'AIR', 'slag-2', 'molten Salt'])
    d = scratch('')
    os.mkdir(d)
    err, _ = kit.attempt(lambda: DataSet.create_template(name, d, False))
    files = sorted(os.listdir(d))
    err2, ds = kit.attempt(lambda: DataSet(os.path.join(d, files[0])))
    got = dataset_seen(ds) if not err2 else {'data': []}
    rec.event('template', err=err or err2, name=name, lower=name.lower(),
              files=files, material=got.get('material', ''),
              symbols=got.get('symbols', []),
              columns=len(got.get('names', [])),
              rows=[len(c['v']) for c in got['data']])
    for f in files:
        os.remove(os.path.join(d, f))
    os.rmdir(d)


# ---- what is shipped --------------------------------------------------------
def shipped(rec):
    """Every fitted model, called at the points of its data set."""
    rec.case('shipped models')
    d = os.path.join(HERE, 'data')
    for n in sorted(os.listdir(d)):
        if not n.endswith('.json'):
            continue
        err, m = kit.attempt(
            lambda: PolynomialModelT.read(os.path.join(d, n)))
        if err:
            rec.event('shipped', file=n, err=err, datasets=[], T=[], y=[],
                      v=[], s='')
            continue
        with open(os.path.join(d, m.datasets[0]), newline='') as f:
            rows = list(csv.reader(f))
        j, i = rows[6].index(m.symbol), rows[6].index('T')
        pts = [x for x in rows[7:] if len(x) > j and x[i] and x[j]]
        out = []
        for x in pts:
            e, v = kit.attempt(lambda: m(T=float(x[i])))
            out.append('' if e else kit.num(v))
        rec.event('shipped', file=n, err='', s=m.symbol,
                  datasets=list(m.datasets),
                  T=[kit.num(float(x[i])) for x in pts],
                  y=[kit.num(float(x[j])) for x in pts], v=out)


NAMES = {'Air': 'Air', 'Ar': 'Argon', 'NH3': 'Ammonia',
         'CO2': 'Carbon Dioxide', 'CO': 'Carbon Monoxide', 'N2': 'Nitrogen',
         'O2': 'Oxygen', 'H2O': 'Water Vapour'}


def data_of(material, s):
    """The data sets that are shipped for a material and property."""
    d = os.path.join(HERE, 'data')
    out = []
    for n in sorted(os.listdir(d)):
        if n.endswith('.csv'):
            with open(os.path.join(d, n), newline='') as f:
                rows = list(csv.reader(f))
            key = material.lower().replace(' ', '-')
            if n.startswith('dataset-%s-lienhard' % key) and s in rows[6]:
                j, i = rows[6].index(s), rows[6].index('T')
                out.append([(float(x[i]), float(x[j])) for x in rows[7:]
                            if len(x) > j and x[i] and x[j]])
    return out


def shipped_sets(rec):
    d = os.path.join(HERE, 'data')
    for n in sorted(os.listdir(d)):
        if n.endswith('.csv'):
            rec.case('shipped data set %s' % n)
            err, ds = kit.attempt(lambda: DataSet(os.path.join(d, n)))
            rec.event('shipset', file=n, err=err,
                      data=[] if err else dataset_seen(ds)['data'])


def materials(rec):
    for key, m in list(gases.materials.items()) + [('H2O(l)', liquids.h2o)]:
        rec.case('material %s' % key)
        want = NAMES.get(key, 'Water')
        rec.event('shipmat', key=key, name=m.name, want=want,
                  state=m.mstate.name)
        for s in PROPS:
            sets = data_of(want, s)
            if not sets:
                # nothing to compare with: only consistency
                continue
            pts = sets[-1]
            out = []
            for t, _ in pts:  # data points
                e, v = kit.attempt(lambda: getattr(m, s)(T=t))
                out.append('' if e else kit.num(v))
            rec.event('shipprop', key=key, s=s, gas=key != 'H2O(l)',
                      T=[kit.num(t) for t, _ in pts],
                      y=[kit.num(y) for _, y in pts], v=out)


def material_case(rec, r):
    """A made up material with some property models."""
    rec.case('own material')
    own = r.sample(PROPS, r.randint(0, len(PROPS)))
    models = {}
    wide = r.random() < .4      # of models that want a pressure, too
    for s in own:
        models[s] = build('RhoTP' if wide else
                          r.choice(['BetaT', 'RhoT', 'Poly']), r).model
    state_ = r.choice(list(StateOfMatter))
    kw = {}
    if r.random() < .5:
        kw['description'] = 'about'
    given = dict(models)
    if own or r.random() < .5:
        err, m = kit.attempt(lambda: Material('Own', state_, models, **kw))
    else:
        err, m = kit.attempt(lambda: Material('Own', state_, **kw))
    if err:
        rec.event('material', err=err, own=own)
        return
    T = r.uniform(250, 900)
    for st in ({'T': T, 'P': 1e5}, {'T': T, 'P': r.uniform(1e4, 1e6)},
               {'T': 300.0, 'P': 1e5}, {'T': -5.0, 'P': 1e5}) if wide else \
            ({'T': T}, {'T': 300.0}, {'T': -5.0}):
        T = st['T']
        vals = []
        for s in PROPS:
            e, v = kit.attempt(lambda: getattr(m, s)(**st))
            e2, w = kit.attempt(lambda: given[s](**st)) if s in given \
                else ('none', 0)
            vals.append({'s': s, 'err': e, 'v': '' if e else kit.num(v),
                         'own': s in given, 'werr': e2,
                         'w': '' if e2 else kit.num(w)})
        rec.event('material', err='', own=own, T=kit.num(T), vals=vals,
                  name=m.name, text=m.description or '',
                  want=kw.get('description', ''), state=m.mstate.name,
                  wstate=state_.name, kept=models == given)


def run(rec, scenarios):
    warnings.simplefilter('ignore')
    r = kit.rng('matter')
    for i, sc in enumerate(scenarios):
        rec.case('spec %d' % i)
        kind = sc[0]['kind']
        if kind == 'Poly':
            p = scratch('.csv')
            write_table(p, 'S', 't', 'r', [
                ('Temperature', 'T', 'K', 'T'), ('D', 'd', 'u', 'rho')],
                [(t, 1e-6 * t * t - 0.002 * t + 3.5)
                 for t in (250.0, 300.0, 400.0, 500.0, 590.0)], r)
            m = PolynomialModelT.create(DataSet(p), 'rho', 2)
            os.remove(p)
            made = Made(m, k='Poly', c=['1e-6', '-0.002', '3.5'], lo='250',
                        hi='590')
        elif kind == 'RhoT':
            made = Made(idealgas.RhoT(28.0134, 101325.0), k=kind,
                        mm='28.0134', P='101325')
        elif kind == 'RhoTP':
            made = Made(idealgas.RhoTP(28.0134), k=kind, mm='28.0134')
        else:
            made = build(kind, r)
        for k, o in enumerate(sc):
            if o['set']:
                change(made, o['set'], float(o['v']))
                continue
            call(rec, made, to_state(o['state']), (i + k) % 2)
    for i in range(1500 if kit.THOROUGH else 130):
        rec.case('session %d' % i)
        mades = [build(k, r) for k in r.sample(KINDS, 4)]
        states = []
        for _ in range(r.randint(5, 12)):
            made = r.choice(mades)
            kind = made.desc['kind']
            if kind in ('RhoT', 'RhoTP') and r.random() < .3:
                change(made, 'mm', r.uniform(2, 100))
                if kind == 'RhoT':
                    change(made, 'P', r.uniform(1e4, 1e6))
            old = [s for k, s in states if k == kind]
            if old and r.random() < .3:
                st = r.choice(old)
                ds = [d for d in st.values() if isinstance(d, dict) and d]
                if ds and r.random() < .5:
                    # the same composition object, with other contents
                    d = r.choice(ds)
                    c = r.choice(list(d))
                    d[c] = share(r) + (.1 if c == 'SiO2' else 0)
                    call(rec, made, st, r.random() < .5)
            else:
                st = state(r, kind)
                if r.random() < .25:
                    st = spoil(r, st, kind)
                states.append((kind, st))
            call(rec, made, st, r.random() < .5)
            if r.random() < .2 and type(st.get('T')) is float:
                # one that is very near, and the first again
                dT = r.choice([.03, -.03, .002, 1e-4, 1e-6])
                call(rec, made, dict(st, T=st['T'] + dT), r.random() < .5)
                call(rec, made, st, r.random() < .5)
            if r.random() < .15 and type(st.get('T')) is float:
                # the same number, of the right type and of another one
                st = dict(st, T=float(round(st['T'])))
                call(rec, made, st, r.random() < .5)
                call(rec, made, dict(st, T=int(st['T'])), r.random() < .5)
    for _ in range(300 if kit.THOROUGH else 30):
        dataset_case(rec, r)
        material_case(rec, r)
    for _ in range(4):
        template_case(rec, r)
    shipped(rec)
    shipped_sets(rec)
    materials(rec)


if __name__ == '__main__':
    kit.main(run)
