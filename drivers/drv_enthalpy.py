"""Histories of operations on packages and streams that carry energy."""
import os
import warnings
import numpy as np
import kit
import drv_thermochem as dt
from auxi.modelling.process.materials import thermo
from auxi.tools.chemistry import thermochemistry as th

SPEC = {'A': (['a', 'b'], ['0.5', '0.3']), 'B': (['b'], ['1']),
        'C': (['b', 'a', 'c'], ['0.2', '0.2', '0.6'])}
NAMES = {'a': 'FeO[S]', 'b': 'SiO2[S]', 'c': 'O2[G]'}
POOL = ['Al2O3[S]', 'CaCO3[S]', 'CaO[S]', 'MgO[S]', 'Fe2O3[Salpha]',
        'Fe[Salpha]', 'Fe[L]', 'FeO[S]', 'SiO2[S]', 'TiO2[Srutile]',
        'O2[G]', 'N2[G]', 'CO2[G]', 'CO[G]', 'H2O[G]', 'H2O[L]', 'CH4[G]',
        'C[Sgr]', 'Cu2S[Salpha]', 'Ni3S2[Salpha]', 'ZnS[S]', 'SO2[G]']
COAL = ['C[Sgr]', 'H2[G]', 'O2[G]', 'N2[G]', 'S[Sortho]']
ASH = ['SiO2[S]', 'Al2O3[S]', 'CaO[S]', 'H2O[L]']
BURNT = ['CO2[G]', 'H2O[L]', 'O2[G]', 'N2[G]', 'SO2[G]']
TINY = [1e-3, 1e-5, 1e-7, 1e-8]
COUNT = [0]
BENCH = [0]
SCALE = [1.0]
FILES = {}


def phase_data(c):
    """The data of a compound, read from the file it was loaded from."""
    if not FILES:
        import glob
        base = os.path.join(os.path.dirname(os.path.abspath(th.__file__)),
                            'data', 'rao')
        for p in glob.glob(os.path.join(base, 'Compound_*.json')):
            f, ph, _ = dt.from_json(p)
            FILES[f] = ph
    f, p = c[:-1].split('[')
    return f, dt.seen({p: FILES[f][p]})[0]


class Flow:
    """What packages and streams have in common, by name."""
    def __init__(self, stream):
        self.stream = stream

    def create(self, m, *a):
        return (m.create_stream if self.stream else m.create_package)(*a)

    def one(self, p, c):
        return (p.get_compound_mfr if self.stream
                else p.get_compound_mass)(c)

    def mass(self, p):
        return p.mfr if self.stream else p.mass

    def H(self, p):
        return p.Hfr if self.stream else p.H

    def setH(self, p, v):
        if self.stream:
            p.Hfr = v
        else:
            p.H = v

    def amounts(self, p):
        return (p.get_compound_afrs if self.stream
                else p.get_compound_amounts)()

    def amount_of(self, p, c):
        return (p.get_compound_afr if self.stream
                else p.get_compound_amount)(c)

    def amount(self, p):
        return p.afr if self.stream else p.amount

    def elements(self, p, *a):
        return (p.get_element_mfrs if self.stream
                else p.get_element_masses)(*a)

    def element_dict(self, p):
        return (p.get_element_mfr_dictionary if self.stream
                else p.get_element_mass_dictionary)()

    def element(self, p, e):
        return (p.get_element_mfr if self.stream
                else p.get_element_mass)(e)


class Bench:
    def __init__(self, rec, stream):
        self.rec, self.f = rec, Flow(stream)
        self.mats, self.byid, self.reg, self.known = {}, {}, {}, set()
        BENCH[0] += 1
        self.alike = BENCH[0] % 4 == 3      # its materials all have one name
        rec.event('kind', kind='stream' if stream else 'package')

    def compound(self, c):
        if c not in self.known:
            self.known.add(c)
            f, ph = phase_data(c)
            self.rec.event('compound', c=c, formula=f, ph=ph)

    def material(self, name, comps, assays, coal=False):
        """assays: {name: (fractions, hhv)}"""
        for c in comps + (BURNT if coal else []):
            self.compound(c)
        COUNT[0] += 1
        p = os.path.abspath('t%d.txt' % COUNT[0])
        names = list(assays)
        rr = kit.rng('file%d' % COUNT[0])
        rows = ['Compound ' + ' '.join(names)]
        for i, c in enumerate(comps):
            rows.append('\t'.join([c] + [assays[a][0][i] for a in names]))
        custom = []
        if coal or COUNT[0] % 3 == 0:
            rows.append('#')
            custom = [('Price[USD/kg]', [rr.choice(['0.0', '%.2f' % rr.uniform(
                0, 9), '-1.5', '2.5e-3']) for _ in names]),
                      ('IsCoal', ['1' if coal else '0' for _ in names])]
            if coal and assays[names[0]][1] != 'none':
                custom.append(('HHV[MJ/kg]', [assays[a][1] for a in names]))
            if COUNT[0] % 2:
                custom.append(('Grade', ['%.2g' % rr.random()
                                         for _ in names]))
            rr.shuffle(custom)
            rows += ['  '.join([k] + v) for k, v in custom]
        if COUNT[0] % 4 == 0:
            rows.insert(rr.randint(1, len(rows)), '')
        with open(p, 'w') as f:
            f.write('\n'.join(rows) + '\n')
        title = 'Ore' if self.alike else name
        m = thermo.Material(title, p, 'about ' + title)
        os.remove(p)
        self.mats[name] = m
        self.byid[id(m)] = name
        self.rec.event('material', name=name, title=title, comps=list(comps),
                       coal=coal, assays=[
                           {'a': a, 'fr': assays[a][0], 'coal': coal,
                            'hhv': assays[a][1] if coal else '0'}
                           for a in names], mat=self.seen(m),
                       custom=[{'a': a, 'k': k, 'v': v[i]}
                               for k, v in custom
                               for i, a in enumerate(names)],
                       totals=[kit.num(m.get_assay_total(a)) for a in names])

    def seen(self, m):
        return {'name': m.name, 'text': m.description,
                'comps': list(m.compounds), 'elements': list(m.elements),
                'custom': [{'a': a, 'k': k, 'v': kit.num(v)}
                           for a, d in sorted(
                               m.assay_custom_properties.items())
                           for k, v in sorted(d.items())],
                'assays': [{'a': a, 'fr': kit.nums(m.converted_assays[a]),
                            'raw': kit.nums(m.raw_assays[a])}
                           for a in sorted(m.converted_assays)]}

    def addassay(self, name, a, fr, shape):
        m = self.mats[name]
        v = [float(x) for x in fr] if shape == 'list' else \
            np.array([float(x) for x in fr])
        err, _ = kit.attempt(lambda: m.add_assay(a, v))
        self.rec.event('addassay', err=err, name=name, a=a, fr=fr,
                       shape=shape, mat=self.seen(m),
                       total=kit.num(m.get_assay_total(a))
                       if not err else '0', blank=kit.nums(
                           m.create_empty_assay()))

    def content(self, r, p):
        return {'r': r, 'mat': self.byid.get(id(p.material), '?'),
                'm': [kit.num(self.f.one(p, c)) for c in p.material.compounds],
                'P': kit.num(p.P), 'T': kit.num(p.T),
                'H': kit.num(self.f.H(p)),
                'coal': bool(p.isCoal),
                'hhv': kit.num(p.HHV) if p.HHV is not None else '0',
                'props': [{'k': k, 'v': kit.num(v)} for k, v in sorted(
                    p.custom_properties.items())]}

    def event(self, op, err, **kw):
        self.rec.event(op, err=err, regs=[
            self.content(r, self.reg[r]) for r in sorted(self.reg)], **kw)

    def key(self, p, i):
        cs = p.material.compounds
        return cs[i - 1] if i <= len(cs) else 'XeF6[S]'

    def new(self, r, mat, assay, mass, P, T, norm=True):
        err, p = kit.attempt(lambda: self.f.create(
            self.mats[mat], assay, mass, P, T, norm))
        if not err:
            self.reg[r] = p
        self.event('new', err, r=r, mat=mat, assay=assay, mass=kit.num(mass),
                   P=kit.num(P), T=kit.num(T), norm=norm)

    def empty(self, r, mat):
        self.reg[r] = self.f.create(self.mats[mat])
        self.event('empty', '', r=r, mat=mat)

    def to(self, op, out, fn, **kw):
        err, p = kit.attempt(fn)
        if not err:
            self.reg[out] = p
        self.event(op, err, out=out, **kw)

    def add(self, a, b, out):
        self.to('add', out, lambda: self.reg[a] + self.reg[b], a=a, b=b)

    def addcomp(self, a, i, x, out):
        p = self.reg[a]
        self.to('addcomp', out, lambda: p + (self.key(p, i), x), a=a, i=i,
                x=kit.num(x))

    def addhot(self, a, i, x, T, out):
        p = self.reg[a]
        self.to('addhot', out, lambda: p + (self.key(p, i), x, T), a=a, i=i,
                x=kit.num(x), T=kit.num(T))

    def mul(self, a, k, out):
        self.to('mul', out, lambda: self.reg[a] * k, a=a, k=kit.num(k))

    def takemass(self, a, x, out):
        have = kit.num(self.f.mass(self.reg[a]))
        self.to('takemass', out, lambda: self.reg[a].extract(x), a=a,
                x=kit.num(x), have=have)

    def takecomp(self, a, i, x, out):
        p = self.reg[a]
        self.to('takecomp', out, lambda: p.extract((self.key(p, i), x)), a=a,
                i=i, x=kit.num(x))

    def takeall(self, a, i, out):
        p = self.reg[a]
        self.to('takeall', out, lambda: p.extract(self.key(p, i)), a=a, i=i)

    def takemat(self, a, mat, out):
        self.to('takemat', out,
                lambda: self.reg[a].extract(self.mats[mat]), a=a, mat=mat)

    def clone(self, a, out):
        self.to('clone', out, lambda: self.reg[a].clone(), a=a)

    def clear(self, a):
        err, _ = kit.attempt(self.reg[a].clear)
        self.event('clear', err, a=a)

    def setT(self, a, T):
        err, _ = kit.attempt(lambda: setattr(self.reg[a], 'T', T))
        self.event('setT', err, a=a, T=kit.num(T))

    def setP(self, a, P):
        err, _ = kit.attempt(lambda: setattr(self.reg[a], 'P', P))
        self.event('setP', err, a=a, P=kit.num(P))

    def setH(self, a, H):
        err, _ = kit.attempt(lambda: self.f.setH(self.reg[a], H))
        self.event('setH', err, a=a, H=kit.num(H))

    def toT(self, a, T):
        """Set the enthalpy to the one the content would have at T."""
        p = self.reg[a].clone()
        p.T = T
        self.setH(a, self.f.H(p))

    def prop(self, a, k, v):
        self.reg[a].custom_properties[k] = v
        self.event('prop', '', a=a, k=k, v=kit.num(v))

    def bad(self, what, fn):
        err, _ = kit.attempt(fn)
        self.event('bad', err, what=what)

    def query(self, a):
        p, f = self.reg[a], self.f
        cs, es = p.material.compounds, p.material.elements
        got = {'assay': p.get_assay() if f.mass(p) > 0 else [],
               'amounts': f.amounts(p), 'elm': f.elements(p),
               'el2': f.elements(p, ['O', 'Xe'])}
        eld = f.element_dict(p)
        kw = {k: kit.nums(v) for k, v in got.items()}
        kw['eld'] = [{'e': e, 'v': kit.num(v)} for e, v in eld.items()]
        # answers belong to the one who asked
        for v in got.values():
            if len(v):
                v[0] = 7.75
        eld.clear()
        err, text = kit.attempt(lambda: str(p))
        self.event('query', '', a=a, mass=kit.num(f.mass(p)),
                   text=kit.words(text) if not err else [[err]],
                   none=kit.num(f.one(p, 'XeF6[S]')),
                   each=[kit.num(f.amount_of(p, c)) for c in cs],
                   amount=kit.num(f.amount(p)), els=list(es),
                   el1=[kit.num(f.element(p, e)) for e in es], **kw)

    def materials(self):
        for m in sorted(self.mats):
            self.rec.event('unchanged', m=m, mat=self.seen(self.mats[m]),
                           text=kit.words(str(self.mats[m])))


def from_spec(rec, sc, stream):
    b = Bench(rec, stream)
    for m in sorted({o['mat'] for o in sc if o['op'] in ('new', 'takemat')}):
        comps, fr = SPEC[m]
        b.material(m, [NAMES[c] for c in comps], {'x': (fr, '0')})
    for o in sc:
        k, out = o['op'], o.get('out')
        if k == 'new':
            b.new(o['r'], o['mat'], 'x', float(o['mass']), 2.0, float(o['T']))
        elif k == 'add':
            b.add(o['a'], o['b'], out)
        elif k == 'addcomp':
            b.addcomp(o['a'], o['i'], float(o['x']), out)
        elif k == 'addhot':
            b.addhot(o['a'], o['i'], float(o['x']), float(o['T']), out)
        elif k == 'mul':
            b.mul(o['a'], float(o['k']), out)
        elif k == 'takemass':
            b.takemass(o['a'], float(o['x']), out)
        elif k == 'takecomp':
            b.takecomp(o['a'], o['i'], float(o['x']), out)
        elif k == 'takeall':
            b.takeall(o['a'], o['i'], out)
        elif k == 'takemat':
            b.takemat(o['a'], o['mat'], out)
        elif k == 'clear':
            b.clear(o['a'])
        elif k == 'clone':
            b.clone(o['a'], out)
        elif k == 'setT':
            b.setT(o['a'], float(o['T']))
        elif k == 'setH':
            b.toT(o['a'], float(o['T']))
    for r in sorted(b.reg):
        b.query(r)
    b.materials()


def amount(r):
    return r.choice([0.0, 1.0, 10.0, 123.456, 1e-3, 2e-6, 1e5,
                     r.uniform(0, 500)]) * SCALE[0]


def temp(r):
    return r.choice([25.0, 25.0, 0.0, 1500.0, 700.25, -130.5,
                     round(r.uniform(10, 2000), 2),
                     round(r.uniform(-180, 20), 2)])


def near_temp(r, T):
    """Any temperature, or one close to T."""
    return temp(r) if r.random() < .6 else float(T) + r.choice(
        [0.0, .5, -.5, 3.0, 1e-2])


def fractions(r, n):
    fr = [r.choice(['%.5f', '%.5f', '%.4e', '%.3E']) % (
        r.random() * r.choice([0, 1, 1, .3, 2e-3])) for _ in range(n)]
    if not any(float(x) for x in fr):
        fr[0] = '0.5'
    return fr


ASSAYS = ['x', 'x', 'x', 'y', 'y', 'Compound', 'X2', '2016', 'FeO', '25.0',
          'slag-1_(dry)', 'A_Rather_Long_Name']


def random_case(rec, r, stream, i):
    b = Bench(rec, stream)
    base = r.sample(POOL, r.randint(1, 5))
    for k, n in enumerate('ABC'[:r.randint(1, 3)]):
        comps = list(base)
        if k:
            w = r.random()
            if w < .4:
                comps = r.sample(base, r.randint(1, len(base)))
            elif w < .6:
                comps = r.sample(POOL, r.randint(1, 4))
            else:
                r.shuffle(comps)
        b.material(n, comps, {a: (fractions(r, len(comps)), '0')
                              for a in r.sample(ASSAYS, r.randint(1, 3))})
    if i % (2 if kit.MODE == 'brief' else 5) == (1 if kit.MODE == 'brief' else 4):
        related(b, r)
    else:
        # some of everything, or tiny or huge amounts of everything
        SCALE[0] = r.choice([1.0] * 10 + [1e-7, 1e13])
        ops(b, r, r.randint(6, 22))
        SCALE[0] = 1.0
    for a in sorted(b.reg):
        b.query(a)
    b.materials()


def related(b, r):
    """Made from each other in every way; then each is changed in place, and
    every one is looked at after every change."""
    m = r.choice(sorted(b.mats))
    n = len(b.mats[m].compounds)
    assays = sorted(b.mats[m].converted_assays)
    b.new(1, m, r.choice(assays), r.choice([1.0, 12.5]), 1.0, temp(r))
    b.empty(2, m)
    b.empty(3, m)
    b.new(4, m, r.choice(assays), 0.0, 1.0, 25.0)
    b.prop(1, 'grade', .5)
    src = r.choice([1, 1, 2])
    ways = [lambda o: b.clone(src, o), lambda o: b.clone(1, o),
            lambda o: b.mul(src, 1.0, o),
            lambda o: b.mul(src, 0.0, o), lambda o: b.add(src, 2, o),
            lambda o: b.add(2, src, o),
            lambda o: b.addcomp(src, r.randint(1, n), 0.0, o),
            lambda o: b.addhot(src, r.randint(1, n), 0.0, 25.0, o),
            lambda o: b.takemass(src, 0.0, o),
            lambda o: b.takecomp(src, r.randint(1, n), 0.0, o),
            lambda o: b.new(o, m, assays[0], 1.0, 1.0, 25.0, False),
            lambda o: b.empty(o, m)]
    for o, w in enumerate(r.sample(ways, 6), 5):
        w(o)
    order = sorted(b.reg)
    r.shuffle(order)
    for a in order + order[:3]:
        w, mass = r.random(), float(b.f.mass(b.reg[a]))
        if w < .15 and mass > 0:
            b.setT(a, temp(r))
        elif w < .3:
            b.setP(a, 3.5)
        elif w < .45:
            b.prop(a, r.choice(['grade', 'price']), r.random())
        elif w < .6:
            b.clear(a)
        elif w < .75:
            b.takeall(a, r.randint(1, n), 11)
        elif w < .9:
            b.takemass(a, mass / 4, 11)
        else:
            b.query(a)


def ops(b, r, n):
    for _ in range(n):
        # looked at before and after it is changed
        a = r.choice(sorted(b.reg) or [0])
        twice = a and r.random() < .25
        if twice:
            b.query(a)
        step(b, r, a)
        if twice:
            b.query(a)


def step(b, r, a):
    f = b.f
    m = r.choice(sorted(b.mats))
    if r.random() < .06:
        n = len(b.mats[m].compounds)
        q = r.choice(sorted(b.mats[m].converted_assays) or ['x'])
        b.addassay(m, r.choice(['x', 'y', 'z', q.lower(), q.upper(),
                                q.swapcase(), q[:-1] or 'w', q + '2']),
                   fractions(
            r, max(1, n + r.choice([0, 0, 0, 1, -1]))),
            r.choice(['array', 'array', 'list']))
    live, out = sorted(b.reg), r.randint(1, 4)
    w = r.random()
    if not live or w < .13:
        if r.random() < .12:
            b.empty(out, m)
        else:
            a = r.choice(sorted(b.mats[m].converted_assays)
                         + ['none'] * (r.random() < .15))
            b.new(out, m, a, amount(r), r.choice([1.0, 0.8, 5.0]),
                  temp(r), r.random() < .75)
        return
    p = b.reg[a]
    mass = float(f.mass(p))
    i = r.randint(1, len(p.material.compounds))
    if r.random() < .05:
        i = len(p.material.compounds) + 1
    if w < .3:
        b.add(a, r.choice(live), out)
    elif w < .36:
        b.addcomp(a, i, amount(r), out)
    elif w < .44:
        b.addhot(a, i, amount(r), near_temp(r, p.T), out)
    elif w < .49:
        b.mul(a, r.choice([0.0, .5, 1.0, 1.75, -1.0, -1e-11,
                           np.float64(3.0), np.float64(-.25),
                           np.float32(.5), np.float32(2.0)]), out)
    elif w < .57:
        b.takemass(a, r.choice([mass, mass / 2, 0.0, mass * 1.5 + 1,
                                mass * (1 - r.choice(TINY)),
                                mass * r.choice(TINY), amount(r)]), out)
    elif w < .65:
        t = float(f.one(p, b.key(p, i)))
        b.takecomp(a, i, r.choice([t, t / 3, 0.0, t * 2 + 1, amount(r),
                                   t * (1 - r.choice(TINY)),
                                   t * (1 + r.choice(TINY))]), out)
    elif w < .70:
        b.takeall(a, i, out)
    elif w < .74:
        b.takemat(a, m, out)
    elif w < .77:
        b.clear(a)
    elif w < .81:
        b.clone(a, out)
    elif w < .86:
        b.setT(a, near_temp(r, p.T))
    elif w < .91:
        if mass > 0:
            b.toT(a, near_temp(r, p.T))
    elif w < .93:
        b.setP(a, r.choice([.5, 1.0, 20.0]))
    elif w < .95:
        b.prop(a, r.choice(['grade', 'price']), r.random())
    elif w < .97:
        what, fn = r.choice([
            ('add text', lambda: p + 'x'), ('add none', lambda: p + None),
            ('add text mass', lambda: p + (b.key(p, 1), '1')),
            ('add 4-tuple', lambda: p + (b.key(p, 1), 1.0, 1.0, 1.0)),
            ('scale by text', lambda: p * 'x'),
            ('scale by itself', lambda: p * p),
            ('take none', lambda: p.extract(None)),
            ('take list', lambda: p.extract([1.0])),
            ('take text mass', lambda: p.extract((b.key(p, 1), 'x')))])
        b.bad(what, fn)
    else:
        b.query(a)


def coal_case(rec, r):
    """Streams of coal: all compounds of a daf analysis plus ash."""
    b = Bench(rec, True)
    ash = r.sample(ASH, r.randint(0, 3))
    comps = COAL + ash
    r.shuffle(comps)
    assays, given = {}, r.random() < .7
    for a in ('x', 'y'):
        fr = {'C[Sgr]': .8, 'H2[G]': .05, 'O2[G]': .1, 'N2[G]': .02,
              'S[Sortho]': .01}
        assays[a] = (['%.5f' % (fr.get(c, .05) * r.uniform(.6, 1.4))
                      for c in comps],
                     '%.3f' % r.uniform(15, 35) if given else 'none')
    b.material('K', comps, assays, True)
    if ash:
        b.material('D', ash, {'x': (fractions(r, len(ash)), '0')})
    T0 = r.choice([25.0, 25.0, 150.0])
    for _ in range(r.randint(4, 14)):
        coals = [k for k in sorted(b.reg) if k < 5 and b.reg[k].isCoal]
        out = r.randint(1, 4)
        w = r.random()
        if not coals or w < .2:
            b.new(out, 'K', r.choice('xy'), r.choice([1.0, 250.0, 3000.0]),
                  1.0, r.choice([T0, T0, 100.0, 500.0]))
            continue
        a = r.choice(coals)
        p = b.reg[a]
        mass = float(b.f.mass(p))
        cold = p.T == 25.0
        allowed = [i + 1 for i, c in enumerate(comps) if cold or c in ash]
        if w < .33:
            b.add(a, r.choice(coals), out)
        elif w < .38:
            b.mul(a, r.choice([.5, 1.0, 2.5]), out)
        elif w < .44:
            b.takemass(a, r.choice([mass / 2, mass / 10]), out)
        elif w < .49:
            b.setT(a, r.choice([25.0, 80.0, 650.5]))
        elif w < .55:
            b.toT(a, r.choice([25.0, 150.0, 600.0]))
        elif w < .6:
            b.clone(a, out)
        elif w < .67 and allowed:
            b.addcomp(a, r.choice(allowed), mass * r.choice([0.0, .01, .2]),
                      out)
        elif w < .74:
            b.addhot(a, r.randint(1, len(comps)), mass * r.choice([.01, .1]),
                     r.choice([25.0, 60.0, 400.0]), out)
        elif w < .82 and allowed:
            i = r.choice(allowed)
            x = float(b.f.one(p, b.key(p, i)))
            b.takecomp(a, i, r.choice([x, x / 3, 0.0, x * 2 + 1]), 5)
        elif w < .87 and allowed:
            b.takeall(a, r.choice(allowed), 5)
        elif w < .94 and ash:
            if r.random() < .4:
                b.takemat(a, 'D', 6)
            else:
                b.new(6, 'D', 'x', mass * .1, 1.0, r.choice([25.0, 300.0]))
                b.add(a, 6, out)
        else:
            b.query(a)
    for a in sorted(b.reg):
        b.query(a)
    b.materials()


def coal_findings(rec, stream):
    """What is known to go wrong with coal."""
    b = Bench(rec, stream)
    comps = COAL + ['SiO2[S]']
    b.material('K', comps, {'x': (['.8', '.05', '.08', '.01', '.01', '.05'],
                                  '30.0')}, True)
    m = b.mats['K']
    if not stream:
        err, p = kit.attempt(lambda: m.create_package('x', 100.0, 1.0, 25.0))
        rec.event('coalpackage', err=err)
        return
    s = m.create_stream('x', 100.0, 1.0, 25.0)
    hhv = kit.num(s.HHV)
    taken = s.extract('C[Sgr]')
    err, p = kit.attempt(lambda: s + taken)
    rec.event('coalback', err=err, hhv=kit.num(p.HHV), hhv0=hhv,
              T=kit.num(p.T))


def run(rec, scenarios):
    warnings.simplefilter('ignore')
    for stream in (False, True):
        brief = kit.MODE == 'brief'
        if not brief and kit.MODE and \
                kit.MODE != ('stream' if stream else 'package'):
            continue
        tag = 'stream' if stream else 'package'
        r = kit.rng('enthalpy' + tag)
        keep = 6000 if kit.THOROUGH else 150 if brief else 500
        for i, sc in enumerate(scenarios[::max(1, -(-len(scenarios)
                                                    // keep))]):
            rec.case('spec %s %d' % (tag, i))
            from_spec(rec, sc, stream)
        for i in range(1500 if kit.THOROUGH else 80 if brief else 110):
            rec.case('random %s %d' % (tag, i))
            random_case(rec, r, stream, i)
        if stream:
            for i in range(300 if kit.THOROUGH else 10 if brief else 25):
                rec.case('coal %d' % i)
                coal_case(rec, r)
        rec.case('coal findings')
        coal_findings(rec, stream)


if __name__ == '__main__':
    kit.main(run)
