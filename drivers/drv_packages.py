"""Histories of operations on chemical, particulate and slurry packages."""
import os
import numpy as np
import kit
from auxi.modelling.process.materials import chem, psd, slurry

MOD = {'chem': chem, 'psd': psd, 'slurry': slurry}
NAMES = {'chem': {'a': 'FeO', 'b': 'SiO2', 'c': 'Fe2O3[S1]'},
         'psd': {'a': '1.5E-2', 'b': '0.0', 'c': '0.25'}}
NAMES['slurry'] = NAMES['psd']
SPEC = {'A': (['a', 'b'], {'x': (['0.6', '0.3'], '2', '0.5'),
                           'z': (['0', '1'], '4', '0')}),
        'B': (['b'], {'x': (['0.5'], '5', '0.2')}),
        'C': (['c', 'a'], {'x': (['0.25', '0.75'], '1', '0')})}
COUNT = [0]
BENCH = [0]
TINY = [1e-3, 1e-5, 1e-7, 1e-8]


def file_text(kind, comps, assays, r=None):
    """A material file; r varies its layout."""
    def sep():
        return r.choice([' ', '  ', '    ', '\t', ' \t ']) if r else '  '
    rows = [['Compound'] + list(assays)]
    if kind == 'slurry':
        rows.append(['solid_density'] + [assays[a][1] for a in assays])
        rows.append(['H2O'] + [assays[a][2] for a in assays])
    for i, c in enumerate(comps):
        rows.append([c] + [assays[a][0][i] for a in assays])
    out = []
    for i, row in enumerate(rows):
        s = row[0]
        for x in row[1:]:
            s += sep() + x
        if r and i and r.random() < .3:
            s = sep() + s
        if r and r.random() < .3:
            s += sep()
        out.append(s)
        if r and i > (2 if kind == 'slurry' else 0):
            w = r.random()
            if w < .1:
                out.append('')
            elif w < .2 and len(assays) > 1:
                out.append(row[0] + ' 0.5')        # not a full line
    return '\n'.join(out) + ('\n' if not r or r.random() < .7 else '')


def observed(kind, m):
    if kind == 'chem':
        comps = list(m.compounds)
    else:
        comps = [kit.num(x) for x in m.size_classes]
    return {'comps': comps, 'assays': [
        {'a': a, 'fr': kit.nums(m.assays[a]),
         'dens': kit.num(m.solid_densities[a]) if kind == 'slurry' else '1',
         'h2o': kit.num(m.H2O_fractions[a]) if kind == 'slurry' else '0'}
        for a in sorted(m.assays)],
        'elements': list(m.elements) if kind == 'chem' else []}


class Bench:
    def __init__(self, rec, kind):
        self.rec, self.kind = rec, kind
        self.mats, self.byid, self.reg = {}, {}, {}
        BENCH[0] += 1
        self.alike = BENCH[0] % 4 == 3      # its materials all have one name
        rec.event('kind', kind=kind)

    def material(self, name, comps, assays, r=None):
        COUNT[0] += 1
        p = os.path.abspath('m%d.txt' % COUNT[0])
        text = file_text(self.kind, comps, assays, r)
        with open(p, 'w') as f:
            f.write(text)
        title = 'Ore' if self.alike else name
        err, m = kit.attempt(lambda: MOD[self.kind].Material(title, p))
        os.remove(p)
        if not err:
            self.mats[name] = m
            self.byid[id(m)] = name
        self.rec.event('file', name=name, title=title, err=err,
                       lines=text.replace('\t', ' ').split('\n'),
                       mat=observed(self.kind, m) if m else {})
        return m

    def comps(self, m):
        return m.compounds if self.kind == 'chem' else m.size_classes

    def content(self, r, p):
        d = {'r': r, 'mat': self.byid.get(id(p.material), '?')}
        d['m'] = kit.nums(p.compound_masses if self.kind == 'chem'
                          else p.size_class_masses)
        d['w'] = kit.num(p.H2O_mass) if self.kind == 'slurry' else '0'
        d['d'] = kit.num(p.solid_density) if self.kind == 'slurry' else '1'
        return d

    def event(self, op, err, **kw):
        self.rec.event(op, err=err, regs=[
            self.content(r, self.reg[r]) for r in sorted(self.reg)], **kw)

    def key(self, p, i):
        """The name by which the package knows its component i."""
        if i == 0:
            return 'H2O'
        cs = self.comps(p.material)
        if i > len(cs):
            return 'Xe' if self.kind == 'chem' else 123.0
        return cs[i - 1]

    def new(self, r, mat, assay, mass, norm):
        m = self.mats[mat]
        err, p = kit.attempt(lambda: m.create_package(assay, mass, norm))
        if not err:
            self.reg[r] = p
        self.event('new', err, r=r, mat=mat, assay=assay or '',
                   mass=kit.num(mass), norm=norm)

    def empty(self, r, mat):
        self.reg[r] = self.mats[mat].create_package()
        self.event('empty', '', r=r, mat=mat)

    def add(self, a, b, out):
        err, p = kit.attempt(lambda: self.reg[a] + self.reg[b])
        if not err:
            self.reg[out] = p
        self.event('add', err, a=a, b=b, out=out)

    def addto(self, a, b):
        if self.kind == 'slurry':
            return self.add(a, b, a)
        err, _ = kit.attempt(lambda: self.reg[a].add_to(self.reg[b]))
        self.event('addto', err, a=a, b=b)

    def addcomp(self, a, i, x, out):
        err, p = kit.attempt(
            lambda: self.reg[a] + (self.key(self.reg[a], i), x))
        if not err:
            self.reg[out] = p
        self.event('addcomp', err, a=a, i=i, x=kit.num(x), out=out)

    def addtocomp(self, a, i, x):
        if self.kind == 'slurry':
            return self.addcomp(a, i, x, a)
        err, _ = kit.attempt(
            lambda: self.reg[a].add_to((self.key(self.reg[a], i), x)))
        self.event('addtocomp', err, a=a, i=i, x=kit.num(x))

    def mul(self, a, k, out):
        err, p = kit.attempt(lambda: self.reg[a] * k)
        if not err:
            self.reg[out] = p
        self.event('mul', err, a=a, k=kit.num(k), out=out)

    def takemass(self, a, x, out):
        have = kit.num(self.reg[a].get_mass())
        err, p = kit.attempt(lambda: self.reg[a].extract(x))
        if not err:
            self.reg[out] = p
        self.event('takemass', err, a=a, x=kit.num(x), out=out, have=have)

    def takecomp(self, a, i, x, out):
        key = self.key(self.reg[a], i)
        err, p = kit.attempt(lambda: self.reg[a].extract((key, x)))
        if not err:
            self.reg[out] = p
        self.event('takecomp', err, a=a, i=i, x=kit.num(x), out=out)

    def takeall(self, a, i, out):
        key = self.key(self.reg[a], i)
        if isinstance(key, float):
            # any text of the number
            COUNT[0] += 1
            key = (str(key), '%.17e' % key, str(key) + ' ',
                   '%.40f' % key if key > 1e-8 else str(key),
                   str(key).upper(), '0' + str(key))[COUNT[0] % 6]
        err, p = kit.attempt(lambda: self.reg[a].extract(str(key)))
        if not err:
            self.reg[out] = p
        self.event('takeall', err, a=a, i=i, out=out)

    def clear(self, a):
        err, _ = kit.attempt(self.reg[a].clear)
        self.event('clear', err, a=a)

    def clone(self, a, out):
        err, p = kit.attempt(self.reg[a].clone)
        if not err:
            self.reg[out] = p
        self.event('clone', err, a=a, out=out)

    def bad(self, what, fn):
        """A call that no specification of a package gives a meaning."""
        err, _ = kit.attempt(fn)
        self.event('bad', err, what=what)

    def assay(self, m, name, fr, dens, h2o, as_given=None):
        mat = self.mats[m]
        arg = as_given if as_given is not None else (
            list(fr) if self.kind == 'chem' else np.array(fr))
        if self.kind == 'slurry':
            err, _ = kit.attempt(lambda: mat.add_assay(name, dens, h2o, arg))
        else:
            err, _ = kit.attempt(lambda: mat.add_assay(name, arg))
        self.rec.event('assay', err=err, m=m, name=name,
                       ok=as_given is None, fr=kit.nums(fr),
                       dens=kit.num(dens) if self.kind == 'slurry' else '1',
                       h2o=kit.num(h2o) if self.kind == 'slurry' else '0',
                       mat=observed(self.kind, mat))

    def query(self, a):
        p = self.reg[a]
        cs = self.comps(p.material)
        has = p.get_mass() > 0
        keep = []

        def seen(v):
            """An answer belongs to the one who asked."""
            out = kit.nums(v)
            if len(v) and not isinstance(v, tuple):
                v[0] = 7.75
            keep.append(v)
            return out
        q = {'a': a, 'mass': kit.num(p.get_mass()), 'each': [], 'fracs': [],
             'assay': [], 'els': [], 'elm': [], 'eld': [], 'el1': [],
             'slurry': []}
        if self.kind == 'chem':
            q['each'] = [kit.num(p.get_compound_mass(c)) for c in cs]
            if has:
                q['fracs'] = [kit.num(p.get_compound_mass_fraction(c))
                              for c in cs]
                q['assay'] = seen(p.get_assay())
            q['els'] = list(p.material.elements)
            q['elm'] = seen(p.get_element_masses())
            d = p.get_element_mass_dictionary()
            q['eld'] = [{'e': e, 'v': kit.num(v)} for e, v in d.items()]
            d.clear()
            q['el1'] = [kit.num(p.get_element_mass(e))
                        for e in p.material.elements] + [
                kit.num(p.get_element_mass('Xe'))]
        else:
            q['each'] = [kit.num(p.get_size_class_mass(c)) for c in cs]
            if sum(p.size_class_masses) > 0:
                q['fracs'] = [kit.num(p.get_size_class_mass_fraction(c))
                              for c in cs]
                q['assay'] = seen(p.get_assay())
            if self.kind == 'slurry' and has:
                q['slurry'] = kit.nums([
                    p.get_solid_mass(), p.get_volume(), p.get_density(),
                    p.get_mass_fraction_solids(),
                    p.get_volume_fraction_solids()])
        err, text = kit.attempt(lambda: str(p))
        q['text'] = kit.words(text) if not err else [[err]]
        if self.kind == 'slurry' and not has:
            q['text'] = []
        self.event('query', '', **q)

    def totals(self, m):
        mat = self.mats[m]
        blank = mat.create_empty_assay()
        empty = kit.nums(blank)
        if len(blank):
            blank[0] = 7.75             # it belongs to the one who asked
        self.rec.event('totals', m=m, res=[
            {'a': a, 't': kit.num(mat.get_assay_total(a))}
            for a in sorted(mat.assays)],
            index=[int(mat.get_compound_index(c) if self.kind == 'chem'
                       else mat.get_size_class_index(c)) + 1
                   for c in self.comps(mat)],
            text=kit.words(str(mat)), empty=empty, again=kit.nums(mat.create_empty_assay()))

    def materials(self):
        for m in sorted(self.mats):
            self.rec.event('unchanged', m=m,
                           mat=observed(self.kind, self.mats[m]))


def val(s):
    return float(s)


def from_spec(rec, kind, sc):
    b = Bench(rec, kind)
    nm = NAMES[kind]
    used = {o['mat'] for o in sc if o['op'] in ('new', 'empty')}
    for m in sorted(used):
        comps, assays = SPEC[m]
        b.material(m, [nm[c] for c in comps], assays)
    for o in sc[1:]:
        k = o['op']
        if k == 'new':
            b.new(o['r'], o['mat'], o['assay'], val(o['mass']), o['norm'])
        elif k == 'empty':
            b.empty(o['r'], o['mat'])
        elif k == 'add':
            b.add(o['a'], o['b'], o['out'])
        elif k == 'addto':
            b.addto(o['a'], o['b'])
        elif k == 'addcomp':
            b.addcomp(o['a'], o['i'], val(o['x']), o['out'])
        elif k == 'addtocomp':
            b.addtocomp(o['a'], o['i'], val(o['x']))
        elif k == 'mul':
            b.mul(o['a'], val(o['k']), o['out'])
        elif k == 'takemass':
            b.takemass(o['a'], val(o['x']), o['out'])
        elif k == 'takecomp':
            b.takecomp(o['a'], o['i'], val(o['x']), o['out'])
        elif k == 'takeall':
            b.takeall(o['a'], o['i'], o['out'])
        elif k == 'clear':
            b.clear(o['a'])
        elif k == 'clone':
            b.clone(o['a'], o['out'])
    for r in sorted(b.reg):
        b.query(r)
    b.materials()


POOL = {'chem': ['FeO', 'Fe2O3', 'SiO2[S1]', 'CaO', 'MgO', 'Al2O3', 'C',
                 'H2O', 'CaSO4.2H2O', 'Fe(OH)3', 'TiO2', 'N2', 'S', 'P4O10',
                 'Na2(Al2Si3O10).2H2O', 'KAl3Si3O10(OH)2[Mus]'],
        'psd': ['307.2E-3', '108.6E-3', '0.0384', '13.6E-3', '4.8E-3',
                '1.7E-3', '600.0E-6', '210.0E-6', '75.0E-6', '0.0E0', '3.2E-7',
                '1.0E-7', '0.01360000001', '7.5000001E-5', '25.0',
                '1.2345678901234568e-05', '0.00016180339887498']}
POOL['slurry'] = POOL['psd']
ASSAYS = ['x', 'x', 'Feed', 'W3', 'Compound', 'X', 'x2', '2016', 'FeO', 'H2O',
          'solid_density', '0.0384', 'slag-1_(wet)', 'concentrate-of-2016',
          'concentrate-of-2016-b', 'concentrate-of-2016-b-dry']


def random_bench(rec, kind, r):
    b = Bench(rec, kind)
    names = ['A', 'B', 'C'][:r.randint(1, 3)]
    base = r.sample(POOL[kind], r.randint(1, 6))
    for k, n in enumerate(names):
        comps = list(base)
        if k:
            w = r.random()
            if w < .4:
                comps = r.sample(base, r.randint(1, len(base)))
            elif w < .6:
                comps = r.sample(POOL[kind], r.randint(1, 4))
            else:
                r.shuffle(comps)
        assays = {}
        for a in r.sample(ASSAYS, r.randint(1, 3)):
            fr = [r.choice(['%.5f', '%.5f', '%.4e', '%.2E', '%.15g']) % (
                r.random() * r.choice([0, 1, 1, .3, 2e-3])) for _ in comps]
            if not any(float(f) for f in fr) and kind != 'slurry':
                fr[0] = '0.5'
            assays[a] = (fr, r.choice(['1.0', '3.00', '2.65', '4.5', '2.7e0',
                                   '2.64581234000712']),
                         r.choice(['0.00', '0.80', '0.35', '1.00', '3.5e-1',
                                   '0.31415926535897']))
        b.material(n, comps, assays, r)
        b.totals(n)
    return b


def related(b, r):
    """Packages made from each other in every way; then each is changed in
    place, and every one is looked at after every change."""
    m = r.choice(sorted(b.mats))
    f64 = (lambda v: np.float64(v)) if b.kind != 'chem' else (lambda v: v)
    n = len(b.comps(b.mats[m]))
    lo = 0 if b.kind == 'slurry' else 1
    assays = sorted(b.mats[m].assays)
    b.new(1, m, r.choice(assays), r.choice([1.0, 12.5]), r.random() < .7)
    b.empty(2, m)
    b.empty(3, m)
    b.new(4, m, r.choice(assays), 0.0, True)
    src = r.choice([1, 1, 2])
    ways = [lambda o: b.clone(src, o), lambda o: b.mul(src, f64(1.0), o),
            lambda o: b.mul(src, f64(0.0), o), lambda o: b.add(src, 2, o),
            lambda o: b.add(2, src, o),
            lambda o: b.addcomp(src, r.randint(lo, n), 0.0, o),
            lambda o: b.takemass(src, f64(0.0), o),
            lambda o: b.takecomp(src, r.randint(lo, n), 0.0, o),
            lambda o: b.new(o, m, assays[0], 1.0, False),
            lambda o: b.empty(o, m)]
    for o, w in enumerate(r.sample(ways, 5), 5):
        w(o)
    if r.random() < .5:
        t = float(b.reg[1].get_mass())
        b.takemass(1, f64(t), 10)
    order = sorted(b.reg)
    r.shuffle(order)
    for a in order[:6]:
        w = r.random()
        if w < .4:
            b.addtocomp(a, r.randint(lo, n), r.choice([1.0, 0.25]))
        elif w < .55:
            b.addto(a, r.choice(order))
        elif w < .7:
            b.clear(a)
        elif w < .85:
            b.takemass(a, f64(float(b.reg[a].get_mass()) / 4), 11)
        else:
            b.query(a)


def amount(r):
    return r.choice([0.0, 1.0, 10.0, 0.5, 123.456, 1e-3, 1e5,
                     r.uniform(0, 500)]) * SCALE[0]


SCALE = [1.0]


def random_ops(b, r, n):
    # some of everything, or tiny or huge amounts of everything
    SCALE[0] = r.choice([1.0] * 10 + [1e-9, 1e13])
    some_ops(b, r, n)
    SCALE[0] = 1.0


def some_ops(b, r, n):
    for _ in range(n):
        # looked at before and after it is changed
        a = r.choice(sorted(b.reg) or [0])
        twice = a and r.random() < .25
        if twice:
            b.query(a)
        step(b, r, a)
        if twice:
            b.query(a)


def step(b, r, a):
    kind = b.kind
    f64 = (lambda v: np.float64(v)) if kind != 'chem' else (lambda v: v)
    m = r.choice(sorted(b.mats))
    live = sorted(b.reg)
    out = r.randint(1, 5)
    w = r.random()
    if not live or w < .12:
        if r.random() < .25:
            b.empty(out, m)
        elif r.random() < .07:
            b.new(out, m, 'no such assay', 1.0, True)
        else:
            b.new(out, m, r.choice(sorted(b.mats[m].assays)), amount(r),
                  r.random() < .7)
        return
    p = b.reg[a]
    nc = len(b.comps(p.material))
    i = r.randint(0 if kind == 'slurry' else 1, nc)
    if r.random() < .05:
        i = nc + 1
    if w < .27:
        b.add(a, r.choice(live), out)
    elif w < .37:
        b.addto(a, r.choice(live))
    elif w < .44:
        b.addcomp(a, i, amount(r), out)
    elif w < .51:
        b.addtocomp(a, i, amount(r))
    elif w < .58:
        k = f64(r.choice([0.0, 0.5, 1.0, 2.0, 1.75, -1.0, 1e-3,
                               -1e-11]))
        if kind == 'psd' and k in (.5, 2.0) and r.random() < .5:
            k = np.float32(k)
        b.mul(a, k, out)
    elif w < .68:
        t = float(p.get_mass())
        b.takemass(a, f64(r.choice([
            t, t / 2, t * .1, 0.0, t * 1.5 + 1, amount(r),
            t * (1 - r.choice(TINY)), t * r.choice(TINY)])), out)
    elif w < .78:
        t = float(b_content(b, p, i)) if i <= nc else 1.0
        b.takecomp(a, i, r.choice([t, t / 3, 0.0, t * 2 + 1, amount(r),
                                   t * (1 - r.choice(TINY)),
                                   t * (1 + r.choice(TINY))]), out)
    elif w < .84:
        b.takeall(a, max(i, 1), out)
    elif w < .87:
        b.clear(a)
    elif w < .91:
        b.clone(a, out)
    elif w < .95:
        b.query(a)
    elif w < .975:
        bad(b, r, a)
    else:
        k = len(b.comps(b.mats[m]))
        fr = [r.random() for _ in range(k)]
        w2 = r.random()
        if w2 < .4:
            # also a name that is nearly that of another
            q = r.choice(sorted(b.mats[m].assays))
            b.assay(m, r.choice(['new%d' % r.randint(0, 9), q.lower(),
                                 q.upper(), q + '2', q[:-1] or 'n',
                                 q.swapcase()]), fr, 2.5, 0.25)
        elif w2 < .55:
            b.assay(m, sorted(b.mats[m].assays)[0], fr, 2.5, 0.25)
        elif w2 < .75:
            b.assay(m, 'short', fr + [0.1], 2.5, 0.25)
        elif w2 < .9:
            b.assay(m, 'odd', fr, 2.5, 0.25, as_given=tuple(fr))
        elif kind == 'slurry':
            b.assay(m, 'odd2', fr, 'heavy', 0.25,
                    as_given=np.array(fr))


def bad(b, r, a):
    p = b.reg[a]
    k0 = b.key(p, 1)
    what, fn = r.choice([
        ('add text', lambda: p + 'x'), ('add nothing', lambda: p + None),
        ('add 3-tuple', lambda: p + (k0, 1.0, 2.0)),
        ('add text mass', lambda: p + (k0, '1')),
        ('scale by text', lambda: p * 'x'),
        ('scale by package', lambda: p * p),
        ('take nothing', lambda: p.extract(None)),
        ('take list', lambda: p.extract([1.0])),
        ('take text mass', lambda: p.extract((k0, '1'))),
        ('take unknown', lambda: p.extract('no such')),
    ])
    b.bad(what, fn)


def b_content(b, p, i):
    if i == 0:
        return p.H2O_mass
    return (p.compound_masses if b.kind == 'chem'
            else p.size_class_masses)[i - 1]


def broken_files(rec, r):
    """Files that are not material definitions."""
    for kind in ('chem', 'psd', 'slurry'):
        for text in ('Compound x\nFeO abc\n', 'Compound x\n1.0 --\n'):
            with open('bad.txt', 'w') as f:
                f.write(text)
            err, _ = kit.attempt(
                lambda: MOD[kind].Material('bad', os.path.abspath('bad.txt')))
            rec.event('badfile', kind=kind, err=err, what=text)
        err, _ = kit.attempt(
            lambda: MOD[kind].Material('none', os.path.abspath('none.txt')))
        rec.event('badfile', kind=kind, err=err, what='missing')
    for text in ('Compound x\nH2O 0.1\nsolid_density 2.0\n0.1 0.5\n',
                 'Compound x\nsolid_density 2.0\n0.1 0.5\nH2O 0.1\n'):
        with open('bad.txt', 'w') as f:
            f.write(text)
        err, _ = kit.attempt(
            lambda: slurry.Material('bad', os.path.abspath('bad.txt')))
        rec.event('badfile', kind='slurry', err=err, what=text)


def run(rec, scenarios):
    kinds = ['chem', 'psd', 'slurry'] if not kit.MODE else [kit.MODE]
    for kind in kinds:
        mine = [s for s in scenarios if (s[0]['k'] == 'slurry') ==
                (kind == 'slurry')]
        keep = {True: 9000, False: 700 if len(kinds) == 3 else 1800}[
            kit.THOROUGH]
        for i, sc in enumerate(mine[::max(1, -(-len(mine) // keep))]):
            rec.case('spec %s %d' % (kind, i))
            from_spec(rec, kind, sc)
        r = kit.rng('packages' + kind)
        for i in range(800 if kit.THOROUGH else 25):
            rec.case('related %s %d' % (kind, i))
            b = random_bench(rec, kind, r)
            related(b, r)
            for a in sorted(b.reg):
                b.query(a)
            b.materials()
            for m in sorted(b.mats):
                b.totals(m)
        for i in range(1500 if kit.THOROUGH else
                       (60 if len(kinds) == 3 else 150)):
            rec.case('random %s %d' % (kind, i))
            b = random_bench(rec, kind, r)
            random_ops(b, r, r.randint(8, 40))
            for a in sorted(b.reg):
                b.query(a)
            b.materials()
    rec.case('broken files')
    broken_files(rec, kit.rng('broken'))


if __name__ == '__main__':
    kit.main(run)
