"""Thermochemical data and the functions that follow from them."""
import contextlib
import glob
import io
import json
import os
import warnings
import kit
from auxi.tools.chemistry import thermochemistry as th

REFS = ['', 'rao1985', 'chase1998']
PY = 'auxi.tools.chemistry.thermochemistry.'
FORMS = ['FeO', 'Si', 'Fe2O3', 'Al2O3', 'C', 'CaCO3', 'H2O', 'CH4', 'CuSO4',
         'Ca(OH)2', 'P4O10', 'S8', 'UO2', 'NiFe2O4']


def seen(phases):
    """Phase data as the specification reads them, from a plain dictionary
    {symbol: (dh, s, [(lo, hi, [(c, e)])], mag)}."""
    return [{'p': p, 'dh': kit.num(dh), 's': kit.num(s),
             'recs': [{'lo': kit.num(lo), 'hi': kit.num(hi),
                       'c': [kit.num(c) for c, _ in terms],
                       'e': [kit.num(e) for _, e in terms]}
                      for lo, hi, terms in recs],
             'mag': kit.nums(mag)}
            for p, (dh, s, recs, mag) in sorted(phases.items())]


def from_json(path):
    with open(path) as f:
        j = json.load(f)
    out = {}
    for p, ph in j['_phases'].items():
        rs = sorted(ph['_Cp_records'].values(), key=lambda r: r['Tmax'])
        out[p] = (ph['DHref'], ph['Sref'],
                  [(r['Tmin'], r['Tmax'],
                    list(zip(r['_coefficients'], r['_exponents'])))
                   for r in rs], [])
    return j['formula'], out, j.get('reference', '')


def as_json(formula, phases, ref=''):
    """An auxi data file, written by hand."""
    return json.dumps({
        'py/object': PY + 'Compound', 'formula': formula,
        'molar_mass': th.molar_mass(formula), 'reference': ref,
        '_phases': {p: {
            'py/object': PY + 'Phase', 'name': p, 'symbol': p,
            'Tref': 298.15, 'DHref': dh, 'Sref': s,
            '_Cp_records': {str(float(hi)): {
                'py/object': PY + 'CpRecord', 'Tmin': lo, 'Tmax': hi,
                '_coefficients': [c for c, _ in terms],
                '_exponents': [e for _, e in terms]}
                for lo, hi, terms in recs}}
            for p, (dh, s, recs, mag) in phases.items()}})


def as_factsage(formula, phases):
    """A factsage table of the same data."""
    out = ['Compound: %s data\n'.replace('Compound: ', 'x ') % formula,
           'some heading', '_' * 30]
    n = 0
    for p, (dh, s, recs, mag) in sorted(phases.items()):
        for i, (lo, hi, terms) in enumerate(recs):
            n += 1
            for k in range(0, len(terms), 2):
                row = [p, str(n)]
                if i == 0 and k == 0:
                    row += [repr(dh), repr(s)]
                for c, e in terms[k:k + 2]:
                    row += [repr(c), repr(e)]
                row += [('298' if lo == 298.15 else repr(lo)), '-', repr(hi)]
                out.append(('  ' if n % 2 else '   ').join(row) + ' ')
        out.append('')
    out += ['_' * 30, 'closing remarks']
    return '\n'.join(out) + '\n'


def as_dict(formula, phases):
    d = {'Formula': formula, 'Phases': {}}
    for p, (dh, s, recs, mag) in phases.items():
        d['Phases'][p] = {'DHref': dh, 'Sref': s, 'Cp_records': {
            str(hi): {'Tmin': lo, 'Tmax': hi, 'Terms': [
                {'Coefficient': c, 'Exponent': e} for c, e in terms]}
            for lo, hi, terms in recs}}
        if mag:
            d['Phases'][p]['magnetic'] = {'Tc': mag[0], 'beta0': mag[1],
                                          'p': mag[2]}
    return d


def quads(f, *a):
    out = []
    for n in ('Cp', 'H', 'S', 'G'):
        err, v = kit.attempt(lambda: getattr(f, n)(*a))
        out.append({'err': err, 'v': kit.num(v) if not err else 'none'})
    return out


class Bench:
    def __init__(self, rec):
        self.rec = rec
        self.n = 0

    def data(self, formula, phases, src, ref=''):
        self.n += 1
        self.rec.event('data', id='d%d' % self.n, formula=formula,
                       phases=seen(phases), src=src, ref=ref)
        return 'd%d' % self.n

    def at(self, id_, comp, phase, T):
        """molar values of a compound object at T [K]"""
        q = quads(comp, phase, T)
        self.rec.event('molar', id=id_, phase=phase, T=kit.num(T), q=q)

    def at_mass(self, id_, formula, phase, t, m):
        """values of the module's functions at t [C] for a mass"""
        args = ('%s[%s]' % (formula, phase), t) + (() if m is None else (m,))
        self.rec.event('mass', id=id_, formula=formula, phase=phase,
                       t=kit.num(t), m=kit.num(1.0 if m is None else m),
                       q=quads(th, *args))

    def nothing(self, what, fn):
        err, _ = kit.attempt(fn)
        self.rec.event('nothing', what=what, err=err)


def temperatures(r, recs, n, mag=()):
    lim = sorted({x for lo, hi, _ in recs for x in (lo, hi)})
    ts = [298.15, lim[0], lim[-1], lim[-1] + 500.0]
    for x in lim:
        ts += [x, x + r.choice([-.5, .5, -20.0, 35.0]),
               x + r.choice([-1, 1]) * r.choice([.2, .02, 3e-3, 1e-4, 1e-6])]
    if mag:
        x = mag[0]
        ts += [x] * 3 + [x + r.choice([-1, 1]) * d
                         for d in (60.0, 5.0, .7, .05, 1e-3)] * 2
    ts += [r.uniform(250.0, lim[-1] * 1.3) for _ in range(n)]
    r.shuffle(ts)
    return [t for t in ts if t > 150.0][:n + 5]


def random_phases(r, mag=True):
    out = {}
    for p in r.sample(['S1', 'S2', 'L', 'G', 'S'], r.randint(1, 3)):
        lims = sorted(r.sample([400.0, 555.5, 700.0, 847.0, 1000.0, 1350.25,
                                1809.0, 2500.0, 9000.0], r.randint(1, 4)))
        lo, recs = 298.15, []
        for hi in lims:
            es = r.sample([0.0, 1.0, -2.0, 2.0, -1.0, 0.5, -0.5, 3.0, -3.0,
                           0.25, -0.25, -1.25, -0.9, 0.05, -0.995, -1.003,
                           0.004, -0.006],
                          r.randint(1, 4))
            recs.append((lo, hi, [
                (round(r.uniform(-1, 3) * 20 / 700.0 ** e, 12), e)
                for e in es]))
            lo = hi
        m = [r.choice([500.0, 848.5, 1043.0]), r.choice([0.5, 2.22]),
             r.choice([0.28, 0.4])] if mag and r.random() < .35 else []
        out[p] = (round(r.uniform(-1e6, 2e5), 1), round(r.uniform(5, 250), 3),
                  recs, m)
    return out


def probe(b, id_, comp, phases, r, n):
    for p in sorted(phases):
        for T in temperatures(r, phases[p][2], n, phases[p][3]):
            b.at(id_, comp, p, T)


def laws(rec, scenarios):
    b = Bench(rec)
    for i, sc in enumerate(scenarios):
        if sc[0]['op'] != 'phase':
            continue
        rec.case('spec %d' % i)
        o = sc[0]
        ph = {'S1': (float(o['dh']), float(o['s']),
                     [(float(x['lo']), float(x['hi']),
                       list(zip(map(float, x['c']), map(float, x['e']))))
                      for x in o['recs']], [float(x) for x in o['mag']])}
        comp = th.Compound(as_dict('FeO', ph))
        id_ = b.data('FeO', ph, 'spec')
        for e in sc[1:]:
            b.at(id_, comp, 'S1', float(e['T']))
    r = kit.rng('laws')
    for i in range(1200 if kit.THOROUGH else 110):
        rec.case('random %d' % i)
        f = r.choice(FORMS)
        ph = random_phases(r)
        d = as_dict(f, ph)
        comp = th.Compound(d)
        id_ = b.data(f, ph, 'random')
        probe(b, id_, comp, ph, r, 5)
        b.nothing('no such phase', lambda: comp.H('zz', 500.0))
        b.nothing('no such phase', lambda: comp.Cp('zz', 500.0))
        b.nothing('no such phase', lambda: comp.S('zz', 500.0))
        b.nothing('no such phase', lambda: comp.G('zz', 500.0))
        th.compounds[f] = comp
        for p in sorted(ph):
            for _ in range(2):
                b.at_mass(id_, f, p, round(r.uniform(-50, 2500), 3),
                          r.choice([None, 1.0, 0.0, 2.5, 1000.0, 1e-4]))
    base = os.path.join(os.path.dirname(os.path.abspath(th.__file__)), 'data')
    for lib in ('nist', 'rao'):
        th.load_data_auxi(os.path.join(base, lib))
        for path in sorted(glob.glob(os.path.join(base, lib,
                                                  'Compound_*.json'))):
            f, ph, _ = from_json(path)
            rec.case('%s %s' % (lib, f))
            id_ = b.data(f, ph, lib)
            comp = th.compounds[f]
            probe(b, id_, comp, ph, r, 8 if kit.THOROUGH else 2)
            for p in sorted(ph):
                b.at_mass(id_, f, p, round(r.uniform(20, 1900), 3),
                          r.choice([None, 1.0, 0.0, 2.5, 1000.0]))
            rec.event('molar_mass', formula=f, v=kit.num(th.molar_mass(f)),
                      own=kit.num(comp.molar_mass))
        b.nothing('no such compound', lambda: th.H('XeF6[S]', 25.0))
        b.nothing('no such compound', lambda: th.Cp('XeF6[S]', 25.0))
    th.load_data_auxi()


def listing():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        th.list_compounds()
    return out.getvalue().splitlines()[1:]


NOT_DATA = ['notes.json', 'Old_Compound_Zr.json', 'compounds.json', 'Zr.json',
            'Compound.json', 'CompoundZr.json', 'Compound_Zr.json.bak',
            'Zr.txt', 'My_Compound_Zr.txt', 'Compound_Zr.csv', 'Compound_Zr']


class Library:
    """Directories of data files and the library in memory."""

    def __init__(self, rec, b, r):
        self.rec, self.b, self.r = rec, b, r
        self.dirs, self.ids, self.phases, self.lib = {}, {}, {}, {}
        th.compounds.clear()
        with open(os.path.join(os.path.dirname(os.path.abspath(
                th.__file__)), 'data', 'references.json')) as f:
            refs = json.load(f)
        rec.event('refs', refs=[{'k': k, 'v': refs[k]} for k in sorted(refs)],
                  got=[{'k': k, 'v': v} for k, v in sorted(
                      th.get_datafile_references().items())])

    def file(self, d, formula, phases, kind):
        p = os.path.abspath('lib_' + d)
        os.makedirs(p, exist_ok=True)
        ref = self.r.choice(REFS) if kind == 'auxi' else ''
        id_ = self.b.data(formula, phases, kind + ' file', ref)
        self.phases[id_] = phases
        if kind == 'auxi':
            with open(os.path.join(p, 'Compound_%s.json' % formula), 'w') \
                    as f:
                f.write(as_json(formula, phases, ref))
        else:
            with open(os.path.join(p, 'Compound_%s.txt' % formula), 'w') as f:
                f.write(as_factsage(formula, phases))
        self.other(p, formula, phases)
        self.rec.event('file', d=d, kind=kind, formula=formula, id=id_)
        self.dirs.setdefault(d, p)
        self.ids[d, kind, formula] = id_

    def other(self, p, formula, phases):
        """Files that are not data files lie around."""
        name = self.r.choice(NOT_DATA + [''] * 3)
        if name:
            other = self.r.choice(['Zr', 'FeO', formula])
            with open(os.path.join(p, name), 'w') as f:
                f.write(as_factsage(other, phases) if 'txt' in name else
                        as_json(other, phases, ''))

    def empty(self, d):
        p = os.path.abspath('lib_' + d)
        os.makedirs(p, exist_ok=True)
        self.dirs[d] = p
        self.rec.event('dir', d=d)

    def contents(self):
        out = []
        for f in sorted(th.compounds):
            out.append({'f': f, 'ps': list(th.compounds[f].get_phase_list()),
                        'own': th.compounds[f].formula,
                        'ref': str(th.compounds[f].reference),
                        'text': th.compounds[f].get_reference()})
        return out

    def load(self, d, kind):
        with contextlib.redirect_stdout(io.StringIO()):
            err, _ = kit.attempt(lambda: (
                th.load_data_auxi if kind == 'auxi' else
                th.load_data_factsage)(self.dirs[d]))
        if not err:
            self.lib = {f: i for (dd, k, f), i in self.ids.items()
                        if dd == d and k == kind}
        self.rec.event('load', d=d, kind=kind, err=err, lib=self.contents(),
                       listing=listing())
        self.sample()

    def write(self, formula, d):
        err, _ = kit.attempt(lambda: th.write_compound_to_auxi_file(
            self.dirs[d], th.compounds[formula]))
        if not err and formula in self.lib:
            self.ids[d, 'auxi', formula] = self.lib[formula]
        self.rec.event('write', d=d, formula=formula, err=err,
                       lib=self.contents(),
                       files=sorted(os.path.basename(x) for x in glob.glob(
                           os.path.join(self.dirs[d], 'Compound_*.json'))))
        self.sample()

    def sample(self):
        for f in sorted(th.compounds):
            comp = th.compounds[f]
            ps = comp.get_phase_list()
            for p in ps:
                T = self.r.choice([298.15, 400.0, 850.5, 1500.0, 3000.0])
                self.rec.event('sample', formula=f, phase=p, T=kit.num(T),
                               q=quads(comp, p, T))
            self.b.at_mass(self.lib.get(f, '?'), f, ps[0], 927.5, 12.0)

    def close(self):
        for d in self.dirs.values():
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
            os.rmdir(d)


def libraries(rec, scenarios):
    b = Bench(rec)
    r = kit.rng('libraries')
    for i, sc in enumerate(scenarios):
        if sc[0]['op'] == 'phase':
            continue
        if not kit.THOROUGH and i % 2:
            continue
        rec.case('spec library %d' % i)
        lb = Library(rec, b, r)
        lb.file('a', 'FeO', random_phases(r, False), 'auxi')
        lb.file('a', 'Si', random_phases(r, False), 'auxi')
        lb.file('b', 'FeO', random_phases(r, False), 'auxi')
        lb.empty('c')
        for o in sc:
            if o['op'] == 'load':
                lb.load(o['d'], 'auxi')
            else:
                lb.write(o['f'], o['d'])
        lb.close()
    for i in range(400 if kit.THOROUGH else 60):
        rec.case('random library %d' % i)
        lb = Library(rec, b, r)
        for d in 'abc':
            lb.empty(d)
            for f in r.sample(FORMS, r.randint(0, 4)):
                k = r.choice(['auxi', 'auxi', 'factsage'])
                lb.file(d, f, random_phases(r, False), k)
        for _ in range(r.randint(2, 7)):
            d = r.choice('abc')
            if r.random() < .4:
                # other data, or one more compound, in a directory
                lb.file(d, r.choice(sorted(f for dd, k, f in lb.ids
                                           if dd == d) or FORMS),
                        random_phases(r, False),
                        r.choice(['auxi', 'auxi', 'factsage']))
            if th.compounds and r.random() < .45:
                lb.write(r.choice(sorted(th.compounds)), d)
            else:
                lb.load(d, r.choice(['auxi', 'auxi', 'factsage']))
        # magnetic data survive being written
        f = r.choice(FORMS)
        ph = random_phases(r)
        ref = r.choice(REFS)
        id_ = b.data(f, ph, 'made', ref)
        d = as_dict(f, ph)
        if ref or r.random() < .5:
            d['Reference'] = ref
        th.compounds[f] = th.Compound(d)
        lb.lib[f] = id_
        rec.event('made', formula=f, id=id_)
        for p in sorted(ph):
            err, text = kit.attempt(lambda: str(th.Phase(
                dict(as_dict(f, ph)['Phases'][p], Symbol=p))))
            rec.event('text', id=id_, phase=p, err=err,
                      text=kit.words(text or ''))
        lb.write(f, 'a')
        lb.load('a', 'auxi')
        lb.close()
    rec.case('references')
    base = os.path.join(os.path.dirname(os.path.abspath(th.__file__)), 'data')
    with open(os.path.join(base, 'references.json')) as f:
        refs = json.load(f)
    rec.event('refs', refs=[{'k': k, 'v': refs[k]} for k in sorted(refs)],
              got=[{'k': k, 'v': v} for k, v in sorted(
                  th.get_datafile_references().items())])
    for lib in ('nist', 'rao'):
        files = sorted(glob.glob(os.path.join(base, lib, 'Compound_*.json')))
        raw = [from_json(p) for p in files]
        th.load_data_auxi(os.path.join(base, lib))
        rec.event('shipped', lib=lib, files=[
            {'f': f, 'ps': sorted(ph), 'ref': ref} for f, ph, ref in raw],
            got=[{'f': f, 'ps': list(th.compounds[f].get_phase_list()),
                  'text': th.compounds[f].get_reference()}
                 for f in sorted(th.compounds)], listing=listing())
    th.load_data_auxi()
    rec.event('shipped', lib='default', files=[
        {'f': f, 'ps': sorted(ph), 'ref': ref} for f, ph, ref in raw],
        got=[{'f': f, 'ps': list(th.compounds[f].get_phase_list()),
              'text': th.compounds[f].get_reference()}
             for f in sorted(th.compounds)], listing=listing())


def run(rec, scenarios):
    warnings.simplefilter('ignore')
    if kit.MODE in ('', 'laws'):
        laws(rec, scenarios)
    if kit.MODE in ('', 'library'):
        libraries(rec, scenarios)


if __name__ == '__main__':
    kit.main(run)
