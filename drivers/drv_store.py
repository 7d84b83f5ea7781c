"""Objects of every kind are used, written to files, read back, used again.

A kind says how to make an object (the same one every time for a variant), how
it looks through its public interface and what can be done to it."""
import hashlib
import os
import warnings
from datetime import datetime
import numpy as np
import kit
import drv_business
from drv_clock import civil
from drv_firm import structure, tx
from drv_packages import file_text
from auxi.core.objects import Object
from auxi.core.reporting import ReportFormat
from auxi.core.time import Clock, TimePeriod
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.business.basic import BasicActivity, BasicLoanActivity
from auxi.modelling.core import Project, Variable, VariableGroup
from auxi.modelling.financial.des import GeneralLedgerStructure, GeneralLedger
from auxi.modelling.process.core import SteadyStateModel, DynamicModel
from auxi.modelling.process.materials import chem, psd, slurry, thermo
from auxi.tools.chemistry import thermochemistry as th
from auxi.tools.materialphysicalproperties import (
    coals, core as mpc, gases, idealgas, liquids, slags)
from auxi.tools.materialphysicalproperties.polynomial import PolynomialModelT

warnings.simplefilter('ignore')
WORDS = ['Pump', 'a b', 'caf\u00e9 \u03b8', 'x"y\'z', 'line\nbreak', 'N1', '',
         '{}', 'py/id', '100%', 'back\\slash']


def look(*text, n=()):
    t = repr(text)
    if len(t) > 600:
        t = t[:300] + '#' + hashlib.sha256(t.encode()).hexdigest()
    ns = [kit.num(x) for x in n]
    big = max([abs(float(x)) for x in n if np.isfinite(float(x))] or [0])
    return {'t': t, 'n': ns, 'scale': kit.num(big)}


def said(fn, *a, **k):
    """What a call says, errors included."""
    err, r = kit.attempt(lambda: fn(*a, **k))
    return err or r


class Kind:
    join = None
    acts = []

    def __init__(self, variant):
        self.v = variant
        self.tag = '%s/%s' % (type(self).__name__, variant)

    def rng(self):
        return kit.rng('store/' + self.tag)


class ClockKind(Kind):
    def make(self):
        r = self.rng()
        return Clock(r.choice(WORDS), r.choice([None] + WORDS),
                     start_datetime=datetime(2016, r.randint(1, 12), 31 -
                                             3 * r.randint(1, 4), 23, 59, 1,
                                             r.choice([0, 999999])),
                     timestep_period_duration=r.choice(list(TimePeriod)))

    def view(self, c):
        return look(type(c).__name__, c.name, c.description, c.timestep_ix,
                    c.timestep_period_duration.name,
                    civil(c.start_datetime), civil(c.get_datetime()),
                    [civil(c.get_datetime_at_period_ix(k))
                     for k in (0, 1, 2, 13)])
    acts = [lambda c, r: look(c.tick()),
            lambda c, r: look(c.reset()),
            lambda c, r: look(civil(c.get_datetime_at_period_ix(7)))]


def account_tree(a):
    return (a.name, a.number, a.path, a.account_type.name, a.description,
            [account_tree(k) for k in a.accounts])


def chart_view(g):
    return (type(g).__name__, g.name, g.description,
            [account_tree(a) for a in g.accounts],
            g.report(ReportFormat.string))


def add_account(g, r):
    k = r.randrange(10**6)
    n = r.choice(['', '1', '0042', 'Z']) + str(k)
    if r.random() < .3:
        p = g['Sales'].get_child_account('S')
        p = p or g['Sales']
    else:
        p = r.choice([g['Expense'], g['Bank']])
    a = p.create_account('A%d' % k, n, r.choice(WORDS))
    return look(a.path, a.number, a.account_type.name)


def drop_account(g, r):
    k = g['Expense'].accounts
    if not k:
        return look('none')
    n = r.choice(sorted(a.name for a in k))
    return look(said(g['Expense'].remove_account, n))


def below(g, r):
    return look([a.path for a in
                 g.get_account_descendants(g['Expense'])],
                [said(lambda: g.get_account(p).number) for p in
                 ('Sales/S', 'Sales/S/Sub', 'Bank', 'Nope', 'Expense/W')],
                said(g.validate_account_names, ['Bank', 'Sales/S']),
                said(g.validate_account_names, ['Sales/X']))


class ChartKind(Kind):
    def make(self):
        g = structure() if self.v % 2 else GeneralLedgerStructure('g', 'd')
        if self.v % 5 == 4:
            a = g['Expense']
            for k in range(25):         # far down
                a = a.create_account('W', '1')
        return g

    def view(self, g):
        return look(chart_view(g))
    acts = [add_account, drop_account, below]


def post(gl, r):
    names = [a.path for a in gl.structure.get_account_descendants(
        gl.structure['Expense'])] + ['Bank/Default', 'Bank', 'Sales']
    a, b = r.sample(names, 2)
    t = gl.create_transaction(
        r.choice(WORDS), description=r.choice([None] + WORDS),
        tx_date=datetime(2016, 1 + r.randrange(12), 5), dt_account=a,
        cr_account=b, source=r.choice(['M/E', 'M/E/C']),
        amount=r.choice([1, 0.1, 1e9, 12.25, 1 / 3]))
    return look(tx(t))


REPORTS = ['balance_sheet', 'income_statement', 'transaction_list']


def report(gl, r):
    n = r.choice(REPORTS)
    kw = {'component_path': r.choice(['', 'M/E'])}
    if n == 'balance_sheet':
        kw = {'end': datetime(2016, r.choice([3, 12]), 5)}
    return look(n, said(lambda: getattr(gl, n)(format=ReportFormat.string,
                                               **kw)))


def ledger_view(gl):
    return (type(gl).__name__, gl.name, gl.description,
            [tx(t) for t in gl.transactions],
            [account_tree(a) for a in gl.structure.accounts],
            [said(lambda: getattr(gl, n)(format=ReportFormat.string))
             for n in REPORTS])


class LedgerKind(Kind):
    def make(self):
        return GeneralLedger('gl', structure(), WORDS[self.v % len(WORDS)])

    def view(self, gl):
        return look(ledger_view(gl))
    acts = [post, report, lambda gl, r: add_account(gl.structure, r)]


def comp_tree(c):
    return (c.name, c.path, c.description,
            [(a.name, a.path, a.description, type(a).__name__)
             for a in c.activities], [comp_tree(k) for k in c.components])


def run_model(m, r):
    err = said(m.run)
    return look(err, [len(e.gl.transactions) for e in m.entities])


def grow_model(m, r):
    k = r.randrange(10**6)
    e = r.choice(list(m.entities))
    c = e.create_component('C%d' % k, r.choice(WORDS))
    c.add_activity(BasicActivity(
        'A', dt_account='Bank/Default', cr_account='Sales/S',
        amount=float(k % 97), interval=1 + k % 3))
    return look(c.path, [a.path for a in c.activities])


def rename_model(m, r):
    m.name = 'N%d' % r.randrange(99)
    return look(m.name)


class ModelKind(Kind):
    def make(self):
        r = self.rng()
        g = structure()
        m = TimeBasedModel('M', 'd', start_datetime=datetime(2015, 11, 1),
                           period_duration=TimePeriod.month,
                           period_count=r.choice([3, 14]))
        for k in range(r.choice([1, 2])):
            e = m.create_entity('E%d' % k, g)
            c = e.create_component('C').create_component('D')
            for _ in range(self.v % 4 // 3 * 15):
                c = c.create_component('D')
            c.add_activity(BasicActivity(
                'sell', dt_account='Bank/Default', cr_account='Sales/S',
                amount=10.5, start=datetime(2015, 12, 1), interval=2))
            if r.random() < .5:
                e.create_component('Z').add_activity(BasicLoanActivity(
                    'loan', 'Bank/Default', 'Long Term Borrowing/L',
                    'Expense/Interest', amount=1000.0, interest_rate=0.1,
                    start=datetime(2015, 12, 1), duration=3, interval=1))
        return m

    def view(self, m):
        return look(type(m).__name__, m.name, m.description, m.period_count,
                    civil(m.clock.get_datetime()), m.clock.timestep_ix,
                    [(e.name, e.path, [comp_tree(c) for c in e.components],
                      ledger_view(e.gl)) for e in m.entities])
    acts = [run_model, grow_model, rename_model]


class PlainKind(Kind):
    """Small objects."""
    def make(self):
        r = self.rng()
        w = [r.choice(WORDS) for _ in range(4)]
        return [lambda: Project(w[0], w[1]),
                lambda: Variable(w[0], r.choice([1, 0.1, 'v', None, 1e-300]),
                                 w[1], w[2], w[3]),
                lambda: SteadyStateModel(w[0], w[1]),
                lambda: DynamicModel(w[0], w[1]),
                lambda: VariableGroup(w[0], r.choice([1, 0.5, 'v']),
                                      w[1], w[2], w[3])][self.v % 5]()

    def view(self, o):
        d = {k: x if type(x) in (str, int, float, type(None))
             else type(x).__name__ for k, x in sorted(vars(o).items())
             if k[0] != '_'}
        return look(type(o).__name__, d,
                    repr(o()) if isinstance(o, (Variable, VariableGroup))
                    else '')

    @staticmethod
    def rename(o, r):
        o.name = r.choice(WORDS)
        return look(o.name)

    @staticmethod
    def describe(o, r):
        o.description = r.choice(WORDS)
        return look(o.description)
    acts = [rename.__func__, describe.__func__]


def definition(kind, r):
    pool = {'chem': ['FeO', 'SiO2', 'Fe2O3[S1]', 'CaO', 'H2O', 'C'],
            'psd': ['1.5E-2', '0.25', '0.0', '1', '0.125', '3.0E-5']}
    pool['slurry'] = pool['psd']
    pool['thermo'] = ['FeO[S]', 'SiO2[S]', 'O2[G]', 'CaO[S]', 'Fe[Salpha]']
    comps = r.sample(pool[kind], r.randint(1, 4))
    assays = {}
    for k in range(r.randint(1, 3)):
        fr = [r.choice(['0.1', '0.25', '0', '1.5', '0.3']) for _ in comps]
        fr[0] = '0.5'
        assays['a%d' % k] = (fr, '2.5', '0.25')
    return comps, assays


COUNT = [0]


def material(kind, r):
    comps, assays = definition(kind, r)
    COUNT[0] += 1
    p = os.path.abspath('s%d.txt' % COUNT[0])
    if kind == 'thermo':
        text = '\n'.join(['Compound ' + ' '.join(assays)] + [
            ' '.join([c] + [assays[a][0][i] for a in assays])
            for i, c in enumerate(comps)]) + '\n'
    else:
        text = file_text(kind, comps, assays)
    with open(p, 'w') as f:
        f.write(text)
    m = {'chem': chem, 'psd': psd, 'slurry': slurry,
         'thermo': thermo}[kind].Material('M', p)
    os.remove(p)
    return m


def assays(m):
    return m.raw_assays if hasattr(m, 'raw_assays') else m.assays


def mat_look(m):
    comps = list(m.compounds) if hasattr(m, 'compounds') \
        else [kit.num(x) for x in m.size_classes]
    t = [type(m).__name__, type(m).__module__, m.name, m.description, comps,
         sorted(assays(m))]
    n = []
    for a in sorted(assays(m)):
        n += list(assays(m)[a])
        n.append(m.get_assay_total(a))
        if hasattr(m, 'solid_densities'):
            n += [m.solid_densities[a], m.H2O_fractions[a]]
    if hasattr(m, 'elements'):
        t.append(list(m.elements))
    if hasattr(m, 'isCoal'):
        t.append(m.isCoal)
    if hasattr(m, 'assay_custom_properties'):
        t.append(repr(m.assay_custom_properties))
    return t, n


def add_assay(m, r):
    a = 'n%d' % r.randrange(1000)
    v = m.create_empty_assay()
    for i in range(len(v)):
        v[i] = r.choice([0.25, 0.5, 1.0, 0.125])
    if isinstance(m, slurry.Material):
        err = said(m.add_assay, a, 3.0, 0.5, v)
    else:
        err = said(m.add_assay, a, v)
    return look(repr(err))


def make_package(m, r):
    a = r.choice(sorted(assays(m)))
    p = m.create_package(a, 8.0)
    return look(n=parts(p) + [p.get_mass() if hasattr(p, 'get_mass')
                              else p.mass])


def parts(p):
    if isinstance(p, thermo.MaterialPackage):
        n = [p.get_compound_mass(c) for c in p.material.compounds]
    else:
        n = list(p.compound_masses if hasattr(p, 'compound_masses')
                 else p.size_class_masses)
    if isinstance(p, slurry.MaterialPackage):
        n += [p.H2O_mass, p.solid_density]
    if isinstance(p, thermo.MaterialPackage):
        n += [p.T, p.P, p.H]
    return n


class MaterialKind(Kind):
    kind = ['chem', 'psd', 'slurry', 'thermo']

    def make(self):
        return material(self.kind[self.v % 4], self.rng())

    def view(self, m):
        t, n = mat_look(m)
        return look(*t, n=n)
    acts = [add_assay, make_package]


def derived(p):
    if isinstance(p, chem.MaterialPackage):
        return [p.get_mass()] + list(p.get_element_masses()) + \
            [p.get_compound_mass(c) for c in p.material.compounds]
    if isinstance(p, (psd.MaterialPackage, slurry.MaterialPackage)):
        return [p.get_mass()] + [
            p.get_size_class_mass(c) for c in p.material.size_classes]
    if isinstance(p, thermo.MaterialPackage):
        return [p.mass, p.amount] + list(p.get_element_masses()) + \
            [p.get_compound_mass(c) for c in p.material.compounds]
    return [p.mfr, p.afr] + list(p.get_element_mfrs()) + \
        [p.get_compound_mfr(c) for c in p.material.compounds] + \
        [p.T, p.P, p.Hfr]


class Cargo(Kind):
    """Packages and streams."""
    kind = ['chem', 'psd', 'slurry', 'thermo', 'stream']

    def make(self):
        r = self.rng()
        k = self.kind[self.v % 5]
        m = material('thermo' if k == 'stream' else k, r)
        a = r.choice(sorted(assays(m)))
        if k == 'stream':
            return m.create_stream(a, 10.0, 1.0, 30.0)
        if k == 'thermo':
            return m.create_package(a, 10.0, 1.0, 30.0)
        return m.create_package(a, 10.0)

    def view(self, p):
        t, n = mat_look(p.material)
        k = [] if isinstance(p, thermo.MaterialStream) else parts(p)
        return look(type(p).__name__, *t, n=n + k + derived(p))

    @staticmethod
    def scale(p, r):
        return look(repr(said(p.__imul__ if hasattr(p, '__imul__') and False
                              else _times(p), r.choice([2.0, 0.5, 1.5]))))

    @staticmethod
    def heat(p, r):
        if not hasattr(p, 'T'):
            c = p.material.compounds[0] if hasattr(p.material, 'compounds') \
                else p.material.size_classes[0]
            q = said(p.extract, c)
            return look(type(q).__name__)
        p.T = r.choice([50.0, 100.0, 25.0])
        return look(n=[p.T])

    @staticmethod
    def take(p, r):
        m = p.mfr if hasattr(p, 'mfr') else \
            p.get_mass() if hasattr(p, 'get_mass') else p.mass
        q = p.extract(m / 4)
        return look(type(q).__name__, n=derived(q))

    @staticmethod
    def join(p, q):
        s = p + q
        return look(type(s).__name__, n=derived(s))
    acts = [take.__func__, heat.__func__]


def _times(p):
    return lambda f: p * f


class CompoundKind(Kind):
    """Thermochemical data."""
    def make(self):
        n = sorted(th.compounds)
        return th.compounds[self.rng().choice(n)]

    def view(self, c):
        n = []
        for p in sorted(c.get_phase_list()):
            for T in (298.15, 700.0, 2500.0):
                n += [c.Cp(p, T), c.H(p, T), c.S(p, T), c.G(p, T)]
        return look(type(c).__name__, c.formula,
                    sorted(c.get_phase_list()), n=n + [c.molar_mass])
    acts = [lambda c, r: look(said(c.get_reference)),
            lambda c, r: look(str(c))]


X = {'N2': 0.5, 'O2': 0.2, 'CO': 0.4}
XS = {'SiO2': 0.4, 'Al2O3': 0.2, 'CaO': 0.3, 'MgO': 0.05, 'FeO': 0.05}
Y = {'y_C': 0.8, 'y_H': 0.05, 'y_O': 0.1, 'y_N': 0.02, 'y_S': 0.03}
MODELS = [
    (lambda: idealgas.BetaT(), lambda T: {'T': T}),
    (lambda: idealgas.RhoT(28.01, 101325.0), lambda T: {'T': T}),
    (lambda: idealgas.RhoTP(28.01), lambda T: {'T': T, 'P': 2e5}),
    (lambda: idealgas.RhoTPx(), lambda T: {'T': T, 'P': 2e5,
                                           'x': {'H2': 0.3, 'O2': 0.7}}),
    (lambda: gases.WilkeMuTx(), lambda T: {'T': T, 'x': dict(X)}),
    (lambda: gases.HerningZippererMuTx(), lambda T: {'T': T, 'x': dict(X)}),
    (lambda: gases.IdealCpTx(), lambda T: {'T': T, 'x': dict(X)}),
    (lambda: slags.UrbainViscosityTx(),
     lambda T: {'T': T + 1000, 'x': dict(XS)}),
    (lambda: slags.UrbainViscosityTy(),
     lambda T: {'T': T + 1000, 'y': dict(XS)}),
    (lambda: slags.RiboudViscosityTx(),
     lambda T: {'T': T + 1000, 'x': dict(XS)}),
    (lambda: slags.RiboudViscosityTy(),
     lambda T: {'T': T + 1000, 'y': dict(XS)}),
    (lambda: coals.DafCpTy(), lambda T: dict(Y, T=T)),
    (lambda: coals.DafHTy(), lambda T: dict(Y, T=T)),
    (lambda: liquids.h2o_dict['rho'], lambda T: {'T': T}),
    (lambda: gases.air_dict['mu'] if hasattr(gases, 'air_dict')
     else liquids.h2o_dict['mu'], lambda T: {'T': T}),
    (lambda: polynomial(), lambda T: {'T': T}),
]


def polynomial():
    """A model fitted to a made up data set."""
    p = os.path.abspath('dataset-x.csv')
    with open(p, 'w') as f:
        f.write('Name,X\nDescription,d\nReference,"r, s"\n'
                'Temperature,Density\nT,\\rho\nK,kg/m3\nT,rho\n')
        for T in (250.0, 300.0, 350.0, 420.0, 500.0):
            f.write('%r,%r\n' % (T, 1000.0 - 0.3 * T + 1e-4 * T * T))
    d = mpc.DataSet(p)
    m = PolynomialModelT.create(d, 'rho', 2)
    os.remove(p)
    return m


class PropertyKind(Kind):
    """Models of material properties."""
    def make(self):
        return MODELS[self.v % len(MODELS)][0]()

    def state(self, T):
        return MODELS[self.v % len(MODELS)][1](T)

    def view(self, m):
        n = []
        words = []
        for T in (280.0, 300.0, 360.0, 900.0):
            for f in (m, m.calculate):
                err, v = kit.attempt(lambda: f(**self.state(T)))
                words.append(err)
                n.append(0.0 if err else v)
        for bad in ({'T': 'hot'}, {}, {'T': -5.0, 'z': 1}):
            words.append(kit.attempt(lambda: m(**bad))[0])
        return look(type(m).__name__, m.material, m.property, m.symbol,
                    m.display_symbol, m.units, m.references, m.datasets,
                    repr(sorted(m.state_schema)), words, n=n)

    @property
    def acts(self):
        def ask(m, r):
            T = r.choice([281.0, 333.3, 490.0])
            err, v = kit.attempt(lambda: m(**self.state(T)))
            return look(err, n=[] if err else [v])
        return [ask, ask]


KINDS = [ClockKind, ChartKind, LedgerKind, ModelKind, PlainKind, MaterialKind,
         Cargo, CompoundKind, PropertyKind]


class Bench:
    def __init__(self, rec, kind):
        self.rec, self.kind = rec, kind
        self.slot, self.seen = {}, set()

    def emit(self, op, s, err='', **kw):
        d = {'t': '', 'f': '', 'a': '', 'res': look()}
        d.update(kw)
        views = []
        for k, o in self.slot.items():
            e, v = kit.attempt(lambda: self.kind.view(o))
            views.append({'s': k, 'err': e, 'v': look() if e else v})
        self.rec.event(op, s=s, kind=self.kind.tag, err=err, views=views, **d)

    def new(self, s):
        err, o = kit.attempt(self.kind.make)
        if not err:
            self.slot[s] = o
        self.emit('new', s, err)

    def do(self, s, i, salt):
        acts = self.kind.acts
        i %= len(acts)
        r = kit.rng('act/%s/%d' % (self.kind.tag, salt))
        err, res = kit.attempt(lambda: acts[i](self.slot[s], r))
        self.emit('do', s, a='%d.%d' % (i, salt),
                  res=look('error: ' + err) if err else res)

    def join(self, s, t):
        if self.kind.join:
            err, res = kit.attempt(
                lambda: self.kind.join(self.slot[s], self.slot[t]))
            self.emit('join', s, t=t, a='join',
                      res=look('error: ' + err) if err else res)

    def write(self, s, f):
        err, _ = kit.attempt(lambda: self.slot[s].write(self.path(f)))
        self.emit('write', s, err, f=f)

    def read(self, f, s):
        err, o = kit.attempt(lambda: Object.read(self.path(f)))
        if not err:
            self.slot[s] = o
        self.emit('read', s, err, f=f)

    def path(self, f):
        return os.path.abspath('store-%s.json' % f)


def twins(rec, k, r):
    """An object and its copy from a file, treated alike."""
    rec.case('twins %s' % k.tag)
    b = Bench(rec, k)
    b.new('p')
    if not b.slot:
        return
    for _ in range(r.randint(0, 2)):
        b.do('p', r.randrange(3), r.randrange(9))
    b.write('p', 'f')
    b.read('f', 'q')
    if r.random() < .5:
        b.new('r')
    for _ in range(r.randint(1, 4)):
        i, salt = r.randrange(3), r.randrange(9)
        for s in r.sample('pq', 2):
            b.do(s, i, salt)
    if 'r' in b.slot:
        for s in 'pq':
            b.join(s, 'r')
        for s in 'pq':
            b.join('r', s)
    b.write('q', 'f')
    b.read('f', 'r')


def run(rec, scenarios):
    n = 0
    nv = 16
    todo = [k(v) for v in range(nv) for k in KINDS]
    for i, sc in enumerate(scenarios):
        k = todo[i % len(todo)]
        rec.case('spec %d %s' % (i, k.tag))
        b = Bench(rec, k)
        for o in sc:
            if o['op'] == 'new':
                b.new(o['s'])
            elif not b.slot:
                break
            elif o['op'] == 'do':
                b.do(o['s'], 'ab'.index(o['a']), 0)
            elif o['op'] == 'join':
                b.join(o['s'], o['t'])
            elif o['op'] == 'write':
                b.write(o['s'], o['f'])
            else:
                b.read(o['f'], o['s'])
    r = kit.rng('store')
    for v in range(64 if kit.THOROUGH else 20):
        for K in KINDS:
            twins(rec, K(v), r)
    for i in range(1200 if kit.THOROUGH else 200):
        k = KINDS[i % len(KINDS)](i // len(KINDS))
        rec.case('random %d %s' % (i, k.tag))
        b = Bench(rec, k)
        b.new('p')
        files = []
        for _ in range(r.randint(4, 11) if b.slot else 0):
            s = r.choice(list(b.slot))
            w = r.random()
            if w < .35:
                b.do(s, r.randrange(3), r.randrange(3))
            elif w < .55 or not files:
                f = r.choice('fg')
                b.write(s, f)
                files.append(f)
            elif w < .85:
                b.read(r.choice(files), r.choice('pqr'))
            elif w < .95:
                b.join(s, r.choice(list(b.slot)))
            else:
                b.new(r.choice('pqr'))


if __name__ == '__main__':
    kit.main(run)
