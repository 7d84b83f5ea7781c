"""Questions to surfaces, regions, ducts and dimensionless quantities."""
import contextlib
import io
import kit
from auxi.tools import physicalconstants as const
from auxi.tools.materialphysicalproperties import gases, liquids
from auxi.tools.transportphenomena import dimensionlessquantities as dq
from auxi.tools.transportphenomena.fluidflow import pressuredrop as pd
from auxi.tools.transportphenomena.heattransfer import naturalconvection as nc

Surface = nc.IsothermalFlatSurface
PROPS = ['beta', 'nu', 'alpha', 'k']


class Fluid:
    """A made-up fluid."""
    def __init__(self, r):
        self.p = {'beta': r.choice([1, -1, 1, 1]) * 10 ** r.uniform(-4, -2),
                  'nu': 10 ** r.uniform(-7, -3),
                  'alpha': 10 ** r.uniform(-8, -3),
                  'k': 10 ** r.uniform(-3, 2)}
        self.e = {k: r.uniform(-3, 3) for k in PROPS}

    def _v(self, k, T):
        return self.p[k] * (T / 300.0) ** self.e[k]

    def beta(self, T):
        return self._v('beta', T)

    def nu(self, T):
        return self._v('nu', T)

    def alpha(self, T):
        return self._v('alpha', T)

    def k(self, T):
        return self._v('k', T)


def at(fluid, Ts):
    """The properties of the fluid at some temperatures."""
    out = []
    for T in Ts:
        row = {'T': kit.num(T)}
        for p in PROPS:
            err, v = kit.attempt(lambda: getattr(fluid, p)(T=T))
            row[p] = '' if err else kit.num(v)
        out.append(row)
    return out


def ask(rec, i, s, fluid, gas, f, L, theta, Ts, Tf):
    temps = [Tf, Ts - 0.38 * (Ts - Tf), Ts - 0.5 * (Ts - Tf)]
    err, v = kit.attempt(lambda: getattr(s, f)(L, theta, Ts, T=Tf))
    rec.event('plate', i=i, f=f, gas=gas, q={
        'L': kit.num(L), 'theta': kit.num(theta), 'Ts': kit.num(Ts),
        'Tf': kit.num(Tf)}, at=at(fluid, temps), err=err,
        v='' if err else kit.num(v))


def length(r, fluid, gas, Ts, Tf, lr):
    """A length that brings log10(Ra) about where it is wanted."""
    if Ts == Tf or lr == '':
        return r.uniform(.05, 5)
    T = Ts - (.38 if gas else .5) * (Ts - Tf)
    err, x = kit.attempt(lambda: (
        10 ** float(lr) * fluid.nu(T=T) * fluid.alpha(T=T) /
        abs(9.8 * fluid.beta(T=Tf) * (Ts - Tf))) ** (1 / 3.0))
    return r.uniform(.05, 5) if err else x


def surfaces(rec, r, qs, shipped, edge=False):
    rec.case('surfaces ' + str(shipped))
    if shipped:
        fluid, lo, hi = shipped
    else:
        fluid, lo, hi = Fluid(r), 100.0, 2000.0
    ss = [(g, Surface(fluid, g) if r.random() < .6 or not g else
           Surface(fluid)) for g in (True, False, True)]
    old = []
    for q in qs:
        i = r.choice([j for j in range(3) if ss[j][0] == q['gas']])
        if r.random() < .15 and old:
            ask(rec, *r.choice(old))
        if r.random() < .25 and old:
            # an earlier question with something changed
            x = list(r.choice(old))
            n = r.choice([4, 5, 6, 7, 7, 8, 8])
            x[n] = (r.choice(['Nu_x', 'Nu_L', 'h_x', 'h_L']) if n == 4 else
                    x[5] * r.uniform(.5, 2) if n == 5 else
                    r.uniform(-90, 90) if n == 6 else r.uniform(lo, hi))
            ask(rec, *x)
        if r.random() < .2 and old:
            # the last question, and one that is very near to it
            x = list(old[-1])
            n = r.choice([5, 7, 7, 8])
            x[n] *= 1 + r.choice([-1, 1]) * r.choice([1e-4, 3e-5, 1e-6])
            ask(rec, *x)
            ask(rec, *old[-1])
        a, b = sorted([r.uniform(lo, hi), r.uniform(lo, hi)])
        if r.random() < .1:
            b = hi + r.choice([.001, 500])
        Ts, Tf = (b, a) if q['side'] == 'hot' else (a, b)
        if q['side'] == 'none':
            Tf = Ts
        theta = float(q['theta'])
        if r.random() < .3:
            theta = r.choice([r.uniform(-90, 90), theta + r.choice(
                [-1, 1]) * 10 ** r.uniform(-9, 0), float(round(theta))])
        if theta == round(theta) and r.random() < .3:
            theta = int(theta)
        lr = q['lr']
        if lr and r.random() < .3:
            lr = r.choice([float(lr) + r.choice([-1, 1]) *
                           10 ** r.uniform(-7, 0), r.uniform(-3, 15)])
        L = length(r, fluid, q['gas'], Ts, Tf, lr)
        x = (i, ss[i][1], fluid, q['gas'], q['f'], L, theta, Ts, Tf)
        old.append(x)
        ask(rec, *x)


def region(rec, q, r):
    def lim(x):
        return None if x == '' else f(x)
    # the same layout at another place
    o, w = r.choice([(0.0, 1.0), (-90, 15), (r.uniform(-9, 9), 2.5)])

    def f(x):
        return o + w * float(x)
    reg = Surface.Region('r', lim(q['tlo']), q['tloi'], lim(q['thi']),
                         q['thii'], lim(q['rlo']), q['rloi'], lim(q['rhi']),
                         q['rhii'], r.choice([None, 'In_Eq_Region']))
    theta, ra = f(q['theta']), f(q['ra'])
    err, v = kit.attempt(lambda: reg.contains_point(theta, ra))
    d = {k: '' if q[k] == '' else kit.num(f(q[k]))
         for k in ('tlo', 'thi', 'rlo', 'rhi')}
    d.update({k: q[k] for k in ('tloi', 'thii', 'rloi', 'rhii')})
    rec.event('region', r=d, theta=kit.num(theta), ra=kit.num(ra), err=err,
              v=bool(v))


def number(rec, f, a):
    err, v = kit.attempt(lambda: getattr(dq, f)(*a))
    rec.event('number', f=f, a=kit.nums(a), err=err,
              v='' if err else kit.num(v))


DUCT = {'f_l': pd.f_l, 'f_ts': pd.f_ts, 'f_tr_Haaland': pd.f_tr_Haaland,
        'f_tr_Colebrook': pd.f_tr_Colebrook, 'D_h': pd.D_h,
        'drop': getattr(pd, '\u0394p')}


def duct(rec, f, a, warn):
    n = {'f_l': 1, 'f_ts': 1}.get(f, len(a))
    kw = {} if warn is None else {'warn': warn}
    if f != 'f_tr_Haaland':
        kw = {}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        err, v = kit.attempt(lambda: DUCT[f](*a[:n], **kw))
    rec.event('duct', f=f, a=kit.nums(a), warn=warn is not False,
              said=out.getvalue().strip() != '', err=err,
              v='' if err else kit.num(v))


def shipped():
    out = []
    for m in list(gases.materials.values()) + [liquids.h2o]:
        ok = [t for t in range(200, 1500, 5) if all(
            not kit.attempt(lambda: getattr(m, p)(T=float(t)))[0]
            for p in PROPS)]
        if ok:
            out.append((m, float(min(ok)), float(max(ok))))
    return out


def log(r, lo, hi):
    return 10 ** r.uniform(lo, hi)


def run(rec, scenarios):
    r = kit.rng('transport')
    by = {}
    for h in scenarios:
        by.setdefault(h[-1]['k'], []).append(h[-1])
    ship = shipped()
    rec.case('constants')
    for n in ('c', 'h', 'k_B', 'N_A', 'g', 'h_bar', 'R', 'F', '\u03c3', 'G',
              'm_u', 'T_NTP', 'P_NTP', 'T_STP', 'P_STP'):
        v = getattr(const, n)
        rec.event('const', n='sigma' if n == '\u03c3' else n, v=kit.num(v))
    rec.event('fluids', n=len(ship))
    # surfaces: every emitted question, in sessions
    for _ in range(3 if kit.THOROUGH else 1):
        qs = list(by['plate'])
        r.shuffle(qs)
        for i in range(0, len(qs), 40):
            surfaces(rec, r, qs[i:i + 40],
                     r.choice(ship) if ship and i // 40 % 2 else None)
    rec.case('regions')
    for i, q in enumerate(by['region']):
        if i % 200 == 199:
            rec.case('regions')
        region(rec, q, r)
    rec.case('numbers')
    for q in by['number']:
        number(rec, q['f'], [float(x) for x in q['a']])
    for _ in range(4000 if kit.THOROUGH else 500):
        f = r.choice(['Gr', 'Ra', 'Pr', 'Re', 'Nu', 'Sh'])
        T = [r.uniform(1, 3000), r.uniform(1, 3000)]
        L, x, y = log(r, -4, 3), log(r, -9, 4), log(r, -9, 4)
        a = {'Gr': [L] + T + [log(r, -5, -1), log(r, -8, 0),
                              r.choice([9.80665, r.uniform(.1, 30)])],
             'Ra': [L] + T + [x, log(r, -5, -1), log(r, -8, 0)],
             'Pr': [x, y]}.get(f, [L, r.choice([x, -x, 0.0]), y])
        if r.random() < .1:
            a = [int(z) if abs(z) >= 1 else z for z in a]
        number(rec, f, a)
    rec.case('ducts')
    for q in by['duct']:
        for w in (None, True, False):
            duct(rec, q['f'], [float(x) for x in q['a']], w)
    for _ in range(3000 if kit.THOROUGH else 400):
        f = r.choice(list(DUCT))
        D = log(r, -3, 1)
        a = [log(r, 1.5, 9), r.choice([0.0, D * log(r, -7, -1.3),
                                       D * r.uniform(.03, .08)]), D]
        if f == 'D_h':
            a = [log(r, -6, 3), log(r, -3, 2)]
        elif f == 'drop':
            a = [log(r, -3, 0), log(r, -2, 4), D, log(r, -2, 4),
                 r.choice([0.0, r.uniform(-5, 50)])]
        elif f == 'f_tr_Colebrook':
            a[0] = log(r, 3.3, 8.5)
            if r.random() < .3:
                a[1] = D * r.uniform(.05, .5)
        duct(rec, f, a, r.choice([None, True, False]))


kit.main(run)
