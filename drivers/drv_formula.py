"""Chemical formulas and the conversions based on them."""
import kit
from auxi.tools.chemistry import stoichiometry as st

SYMS = ['H', 'He', 'Fe', 'O', 'C', 'Ca', 'Cl', 'Si', 'S', 'N', 'Na', 'Al',
        'K', 'Mg', 'Mn', 'Ti', 'V', 'Cr', 'P', 'Cu', 'Co', 'U', 'Zn', 'F',
        'I', 'In', 'B', 'Br', 'Li', 'W', 'Xe', 'Pb', 'Y', 'Yb', 'Os', 'No',
        'Ni', 'Hf', 'Hg', 'Rg', 'Rn', 'Ra', 'Rb', 'Ru', 'Rh', 'Mo', 'Nb',
        'Tc', 'Pd', 'Ag', 'Cd', 'Sn', 'Sb', 'Te', 'Cs', 'Ba', 'La', 'Ce',
        'Pr', 'Nd', 'Pm', 'Sm', 'Eu', 'Gd', 'Tb', 'Dy', 'Ho', 'Er', 'Tm',
        'Lu', 'Ta', 'Re', 'Ir', 'Pt', 'Au', 'Tl', 'Bi', 'Po', 'At', 'Fr',
        'Ac', 'Th', 'Pa', 'Np', 'Pu', 'Am', 'Cm', 'Bk', 'Cf', 'Es', 'Fm',
        'Md', 'Lr', 'Rf', 'Db', 'Sg', 'Bh', 'Hs', 'Mt', 'Ds', 'Be', 'Ne',
        'Ar', 'Sc', 'Ga', 'Ge', 'As', 'Se', 'Kr', 'Sr', 'Zr']
BASE = ['H', 'He', 'O', 'Fe']


def formula(rec, text, els):
    e1, m = kit.attempt(lambda: st.molar_mass(text))
    e2, cs = kit.attempt(lambda: st.stoichiometry_coefficients(text, els))
    e3, c1 = kit.attempt(lambda: st.stoichiometry_coefficient(text, els[0]))
    e4, fs = kit.attempt(lambda: st.element_mass_fractions(text, els))
    e5, f1 = kit.attempt(lambda: st.element_mass_fraction(text, els[-1]))
    e6, es = kit.attempt(lambda: sorted(st.elements([text.strip()])))
    rec.event('formula', text=text, els=els, errs=[e1, e2, e3, e4, e5, e6],
              molar=kit.num(m), coefs=kit.nums(cs or []), coef=kit.num(c1),
              fracs=kit.nums(fs or []), frac=kit.num(f1), elements=es or [])


def pairs(d):
    return [{'c': k, 'v': kit.num(v)} for k, v in (d or {}).items()]


def mixture(rec, d):
    arg = dict(d)
    e1, n = kit.attempt(lambda: st.amounts(arg))
    e2, m = kit.attempt(lambda: st.masses(arg))
    e3, x = kit.attempt(lambda: st.amount_fractions(arg))
    e4, y = kit.attempt(lambda: st.mass_fractions(arg))
    e5, es = kit.attempt(lambda: sorted(st.elements(list(arg))))
    one = sorted(d)[0]
    rec.event('mixture', arg=pairs(d), errs=[e1, e2, e3, e4, e5],
              same=arg == d, amounts=pairs(n), masses=pairs(m),
              xs=pairs(x), ys=pairs(y), elements=es or [], one=one,
              amount=kit.num(st.amount(one, d[one])),
              mass=kit.num(st.mass(one, d[one])),
              back=kit.num(st.mass(one, st.amount(one, d[one]))))


def convert(rec, m, a, b, el):
    err, v = kit.attempt(lambda: st.convert_compound(m, a, b, el))
    rec.event('convert', m=kit.num(m), src=a, tgt=b, el=el, err=err,
              res=kit.num(v))


def rand_items(r, depth, syms):
    out = ''
    for _ in range(r.randint(1, 3)):
        n = r.choice(['', '', '2', '3', '12', '1', '0', '04', '100', '7'])
        if depth and r.random() < .3:
            out += '(' + rand_items(r, depth - 1, syms) + ')' + n
        else:
            out += r.choice(syms) + n
    return out


def rand_formula(r, zero=True):
    syms = r.choice([SYMS, ['Fe', 'O', 'H', 'Ca', 'C'], SYMS])
    while True:
        s = rand_items(r, r.choice([0, 1, 2]), syms)
        if r.random() < .25:
            s += '.' + r.choice(['', '2', '10', '0']) + \
                rand_items(r, 1, ['H', 'O'])
        if r.random() < .5:
            s += r.choice(['[S1]', '[l]', '[G]', '[aq2]', '[Hematite]'])
        if zero or not any(c + '0' in s for c in
                           'abcdefghijklmnopqrstuvwxyz).'
                           'ABCDEFGHIJKLMNOPQRSTUVWXYZ'):
            return s


def run(rec, scenarios):
    texts = [s[0] for s in scenarios]
    short = [t for t in texts if len(t) <= (5 if kit.THOROUGH else 4)]
    long_ = [t for t in texts if len(t) > (5 if kit.THOROUGH else 4)]
    keep = 30000 if kit.THOROUGH else 4000
    if not kit.THOROUGH:
        short = [t for t in short if len(t) < 4] + \
            [t for t in short if len(t) == 4][::3]
    todo = short + long_[::max(1, len(long_) // keep)]
    r = kit.rng('formula')
    r.shuffle(todo)     # what was parsed before must not matter
    for i in range(0, len(todo), 100):
        rec.case('spec %d' % i)
        for t in todo[i:i + 100]:
            formula(rec, t, BASE)
    rec.case('elements')
    formula(rec, '', ['H'])
    for s in SYMS:
        formula(rec, s, [s, 'O'])
        formula(rec, s + 'O2', [s, 'O'])
    rec.case('not elements')
    for a in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ':
        formula(rec, a, ['H'])
        for b in 'abcdefghijklmnopqrstuvwxyz':
            formula(rec, a + b, ['H'])
    n = 6000 if kit.THOROUGH else 700
    for i in range(n):
        if i % 50 == 0:
            rec.case('random %d' % i)
        s = rand_formula(r)
        if r.random() < .25:
            k = r.randrange(len(s) + 1)
            w = r.random()
            if w < .4:
                s = s[:k] + s[k + 1:]
            elif w < .8:
                s = s[:k] + r.choice('()[].2aHX*,-+ 1') + s[k:]
            else:
                s = s[:k]
        if not s.strip():
            continue
        if r.random() < .1:
            s = ' ' + s + ' '
        formula(rec, s, r.sample(SYMS, 2) + ['O', 'H', 'Fe'])
    for i in range(n):
        if i % 50 == 0:
            rec.case('laws %d' % i)
        if i % 2:
            k = r.randint(1, 6)
            d = {}
            while len(d) < k:
                d[rand_formula(r, zero=False)] = r.choice(
                    [0.0, 1.0, 2.5, 1e-6, 1234.5, 1, r.uniform(0, 100)])
            if r.random() < .4:     # the same formula in other phases
                f = r.choice(sorted(d)).split('[')[0]
                for ph in r.sample(['', '[S1]', '[L]', '[G]', '[s1]'], 2):
                    d[f + ph] = r.choice([0.0, 3.0, r.uniform(0, 10)])
            if r.random() < .3:     # the same atoms written otherwise
                d.update({'CaCO3': 2.0, 'CaO3C': 1.0, 'C1O3Ca': 4.0})
            if not any(d.values()):
                d[sorted(d)[0]] = 1.5
            mixture(rec, d)
        else:
            a, b = rand_formula(r, False), rand_formula(r, False)
            if r.random() < .7:
                a, b = r.choice([('Fe2O3', 'Fe'), ('FeO', 'Fe2O3[S1]'),
                                 ('CaCO3', 'CaO'), ('FeCr2O4', 'Cr2O3'),
                                 ('CaSO4.2H2O', 'H2O'), ('Fe3O4', 'SiO2'),
                                 ('Fe', 'Fe(OH)3'), ('SiO2', 'O2'),
                                 ('SiO2', 'SiO2'), ('Fe3O4', 'Fe3O4')])
            el = r.choice(['Fe', 'O', 'Cr', 'H', 'C', 'Ca', 'Si'])
            if r.random() < .4:     # little of it, among much else
                el = r.choice(['H', 'Li', 'He', 'Be', 'C', 'O', 'Fe'])
                a, b = [el + r.choice(['', '2', '7', '30']) +
                        rand_formula(r, False) for _ in 'ab']
            elif r.random() < .3:   # to and from the element itself
                el = r.choice(['O', 'N', 'H', 'S', 'Cl', 'C', 'Fe', 'P'])
                a = el + r.choice(['', '2', '3', '5', '8']) + \
                    rand_formula(r, False)
                b = el + r.choice(['', '2', '3', '4', '8', '60']) + \
                    r.choice(['', '[G]', '[S1]', '(g)'][:3])
                if r.random() < .3:
                    a, b = b, a
            convert(rec, r.choice([1.0, 0.0, 250.0, r.uniform(0, 1e4)]),
                    a, b, el)


if __name__ == '__main__':
    kit.main(run)
