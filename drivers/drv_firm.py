"""Builds and runs real business models; records their ledgers."""
from datetime import datetime, timedelta
import kit
from drv_clock import civil, dt
from auxi.core.time import TimePeriod
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.business.basic import BasicActivity, BasicLoanActivity
from auxi.modelling.financial.des import GeneralLedgerStructure

EXTRA = {'Sales': ['S', 'T'], 'Cost of Sales': ['C', 'D'],
         'Expense': ['W', 'Interest', 'X'], 'Other Income': ['O', 'P'],
         'Tax': ['V'], 'Dividends': ['Q'],
         'Long Term Borrowing': ['L', 'L2'], 'Fixed Assets': ['F'],
         'Account Payable': ['Y'], 'Share Capital': ['Z']}


def structure(own=None):
    g = GeneralLedgerStructure('gls')
    for c, names in EXTRA.items():
        for i, n in enumerate(names):
            g[c].create_account(n, '%04d' % i)
        if own:
            g[c].create_account(own, '0090')
    for c, k in (('Sales', 'S'), ('Expense', 'X'), ('Cost of Sales', 'D'),
                 ('Bank', 'Default')):
        a = g[c][k]
        for i in range(5 if c == 'Sales' else 4):
            a = a.create_account('Sub' if i == 0 else 'S%d' % i, '0009')
    return g


OTHER = {'Sales': 'Turnover', 'Cost of Sales': 'Direct', 'Expense':
         'Cost of Salesmen', 'Unallocated Income Statement': 'Cost',
         'Retained Income': 'Sales & more', 'Tax': 'Sales tax',
         'Other Income': 'Cost of Sales 2'}


def rename(g, names):
    """Call main accounts something else."""
    for k, v in names.items():
        a = g[k]
        a.name = v
        if k == 'Unallocated Income Statement':
            a.accounts[0].name = 'Margin'
            a.accounts[1].name = 'Result'
        if k == 'Retained Income':
            a.accounts[0].name = 'Kept'
    return g


def pick_names(r):
    return {k: OTHER[k] for k in r.sample(sorted(OTHER),
                                          r.randint(1, len(OTHER)))}


def roles(names):
    """Where the accounts with a part of their own are now."""
    u = 'Unallocated Income Statement'
    c, e = 'Cost of Sales', 'Retained Income'
    return {'sales': names.get('Sales', 'Sales'), 'cos': names.get(c, c),
            'gp': names.get(u, u) + ('/Margin' if u in names else
                                     '/Gross Profit'),
            'is': names.get(u, u) + ('/Result' if u in names else
                                     '/Income Summary'),
            're': names.get(e, e) + ('/Kept' if e in names else
                                     '/Retained Earnings')}


def types(g):
    out = {}

    def visit(a, pre):
        p = pre + a.name
        out[p] = a.account_type.name
        for k in a.accounts:
            visit(k, p + '/')
    for a in g.accounts:
        visit(a, '')
    return out


def tx(t):
    d = t.tx_date
    if type(d) is str:
        d = datetime.strptime(d, '%Y-%m-%d')
    elif not isinstance(d, datetime):
        d = datetime(d.year, d.month, d.day)
    return {'name': str(t.name), 'desc': '' if t.description is None
            else str(t.description), 'date': civil(d),
            'dt': str(t.dt_account), 'cr': str(t.cr_account),
            'source': str(t.source), 'amount': kit.num(t.amount),
            'closing': bool(t.is_closing_cr_account or
                            t.is_closing_dt_account)}


def val(s):
    """A numeral as int if it is one, else float."""
    return int(s) if s.lstrip('-').isdigit() else float(s)


def given(c, n):
    """A day may be given as text."""
    if n % 2 and not c[3] and not c[4]:
        return '%04d-%02d-%02d' % tuple(c[:3])
    return dt(c)


class Firm:
    def __init__(self, rec, start, dur, n, name='M', names={}):
        self.rec = rec
        self.start, self.dur, self.n = start, dur, n
        self.names = dict(names)
        self.gls = self.chart()
        self.model = TimeBasedModel(name,
                                    start_datetime=given(start, start[1]),
                                    period_duration=TimePeriod[dur],
                                    period_count=n)
        self.acts = {}

    def chart(self, own=None):
        return rename(structure(own), self.names)

    def main(self, path):
        """The main account of an account, by the name it was made with."""
        k = path.split('/')[0]
        return {v: o for o, v in self.names.items()}.get(k, k)

    def called(self, path):
        """The path of a sub account of a main account by its first name."""
        k, t = path.split('/', 1)
        return self.names.get(k, k) + '/' + t

    def entity(self, name, gls=None):
        return self.model.create_entity(name, gls or self.gls)

    def types(self):
        """Of the accounts of all charts; equal paths have equal types."""
        out = types(self.gls)
        for e in self.model.entities:
            out.update(types(e.gl.structure))
        return out

    def add(self, comp, a):
        n = len(self.acts)
        kw = {'start': given(a['start'], n)} if a['start'] else {}
        kw['interval'] = a['interval']
        if a.get('description') is not None:
            kw['description'] = a['description']
        if a['kind'] == 'basic':
            if a['end']:
                kw['end'] = given(a['end'], n // 2)
            late = n % 5 == 2
            o = BasicActivity(a['name'], dt_account=a['dt'],
                              cr_account=a['cr'],
                              amount=7 if late else val(a['amount']), **kw)
            if late:
                o.amount = val(a['amount'])
        else:
            # some loans get their terms after they were made
            late = {1: ['amount', 'rate'], 2: ['rate', 'amount'],
                    4: ['rate']}.get(n % 6, [])
            first = {'amount': val(a['amount']), 'rate': val(a['rate'])}
            if 'amount' in late:
                first['amount'] = 31
            if late:
                first['rate'] = .07
            o = BasicLoanActivity(a['name'], a['bank'], a['loan'], a['int'],
                                  amount=first['amount'],
                                  interest_rate=first['rate'],
                                  duration=a['duration'], **kw)
            for k in late:
                if k == 'amount':
                    o.amount = val(a['amount'])
                else:
                    o.interest_rate = val(a['rate'])
        comp.add_activity(o)
        self.acts[id(o)] = (o, a)

    def config(self, op='config'):
        """What was asked for, in the order the public lists hold it."""
        ents = []
        for e in self.model.entities:
            acts = []

            def visit(c):
                for k in c.components:
                    visit(k)
                for o in c.activities:
                    a = dict(self.acts[id(o)][1])
                    a['path'] = o.path
                    a['label'] = a['description'] \
                        if a.get('description') is not None else o.name
                    a.pop('description', None)
                    a.pop('name', None)
                    for k in ('dt', 'cr', 'bank', 'loan', 'int'):
                        a.setdefault(k, '')
                    a.setdefault('end', [])
                    a.setdefault('rate', '0')
                    a.setdefault('duration', 0)
                    acts.append(a)
            for c in e.components:
                visit(c)
            ents.append({'path': e.path, 'acts': acts})
        self.rec.event(op, cfg={'start': self.start, 'dur': self.dur,
                                      'n': self.n, 'types': self.types(),
                                      'roles': roles(self.names),
                                      'ents': ents})

    def run(self, op='run'):
        err, _ = kit.attempt(self.model.run, 30)
        self.rec.event(op, err=err, ix=self.model.clock.timestep_ix,
                       ledgers=[[tx(t) for t in e.gl.transactions]
                                for e in self.model.entities])

    def set(self, a, **kw):
        """Give an activity other parameters."""
        o = next(x for x, y in self.acts.values() if y is a)
        for k, v in kw.items():
            a[k] = v
            if k in ('start', 'end'):
                setattr(o, k + '_datetime', dt(v) if v else
                        (datetime.min if k == 'start' else datetime.max))
            elif k in ('dt', 'cr'):
                setattr(o, k + '_account', v)
            elif k == 'rate':
                o.interest_rate = val(v)
            else:
                setattr(o, k, val(v) if k == 'amount' else v)

    def step(self, r=None, posts=0., changes=0., stop=None):
        """The same run, one public call at a time."""
        m = self.model
        err, _ = kit.attempt(m.prepare_to_run)
        self.rec.event('prepared', err=err, ix=m.clock.timestep_ix,
                       sizes=[len(e.gl.transactions) for e in m.entities])
        for i in range(self.n if stop is None else min(stop, self.n)):
            new, kept, errs = [], [], ''
            for e in m.entities:
                before = list(e.gl.transactions)
                err, _ = kit.attempt(lambda: e.run(m.clock))
                errs = errs or err
                new.append([tx(t) for t in e.gl.transactions[len(before):]])
                kept.append(all(x is y for x, y in
                                zip(before, e.gl.transactions)) and
                            len(e.gl.transactions) >= len(before))
            self.rec.event('period', i=i, err=errs, new=new, kept=kept)
            if r and r.random() < posts:
                self.post(r)
            m.clock.tick()
            if r and r.random() < changes:
                # the model changes while it is being run
                midway(self, r)
                self.config('recast')
        for _ in range(2 if stop is None else 0):
            # the run is over; the clock goes on
            before = [list(e.gl.transactions) for e in m.entities]
            err, _ = kit.attempt(lambda: [e.run(m.clock) for e in m.entities])
            self.rec.event('beyond', err=err, same=[
                b == list(e.gl.transactions)
                for b, e in zip(before, m.entities)])
            m.clock.tick()

    def post(self, r):
        """A transaction entered by hand, mostly dated in this period."""
        c = self.model.clock
        t = c.get_datetime() if r.random() < .6 else \
            c.get_datetime_at_period_ix(max(0, c.timestep_ix + r.choice(
                [-12, -1, 1, 2, 3, 12, 13, 30])))
        k = r.randrange(len(self.model.entities))
        e = self.model.entities[k]
        w = r.random()
        if w < .15:
            t = t.date()
        elif w < .3:
            t = '%04d-%02d-%02d' % (t.year, t.month, t.day)
        accs = [a for a in types(e.gl.structure)
                if self.main(a) in EXTRA or a == 'Bank/Default']
        a, b = r.sample(accs, 2)
        t = e.gl.create_transaction(
            'manual', description='by hand', tx_date=t, dt_account=a,
            cr_account=b, source=e.path, amount=r.choice(
                [0.25, 10, 64.5, 1000, 3]))
        self.rec.event('post', ent=k + 1, tx=tx(t))


def from_spec(rec, cfg):
    f = Firm(rec, cfg['start'], cfg['dur'], cfg['n'])
    for k, e in enumerate(cfg['ents']):
        c = f.entity('E%d' % k).create_component('C')
        for a in e['acts']:
            a = dict(a)
            a['name'] = a.pop('label')
            a.pop('path')
            f.add(c, a)
    f.config()
    f.run()
    return f


DY = [0, 0.001, 0.004, 0.25, 1, 5, 10, 12.5, 100, 177000, 15000, 63.75, 2, 400, 0.5]


def random_firm(rec, r):
    dur = r.choice(['month'] * 5 + ['day', 'week', 'year', 'year', 'hour'])
    y, m = r.randint(1998, 2030), r.randint(1, 12)
    d = r.choice([1, 1, 15, 28])
    if r.random() < .2 and m in (1, 3, 5, 7, 8, 10, 12):
        d = 31
    start = [y, m, d, r.choice([0, 0, 0, 43200]), 0]
    n = {'month': r.choice([1, 2, 11, 12, 13, 14, 24, 25, 30, 37, 49]),
         'year': r.randint(1, 8), 'day': r.choice([5, 20, 40]),
         'week': r.choice([10, 53, 54, 80]), 'hour': r.choice([5, 20])}[dur]
    if r.random() < .04:
        n = 0
    elif r.random() < .1 * kit.THOROUGH:
        n = r.choice([60, 121, 130, 200, 366])
        if dur == 'year':
            n //= 5
    f = Firm(rec, start, dur, n, r.choice(['M', 'Model', 'X/1']),
             pick_names(r) if r.random() < .3 else {})

    def when():
        k = r.randint(0, n + 2)
        if dur == 'month':
            mm = start[1] - 1 + k
            t = datetime(start[0] + mm // 12, mm % 12 + 1, min(d, 28),
                         0, 0)
            if r.random() < .5:
                t = f.model.clock.get_datetime_at_period_ix(k)
        else:
            t = f.model.clock.get_datetime_at_period_ix(k)
        return civil(t + r.choice([timedelta(0), timedelta(0),
                                   timedelta(days=1), timedelta(seconds=1),
                                   timedelta(seconds=-1),
                                   timedelta(days=-3)]))
    many = r.choice([1, 1, 1, 2, 3])
    charts = r.choice(['one', 'each', 'own'])
    for k in range(many):
        e = f.entity('E%d' % k, None if charts == 'one' or many == 1 else
                     f.chart('Own%d' % k if charts == 'own' else None))
        accs = [a for a in types(e.gl.structure)
                if f.main(a) in EXTRA or a == 'Bank/Default']
        pl = [a for a in accs if f.main(a) in
              ('Sales', 'Cost of Sales', 'Expense', 'Other Income', 'Tax')]
        if charts == 'own':
            pl += [a for a in pl if '/Own' in a] * 3
        comps = []
        for j in range(r.randint(1, 3)):
            c = e.create_component('C%d' % j)
            comps.append(c)
            if r.random() < .5:
                comps.append(c.create_component('S'))
                if r.random() < .3:
                    comps.append(comps[-1].create_component('T'))
        for j in range(r.randint(1, 6)):
            a = {'name': 'a%d' % j, 'interval': r.choice([1, 1, 1, 2, 3, 6]),
                 'description': r.choice([None, None, 'some text', ''])}
            if r.random() < .25:
                bank, loan, it = 'Bank/Default', r.choice(
                    ['Long Term Borrowing/L', 'Long Term Borrowing/L2']), \
                    f.called(r.choice(['Expense/Interest', 'Expense/W']))
                dd = max(1, min(n + 3, r.choice([1, 2, 6, 12, 24, 36])))
                if r.random() < .3:
                    dd = max(1, n - 2)
                a.update(kind='loan', bank=bank, loan=loan, int=it,
                         amount=kit.num(r.choice(DY + [200000, 1234.5])),
                         rate=kit.num(r.choice([0, 0.0, 0.0006, 0.00001, 0.005, 0.15, 0.12, 0.075,
                                                0.2, 1.5])),
                         duration=dd, start=when() if r.random() < .7
                         else start)
                if r.random() < .2:
                    # taken up before the books begin
                    t = dt(start) - timedelta(days=r.choice([1, 20, 95, 400]))
                    a['start'] = civil(datetime(t.year, t.month,
                                                min(t.day, 28)))
                if dur != 'month':
                    a['interval'] = 1
            else:
                x, y2 = r.choice(pl), r.choice(
                    accs if r.random() < .4 else ['Bank/Default'])
                if x == y2:
                    y2 = 'Bank/Default'
                p = [x, y2]
                r.shuffle(p)
                a.update(kind='basic', dt=p[0], cr=p[1],
                         amount=kit.num(r.choice(DY)),
                         start=when() if r.random() < .5 else [],
                         end=when() if r.random() < .5 else [])
            f.add(r.choice(comps), a)
    return f


def own_charts(rec, r):
    """Companies with charts of their own, every one of them trading on the
    accounts only it has."""
    y, m = r.randint(1999, 2028), r.randint(1, 12)
    f = Firm(rec, [y, m, r.choice([1, 15, 28]), 0, 0], 'month',
             r.choice([13, 14, 25, 37]), 'M',
             pick_names(r) if r.random() < .3 else {})
    for k in range(r.choice([2, 2, 3])):
        own = r.choice(['Own%d' % k, 'Own%d' % k, 'S', 'C2'])
        g = f.chart(own if own not in ('S',) else None)
        e = f.entity('E%d' % k, g)
        c = e.create_component('C')
        main = ['Sales', 'Cost of Sales', 'Expense', 'Other Income', 'Tax']
        accs = [a for a in types(g) if f.main(a) in main]
        mine = [a for a in accs if a.endswith('/' + own)] or accs
        for j in range(r.randint(2, 5)):
            p = [r.choice(mine if r.random() < .8 else accs), 'Bank/Default']
            if r.random() < .3:
                p[1] = r.choice(mine)
                if p[0] == p[1]:
                    p[1] = 'Bank/Default'
            r.shuffle(p)
            f.add(c, {'name': 'a%d' % j, 'kind': 'basic', 'start': [],
                      'end': [], 'interval': r.choice([1, 1, 2, 5]),
                      'description': None, 'dt': p[0], 'cr': p[1],
                      'amount': kit.num(r.choice(DY))})
    return f


def long_run(rec, r):
    """Few transactions, over very many periods."""
    dur = r.choice(['month', 'day', 'week', 'hour', 'month'])
    n = r.choice([130, 250, 400])
    f = Firm(rec, [2001, r.randint(1, 12), 1, 0, 0], dur, n)
    c = f.entity('E').create_component('C')
    at = f.model.clock.get_datetime_at_period_ix
    for j in range(2):
        p = ['Bank/Default', r.choice(['Sales/S', 'Expense/W', 'Tax/V'])]
        r.shuffle(p)
        f.add(c, {'name': 'a%d' % j, 'kind': 'basic', 'description': None,
                  'start': civil(at(r.randint(0, 30))) if j else [],
                  'end': civil(at(n - r.randint(2, 10))) if j else [],
                  'interval': r.choice([11, 12, 19]), 'dt': p[0],
                  'cr': p[1], 'amount': kit.num(r.choice(DY))})
    return f


def midway(f, r):
    """Rename something, or let an activity post other amounts."""
    m = f.model
    w = r.random()
    e = r.choice(m.entities)
    c = r.choice(e.components)
    if w < .15:
        m.name = 'N' + str(r.randint(0, 9))
    elif w < .3:
        e.name = 'R%d' % r.randint(0, 9)
    elif w < .45:
        c.name = 'K%d' % r.randint(0, 9) if r.random() < .5 else c.name
        for k in c.components:
            k.name = 'KK'
    elif w < .6 and c.activities:
        c.activities[0].name = 'b%d' % r.randint(0, 9)
        f.acts[id(c.activities[0])][1]['name'] = c.activities[0].name
    else:
        a = r.choice([y for x, y in f.acts.values()])
        if a['kind'] == 'basic':
            if r.random() < .6:
                f.set(a, amount=kit.num(r.choice(DY)))
            else:
                f.set(a, dt=a['cr'], cr=a['dt'])


def retime(f, r):
    """Give the next run another length or clock, or other schedules."""
    m = f.model
    w = r.random()
    if w < .4:
        f.n = m.period_count = max(0, f.n + r.choice(
            [-12, -3, -1, 1, 2, 5, 12, 13]))
    elif w < .5:
        t = dt(f.start) + r.choice([timedelta(days=1), timedelta(days=-40),
                                    timedelta(days=365)])
        if t.day < 29:
            f.start = civil(t)
            m.clock.start_datetime = t
    for a in [y for x, y in f.acts.values()]:
        if r.random() < .5:
            continue
        if a['kind'] == 'loan':
            f.set(a, **r.choice([
                {'rate': kit.num(r.choice([0, 0.01, 0.0004, 0.000008, 0.12, 0.3]))},
                {'amount': kit.num(r.choice(DY))}]))
        else:
            t = civil(m.clock.get_datetime_at_period_ix(r.randint(0, f.n)) +
                      r.choice([timedelta(0), timedelta(seconds=1)]))
            f.set(a, **r.choice([
                {'amount': kit.num(r.choice(DY))}, {'start': t}, {'end': t},
                {'start': []}, {'end': []},
                {'interval': r.choice([1, 2, 3, 4])},
                {'dt': a['cr'], 'cr': a['dt']}]))


def mutate(f, r):
    """Change the configuration between two runs."""
    m = f.model
    if r.random() < .6:
        retime(f, r)
    if r.random() < .3:
        # an account opened between two runs, and used in the next
        e = r.choice(m.entities)
        main = r.choice(['Sales', 'Cost of Sales', 'Expense', 'Tax'])
        main = f.names.get(main, main)
        if not any(a.name == 'New' for a in e.gl.structure[main].accounts):
            e.gl.structure[main].create_account('New', '0091')
        a = {'name': 'late', 'kind': 'basic', 'start': [], 'end': [],
             'interval': 1, 'description': None, 'dt': main + '/New',
             'cr': 'Bank/Default', 'amount': kit.num(r.choice(DY))}
        if e.components and not any(
                x.name == 'late' for x in e.components[0].activities):
            f.add(e.components[0], a)
    w = r.random()
    if w < .25:
        m.name = 'N' + str(r.randint(0, 9))
    elif w < .5:
        e = r.choice(m.entities)
        e.name = 'R%d' % r.randint(0, 9)
    elif w < .7:
        e = r.choice(m.entities)
        if e.components:
            c = r.choice(e.components)
            c.name = 'K'
    elif w < .8 and len(m.entities) > 1:
        m.remove_entity(r.choice(m.entities).name)
    else:
        e = r.choice(m.entities)
        if len(e.components) > 1:
            e.remove_component(r.choice(e.components).name)


def run(rec, scenarios):
    for i, sc in enumerate(scenarios):
        rec.case('spec %d' % i)
        f = from_spec(rec, sc[0])
        if i % 5 == 0:
            f.run('rerun')
    r = kit.rng('firm')
    for i in range(1000 if kit.THOROUGH else 150):
        rec.case('random %d' % i)
        f = own_charts(rec, r) if i % 5 == 4 else \
            long_run(rec, r) if i % 50 == 3 else random_firm(rec, r)
        f.config()
        w = r.random()
        if w < .5:
            f.step(r, r.choice([0, .2, .6]), r.choice([0, 0, .1, .4]))
            if r.random() < .5:
                f.run()
                f.run('rerun')
                if r.random() < .3:
                    mutate(f, r)
                    f.config()
                    f.step(r, 0, .2)
        else:
            if r.random() < .2:
                # a run that is broken off
                f.step(r, 0, .2, r.randint(0, f.n))
            f.run()
            if r.random() < .2:
                # once more, with a run broken off in between
                f.step(stop=r.randint(0, f.n))
                f.run()
            f.run('rerun')
            if r.random() < .7:
                mutate(f, r)
                f.config()
                f.run()
                if r.random() < .5:
                    f.step()
                    f.run('rerun')


if __name__ == '__main__':
    kit.main(run)
