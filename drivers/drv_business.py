"""Drives TimeBasedModel, Entity, Component and Activity hierarchies."""
from datetime import datetime
import kit
from auxi.core.time import TimePeriod
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.business.structure import Entity, Component
from auxi.modelling.business.basic import BasicActivity, BasicLoanActivity
from auxi.modelling.financial.des import GeneralLedgerStructure, GeneralLedger

GOOD = ['Bank/Default', 'Sales/S', 'Expense/Wages/Casual', 'Bank', 'Sales',
        'Expense', 'Long Term Borrowing/Loan']
BAD = ['Nope', 'Sales/Nope', 'Expense/Wages/Nope', 'Nope/Default', 'bank',
       'Sales/S/T', 'S']


def structure():
    g = GeneralLedgerStructure('gls')
    g['Sales'].create_account('S', '0000')
    g['Expense'].create_account('Wages', '0000').create_account('Casual', '1')
    g['Long Term Borrowing'].create_account('Loan', '0000')
    return g


class World:
    def __init__(self, rec):
        self.rec = rec
        self.obj = {}
        self.ids = {}
        self.kind = {}
        self.roots = []
        self.gls = structure()
        self.rates = 0
        self.gone = []

    def rate(self):
        self.rates += 1
        return (.1, 0, 0.)[self.rates % 3]

    def reg(self, o, kind):
        i = len(self.obj) + 1
        self.obj[i] = o
        self.ids[id(o)] = i
        self.kind[i] = kind
        return i

    def kids(self, o, kind):
        if kind == 'model':
            return [(e, 'entity') for e in o.entities]
        if kind == 'entity':
            return [(c, 'component') for c in o.components]
        if kind == 'component':
            return [(c, 'component') for c in o.components] + \
                [(a, 'activity') for a in o.activities]
        return []

    def nodes(self):
        out = []

        def visit(o, kind, par):
            i = self.ids.get(id(o), -1)
            ks = self.kids(o, kind)
            out.append({'id': i, 'par': par, 'name': o.name, 'kind': kind,
                        'path': o.name if kind == 'model' else o.path,
                        'kids': [self.ids.get(id(k), -1) for k, _ in ks]})
            for k, kd in ks:
                visit(k, kd, i)
        for i in self.roots:
            visit(self.obj[i], self.kind[i], 0)
        return out

    def probe(self, names, only=None):
        """Look every name up in every live parent."""
        out = []
        for n in self.nodes():
            i, kind = n['id'], n['kind']
            if i < 0 or (only and i not in only):
                continue
            o = self.obj[i]
            todo = []
            if kind == 'model':
                todo = [('entity', lambda nm: o[nm])]
            elif kind == 'entity':
                todo = [('component', lambda nm: o[nm])]
            elif kind == 'component':
                todo = [('component', lambda nm: o[nm]),
                        ('component', lambda nm: o.get_component(nm)),
                        ('activity', lambda nm: o(nm)),
                        ('activity', lambda nm: o.get_activity(nm))]
            for kd, f in todo:
                for nm in names:
                    err, r = kit.attempt(lambda: f(nm))
                    out.append({'from': i, 'name': nm, 'kind': kd, 'res':
                                0 if err or r is None
                                else self.ids.get(id(r), -1)})
        return out

    def log(self, op, err, names, **kw):
        self.rec.event(op, err=err, nodes=self.nodes(),
                       probes=self.probe(names) if names else [], **kw)

    def root_model(self, name, names=()):
        m = TimeBasedModel(name, start_datetime=datetime(2016, 1, 1),
                           period_duration=TimePeriod.month, period_count=3)
        i = self.reg(m, 'model')
        self.roots.append(i)
        self.log('root', '', names, id=i, name=name, kind='model',
                 base='none')
        return i

    def root_entity(self, name, names=()):
        m = Entity(name, self.gls)
        i = self.reg(m, 'entity')
        self.roots.append(i)
        self.log('root', '', names, id=i, name=name, kind='entity', base='')
        return i

    def root_component(self, name, names=()):
        m = Component(name, GeneralLedger('gl', self.gls))
        i = self.reg(m, 'component')
        self.roots.append(i)
        self.log('root', '', names, id=i, name=name, kind='component',
                 base='')
        return i

    def setparent(self, node, base, names=()):
        err, _ = kit.attempt(lambda: self.obj[node].set_parent_path(base))
        self.log('setparent', err, names, node=node, base=base)

    def attach(self, node, name, subs, names=()):
        """Builds a component or an entity by hand and attaches it."""
        if self.kind[node] == 'model':
            o, kind = Entity(name, self.gls), 'entity'
        else:
            gl = self.obj[node].gl
            if len(subs) % 2:
                gl = GeneralLedger('gl', self.gls)
            o, kind = Component(name, gl), 'component'
        i = self.reg(o, kind)
        parts = []
        for s in subs:
            # a component made for another place, with one of its own
            err, a = kit.attempt(lambda: o.create_component(s[0]))
            k = self.reg(a, 'component')
            parts.append({'id': k, 'par': i, 'name': s[0]})
            if len(s) > 1:
                b = Component(s[1], GeneralLedger('gl', self.gls))
                a.components.append(b)
                b.set_parent_path(a.path)
                parts.append({'id': self.reg(b, 'component'), 'par': k,
                              'name': s[1]})

        def f():
            p = self.obj[node]
            (p.entities if kind == 'entity' else p.components).append(o)
            o.set_parent_path(p.name if kind == 'entity' else p.path)
        err, _ = kit.attempt(f)
        self.log('attach', err, names, node=node, name=name, id=i, kind=kind,
                 parts=parts)
        return i

    def create(self, node, name, names=()):
        kind = 'entity' if self.kind[node] == 'model' else 'component'
        if kind == 'entity':
            err, o = kit.attempt(
                lambda: self.obj[node].create_entity(name, self.gls))
        else:
            err, o = kit.attempt(
                lambda: self.obj[node].create_component(name))
        i = self.reg(o, kind) if not err else 0
        self.log(kind, err, names, node=node, name=name, id=i)
        return i

    def redo_chart(self):
        """Close a sub account of the chart, or open it again."""
        for path in ('Sales/S', 'Long Term Borrowing/Loan'):
            main, sub = path.split('/')
            if path in self.gone:
                self.gls[main].create_account(sub, '0000')
                self.gone.remove(path)
                return
            if len(self.obj) % 2:
                self.gls[main].remove_account(sub)
                self.gone.append(path)
                return

    def activity(self, node, name, accounts, valid, names=()):
        if len(accounts) == 2:
            a = BasicActivity(name, accounts[0], accounts[1], amount=1)
        else:
            a = BasicLoanActivity(name, *accounts, amount=100,
                                  interest_rate=self.rate(),
                                  start=datetime(2016, 1, 1))
        p0 = a.path
        err, _ = kit.attempt(lambda: self.obj[node].add_activity(a))
        i = self.reg(a, 'activity')
        self.log('activity', err, names, node=node, name=name, id=i,
                 valid=valid, apath0=p0, apath=a.path)
        return i

    def remove(self, node, name, names=()):
        if self.kind[node] == 'model':
            err, _ = kit.attempt(lambda: self.obj[node].remove_entity(name))
            kd = 'entity'
        else:
            err, _ = kit.attempt(
                lambda: self.obj[node].remove_component(name))
            kd = 'component'
        self.log('remove', err, names, node=node, name=name, kind=kd)

    def move(self, par, node, to, names=()):
        """Take a component out of one place and put it in another."""
        o, p = self.obj[node], self.obj[to]

        def f():
            self.obj[par].remove_component(o.name)
            p.components.append(o)
            o.set_parent_path(p.path)
        err, _ = kit.attempt(f)
        self.log('move', err, names, node=node, to=to)

    def rename(self, node, name, names=()):
        def f():
            self.obj[node].name = name
        err, _ = kit.attempt(f)
        self.log('rename', err, names, node=node, name=name)


def run(rec, scenarios):
    r = kit.rng('business')
    for i, sc in enumerate(scenarios):
        rec.case('spec %d' % i)
        w = World(rec)
        w.root_model('M')
        live = {1}
        idmap = {1: 1}
        nxt = 2
        for j, o in enumerate(sc):
            names = ['A', 'B'] if j == len(sc) - 1 else ()
            n = idmap[o['node']]
            if o['op'] in ('entity', 'component'):
                idmap[nxt] = w.create(n, o['name'], names)
                nxt += 1
            elif o['op'] == 'activity' and o['ok']:
                idmap[nxt] = w.activity(n, o['name'], r.sample(GOOD, 2), True,
                                        names)
                nxt += 1
            elif o['op'] == 'activity':
                acc = [r.choice(GOOD), r.choice(BAD)]
                r.shuffle(acc)
                w.activity(n, o['name'], acc, False, names)
            elif o['op'] == 'move':
                par = next(x['par'] for x in w.nodes() if x['id'] == n)
                w.move(par, n, idmap[o['to']], names)
            elif o['op'] == 'remove':
                w.remove(n, o['name'], names)
            else:
                w.rename(n, o['name'], names)
    pool = ['A', 'B', 'Ops', 'Ops2', 'HR', 'a', 'x y', 'Loan', 'M', '1',
            ' A', 'Ops ', '', '\u00c4', 'component', 'R&D']
    n = 1000 if kit.THOROUGH else 150
    for i in range(n):
        rec.case('random %d' % i)
        w = World(rec)
        k = r.random()
        if k < .6:
            w.root_model(r.choice(pool))
        elif k < .85:
            w.root_entity(r.choice(pool))
        else:
            w.root_component(r.choice(pool))
        if r.random() < .3:
            w.root_entity(r.choice(pool))
        for _ in range(r.randint(6, 25)):
            nd = w.nodes()
            x = r.choice(nd)
            node, kind = x['id'], x['kind']
            if node < 0:
                break
            by = {y['id']: y for y in nd}
            kn = {(by[q]['kind'], by[q]['name']) for q in x['kids']
                  if q in by}
            names = r.sample(pool, 3) + [q[1] for q in kn][:2]
            if kn and r.random() < .5:
                # nearly a name, or the path instead of the name
                q = r.choice(sorted(kn))[1]
                names += r.sample([x['path'] + '/' + q, x['name'] + '/' + q,
                                   '/' + q, q + ' ', ' ' + q, q.upper(),
                                   q.lower(), q.strip(), q[:-1]], 2)
            v = r.random()
            if v < .3 and kind != 'activity':
                kd = 'entity' if kind == 'model' else 'component'
                free = [q for q in pool if (kd, q) not in kn]
                if free and kind != 'activity' and r.random() < .3:
                    w.attach(node, r.choice(free),
                             [r.sample(pool, r.randint(1, 2)) for _ in
                              range(1)] * r.randint(0, 1), names)
                elif free:
                    w.create(node, r.choice(free), names)
            elif v < .6 and kind == 'component':
                free = [q for q in pool if ('activity', q) not in kn]
                if not free:
                    continue
                used = {q for a in w.obj[node].activities
                        for q in a.get_referenced_accounts()} & {
                    'Sales/S', 'Long Term Borrowing/Loan'}
                if r.random() < (.4 if used else .1):
                    w.redo_chart()
                acc = [r.choice(GOOD) for _ in range(r.choice([2, 3]))]
                bad = BAD + w.gone * 2
                again = sorted(used & set(w.gone)) if r.random() < .7 else []
                bad = again or bad
                valid = not again and r.random() < .6
                if valid:
                    acc = [q for q in acc if q not in w.gone]
                    acc += ['Bank'] * (2 - len(acc))
                else:
                    for q in range(0 if again else len(acc)):
                        if r.random() < .4:
                            acc[q] = r.choice(bad)
                    if not set(acc) & set(bad):
                        acc[r.randrange(len(acc))] = r.choice(bad)
                w.activity(node, r.choice(free), acc, valid, names)
            elif v < .7 and kind != 'activity':
                near = [x['name'] + '/' + q[1] for q in kn] + \
                    [x['path'] + '/' + q[1] for q in kn]
                w.remove(node, r.choice(near if near and r.random() < .3
                                        else names), names)
            elif v < .76 and kind == 'component' and x['par']:
                under, todo = {node}, [node]
                while todo:
                    ks = by[todo.pop()]['kids']
                    under |= set(ks)
                    todo += [q for q in ks if q in by]
                tos = [y for y in nd if y['id'] not in under and
                       y['kind'] in ('entity', 'component') and
                       y['id'] > 0 and not any(
                           by[q]['name'] == x['name'] and
                           by[q]['kind'] == 'component'
                           for q in y['kids'] if q in by)]
                if tos:
                    w.move(x['par'], node, r.choice(tos)['id'], names)
            elif v < .77 and x['par'] == 0 and kind != 'model':
                w.setparent(node, r.choice(['', 'P', 'P/Q', '/R']), names)
            else:
                if x['par']:
                    sib = {(by[q]['kind'], by[q]['name'])
                           for q in by[x['par']]['kids'] if q in by}
                    free = [q for q in pool if (kind, q) not in sib]
                else:
                    free = pool
                if free:
                    w.rename(node, r.choice(free), names)


if __name__ == '__main__':
    kit.main(run)
