"""Drives GeneralLedgerStructure and GeneralLedgerAccount."""
import itertools
import kit
from auxi.modelling.financial.des import GeneralLedgerStructure


class Chart:
    """The ledger structure under test plus a registry of its accounts."""

    def __init__(self, rec, cats):
        self.rec = rec
        self.gls = GeneralLedgerStructure('chart')
        self.obj = {}
        self.ids = {}
        for c in cats:
            self._register(self.gls[c])
        self.cats = cats
        # initial sub accounts
        for c in cats:
            self._reg_below(self.gls[c])
        rec.event('chart', err='', probes=[], nodes=self.snapshot())

    def _register(self, a):
        i = len(self.obj) + 1
        self.obj[i] = a
        self.ids[id(a)] = i
        return i

    def _reg_below(self, a):
        for k in a.accounts:
            self._register(k)
            self._reg_below(k)

    def snapshot(self):
        out = []

        def visit(a, par):
            i = self.ids.get(id(a), -1)
            out.append({'id': i, 'par': par, 'name': a.name, 'path': a.path,
                        'kind': a.account_type.name,
                        'kids': [self.ids.get(id(k), -1)
                                 for k in a.accounts]})
            for k in a.accounts:
                visit(k, i)
        for a in self.gls.accounts:
            if id(a) in self.ids:
                visit(a, 0)
        return out

    def lookup(self, frm, parts):
        path = '/'.join(parts)
        if frm == 0:
            err, r = kit.attempt(lambda: self.gls.get_account(path))
        else:
            err, r = kit.attempt(
                lambda: self.obj[frm].get_child_account(path))
        if err:
            return -2
        return 0 if r is None else self.ids.get(id(r), -1)

    def probes(self, paths):
        return [{'from': f, 'parts': list(p), 'res': self.lookup(f, p)}
                for f, p in paths]

    def create(self, node, name, number, paths):
        err, a = kit.attempt(
            lambda: self.obj[node].create_account(name, number))
        i = self._register(a) if not err else 0
        self.rec.event('create', node=node, name=name, id=i, err=err,
                       nodes=self.snapshot(), probes=self.probes(paths))
        return i

    def remove(self, node, name, paths):
        err, _ = kit.attempt(lambda: self.obj[node].remove_account(name))
        self.rec.event('remove', node=node, name=name, err=err,
                       nodes=self.snapshot(), probes=self.probes(paths))

    def rename(self, node, name, paths):
        def f():
            self.obj[node].name = name
        err, _ = kit.attempt(f)
        self.rec.event('rename', node=node, name=name, err=err,
                       nodes=self.snapshot(), probes=self.probes(paths))

    def descendants(self, node):
        err, r = kit.attempt(
            lambda: self.gls.get_account_descendants(self.obj[node]))
        self.rec.event('descendants', node=node, err=err,
                       res=[self.ids.get(id(k), -1) for k in (r or [])])

    def validate(self, names):
        err, _ = kit.attempt(lambda: self.gls.validate_account_names(
            ['/'.join(n) for n in names]))
        self.rec.event('validate', names=names, err=err)

    def live(self):
        """Live accounts by walking the public account lists."""
        out = []

        def visit(a, par, depth):
            out.append((self.ids[id(a)], par, depth,
                        [k.name for k in a.accounts], a.name))
            for k in a.accounts:
                visit(k, self.ids[id(a)], depth + 1)
        for a in self.gls.accounts:
            if id(a) in self.ids:
                visit(a, 0, 0)
        return out

    def names_to(self, node):
        a = self.obj[node]
        for n, par, d, k, nm in self.live():
            if n == node:
                return ([] if par == 0 else self.names_to(par)) + [nm]
        return ['gone']


def run(rec, scenarios):
    alpha = ['A', 'B']
    paths = [(0, (c,) + p) for c in ('Sales', 'Expense') for k in (0, 1, 2)
             for p in itertools.product(alpha, repeat=k)]
    paths += [(0, ('Sales', 'A', 'A', 'B')), (0, ('Sales', 'B', 'A', 'A')),
              (0, ('Nope',)), (0, ('Nope', 'A')), (1, ('A',)),
              (1, ('A', 'B')), (1, ('B', 'A')), (2, ('B',)), (2, ('A', 'A')),
              (0, ('A',)), (0, ('Sales', 'Sales')), (0, ('A', 'A')),
              (0, ('A', 'B')), (0, ('B',)), (0, ('B', 'A'))]
    for i, sc in enumerate(scenarios):
        rec.case('spec %d' % i)
        c = Chart(rec, ['Sales', 'Expense'])
        for j, o in enumerate(sc):
            ps = paths if j == len(sc) - 1 else []
            if o['op'] == 'create':
                c.create(o['node'], o['name'], '%04d' % j, ps)
            elif o['op'] == 'remove':
                c.remove(o['node'], o['name'], ps)
            else:
                c.rename(o['node'], o['name'], ps)
        c.descendants(1)
        c.descendants(2)
    r = kit.rng('chart')
    pool = ['A', 'B', 'Loan', 'Default', 'Bank', 'Sales', 'a', 'A B', 'AA',
            'Wages', 'x-1', 'Expense', 'A.', 'Gross Profit', ' A', 'A ',
            '.', '..', 'R&D (50%)', '\u00c4', 'None', '0000',
            'a rather long name of an account ' * 3]
    every = ['Unallocated Income Statement', 'Sales', 'Cost of Sales',
             'Other Income', 'Expense', 'Tax', 'Dividends', 'Share Capital',
             'Retained Income', 'Shareholders Loan', 'Long Term Borrowing',
             'Fixed Assets', 'Inventory', 'Bank', 'Account Payable',
             'Taxation']
    n = 1500 if kit.THOROUGH else 200
    for i in range(n):
        rec.case('random %d' % i)
        c = Chart(rec, r.sample(every, r.randint(2, 4)))
        for _ in range(r.randint(5, 25)):
            live = c.live()
            node, par, depth, kids, nm = r.choice(live) if i % 4 else \
                max(live[-8:], key=lambda x: (x[2], x[0]))
            ps = []
            for _ in range(6):
                m = r.choice(live)[0]
                full = c.names_to(m)
                w = r.random()
                if w < .5:
                    ps.append((0, tuple(full)))
                elif w < .75:
                    k = r.randint(0, len(full) - 1)
                    anc = full[:k]
                    if anc:
                        a = next((x[0] for x in live
                                  if c.names_to(x[0]) == anc), 0)
                        if a:
                            ps.append((a, tuple(full[k:])))
                            continue
                    ps.append((0, tuple(full)))
                else:
                    f = list(full)
                    j = r.randrange(len(f))
                    f[j] = r.choice(pool if j else ['A', 'Nope', 'a', 'AA'])
                    ps.append((0, tuple(f + ([r.choice(pool)]
                                             if r.random() < .3 else []))))
                    if r.random() < .3:
                        # nearly a name
                        f = list(full)
                        j = r.randrange(len(f))
                        f[j] = r.choice([f[j].strip(), f[j] + ' ',
                                         ' ' + f[j], f[j].lower(),
                                         f[j].upper(), f[j][:-1]])
                        ps.append((0, tuple(f)))
                    if r.random() < .3:
                        # with a slash too many
                        f = list(full)
                        f.insert(r.randint(0, len(f)), '')
                        ps.append((0, tuple(f)))
            w = r.random()
            if w < .5 and depth < 12:
                free = [x for x in pool if x not in kids]
                c.create(node, r.choice(free),
                         r.choice(['0000', '0010', None]), ps)
            elif w < .65:
                full = c.names_to(node)
                k = r.choice(kids or pool)
                c.remove(node, r.choice([k] * 3 + [
                    # not the name of a sub account
                    '/'.join(full + [k]), full[-1] + '/' + k, '/' + k,
                    k + '/', k + '/' + r.choice(pool),
                    r.choice(pool) + '/' + k, '', k + ' ', k.upper() + '!',
                    full[-1] + '!']), ps)
            elif w < .85:
                # a main account may not take the name of another one
                sib = [x[3] for x in live if x[0] == par][0] if par else \
                    every + [a.name for a in c.gls.accounts]
                free = [x for x in pool if x not in sib]
                c.rename(node, r.choice(free), ps)
            elif w < .9:
                c.descendants(node)
            else:
                names = [c.names_to(r.choice(live)[0])
                         for _ in range(r.choice([0, 1, 2, 3, 6, 12]))]
                if r.random() < .6 and names:
                    names[r.randrange(len(names))] = \
                        c.names_to(node) + [r.choice(pool)]
                if r.random() < .3:
                    names.insert(r.randint(0, len(names)), ['Nope'])
                c.validate(names)


if __name__ == '__main__':
    kit.main(run)
