"""Builds real ledgers, asks for every report in every format and records the
tables.  Dates of a ledger are fixed; windows and components vary."""
import contextlib
import csv
import io
import os
import re
from datetime import datetime, timedelta
import kit
from drv_clock import civil, dt
from drv_firm import structure, types, val, random_firm, \
    rename, pick_names
from auxi.core.reporting import ReportFormat as RF
from auxi.modelling.financial.des import GeneralLedger, GeneralLedgerStructure
from auxi.modelling.financial import reporting as rp

SPECIAL = 'R&D_1 {50%} #2 $3 <4> ~ ^ \\ "x" \'y\' |z|; *'
DAY0 = datetime(2016, 1, 30)


def from_simple(text):
    lines = text.rstrip('\n').split('\n')
    k = next(i for i, ln in enumerate(lines)
             if ln and set(ln) <= set('- ') and i == 1)
    spans = [m.span() for m in re.finditer('-+', lines[k])]
    out = []
    for i, ln in enumerate(lines):
        if i == k:
            continue
        out.append([ln[a:(b if j + 1 < len(spans) else None)].strip()
                    for j, (a, b) in enumerate(spans)])
    return out


def from_latex(text):
    out = []
    for ln in text.split('\n'):
        if ln.strip().endswith('\\\\'):
            out.append([plain(c.strip()) for c in
                        re.split(r'(?<!\\)&', ln.strip()[:-2])])
    return out


ESCAPED = re.compile(r'\\textbackslash\{\}|\\textasciitilde\{\}|\\\^\{\}|'
                     r'\\ensuremath\{[<>]\}|\\[&%$#_{}]')


def plain(text):
    """The text that a LaTeX cell shows."""
    return ESCAPED.sub(lambda m: {
        't': '\\' if 'back' in m.group() else '~', '^': '^',
        'e': m.group()[-2]}.get(m.group()[1], m.group()[1]), text)


def from_csv(text):
    return [list(r) for r in csv.reader(io.StringIO(text))]


N = [0]


def shown(call):
    """call(format, output_path) in every format; the parsed tables."""
    res = {}

    def out(fmt):
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            call(fmt, None)
        return b.getvalue()

    def file(fmt, ext):
        N[0] += 1
        p = os.path.abspath('r%d' % N[0])
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            call(fmt, p)
            call(fmt, p)        # a report replaces an older one
        with open(p + ext, newline='') as f:
            t = f.read()
        os.remove(p + ext)
        return t
    res['csv file'] = from_csv(file(RF.csv, '.csv'))
    c = out(RF.csv)
    res['csv'] = from_csv(c[:-1] if c.endswith('\n\n') else c)
    res['string'] = from_simple(call(RF.string, None))
    res['printout'] = from_simple(out(RF.printout))
    res['txt'] = from_simple(out(RF.txt))
    res['txt file'] = from_simple(file(RF.txt, '.txt'))
    res['latex'] = from_latex(out(RF.latex))
    res['latex file'] = from_latex(file(RF.latex, '.tex'))
    return res


def only_csv(call):
    N[0] += 1
    p = os.path.abspath('r%d' % N[0])
    call(RF.csv, p)
    with open(p + '.csv', newline='') as f:
        t = f.read()
    os.remove(p + '.csv')
    return {'csv file': from_csv(t)}


def day(x):
    """A moment; a date without a time, or its text, as year, month, day."""
    if isinstance(x, datetime):
        return civil(x)
    return [int(p) for p in str(x).split('-')]


def tx(t):
    return {'name': str(t.name), 'desc': '' if t.description is None
            else str(t.description), 'date': day(t.tx_date),
            'text': str(t.tx_date), 'src': '' if t.source is None
            else str(t.source),
            'dt': str(t.dt_account), 'cr': str(t.cr_account),
            'amount': kit.num(t.amount),
            'closing': bool(t.is_closing_cr_account or
                            t.is_closing_dt_account)}


def report(rec, gl, kind, start=None, end=None, comp=None, full=False):
    kw = {}
    if start is not None:
        kw['start'] = start
    if end is not None:
        kw['end'] = end
    if comp is not None:
        kw['component_path'] = comp
    fn = getattr(gl, kind)

    def call(fmt, path):
        return fn(format=fmt, output_path=path, **kw)
    err, tabs = kit.attempt(lambda: (shown if full else only_csv)(call))
    rec.event('report', kind=kind, err=err,
              start=day(start) if start is not None else [1, 1, 1, 0, 0],
              end=day(end) if end is not None else
              [9999, 12, 31, 86399, 999999],
              comp=comp or '', forms=forms(tabs))


def forms(tabs):
    if not tabs:
        return []
    return [{'form': k, 'rows': v} for k, v in tabs.items()]


def chart(accs):
    return [{'name': a.name, 'number': a.number or '',
             'type': a.account_type.name,
             'desc': '' if a.description is None else a.description,
             'subs': chart(a.accounts)} for a in accs]


def gls_report(rec, g, full):
    def call(fmt, path):
        return g.report(fmt, path)
    err, tabs = kit.attempt(lambda: (shown if full else only_csv)(call))
    rec.event('chart', err=err, accs=chart(g.accounts), forms=forms(tabs))


def cos(gl):
    """What the account of the cost of sales is called now."""
    return getattr(gl, 'cos', 'Cost of Sales')


def state(rec, gl):
    rec.event('ledger', types=types(gl.structure), cos=cos(gl),
              txs=[tx(t) for t in gl.transactions])


def unchanged(rec, gl):
    rec.event('after', types=types(gl.structure),
              txs=[tx(t) for t in gl.transactions])


def all_reports(rec, gl, wins, comps, full_at):
    k = 0
    for s, e in wins:
        for c in comps:
            for kind in ('transaction_list', 'income_statement'):
                report(rec, gl, kind, s, e, c, k == full_at)
            k += 1
        report(rec, gl, 'balance_sheet', None, e, None, k == full_at + 1 or
               full_at == 0)
    unchanged(rec, gl)


def rich():
    """A chart with accounts named like main accounts."""
    g = structure()
    g['Expense'].create_account('Cost of Sales', '0040')
    g['Expense']['X'].create_account('Cost of Sales', '0041')
    g['Cost of Sales'].create_account('Sales', '0042')
    g['Other Income'].create_account('Expense', '0043')
    g['Bank'].create_account('Sales', '0044')
    g['Account Payable'].create_account('Bank', '0045')
    return g


class Kept:
    """Report objects that are made, and rendered, before the ledger they
    report on is complete."""

    def __init__(self, gl, r):
        a, b = DAY0 + timedelta(days=r.choice([-5, 0, 1])), \
            DAY0 + timedelta(days=r.choice([1, 30, 1000]))
        w = r.random()
        if w < .2:
            a, b = a.date(), str(b.date())
        elif w < .4:
            a, b = str(a.date()), b.date()
        c = r.choice(['', '', 'M/E', 'M/E/C'])
        self.gl = gl
        self.reps = [
            ('transaction_list', a, b, c, rp.TransactionList(gl, a, b, c)),
            ('balance_sheet', None, b, '', rp.BalanceSheet(gl, b)),
            ('income_statement', a, b, c, rp.IncomeStatement(gl, a, b, c))]
        if r.random() < .3:             # as they come
            self.reps = [
                ('transaction_list', None, None, '', rp.TransactionList(gl)),
                ('balance_sheet', None, None, '', rp.BalanceSheet(gl)),
                ('income_statement', None, None, '', rp.IncomeStatement(gl))]
        self.chart = rp.GeneralLedgerStructure(gl.structure)
        for k in self.reps + [(self.chart,)]:
            kit.attempt(lambda: k[-1].render(RF.string))

    def report(self, rec, full):
        def call_of(o):
            def call(fmt, path):
                o.output_path = path
                return o.render(fmt)
            return call
        for kind, a, b, c, o in self.reps:
            err, tabs = kit.attempt(
                lambda: (shown if full else only_csv)(call_of(o)))
            kw = {'end': b} if b else {}
            if a:
                kw.update(start=a, component_path=c)
            fn = getattr(self.gl, kind)
            if tabs:
                tabs['new report'] = only_csv(lambda fmt, path: fn(
                    format=fmt, output_path=path, **kw))['csv file']
            rec.event('report', kind=kind, err=err,
                      start=day(a) if a else [1, 1, 1, 0, 0],
                      end=day(b) if b else [9999, 12, 31],
                      comp=c, forms=forms(tabs))
        err, tabs = kit.attempt(lambda: only_csv(call_of(self.chart)))
        if tabs:
            tabs['new report'] = only_csv(self.gl.structure.report)['csv file']
        rec.event('chart', err=err, accs=chart(self.gl.structure.accounts),
                  forms=forms(tabs))


def random_ledger(rec, r):
    g = GeneralLedgerStructure('gls') if r.random() < .1 else \
        r.choice([structure, rich])()
    gl = GeneralLedger('gl', g)
    gl.kept = None
    if r.random() < .3:
        names = pick_names(r)
        rename(g, names)
        gl.cos = names.get('Cost of Sales', 'Cost of Sales')
    accs = sorted(types(g))
    big = r.random() < .3
    loose = r.random() < .25        # postings without a source or a time
    srcs = ['M/E', 'M/E/C', 'M/E/C/a', 'M/E/C/S/b', 'M/E/C2', 'M/E/C2/a',
            'M/E/D/x y', 'M/E2/C', 'a', 'M/E/C/cat', 'M/E/C/R&D #1']
    span = r.choice([1, 3, 40, 400])
    n = r.choice([0, 1, 2, 5, 12, 30])
    early = r.randint(0, 2 * n)
    for i in range(n):
        if i == early:
            gl.kept = Kept(gl, r)
        a, b = r.sample(accs, 2)
        if r.random() < .06:
            b = a           # within one account
        w = r.random()
        amt = r.choice([0, 0.25, 10, 99.99, 0.1, 0.2, 1e6 + 0.5, 1234567.89,
                        3, 63.5, 0.004, 12345.678])
        if big:
            amt *= r.choice([1, 1000, 12.5, 1e6, 1e9])
        if w < .1:
            amt = -amt
        gl.create_transaction(
            r.choice(['a', 'b', 'sale', 'x y', 'E', '5', 'caf\u00e9', '10%_b',
                      '\u0394 \u00df']),
            description=r.choice([None, None, 'text', '', '7.5', 'a b, c',
                                  '\u00fcber \u03a9', SPECIAL, 'long ' * 90 +
                                  'end']),
            tx_date=DAY0 + timedelta(days=r.randint(0, span),
                                     seconds=r.choice([0, 0, 0, 1, 86399]),
                                     microseconds=r.choice([0, 0, 0, 5])),
            dt_account=a, cr_account=b, source=r.choice(srcs), amount=amt)
        t = gl.transactions[-1]
        if loose:
            if r.random() < .3:
                t.source = None
            if r.random() < .3:
                t.tx_date = t.tx_date.date()
        if r.random() < .1:
            gl.transactions[-1].is_closing_cr_account = True
        elif r.random() < .1:
            gl.transactions[-1].is_closing_dt_account = True
    return gl


def windows(r, gl):
    ds = sorted({t.tx_date if isinstance(t.tx_date, datetime) else
                 datetime(*t.tx_date.timetuple()[:3])
                 for t in gl.transactions}) or [DAY0]
    out = [(None, None)]
    for _ in range(3):
        a, b = r.choice(ds), r.choice(ds)
        e = timedelta(microseconds=r.choice([0, 0, 1, -1]))
        out.append((min(a, b) + e, max(a, b) + r.choice(
            [e, timedelta(0), timedelta(microseconds=-1)])))
    out.append((None, r.choice(ds)))
    out.append((r.choice(ds), None))
    if r.random() < .5:                 # whole days
        a, b = sorted([r.choice(ds), r.choice(ds)])
        out.append(r.choice([
            (a.date(), b.date()), (str(a.date()), str(b.date())),
            (a, str(b.date())), (str(a.date()), b)]))
    return out


def grow(g, r):
    """A chart with more accounts, given numbers in any order."""
    todo = list(g.accounts)
    while r.random() < .3:
        # main accounts have numbers of the user, too
        n = r.choice(['I10x', '1000', '40', 'B12', 'I12', 'b', 'X', None])
        if n not in [a.number for a in g.accounts]:
            r.choice(todo).number = n
    for _ in range(r.randint(0, 25)):
        a = r.choice(todo)
        used = {x.number for x in a.accounts} | {x.name for x in a.accounts}
        n = r.choice(['0001', '0010', '0002', '0100', 'A', 'B1', '10', '9',
                      '00102', '00101', '001', '10-2', '10-1', None])
        nm = r.choice(['p', 'q', 'r', 's', 't', 'Tools', 'v w', '\u00e9t\u00e9',
                       'R&D', 'a_b', '50%'])
        if n in used or nm in used:
            continue
        todo.append(a.create_account(nm, number=n, description=r.choice(
            [None, 'what it is', '12', '\u00c5', SPECIAL, 'long ' * 90])))


def run(rec, scenarios):
    keep = 5000 if kit.THOROUGH else 300
    for i, sc in enumerate(scenarios[::max(1, len(scenarios) // keep)]):
        rec.case('spec %d' % i)
        gl = GeneralLedger('gl', structure())
        g = gl.structure
        for t in sc[0]:
            o = gl.create_transaction(
                t['name'], description=t['desc'] or None,
                tx_date=DAY0 + timedelta(days=t['date'][0] - 736000),
                dt_account=t['dt'], cr_account=t['cr'], source=t['src'],
                amount=val(t['amount']))
            o.is_closing_cr_account = t['closing']
        state(rec, gl)
        d1 = DAY0 + timedelta(days=1)
        all_reports(rec, gl, [(None, None), (d1, d1),
                              (d1 + timedelta(days=1), None)],
                    [None, 'M/E', 'M/E/C', 'M/E/C2'][i % 2::2], i % 60)
    r = kit.rng('reports')
    for i in range(1200 if kit.THOROUGH else 120):
        rec.case('random %d' % i)
        gl = random_ledger(rec, r)
        state(rec, gl)
        comps = [None] + r.sample(['M', 'M/E', 'M/E/C', 'M/E/C2', 'M/E/C/a',
                                   'M/E/C/S', 'a', 'zz', 'E'], 3)
        if gl.kept:
            grow(gl.structure, r)
            state(rec, gl)
            gl.kept.report(rec, r.random() < .3)
        all_reports(rec, gl, windows(r, gl), comps, r.choice([0, 1, 5]))
    for i in range(200 if kit.THOROUGH else 12):
        # the ledgers of executed models
        rec.case('executed %d' % i)
        f = random_firm(None, r)
        f.model.run()
        for e in f.model.entities[:1]:
            if len(e.gl.transactions) > 250:
                continue
            e.gl.cos = f.names.get('Cost of Sales', 'Cost of Sales')
            state(rec, e.gl)
            comps = [None, e.path] + [c.path for c in e.components][:2]
            all_reports(rec, e.gl, windows(r, e.gl)[:3], comps, 0)
    for i in range(400 if kit.THOROUGH else 60):
        rec.case('chart %d' % i)
        g = structure() if r.random() < .5 else GeneralLedgerStructure('g')
        if i:
            grow(g, r)
        gls_report(rec, g, i % 3 == 0)


if __name__ == '__main__':
    kit.main(run)
