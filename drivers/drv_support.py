"""Projects, variables, process models; bibliographies; paths and dates."""
import os
import kit
from datetime import date, datetime
from auxi.core.bibliography import Database
from auxi.core import bibliography, helpers
from auxi.modelling.core import Project, Variable, VariableGroup
from auxi.modelling.process.core import Model, SteadyStateModel, DynamicModel

FIELDS = ['name', 'description', 'value', 'units', 'category']
PORTS = ['parameters', 'input_variables', 'output_variables']
N = [0]


class Own(SteadyStateModel):
    """A model of the user."""
    class Parameters(object):
        def __init__(self):
            self.rate = 1.5

    class OutputVariables(object):
        def __init__(self):
            self.done = False


class Heir(Own):
    """Another one, which has input variables in addition."""
    class InputVariables(object):
        def __init__(self):
            self.feed = 3


def namesake():
    class Own(DynamicModel):
        class InputVariables(object):
            def __init__(self):
                self.x1 = 'b'
    return Own


KINDS = {'project': Project, 'variable': Variable, 'group': VariableGroup,
         'model': Model, 'steady': SteadyStateModel, 'dynamic': DynamicModel,
         'own': Own, 'heir': Heir, 'namesake': namesake()}


def coded(v):
    return '%s %s' % (type(v).__name__, v)


def value(s):
    t, v = s.split(' ', 1)
    return {'int': int, 'float': float, 'str': str,
            'bool': lambda x: x == 'True',
            'NoneType': lambda x: None}[t](v)


class Bench:
    def __init__(self, rec):
        self.rec, self.o, self.kind = rec, {}, {}

    def seen(self, i):
        o = self.o[i]
        f = [{'x': x, 'v': coded(getattr(o, x))} for x in FIELDS
             if hasattr(o, x)]
        for p in PORTS:
            if hasattr(o, p):
                f += [{'x': p + '.' + k, 'v': coded(v)}
                      for k, v in sorted(vars(getattr(o, p)).items())]
        return {'id': i, 'f': f, 'call': coded(o()) if callable(o) else ''}

    def event(self, op, err, **kw):
        self.rec.event(op, err=err, seen=[self.seen(i)
                                          for i in sorted(self.o)], **kw)

    def make(self, i, kind, given):
        kw = {x: value(v) for x, v in given.items()}
        if kind in ('variable', 'group'):
            kw.setdefault('value', None)
            given = dict(given, value=coded(kw['value']))
        err, o = kit.attempt(lambda: KINDS[kind](**kw))
        if not err:
            self.o[i], self.kind[i] = o, kind
        self.event('make', err, id=i, kind=kind,
                   given=[{'x': x, 'v': v} for x, v in sorted(given.items())])

    def put(self, i, x, v):
        def do():
            o = self.o[i]
            for part in x.split('.')[:-1]:
                o = getattr(o, part)
            setattr(o, x.split('.')[-1], value(v))
        err, _ = kit.attempt(do)
        self.event('put', err, id=i, x=x, v=v)

    def hashes(self):
        self.rec.event('hash', seen=[self.seen(i) for i in sorted(self.o)],
                       res=[{'id': i, 'kind': self.kind[i],
                             'h': str(hash(self.o[i]))}
                            for i in sorted(self.o)
                            if self.kind[i] in ('project', 'variable',
                                                'group')])

    def ran(self, i):
        """The run of a model that does nothing does nothing."""
        streams = {'s': 1}
        err, _ = kit.attempt(lambda: self.o[i].run(streams))
        self.event('run', err, id=i, same=streams == {'s': 1})


def from_spec(rec, sc):
    b = Bench(rec)
    for o in sc:
        if o['op'] == 'make':
            b.make(o['id'], o['kind'], {'name': 'str a'})
        else:
            b.put(o['id'], o['x'], o['v'])
    b.hashes()


VALUES = ['int 7', 'int 0', 'float 2.5', 'float -0.0', 'str b', 'str ',
          'str a b', 'NoneType None', 'bool True', 'str 12.50']


def random_objects(rec, r):
    b = Bench(rec)
    for i in range(1, r.randint(2, 6)):
        kind = r.choice(sorted(KINDS))
        given = {'name': r.choice(['str a', 'str Some Name', 'str '])}
        if r.random() < .6:
            given['description'] = r.choice(VALUES)
        if kind in ('variable', 'group'):
            for x in ('value', 'units', 'category'):
                if r.random() < .6:
                    given[x] = r.choice(VALUES)
        b.make(i, kind, given)
    for _ in range(r.randint(2, 12)):
        i = r.choice(sorted(b.o))
        if b.kind[i] in ('project', 'variable', 'group'):
            fs = FIELDS[:2] if b.kind[i] == 'project' else FIELDS
            b.put(i, r.choice(fs), r.choice(VALUES))
        elif r.random() < .15:
            b.ran(i)
        else:
            b.put(i, r.choice(PORTS) + '.' + r.choice(
                ['rate', 'done', 'x1', 'temperature']), r.choice(VALUES))
    b.hashes()


TYPES = ['article', 'book', 'misc', 'inproceedings', 'phdthesis', 'techreport',
         'manual', 'unpublished', 'report', 'online', 'thesis', 'dataset',
         'booklet', 'patent']
WORDS = ['Heat', 'and', 'Mass', 'Transfer', '{NaCl}', 'Fe2O3', 'a=b', 'one,',
         'two', '(2019)', '1--7', 'J.H.', '\\c{C}engel', '{{X}Y}', "it's",
         'https://a.b/c?d=1', 'caf\u00e9', '3.14', '[S1]', '50\\%', '#4']
NAMES = ['author', 'title', 'date', 'year', 'note', 'url', 'publisher',
         'journal', 'volume', 'pages', 'isbn', 'location', 'editor', 'doi-x']


def a_case(r, w):
    return r.choice([w, w, w.upper(), w.capitalize()])


def entries(rec, path, r, items, keys):
    """What a database made from the file gives for the keys asked."""
    err, db = kit.attempt(lambda: Database(path))
    res = []
    for k in keys:
        e, d = kit.attempt(lambda: db[k])
        res.append({'key': k, 'err': e, 'id': '' if e else d['ID'],
                    'type': '' if e else d['ENTRYTYPE'],
                    'f': [] if e else [{'x': x, 'v': v.split()}
                                       for x, v in sorted(d.items())
                                       if x not in ('ID', 'ENTRYTYPE')]})
    rec.event('bib', err=err, items=items, res=res)
    return db


def bib(rec, r):
    items, strings, lines, used = [], [], [], set()
    for _ in range(r.randint(1, 7)):
        w = r.random()
        if w < .15:
            lines.append(r.choice(['@comment{something = {else}}',
                                   'Text outside of entries.', '']))
            items.append({'k': 'comment', 'type': '', 'key': '', 'v': [],
                          'fields': []})
            continue
        if w < .3:
            k = r.choice(['jj', 'pub', 'abc'])
            if k in strings:
                continue
            v = r.sample(WORDS[:4], r.randint(1, 3))
            strings.append(k)
            lines.append('@string{%s = "%s"}' % (k, ' '.join(v)))
            items.append({'k': 'string', 'type': '', 'key': k, 'v': v,
                          'fields': []})
            continue
        key = r.choice(['smith', 'Smith', 'lienhard', 'A.B:', 'x-y_', 'K']) \
            + str(r.randint(1900, 2020)) + r.choice(['', 'a', '-constants'])
        if key in used:
            continue
        used.add(key)
        t = a_case(r, r.choice(TYPES))
        fields, rows = [], []
        for x in r.sample(NAMES, r.randint(1, 7)):
            x = a_case(r, x)
            if strings and r.random() < .15:
                ref = r.choice(strings)
                fields.append({'f': x, 'v': [], 'ref': ref})
                rows.append('%s = %s' % (x, ref))
                continue
            if r.random() < .2:
                v = [str(r.randint(1, 2020))]
                text = v[0]
            else:
                v = [r.choice(WORDS) for _ in range(r.randint(1, 6))]
                sep = r.choice([' ', ' ', '  ', '\n    '])
                text = r.choice(['{%s}', '{%s}', '"%s"']) % sep.join(v)
            fields.append({'f': x, 'v': v, 'ref': ''})
            rows.append(r.choice(['%s = %s', '%s=%s', '  %s   =  %s'])
                        % (x, text))
        lines.append('@%s{%s,\n%s%s\n}' % (
            t, key, ',\n'.join(rows), r.choice(['', ','])))
        items.append({'k': 'entry', 'type': t, 'key': key, 'v': [],
                      'fields': fields})
        if r.random() < .5:
            lines.append('')
    N[0] += 1
    p = os.path.abspath('bib%d.bib' % N[0])
    with open(p, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    keys = sorted(used) + ['smith', 'none at all']
    for k in sorted(used)[:3]:
        keys += [k.lower(), k.upper(), k + ' ', k[:-1]]
    db = entries(rec, p, r, items, keys)
    # a database that was made keeps its entries
    with open(p, 'w') as f:
        f.write('@book{other, title = {Other}}\n')
    other = {'k': 'entry', 'type': 'book', 'key': 'other', 'v': [],
             'fields': [{'f': 'title', 'v': ['Other'], 'ref': ''}]}
    entries(rec, p, r, [other], ['other'] + keys)
    if used:
        k = sorted(used)[0]
        err, d = kit.attempt(lambda: db[k])
        rec.event('kept', err=err, items=items, key=k,
                  n=0 if err else len(d) - 2)
    os.remove(p)


def shipped(rec):
    """The bibliography that comes with auxi, against its file."""
    p = os.path.join(os.path.dirname(os.path.abspath(bibliography.__file__)),
                     'data', 'bibliography.bib')
    items = []
    with open(p) as f:
        for ln in f:
            ln = ln.strip()
            if ln.startswith('@'):
                t, k = ln[1:].rstrip(',').split('{')
                items.append({'k': 'entry', 'type': t, 'key': k, 'v': [],
                              'fields': []})
            elif '=' in ln:
                x, v = ln.rstrip(',').split('=', 1)
                items[-1]['fields'].append(
                    {'f': x.strip(), 'ref': '',
                     'v': v.strip()[1:-1].split()})
    keys = [i['key'] for i in items]
    entries(rec, p, None, items, keys)
    res = []
    for k in keys:
        e, d = kit.attempt(lambda: bibliography.db[k])
        res.append({'key': k, 'err': e, 'id': '' if e else d['ID'],
                    'type': '' if e else d['ENTRYTYPE'],
                    'f': [] if e else [{'x': x, 'v': v.split()}
                                       for x, v in sorted(d.items())
                                       if x not in ('ID', 'ENTRYTYPE')]})
    rec.event('bib', err='', items=items, res=res)


def texts(rec, r):
    for _ in range(12):
        mod = r.sample(['home', 'lib', 'x y', 'auxi.core', 'm1'],
                       r.randint(1, 4)) + ['m.py']
        rel = [r.choice(['data', 'a', '..', '.', '', 'f.csv', 'b c'])
               for _ in range(r.randint(1, 5))]
        absolute = r.random() < .1
        text = '/'.join(rel)
        if rel[0] == '' and not absolute:
            rel, text = rel[1:] or ['a'], '/'.join(rel[1:]) or 'a'
            while text.startswith('/'):
                rel, text = rel[1:], text[1:]
        if absolute:
            text = '/' + text.lstrip('/')
        err, p = kit.attempt(lambda: helpers.get_path_relative_to_module(
            '/' + '/'.join(mod), text))
        rec.event('path', err=err, mod=mod, rel=text.split('/'),
                  abs=absolute, rooted=bool(p) and p.startswith('/'),
                  res=[s for s in (p or '').split('/') if s])
    for _ in range(12):
        y = r.choice([r.randint(1, 9999), r.randint(1999, 2020)])
        m, d = r.randint(0, 13), r.choice([0, 1, 28, 29, 30, 31, 32,
                                           r.randint(1, 31)])
        text = r.choice(['%04d-%02d-%02d', '%04d-%d-%d']) % (y, m, d)
        err, v = kit.attempt(lambda: helpers.get_date(text))
        rec.event('date', err=err, y=y, m=m, d=d,
                  res=[] if err else [v.year, v.month, v.day],
                  exact=type(v) is date)
    for v in (date(2016, 4, 14), datetime(2016, 2, 29, 13, 5, 6, 7)):
        err, w = kit.attempt(lambda: helpers.get_date(v))
        rec.event('given', err=err, same=w == v and type(w) is type(v))


def run(rec, scenarios):
    r = kit.rng('support')
    keep = 40000 if kit.THOROUGH else 3000
    for i, sc in enumerate(scenarios[::max(1, -(-len(scenarios) // keep))]):
        rec.case('spec %d' % i)
        from_spec(rec, sc)
    for i in range(3000 if kit.THOROUGH else 300):
        rec.case('random %d' % i)
        random_objects(rec, r)
    rec.case('shipped')
    shipped(rec)
    for i in range(1500 if kit.THOROUGH else 150):
        rec.case('bib %d' % i)
        bib(rec, r)
    for i in range(200 if kit.THOROUGH else 30):
        rec.case('texts %d' % i)
        texts(rec, r)


if __name__ == '__main__':
    kit.main(run)
