"""Drives auxi.core.time.Clock."""
import kit
from datetime import datetime
from auxi.core.time import Clock, TimePeriod
from auxi.modelling.business.models import TimeBasedModel


def civil(t):
    try:
        return [t.year, t.month, t.day,
                t.hour * 3600 + t.minute * 60 + t.second, t.microsecond]
    except Exception:
        return []


def dt(c):
    s = c[3]
    return datetime(c[0], c[1], c[2], s // 3600, s // 60 % 60, s % 60, c[4])


def observe(clock):
    err, now = kit.attempt(clock.get_datetime)
    return {'ix': clock.timestep_ix, 'now': civil(now), 'err': err}


def make(rec, start, dur, how='clock'):
    """A clock of its own, or that of a model; a model also takes a day."""
    s = dt(start)
    if how != 'clock':
        if how != 'model':
            start = start[:3] + [0, 0]
            s = s.date() if how == 'day' else '%04d-%02d-%02d' % tuple(
                start[:3])
        c = TimeBasedModel('m', start_datetime=s,
                           period_duration=TimePeriod[dur]).clock
    else:
        c = Clock('c', start_datetime=s,
                  timestep_period_duration=TimePeriod[dur])
    rec.event('new', start=start, dur=dur, **observe(c))
    return c


def change(rec, c, op, start=(), dur='', k=0):
    if op == 'restart':
        c.start_datetime = dt(start)
        kw = {'start': start}
    elif op == 'repace':
        c.timestep_period_duration = TimePeriod[dur]
        kw = {'dur': dur}
    else:
        c.timestep_ix = k
        kw = {'k': k}
    rec.event(op, **kw, **observe(c))


def at(rec, c, k):
    err, res = kit.attempt(lambda: c.get_datetime_at_period_ix(k))
    rec.event('at', k=k, res=civil(res), err=err, ix=c.timestep_ix)


LIMIT = {'millisecond': 10**9, 'second': 10**8, 'minute': 10**7,
         'hour': 10**6, 'day': 60000, 'week': 9000, 'month': 2400,
         'year': 300}


def instant(r):
    y = r.choice([r.randint(1, 40), r.randint(1890, 2110),
                  r.randint(1995, 2030), r.randint(2000, 9000)])
    m = r.randint(1, 12)
    d = r.choice([1, 15, 28, 29, 30, 31, r.randint(1, 28)])
    while True:
        try:
            datetime(y, m, d)
            break
        except ValueError:
            d -= 1
    s = r.choice([0, 86399, r.randint(0, 86399)])
    u = r.choice([0, 999999, 999000, r.randint(0, 999999)])
    return [y, m, d, s, u]


def run(rec, scenarios):
    for i, sc in enumerate(scenarios):
        rec.case('spec %d' % i)
        c = None
        for o in sc:
            if o['op'] == 'new':
                c = make(rec, o['start'], o['dur'])
            elif o['op'] == 'tick':
                c.tick()
                rec.event('tick', **observe(c))
            elif o['op'] == 'reset':
                c.reset()
                rec.event('reset', **observe(c))
            else:
                change(rec, c, o['op'], o['start'], o['dur'], o['k'])
    r = kit.rng('clock')
    n = 1500 if kit.THOROUGH else 250
    for i in range(n):
        rec.case('random %d' % i)
        dur = r.choice(list(LIMIT))
        c = make(rec, instant(r), dur, r.choice(
            ['clock', 'clock', 'clock', 'model', 'day', 'text']))
        for _ in range(r.randint(1, 12)):
            w = r.random()
            if w < .4:
                c.tick()
                rec.event('tick', **observe(c))
            elif w < .5:
                c.reset()
                rec.event('reset', **observe(c))
            elif w < .58:
                what = r.choice(['restart', 'repace', 'jump'])
                if what == 'repace':
                    dur = r.choice(list(LIMIT))
                change(rec, c, what, instant(r), dur, r.randint(0, 300))
            else:
                hi = LIMIT[dur]
                k = r.choice([0, 1, 2, 3, 11, 12, 13, r.randint(0, 60),
                              r.randint(0, hi)])
                at(rec, c, k)


if __name__ == '__main__':
    kit.main(run)
