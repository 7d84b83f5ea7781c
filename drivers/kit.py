"""Recording kit used by the drivers.

A driver performs calls on the real code and records what it saw.  It holds no
expectation: all judging is done by TLC on the recorded trace."""
import json
import math
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
MODE = os.environ.get('VERIF_MODE', '')
THOROUGH = TIER == 'thorough'


def rng(tag):
    return random.Random('%s/%s' % (SEED, tag))


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


def num(x):
    """A number as a decimal numeral (shortest repr; exact for a double)."""
    if isinstance(x, bool):
        return 'bool'
    if isinstance(x, int):
        return str(x)
    try:
        if isinstance(x, complex):
            return 'complex'
        f = float(x)
    except Exception:
        return 'nonnumber:' + type(x).__name__
    if math.isnan(f):
        return 'NaN'
    if math.isinf(f):
        return 'inf' if f > 0 else '-inf'
    return repr(f)


def nums(xs):
    return [num(x) for x in xs]


def words(text):
    """A text as its lines of words."""
    return [ln.split() for ln in text.replace('\xb0', 'deg').splitlines()]


class Recorder:
    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0

    def event(self, op, **kw):
        d = {'op': op}
        d.update(kw)
        self.f.write(json.dumps(d) + '\n')
        self.n += 1

    def case(self, name):
        self.event('case', name=str(name))

    def close(self):
        self.f.close()


LIMIT = 6000 if THOROUGH else 420
_T0 = time.time()


def _rearm():
    signal.setitimer(signal.ITIMER_REAL,
                     max(0.5, LIMIT - (time.time() - _T0)))


def attempt(fn, seconds=10):
    """Run fn; returns (error class name or '', result)."""
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return '', fn()
    except Timeout:
        return 'Timeout', None
    except RecursionError:
        return 'RecursionError', None
    except Exception as e:          # noqa: the outcome is what is recorded
        return type(e).__name__, None
    finally:
        _rearm()


def in_subject(tb):
    """Was the exception raised inside the code under test?"""
    last = ''
    while tb:
        f = tb.tb_frame.f_code.co_filename
        if '/auxi/' in f or f.startswith(HERE):
            last = f
        tb = tb.tb_next
    return '/auxi/' in last


def main(run):
    scen, trace = sys.argv[1:3]
    with open(scen) as f:
        scenarios = json.load(f)
    rec = Recorder(trace)
    _rearm()
    try:
        run(rec, scenarios)
    except Exception as e:
        # a call into the code under test that no driver expects to fail
        ours = not in_subject(e.__traceback__) and not isinstance(e, Timeout)
        traceback.print_exc()
        rec.event('derail' if ours else 'crash', err='%s: %s' % (type(e).__name__, e),
                  where=traceback.format_exc()[-600:])
    rec.close()
