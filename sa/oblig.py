"""Obligation bookkeeping for a check."""
import json
import os

from .values import *
from .lab import Outcome


def load_known(path, pid):
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        d = json.load(f)
    return dict((e['key'], e) for e in d.get('known', []) if e['property'] == pid)


def is_known(v, known):
    """A finding suppresses only the very failure it describes."""
    e = known.get(v['key'])
    return e is not None and e['fails'] == v['msg']


def has_top(v, seen=None):
    """Does the value contain an unknown part?"""
    if isinstance(v, (Top, BTerm)):
        return True
    if isinstance(v, tuple):
        return any(has_top(x) for x in v)
    if isinstance(v, Choice):
        return any(has_top(x) for x in v.vals)
    return False


class Obligations(object):
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.done = {}
        self.violations = []
        self.undec = []
        self.functions = set()
        self.files = {}

    # -- recording
    def ok(self, key, detail=''):
        if key not in self.done or self.done[key][0] == 'ok':
            self.done[key] = ('ok', detail)

    def fail(self, key, where, msg):
        if key in self.done and self.done[key][0] == 'FAIL':
            return
        msg = msg if len(msg) < 700 else msg[:700] + '...'
        self.done[key] = ('FAIL', msg)
        self.violations.append({'property': self.pid, 'key': key, 'where': where, 'msg': msg})

    def undecided(self, key, why):
        if key in self.done and self.done[key][0] == 'FAIL':
            return
        self.done[key] = ('UNDEC', why)
        self.undec.append({'key': key, 'why': str(why)[:300]})

    # -- comparisons
    def equal(self, key, got, want, where, what=''):
        """want may be a value or a list of acceptable values."""
        wants = want if isinstance(want, list) else [want]
        rs = [equiv(norm(got), norm(w)) for w in wants]
        if True in rs:
            self.ok(key, '%s = %s' % (what or 'value', show(got)))
            return True
        if None in rs:
            self.undecided(key, '%s: cannot compare %s' % (what, show(got)))
            return None
        if opaque_fns(got) - set().union(*[opaque_fns(w) for w in wants]):
            self.undecided(key, '%s: not interpreted: %s' % (what, show(got)))
            return None
        if has_top(got):
            self.undecided(key, '%s: value not determined: %s' % (what, show(got)))
            return None
        self.fail(key, where, '%s is %s, expected %s' % (what or 'value', show(got), ' or '.join(show(w) for w in wants)))
        return False

    def outcome(self, key, oc, where, what='', allow=()):
        """True if the scenario completed normally; records otherwise."""
        if oc.kind == 'undecided':
            self.undecided(key, '%s: %s' % (what, oc.why))
            return False
        if oc.kind == 'raise':
            if oc.value in allow:
                return False
            self.fail(key, where, '%s raises %s (%s)' % (what, oc.value, oc.why))
            return False
        bad = [m for m in oc.maybe if m[0] not in allow]
        if bad:
            self.undecided(key, '%s may raise %s' % (what, bad))
            return False
        return True

    def note(self, lab):
        for f in lab.I.call_log:
            self.functions.add(f)
        for f, h in lab.project.used.items():
            self.files[f] = h

    def samples(self, n):
        items = list(self.done.items())
        step = max(1, len(items) // n)
        return [{'obligation': k, 'status': s, 'detail': str(d)[:300]} for k, (s, d) in items[::step][:n]]


def norm(v):
    """Comparable form: 1 and 1.0 equal, bool kept apart."""
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float)):
        return float('%.10g' % v) + 0.0
    return v
