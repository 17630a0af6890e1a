"""All properties that have a check."""
import importlib
import importlib.util

MODULES = ['crypt', 'sign', 'lifecycle', 'storage', 'streams', 'codec', 'formats', 'sessions', 'misc',
           'concurrency', 'interop', 'channels', 'history', 'overlap']

class Spec:
    """One property: its families and how its coverage is reported."""
    def __init__(self, prop, level, families, rule, assumptions, technique, note, preload=False):
        self.prop, self.level, self._families = prop, level, families
        self.preload = preload
        self.rule, self.assumptions, self.technique, self.note = rule, assumptions, technique, note

    def families(self):
        return self._families()

    def coverage(self, m):
        c = m['counters']
        cov = dict(samples=m['samples'][:8], exhaustive=not m['timed_out'] and not m['viols'],
                   rule=self.rule, distinct_outcomes=len(m['outcomes']), cases=c.get('cases', 0))
        if self.level == 'model_checking':
            cov.update(states=c.get('states', 0), transitions=c.get('transitions', 0),
                       traces_validated_against_impl=c.get('traces', 0))
        else:
            cov.update(evaluations=c.get('evaluations', 0), distinct_nontrivial=m['distinct'])
        for k, v in c.items():
            if k not in ('evaluations', 'states', 'transitions', 'traces', 'cases'):
                cov[k] = v
        return cov

SPECS = {}

def prop(pid, level, rule, technique, note, assumptions=(), preload=False):
    """Decorator for the function that returns the families of a property."""
    def deco(fn):
        SPECS[pid] = Spec(pid, level, fn, rule, list(assumptions), technique, note, preload)
        return fn
    return deco

def load_all():
    for m in MODULES:
        if importlib.util.find_spec('mc.props.' + m):
            importlib.import_module('mc.props.' + m)

def get(pid):
    load_all()
    return SPECS[pid]
