"""Runs a check: models, suites, validation; reports violations, known findings and evidence."""
import re, sys, json, time, os, traceback, hashlib
from core import *
import core

KNOWN = os.path.join(VERIF, 'known-findings.txt')

class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.violations = []
        self.deviations = {}
        self.extra = {}
        self.variants = {}
        self.assumptions = []
        self.ncalls = {}

    def suite(self, name):
        return Suite(name)

    def model(self, module, cfg=None, **kw):
        t = time.time()
        out, gen_, dist = core.model(module, cfg, **kw)
        self.states += dist
        self.transitions += gen_
        self.models.append({'module': module, 'cfg': os.path.basename(cfg) if cfg else module + '.cfg', 'generated': gen_, 'distinct': dist, 'seconds': round(time.time() - t, 1)})
        if dist < 2:
            raise CheckError('model %s is vacuous' % module)
        return out

    def run(self, s, timeout=60, expect=None):
        """Executes and validates a suite."""
        if not s.events or s.traces:
            s.run(timeout)
        self.validate(s)

    def validate(self, s):
        res = validate(s)
        if res.rejects:
            # report a rejection only if a second execution and validation repeats it
            again = {t for t, *_ in self.second(s, [x[0] for x in res.rejects])}
            for t, v, k, e, lines in res.rejects:
                base = t.split('@')[0]
                if t in again or base in {a.split('@')[0] for a in again}:
                    self.violations.append({'trace': t, 'configuration': v, 'event_number': k, 'event': e, 'script': lines,
                                            'events': s.events[t][1][:k]})
                else:
                    self.extra.setdefault('unrepeated_rejections', []).append(t)
        self.account(s, res)

    def second(self, s, ids):
        base = {t.split('@')[0] for t in ids}
        old = s.traces, s.events
        if s.traces:
            first = dict(s.events)
            s.traces = [t for t in s.traces if t[0] in base]
            ext = {k: v for k, v in first.items() if k in ids and k.split('@')[0] not in {t[0] for t in s.traces}}
            if s.traces:
                s.run()
            else:
                s.events = {}
            if getattr(s, 'redo', None):
                s.events.update(s.redo([k for k in ext]))
            else:
                s.events.update(ext)
        elif getattr(s, 'redo', None):
            s.events = s.redo(list(ids))
        else:
            s.events = {k: v for k, v in s.events.items() if k in ids}
        try:
            return validate(s).rejects
        finally:
            s.traces, s.events = old

    def account(self, s, res):
        self.states += res.states
        self.transitions += res.transitions
        self.traces += res.traces
        self.events += res.events
        for d in res.deviations:
            self.deviations.setdefault(d[0], set()).add(d[1])
        for t, (v, ev, lines) in s.events.items():
            self.variants[v] = self.variants.get(v, 0) + 1
            for e in ev:
                self.ncalls[e['op']] = self.ncalls.get(e['op'], 0) + 1
        for t in sorted(s.events)[:1]:
            v, ev, lines = s.events[t]
            self.samples.append({'trace': t, 'configuration': v, 'script': [short(l) for l in lines[:20]], 'events': [short(json.dumps(e)) for e in ev[:12]]})

    def violation(self, what, **kw):
        self.violations.append(dict(what=what, **kw))

def short(s):
    return s if len(s) < 300 else s[:300] + '...'

def known():
    """known-findings.txt: lines 'finding: property=<id> key=<key> <what>' and 'fixed: property=<id> <commit> <what>'."""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m:
                r[m.group(1), m.group(2)] = m.group(3)
    return r

def main(argv):
    import checks, checks_r, checks_c, checks_b
    pid = argv[0]
    if pid not in checks.CHECKS:
        print('no such check', pid); sys.exit(2)
    f, level = checks.CHECKS[pid]
    ck = Check(pid, level)
    try:
        f(ck)
    except CheckError as e:
        print('ERROR: %s' % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    rc = 0
    kn = known()
    for key, where in sorted(ck.deviations.items()):
        if (pid, key) in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[pid, key]))
        elif pid in checks.DEVIATION_OWNER.get(key, ()):
            ck.violation('deviation ' + key, where=sorted(where)[:20])
    seen = set()
    for n, v in enumerate(ck.violations[:20]):
        rc = 1
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (pid, n))
        with open(p, 'w') as o:
            json.dump(dict(v, property=pid, seed=SEED, tier=TIER), o, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('  %s' % short(json.dumps({k: v[k] for k in v if k in ('what', 'trace', 'configuration', 'event_number', 'event')}, default=str)))
    ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level,
          'coverage': dict({'states': ck.states, 'transitions': ck.transitions, 'traces_validated_against_impl': ck.traces, 'samples': ck.samples[:6],
                       'events_validated': ck.events, 'calls': ck.ncalls, 'configurations': ck.variants, 'models': ck.models}, **ck.extra),
          'assumptions': ck.assumptions, 'wall_s': round(time.time() - ck.t0, 2), 'violations': len(ck.violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as o:
        json.dump(ev, o, indent=1, default=str)
    print('%s: %s; %d traces, %d events, %d states, %.1f s' % (pid, 'violated' if rc else 'held', ck.traces, ck.events, ck.states, time.time() - ck.t0))
    sys.exit(rc)
