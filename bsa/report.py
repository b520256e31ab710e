"""Obligations, verdicts, evidence and known findings of one check."""
import hashlib
import json
import os
import sys
import time

from .ctx import Fuzz

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Check(object):
    """Collects what one property's analysis has established.

    proved      the rule holds for the construct
    violated    the construct breaks the rule (a definite finding)
    undecided   the construct is outside what the analysis understands; it is
                reported and counted but is neither a proof nor a violation
    """

    def __init__(self, pid, tier, root):
        self.pid, self.tier, self.root = pid, tier, root
        self.t0 = time.time()
        self.obs = []
        self.extra = {}
        self.assumptions = []
        self.gate = True
        self.softness = 0

    def ok(self, rule, construct, detail=''):
        Fuzz.judged = True
        self.obs.append((rule, construct, 'proved', '', detail))
        return True

    def bad(self, rule, construct, site, detail):
        """A violation, unless the runs behind it approximated something."""
        Fuzz.judged = True
        if Fuzz.flag > self.softness and self.gate:
            return self.dunno(rule, construct, 'approximated: ' + detail)
        self.obs.append((rule, construct, 'violated', site, detail))
        return False

    def dunno(self, rule, construct, why):
        Fuzz.judged = True
        self.obs.append((rule, construct, 'undecided', '', why))
        return None

    def verdict(self, res, rule, construct, site, detail):
        """res True / False / None."""
        if res is True:
            return self.ok(rule, construct, detail)
        if res is False:
            return self.bad(rule, construct, site, detail)
        return self.dunno(rule, construct, detail)

    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith('finding:'):
                    f = dict(p.split('=', 1) for p in line[8:].split(' | ')[0].split()
                             if '=' in p)
                    f['text'] = line.split(' | ', 1)[1] if ' | ' in line else ''
                    if f.get('property') == self.pid:
                        out.append(f)
        return out

    def finish(self, ctxs, rules):
        known = self.known()
        viol, kf = [], []
        for o in self.obs:
            if o[2] != 'violated':
                continue
            for f in known:
                if f.get('rule') == o[0] and f.get('construct') == o[1].replace(' ', '_'):
                    kf.append((f, o))
                    break
            else:
                viol.append(o)
        n = {v: sum(1 for o in self.obs if o[2] == v)
             for v in ('proved', 'violated', 'undecided')}
        und = [o for o in self.obs if o[2] == 'undecided']
        files = {}
        fns = set()
        calls = evs = 0
        for c in ctxs:
            for m, (path, tree, src) in c.I.modnodes.items():
                files[os.path.relpath(path, self.root)] = \
                    hashlib.sha256(src.encode()).hexdigest()[:16]
            fns |= c.functions
            calls += c.n_calls
            evs += c.totev
        for path in self.extra.pop('files', ()):
            with open(path, 'rb') as fh:
                files[os.path.relpath(path, self.root)] = \
                    hashlib.sha256(fh.read()).hexdigest()[:16]
        distinct = len({(o[0], o[1]) for o in self.obs})
        cov = {
            'explanation':
                'Static analysis of the source text; nothing of the package is executed. '
                'Every obligation is a rule applied to one construct of the current tree.',
            'rules': rules,
            'files_analysed': files,
            'obligations': len(self.obs), 'distinct_obligations': distinct,
            'discharged': n['proved'], 'undecided': n['undecided'],
            'undecided_list': [{'rule': o[0], 'construct': o[1], 'why': o[4][:300]}
                               for o in und[:400]],
            'functions_analysed': sorted(fns),
            'n_functions_analysed': len(fns),
            'abstract_runs': calls, 'abstract_events': evs,
            'samples': [{'rule': o[0], 'construct': o[1], 'verdict': o[2],
                         'detail': o[4][:300]} for o in self.obs[:: max(1, len(self.obs) // 12)]][:14],
            'per_rule': {},
        }
        for o in self.obs:
            d = cov['per_rule'].setdefault(o[0], {'proved': 0, 'violated': 0, 'undecided': 0})
            d[o[2]] += 1
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier,
              'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 3),
              'assumptions': self.assumptions, 'violations': len(viol)}
        evd = os.environ.get('BSA_EVIDENCE') or os.path.join(HERE, 'evidence')
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
            fh.write('\n')
        print('%s: %d obligations (%d distinct): %d proved, %d undecided, %d violated; '
              '%d functions, %d files, %.1f s' % (
                  self.pid, len(self.obs), distinct, n['proved'], n['undecided'],
                  n['violated'], len(fns), len(files), time.time() - self.t0))
        for r, d in sorted(cov['per_rule'].items()):
            print('  %-34s proved %d%s%s' % (
                r, d['proved'], ', undecided %d' % d['undecided'] if d['undecided'] else '',
                ', violated %d' % d['violated'] if d['violated'] else ''))
        for o in und[:12]:
            print('  UNDECIDED %s: %s: %s' % (o[0], o[1], o[4][:200]))
        seen = set()
        for f, o in kf:
            if f['construct'] not in seen:
                seen.add(f['construct'])
                print('KNOWN-FINDING: property=%s %s' % (self.pid, f['text'] or o[1]))
        if viol:
            rp = os.path.join(evd, self.pid + '.violations.json')
            with open(rp, 'w') as fh:
                json.dump([{'rule': o[0], 'construct': o[1], 'site': o[3], 'detail': o[4]}
                           for o in viol], fh, indent=1)
                fh.write('\n')
            for o in viol[:20]:
                print('  %s: %s at %s: %s' % (o[0], o[1], o[3], o[4][:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0
