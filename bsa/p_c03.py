"""C03: threaded evaluation completes or raises; failures never give partial data."""
from .engine import *          # noqa

RULES = {
    'last-item': 'every thread, whatever happens to it, puts exactly one last item on each of '
                 'its output queues and nothing after it',
    'failure-visible': 'the last item after any failure differs from that of a complete stream',
    'drain': 'every thread, whatever happens to it, reads each of its inputs to its last item',
    'termination': 'no thread reads a queue which has ended, waits on a queue nobody writes, '
                   'or loops without receiving anything',
    'completion': 'if nothing fails every thread ends normally and the call returns',
    'processed': 'if nothing fails every chunk received is processed or stored exactly once, and '
                 'every chunk made is sent exactly once to every output queue; a handler is '
                 'finalised exactly once',
    'order': 'chunks are sent in the order in which they are made',
    'registration': 'nothing that a started thread uses is changed while wiring',
    'wiring': 'each queue has exactly one thread that writes it and one that reads it, and each '
              'thread is started once',
    'join': 'the call waits for the threads which fill the results',
    'failure-raises': 'a failure anywhere makes the call raise',
    'results': 'each result is filled from the array that was asked for, in request order',
}
ORDER = ['last-item', 'failure-visible', 'drain', 'termination', 'completion', 'processed',
         'order', 'registration', 'wiring', 'join', 'failure-raises', 'results']


class Ctx(object):
    """What report.Check wants to know about an analysis."""

    def __init__(self, root, pkg, functions, paths):
        class I(object):
            pass
        self.I = I()
        self.I.modnodes = {m: pkg.mods[m] for m in pkg.mods
                           if any(f.startswith(m + '.') for f in functions)}
        self.functions, self.n_calls, self.totev = functions, paths, paths


def one(job):
    root, tier, n = job
    import sys
    sys.setrecursionlimit(20000)
    g = graphs(tier)[n]
    a = Analysis(Package(root), g)
    try:
        a.run()
    except (Unsupported, RecursionError) as e:
        a.dunno('analysis', '%s' % e)
    except PyExc as e:
        a.dunno('analysis', 'the program raises %s' % e.exc.cls)
    a.pkg = a.infos = a.cache = None
    a.name, a.requests = g.name, g.requests
    return a


def analyse(root, tier):
    import concurrent.futures as cf
    jobs = [(root, tier, n) for n in range(len(graphs(tier)))]
    with cf.ProcessPoolExecutor(min(8, len(jobs))) as ex:
        return Package(root), list(ex.map(one, jobs))


def check(chk, root, tier):
    pkg, anas = analyse(root, tier)
    chk.assumptions = [
        'Python semantics; queue.Queue and threading.Thread as documented; creating threads and '
        'queues succeeds',
        'at most one failure per thread in the thread analysis, at most one anywhere in the '
        'composed analysis',
        'the inputs of a thread carry the same number of chunks unless one was aborted (C04)',
        'process networks of deterministic threads that read in lock-step give the same result '
        'whatever the schedule and the size of the queues (Kahn)']
    fns = set()
    paths = 0
    for a in anas:
        fns |= a.functions
        paths += a.npaths
        g = a.name
        bad = {}
        for (rule, construct, site, text), log in sorted(a.viol.items(), key=str):
            bad.setdefault(rule, []).append((construct, site, text, log))
        und = {}
        for (rule, _), why in a.undecided.items():
            und.setdefault(rule, why)
        for r in ORDER:
            if r in bad:
                for construct, site, text, log in bad[r][:3]:
                    chk.bad(r, construct, site, '%s [%s]' % (text, '; '.join(log)))
            elif und:
                chk.dunno(r, g, '; '.join('%s: %s' % x for x in sorted(und.items())))
            elif a.viol and r in ('join', 'failure-raises', 'results'):
                chk.dunno(r, g, 'not reached')
            else:
                chk.ok(r, g, '%d wirings, %d threads, %d paths' % (a.variants, a.threads_seen,
                                                                  a.npaths))
    chk.extra['graphs'] = [{'graph': a.name, 'requests': a.requests,
                            'wirings': a.variants, 'threads': a.threads_seen,
                            'paths': a.npaths, 'returned': a.outcomes['returned'],
                            'raised': a.outcomes['raised']} for a in anas]
    return [Ctx(root, pkg, fns, paths)]
