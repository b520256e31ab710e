"""tools/refactor.py [-g N] [FILE]: apply the behaviour-preserving edits of FILE (by default
tools/refactorings.txt) in groups of N which do not overlap, confirm each group with the
repository's tests, and run all the checks on it; they have to stay quiet."""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ('_init.py', 'experimental/dask_engine.py', 'experimental/key_grouper.py',
         '__init__.py')


def read():
    return {f: open('/repo/biggus/' + f).read() for f in FILES}


def apply(texts, block):
    texts = dict(texts)
    for pair in block.split('\n&&&&\n'):
        old, new = (pair + '\n').split('\n===>\n')
        new = new.rstrip('\n')
        for f in FILES:
            if old in texts[f]:
                texts[f] = texts[f].replace(old, new, 1)
                break
        else:
            return None
    return texts


def main():
    args = sys.argv[1:]
    size = 6
    if args[:1] == ['-g']:
        size = int(args[1])
        args = args[2:]
    only = args[1].split(',') if len(args) > 1 else None
    path = args[0] if args else HERE + '/tools/refactorings.txt'
    blocks = [b.strip('\n') for b in re.split(r'(?m)^----$', open(path).read()) if b.strip()]
    left = list(enumerate(blocks))
    ids = only or sorted('C' + f[3:5] for f in os.listdir(HERE + '/bsa')
                         if f.startswith('p_c') and f.endswith('.py'))
    bad = 0
    while left:
        texts, taken, rest = read(), [], []
        for n, b in left:
            t = apply(texts, b) if len(taken) < size else None
            if t is None:
                rest.append((n, b))
            else:
                texts = t
                taken.append(n)
        if not taken:
            print('** cannot be applied: %s' % [n for n, b in rest])
            break
        left = rest
        d = tempfile.mkdtemp(prefix='bsaref')
        try:
            shutil.copytree('/repo/biggus', d + '/biggus',
                            ignore=shutil.ignore_patterns('__pycache__'))
            for f in FILES:
                open(d + '/biggus/' + f, 'w').write(texts[f])
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=d,
                       BSA_EVIDENCE=d + '/evidence')
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                                'no:cacheprovider', 'biggus/tests'], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               universal_newlines=True)
            tail = [x for x in r.stdout.splitlines() if x.strip()][-1:]
            print('group %s: tests %s' % (taken, tail[0] if tail else '?'))

            def one(i):
                t = time.time()
                r = subprocess.run([sys.executable, '-m', 'bsa.run', i, '--root', d], cwd=HERE,
                                   env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   universal_newlines=True)
                return i, r.returncode, r.stdout.splitlines(), time.time() - t
            with cf.ThreadPoolExecutor(6) as ex:
                for i, rc, out, secs in ex.map(one, ids):
                    if rc:
                        bad += 1
                        print('  ALARM %s exit %d %s' % (i, rc, out[:1]))
                        for x in [x for x in out[1:] if ' at ' in x][:3] or out[-3:]:
                            print('      ', x[:260])
                    else:
                        print('  %s %s %.0f s' % (i, out[0][:110] if out else '', secs))
            sys.stdout.flush()
        finally:
            shutil.rmtree(d)
    print('%d alarms' % bad)


main()
