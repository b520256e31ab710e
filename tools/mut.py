"""tools/mut.py Cxx[,Cyy]|all: read blocks "old\n===>\nnew\n----\n" from stdin; for each, run
the checks on a scratch copy of the package with that one textual change."""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ('_init.py', 'experimental/dask_engine.py', 'experimental/key_grouper.py',
         '__init__.py')


def one(n, block, ids):
    out = []
    block = block.strip('\n')
    if not block:
        return out
    d = tempfile.mkdtemp(prefix='bsamut')
    try:
        shutil.copytree('/repo/biggus', d + '/biggus',
                        ignore=shutil.ignore_patterns('tests', '__pycache__'))
        for pair in block.split('\n&&&&\n'):
            old, new = pair.split('\n===>\n') if '\n===>\n' in pair else \
                (pair.split('\n===>')[0], '')
            hit = 0
            for f in FILES:
                p = d + '/biggus/' + f
                s = open(p).read()
                if s.count(old) >= 1:
                    hit += s.count(old)
                    open(p, 'w').write(s.replace(old, new, 1))
                    break
            if hit != 1:
                out.append('** block %d: %d matches (first replaced): %r' % (n, hit, old[:60]))
        env = dict(os.environ, BSA_EVIDENCE=d + '/evidence')
        for i in ids:
            r = subprocess.run([sys.executable, '-m', 'bsa.run', i, '--root', d], cwd=HERE,
                               env=env, stdout=subprocess.PIPE, universal_newlines=True)
            lines = r.stdout.splitlines()
            out.append('[%d] %s exit %d  %s' % (n, i, r.returncode, lines[0] if lines else ''))
            if r.returncode:
                out += ['       ' + x[:260] for x in [x for x in lines[1:] if ' at ' in x][:2]]
    finally:
        shutil.rmtree(d)
    return out


def main():
    ids = sys.argv[1].split(',')
    if ids == ['all']:
        ids = sorted('C' + f[3:5] for f in os.listdir(HERE + '/bsa')
                     if f.startswith('p_c') and f.endswith('.py'))
    blocks = list(enumerate(sys.stdin.read().split('\n----')))
    with cf.ThreadPoolExecutor(7) as ex:
        for out in ex.map(lambda b: one(b[0], b[1], ids), blocks):
            for x in out:
                print(x, flush=True)


main()
