"""tools/try.py PATCH|COMMIT|- [Cxx ...]: run checks against a scratch copy of /repo's
package with a patch applied (or as of a commit)."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    what, ids = sys.argv[1], sys.argv[2:]
    d = tempfile.mkdtemp(prefix='bsatry')
    try:
        shutil.copytree('/repo/biggus', d + '/biggus',
                        ignore=shutil.ignore_patterns('tests', '__pycache__'))
        if os.path.exists(what):
            r = subprocess.run(['git', 'apply', '--include=biggus/*', os.path.abspath(what)],
                               cwd=d)
            if r.returncode:
                sys.exit('patch failed')
        elif what != '-':
            for f in ('_init.py', '__init__.py', 'experimental/dask_engine.py',
                      'experimental/key_grouper.py'):
                open(d + '/biggus/' + f, 'wb').write(subprocess.check_output(
                    ['git', '-C', '/repo', 'show', what + ':biggus/' + f]))
        if not ids:
            ids = sorted('C' + f[3:5] for f in os.listdir(HERE + '/bsa')
                         if f.startswith('p_c') and f.endswith('.py'))
        env = dict(os.environ, BSA_EVIDENCE=d + '/evidence')
        for i in ids:
            r = subprocess.run([sys.executable, '-m', 'bsa.run', i, '--root', d], cwd=HERE,
                               env=env, stdout=subprocess.PIPE, universal_newlines=True)
            out = r.stdout.splitlines()
            print('%s exit %d  %s' % (i, r.returncode, out[0] if out else ''))
            if r.returncode:
                for x in out[1:]:
                    if ' at ' in x or 'VIOLATION' in x:
                        print('   ', x[:400])
    finally:
        shutil.rmtree(d)


main()
