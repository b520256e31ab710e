"""tools/plant.py: read planted-bug specifications from stdin (separated by lines "%%%%"),
confirm each in a scratch copy of /repo and keep the good ones under seeded/.

    id property
    needs: ...
    breaks: ...
    <old text>
    ===>
    <new text>            (more edits separated by a line "&&&&")
    @@demo
    <Python program: exits non-zero when the property is broken>
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ('_init.py', 'experimental/dask_engine.py', 'experimental/key_grouper.py',
         '__init__.py')
SH = '''#!/bin/bash
# exit 0 when the property holds in the tree of the current directory
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


def tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=d)
    r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
            '--timeout=300', '-o', 'junit_family=xunit2', '--junitxml=' + d + '/r.xml', 'biggus'],
           d, env=env)
    bad = set()
    try:
        for tc in ET.parse(d + '/r.xml').getroot().iter('testcase'):
            if tc.find('failure') is not None or tc.find('error') is not None:
                bad.add(tc.get('classname') + '::' + tc.get('name'))
    except Exception:
        return None
    return bad


def main():
    base = None
    for block in re.split(r'(?m)^%%%%\n', sys.stdin.read()):
        block = block.strip('\n')
        if not block:
            continue
        head, demo = block.split('\n@@demo\n')
        lines = head.split('\n')
        bid, prop = lines[0].split()
        needs = lines[1].split(':', 1)[1].strip()
        breaks = lines[2].split(':', 1)[1].strip()
        edits = '\n'.join(lines[3:]).split('\n&&&&\n')
        top = tempfile.mkdtemp(prefix='plant')
        d = top + '/repo'
        try:
            shutil.copytree('/repo', d)
            if base is None:
                base = tests(d)
            out = HERE + '/seeded/' + bid
            tmp = top + '/seed'
            os.makedirs(tmp)
            open(tmp + '/demo.py', 'w').write(demo + '\n')
            open(tmp + '/demo.sh', 'w').write(SH)
            r0 = sh(['bash', tmp + '/demo.sh'], d)
            okk = True
            for e in edits:
                old, new = e.split('\n===>\n') if '\n===>\n' in e else (e[:-5].rstrip('\n'), '')
                hits = 0
                for f in FILES:
                    p = d + '/biggus/' + f
                    s = open(p).read()
                    if old in s:
                        hits += s.count(old)
                        open(p, 'w').write(s.replace(old, new, 1))
                        break
                if hits != 1:
                    print('%s: %d matches: %r' % (bid, hits, old[:70]))
                    okk = hits > 0
            if not okk:
                continue
            r1 = sh(['bash', tmp + '/demo.sh'], d)
            patch = sh(['git', 'diff', '--', 'biggus'], d).stdout
            bad = tests(d)
            res = {'demo clean': r0.returncode == 0, 'demo fails': r1.returncode != 0,
                   'tests': bad == base}
            orig = set(sh(['git', 'show', '9b821cd:biggus/_init.py'], '/repo').stdout.split('\n'))
            orig |= set(sh(['git', 'show', '9b821cd:biggus/experimental/dask_engine.py'],
                           '/repo').stdout.split('\n'))
            gone = [x[1:] for x in patch.split('\n') if x[:1] == '-' and x[:3] != '---']
            if not gone or any(x not in orig for x in gone):
                print(bid, 'does not only change original lines')
            good = all(res.values())
            print(bid, prop, 'KEPT' if good else res)
            if not good:
                if r0.returncode:
                    print('   clean:', r0.stdout[-600:])
                if bad != base:
                    print('   tests:', sorted(bad - base)[:4] if bad is not None else bad)
                continue
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            for f in ('demo.py', 'demo.sh'):
                shutil.copy(tmp + '/' + f, out)
            open(out + '/patch.diff', 'w').write(patch)
            with open(out + '/meta.json', 'w') as fh:
                json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, fh,
                          indent=1)
                fh.write('\n')
            if os.path.exists(HERE + '/bsa/p_' + prop.lower() + '.py'):
                r = sh([sys.executable, HERE + '/tools/try.py', out + '/patch.diff', prop], HERE)
                print('\n'.join('     ' + x[:200] for x in r.stdout.split('\n')[:3]))
        finally:
            shutil.rmtree(top)


main()
