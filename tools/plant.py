"""
Planted bugs: writes them from a list of edits, and confirms them in scratch copies of the repository.

    plant.py write FILE...        writes /verif/seeded/<id>/ from the seed(...) calls in the files
    plant.py verify [ID...]       confirms the bugs: they apply, change original lines, keep the stable tests, the
                                  demonstration tells them apart, and says whether the check of their property sees them
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from xml.etree import ElementTree
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
REPO = '/repo'
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True,
                      text=True).stdout.split()[0]
PYTHON = '/opt/venv/bin/python'

DEMO = '''#!/bin/bash
# Run with cwd /repo: exit 0 when the property holds, 1 when it does not
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(*args, **kw):
    return subprocess.run(args, capture_output=True, text=True, **kw)


def scratch_copy():
    d = tempfile.mkdtemp(prefix='plant.')
    run('cp', '-a', REPO, os.path.join(d, 'repo'))
    return d, os.path.join(d, 'repo')


def seed(ident, prop, edits, demo, needs, breaks):
    d, copy = scratch_copy()
    try:
        for path, old, new in edits:
            full = os.path.join(copy, path)
            text = open(full, newline='').read()
            if text.count(old) != 1:
                print('{}: {} occurrences of the text in {}'.format(ident, text.count(old), path))
                return
            open(full, 'w', newline='').write(text.replace(old, new))
        diff = run('git', '-C', copy, 'diff').stdout
    finally:
        shutil.rmtree(d)
    out = os.path.join(SEEDED, ident)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    open(os.path.join(out, 'demo.py'), 'w').write(demo.lstrip('\n'))
    with open(os.path.join(out, 'meta.json'), 'w') as f:
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, indent=1)
        f.write('\n')
    print('wrote', ident)


def original_lines(copy, diff):
    """
    True if the patch removes or changes a line of the original repository
    """
    path, line = None, 0
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            path = l[6:]
        elif l.startswith('@@'):
            line = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-') and not l.startswith('---'):
            b = run('git', '-C', REPO, 'blame', '-s', '--abbrev=40', '-L', '{0},{0}'.format(line), 'HEAD', '--', path)
            if b.stdout.split()[0].lstrip('^')[:38] in BASE:
                return True
            line += 1
        elif l.startswith(' '):
            line += 1
    return False


def verify(ident):
    folder = os.path.join(SEEDED, ident)
    meta = json.load(open(os.path.join(folder, 'meta.json')))
    notes = []
    d, copy = scratch_copy()
    # The demonstration runs from elsewhere
    shutil.copytree(folder, os.path.join(d, 'demo'))
    demo = os.path.join(d, 'demo', 'demo.sh')
    try:
        for name in os.listdir(os.path.join(d, 'demo')):
            if name.endswith('.diff') or name == 'meta.json':
                os.remove(os.path.join(d, 'demo', name))
        r = run('bash', demo, cwd=copy)
        if r.returncode != 0:
            notes.append('demo fails on the unchanged tree: ' + (r.stderr or r.stdout)[-300:])
        patch = os.path.join(folder, 'patch.diff')
        if run('git', '-C', copy, 'apply', patch).returncode != 0:
            return ident, meta['property'], ['does not apply'], ''
        if not original_lines(copy, open(patch).read()):
            notes.append('changes no original line')
        r = run('bash', demo, cwd=copy)
        if r.returncode == 0:
            notes.append('demo passes with the patch')
        last = (r.stderr or r.stdout).strip().splitlines()[-1:] or ['']
        notes += missing_tests(copy, d, json.load(open('/opt/vp/BASELINE.json'))['stable'])
        env = dict(os.environ, MC_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick')
        c = run(os.path.join(VERIF, 'check'), meta['property'], 'quick', env=env, cwd=VERIF)
        caught = c.returncode == 1 and 'VIOLATION property=' + meta['property'] in c.stdout
        if c.returncode not in (0, 1):
            notes.append('check exits {}: {}'.format(c.returncode, (c.stderr or c.stdout)[-400:]))
        return ident, meta['property'], notes, ('caught' if caught else 'MISSED') + '  (' + last[0][:110] + ')'
    finally:
        shutil.rmtree(d)


def missing_tests(copy, folder, stable, seconds=300):
    """
    The stable tests that no longer pass, run as /opt/vp/test.sh does but in the copy
    """
    xml = os.path.join(folder, 'junit.xml')
    env = dict(os.environ, PYTHONPATH=copy, PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR=folder,
               PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent')
    ignored = ['--ignore=' + x for x in ('test_DARMInstruction.py', 'test_instructionModifier.py',
                                         'test_instructionPartFrequencyChange.py',
                                         'test_instructionPartFrequencyCounter.py')]
    run(PYTHON, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout={}'.format(seconds), '--continue-on-collection-errors',
        '--randomly-seed=0', '--randomly-dont-reorganize', *ignored, '-o', 'junit_family=xunit2', '--junitxml=' + xml,
        cwd=os.path.join(copy, 'tests'), env=env)
    passed = set()
    for case in ElementTree.parse(xml).iter('testcase'):
        if not [x for x in case if x.tag in ('failure', 'error', 'skipped')]:
            passed.add('{}::{}'.format(case.get('classname'), case.get('name')))
    missing = [x for x in stable if x not in passed]
    return ['tests fail: {}'.format(missing[:5])] if missing else []


if __name__ == '__main__':
    if sys.argv[1] == 'write':
        for f in sys.argv[2:]:
            exec(compile(open(f).read(), f, 'exec'), {'seed': seed})
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(int(os.environ.get('PLANT_JOBS', '2'))) as pool:
            for ident, prop, notes, result in pool.map(verify, ids):
                print('{:34} {} {} {}'.format(ident, prop, result, '; '.join(notes)), flush=True)
