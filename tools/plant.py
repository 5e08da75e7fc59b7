"""Builds /verif/seeded/<id>/ from tools/bugs.py: applies each edit to a scratch copy of /repo, confirms that the
tests still pass and that the demonstration fails with the change and passes without it, and only then keeps it.
usage: python3 tools/plant.py [ID ...]        (not used by any check)"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import bugs

PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8')

DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; anything else: it is broken
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 PYTHONUTF8=1 PYTHONHASHSEED=1 PYTHONPATH="$PWD"
exec timeout 200 /opt/venv/bin/python -W ignore "$HERE/demo.py"
'''


def tests(tree):
    p = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', 'utg/tests'], cwd=tree, env=ENV,
                       capture_output=True, text=True)
    return p.returncode == 0 and '93 passed' in p.stdout, p.stdout[-300:]


def demo(folder, tree):
    p = subprocess.run(['bash', os.path.join(folder, 'demo.sh')], cwd=tree, env=ENV, capture_output=True, text=True)
    return p.returncode, (p.stdout + p.stderr)[-400:]


def plant(bug):
    work = tempfile.mkdtemp(prefix='plant.')
    try:
        tree = os.path.join(work, 'repo')
        shutil.copytree('/repo', tree, ignore=shutil.ignore_patterns('__pycache__'))
        for name, old, new in bug['edits']:
            path = os.path.join(tree, name)
            text = open(path, encoding='utf-8').read()
            if text.count(old) != 1:
                return 'edit of %s matches %d times: %r' % (name, text.count(old), old[:60])
            open(path, 'w', encoding='utf-8').write(text.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=tree, capture_output=True, text=True).stdout
        ok, out = tests(tree)
        if not ok:
            return 'tests fail: ' + out
        folder = os.path.join(work, 'seed')
        os.makedirs(folder)
        open(os.path.join(folder, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(folder, 'demo.sh'), 0o755)
        open(os.path.join(folder, 'demo.py'), 'w', encoding='utf-8').write(bugs.PREAMBLE + bug['demo'].strip('\n') + '\n')
        rc, out = demo(folder, tree)
        if rc == 0:
            return 'demo passes with the change'
        message = out.strip().splitlines()[-1] if out.strip() else ''
        rc, out = demo(folder, '/repo')
        if rc != 0:
            return 'demo fails on the unchanged tree: ' + out
        open(os.path.join(folder, 'patch.diff'), 'w', encoding='utf-8').write(diff)
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(os.path.join(folder, 'meta.json'), 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
        target = os.path.join(VERIF, 'seeded', bug['id'])
        shutil.rmtree(target, ignore_errors=True)
        shutil.copytree(folder, target)
        return 'ok   (%s)' % message[:110]
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    wanted = sys.argv[1:]
    for bug in bugs.BUGS:
        if not wanted or any(bug['id'].startswith(w) for w in wanted):
            print('%-34s %s' % (bug['id'], plant(bug)), flush=True)
