"""mkseed.py SPEC.py: plant a bug in a scratch copy, validate it and write /verif/seeded/<id>/.

SPEC defines a list SEEDS of dicts: id, property, needs, breaks, edits=[(file, old, new)], demo (python source,
exits nonzero / raises when the property is broken)."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '#!/bin/sh\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 timeout 120 python3 "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, universal_newlines=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    scratch = '/tmp/seedcopy'
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        shutil.rmtree(scratch, ignore_errors=True)
        run(['cp', '-a', '/repo', scratch], '/')
        d = os.path.join('/tmp/seedout', s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        demo = s['demo']
        with open(d + '/demo.py', 'w') as f:
            f.write(demo)
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        if 'xlsgen' in demo:
            shutil.copy(HERE + '/tools/demo/xlsgen.py', d)
        r = run([d + '/demo.sh'], scratch)
        if r.returncode != 0:
            print(s['id'], 'REJECT: demo fails on the unchanged tree\n', r.stdout[-600:])
            continue
        bad = False
        for fn, old, new in s['edits']:
            p = os.path.join(scratch, fn)
            src = open(p, newline='').read()
            if '\r\n' in src:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if src.count(old) != 1:
                print(s['id'], 'REJECT: %d matches in %s for %r' % (src.count(old), fn, old[:60]))
                bad = True
                break
            open(p, 'w', newline='').write(src.replace(old, new))
        if bad:
            continue
        t = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], scratch)
        if t.returncode != 0:
            print(s['id'], 'REJECT: the tests fail', t.stdout[-300:])
            continue
        r = run([d + '/demo.sh'], scratch)
        if r.returncode == 0:
            print(s['id'], 'REJECT: demo passes with the change')
            continue
        diff = run(['git', 'diff', '--binary'], scratch).stdout
        with open(d + '/patch.diff', 'w') as f:
            f.write(diff)
        k = run([sys.executable, HERE + '/check.py', s['property'], '--repo', scratch], HERE)
        print(s['id'], 'ok; demo: %s | check exit %d: %s' % ((r.stdout.strip().splitlines() or ['no output'])[-1][:90], k.returncode,
              '' if k.returncode == 0 else k.stdout.splitlines()[0][:200]))
        with open(d + '/meta.json', 'w') as f:
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks'],
                       'caught_by': [s['property']] if k.returncode == 1 else []}, f, indent=1)
        out = os.path.join(HERE, 'seeded', s['id'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        shutil.rmtree(os.path.join(out, '__pycache__'), ignore_errors=True)
    shutil.rmtree(scratch, ignore_errors=True)


main()
