"""Create seeded/<id>/ from (file, old, new) replacements: used by scripts which define the bugs."""
import json, os, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def bug(id, prop, edits, demo, needs, breaks):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='mkbug.')
    for sub in 'ab':
        for f, _, _ in edits:
            os.makedirs(os.path.join(tmp, sub, os.path.dirname(f)), exist_ok=True)
            shutil.copy('/repo/' + f, os.path.join(tmp, sub, f))
    for f, old, new in edits:
        p = os.path.join(tmp, 'b', f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    r = subprocess.run(['git', 'diff', '--no-index', '--no-color', 'a', 'b'], cwd=tmp, capture_output=True, text=True)
    diff = r.stdout.replace('a/a/', 'a/').replace('b/b/', 'b/').replace('a/b/', 'a/')
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\n. /opt/vp/env.sh\nexec "$PY" "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(tmp)
