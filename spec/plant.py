"""plant.py defs.py [ids..]: verify seeds and store under /verif/seeded; CHECK=1 also runs the check."""
import json, os, pathlib, subprocess, sys, runpy
REPO = '/repo'; SEED = pathlib.Path('/verif/seeded')
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
PRE = '''import os, pathlib, shutil, sys, tempfile
_tmp = tempfile.mkdtemp(prefix="demo")
import atexit; atexit.register(shutil.rmtree, _tmp, True)
tmp = pathlib.Path(_tmp)
os.environ["XDG_DATA_HOME"] = os.environ["HOME"] = str(tmp / "home"); os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
'''
defs = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
assert not sh(f'git -C {REPO} status --porcelain').stdout, 'repo dirty'
head = '5026708'
for d in defs:
    if only and d['id'] not in only: continue
    out = SEED / d['id']; out.mkdir(parents=True, exist_ok=True)
    (out / 'demo.py').write_text(PRE + d['demo'])
    (out / 'demo.sh').write_text('#!/bin/bash\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (out / 'meta.json').write_text(json.dumps({"property": d['prop'], "needs": d['needs'], "what_it_breaks": d['breaks']}, indent=1) + '\n')
    demo = lambda: sh(f'bash {out}/demo.sh', cwd=REPO)
    r0 = demo()
    bad = []
    if r0.returncode: bad.append(f'demo fails unchanged: {(r0.stdout+r0.stderr)[-800:]}')
    try:
        for f, old, new in d['edits']:
            p = pathlib.Path(REPO) / f; s = p.read_text()
            if s.count(old) != 1: raise Exception(f'{f}: {s.count(old)} matches of {old!r}')
            p.write_text(s.replace(old, new))
        diff = sh(f'git -C {REPO} diff').stdout
        (out / 'patch.diff').write_text(diff)
        r = demo()
        if not r.returncode: bad.append('demo passes with patch')
        d['msg'] = (r.stdout + r.stderr)[-200:]
        if sh('bash /opt/vp/build.sh').returncode: bad.append('build')
        sh('bash /opt/vp/test.sh /tmp/o.json'); t = sh('python3 /tmp/cmpbase.py').stdout
        if 'missing []' not in t: bad.append(t)
        sh('rm -rf /opt/venv/etc/pkm; rmdir /opt/venv/etc')
        if os.environ.get('CHECK'):
            c = sh(f'bash check.sh {d["prop"]} quick', cwd='/verif', env={**os.environ, 'VERIF_SEED': '1'})
            d['caught'] = c.returncode == 1 and f'VIOLATION property={d["prop"]}' in c.stdout
            d['cmsg'] = (c.stdout + c.stderr)[-300:] if not d['caught'] else ''
    except Exception as e:
        bad.append(repr(e))
    finally:
        sh(f'git -C {REPO} checkout -- .')
    # removed/context lines must be original
    orig, cur, old_lines = 0, None, []
    for l in (out / 'patch.diff').read_text().splitlines():
        if l.startswith('--- a/'):
            old_lines = sh(f'git -C {REPO} show {head}:{l[6:]}').stdout.splitlines()
        elif l.startswith('-') and l[1:].strip() and l[1:] in old_lines: orig += 1
    if not orig: bad.append('changes no original line')
    print(d['id'], 'OK' if not bad else bad, 'caught=' + str(d.get('caught')), d.get('cmsg', ''), '| demo:', d.get('msg', '').strip()[-120:].replace('\n', ' '), flush=True)
