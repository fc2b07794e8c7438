#!/usr/bin/env python3
"""plant.py SPEC.py [id ...]: makes seeded/<id>/ from edits, after confirming each in a scratch copy of /repo.

SPEC.py defines BUGS: dicts id, property, edits [(file, old, new)], needs, breaks, demo (text of demo.sh),
files {name: text}. plant.py --check [id ...] runs the property's check against each planted bug instead."""
import sys, os, json, subprocess, shutil, time

SW = '/tmp/sw'
R = SW + '/repo'
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def prepare():
    shutil.rmtree(SW, ignore_errors=True)
    os.makedirs(SW)
    sh('cp -a /repo %s && cp -a /opt/vp %s/vp' % (R, SW))
    sh("cd %s/vp && sed -i 's#/repo#%s#g; s#/opt/vp#%s/vp#g' *.sh *.py" % (SW, R, SW))
    sh('git -C %s checkout -q -- .' % R)


def build():
    return sh('bash %s/vp/build.sh' % SW)


def tests():
    sh('bash %s/vp/test.sh %s/out.json' % (SW, SW))
    d = json.load(open(SW + '/out.json'))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t for t in stable if t not in d['passed']]


def demo(d):
    r = subprocess.run(['timeout', '300', 'bash', d + '/demo.sh'], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    return r.returncode, r.stdout.decode('latin-1')[-600:]


def plant(b):
    sh('git -C %s checkout -q -- .' % R)
    tmp = '%s/demo' % SW
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/demo.sh', 'w').write(b['demo'])
    for n, t in b.get('files', {}).items():
        open(os.path.join(tmp, n), 'wb').write(t.encode('latin-1'))
    build()
    c, o = demo(tmp)
    if c:
        return 'demo fails on the unchanged tree (%d): %s' % (c, o)
    for f, old, new in b['edits']:
        p = os.path.join(R, f)
        t = open(p).read()
        if t.count(old) != 1:
            return 'edit of %s matches %d times: %r' % (f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    patch = sh('git -C %s diff' % R).stdout.decode()
    r = build()
    if r.returncode:
        return 'does not build: ' + r.stdout.decode()[-800:]
    c, o = demo(tmp)
    if not c:
        return 'demo passes with the bug: ' + o
    bad = tests()
    if bad:
        return 'tests notice: %s' % bad
    d = os.path.join(SEED, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    open(d + '/patch.diff', 'w').write(patch)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    return None


def check(id, prop=None):
    sh('git -C %s checkout -q -- .' % R)
    r = sh('git -C %s apply %s/%s/patch.diff' % (R, SEED, id))
    if r.returncode:
        return 'does not apply'
    prop = prop or json.load(open('%s/%s/meta.json' % (SEED, id)))['property']
    t = time.time()
    r = sh('VERIF_REPO=%s python3 %s/check.py %s' % (R, os.path.dirname(SEED), prop))
    o = r.stdout.decode('latin-1')
    return '%s %s exit %d %.0f s: %s' % (id, prop, r.returncode, time.time() - t, o.strip()[:300])


def main():
    a = sys.argv[1:]
    if a[0] == '--check':
        prepare()
        for id in a[1:] or sorted(os.listdir(SEED)):
            p = None
            if ':' in id:
                id, p = id.split(':')
            print(check(id, p), flush=True)
        return
    ns = {}
    exec(open(a[0]).read(), ns)
    prepare()
    for b in ns['BUGS']:
        if len(a) > 1 and b['id'] not in a[1:]:
            continue
        e = plant(b)
        print(b['id'], 'kept' if not e else 'REJECTED ' + e, flush=True)
        if not e and not os.environ.get('NOCHECK'):
            print('   ', check(b['id']), flush=True)


main()
