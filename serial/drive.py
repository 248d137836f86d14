"""C37: builds the program with and without the optional serialization from /repo's working tree and runs both."""
import json, os, subprocess, sys, time
root, args = sys.argv[1], sys.argv[2:]
here = os.path.join(root, 'serial')
target = os.path.join(root, 'target', 'serial')
os.makedirs(target, exist_ok=True)
env = {k: v for k, v in os.environ.items() if k not in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER')}
tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'

def build(on):
    """-> what went wrong"""
    t = os.path.join(target, 'on' if on else 'off')
    r = subprocess.run(['flock', os.path.join(target, '.lock'), 'cargo', 'build', '--offline', '--quiet', '--release', '--target-dir', t] + (['--features', 'on'] if on else []),
                       cwd=here, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return None if r.returncode == 0 else r.stdout[-3000:]

def run(on, only=None):
    """-> (report, how it died)"""
    died = None
    for _ in range(2):  # a dead process counts only if it dies again
        r = subprocess.run([os.path.join(target, 'on' if on else 'off', 'release', 'serial'), tier] + ([only] if only else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if r.returncode == 0:
            return json.loads(r.stdout), None
        died = 'the process died with %d' % r.returncode
    return None, died

t0 = time.time()
e = build(False)
if e:
    print('BUILD-FAILED'); print(e); sys.exit(3)
e = build(True)
bad = []
if e:
    bad.append(('build', 'the library does not build with generic-serialization: ' + e))
if args[:1] == ['--build']:
    sys.exit(0)
only = None
if args[:1] == ['--replay']:
    only = json.load(open(args[1]))['case']
on = off = None
if not bad:
    special = only == 'build' or (only or '').startswith('rest: ')
    on, died = run(True, None if special else only)
    if died: bad.append(('run', 'with generic-serialization: ' + died))
    off, died = run(False, None)
    if died: bad.append(('run', 'without generic-serialization: ' + died))
if on and off:
    bad += [tuple(v) for v in on['violations']]
    for k in sorted(set(on['rest']) | set(off['rest'])):
        if on['rest'].get(k) != off['rest'].get(k):
            bad.append(('rest: ' + k, 'with generic-serialization the library answers otherwise than without, in: ' + k))
if only:
    bad = [b for b in bad if b[0] == only or b[0] in ('build', 'run')]
    print('FAILED %s: %s' % bad[0] if bad else 'passed'); sys.exit(3 if bad else 0)
code = 0
if bad:
    os.makedirs(os.path.join(root, 'replays'), exist_ok=True)
    f = os.path.join(root, 'replays', 'C37.json')
    json.dump(dict(property='C37', tier=tier, case=bad[0][0], error=bad[0][1], others=len(bad) - 1,
                   replay='bash %s/serial/run.sh --replay %s' % (root, f)), open(f, 'w'), indent=1)
    for b in bad[:5]: print('%s: %s' % b)
    print('VIOLATION property=C37 replay=' + f)
    code = 1
r = on or dict(cases=0, steps=0, states=0, per={}, rest={})
ev = dict(property='C37', tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
    coverage=dict(states=r['states'], transitions=r['steps'], traces_validated_against_impl=r['cases'], evaluations=r['cases'],
        exhaustive=not bad, cases=r['per'], compared_between_builds=sorted(r['rest']),
        rule='Every value is written and read back through JSON (text, bytes, reader, spaced, value) and a binary format, alone and in a tuple, must come back equal, and must be written as the reference says earlier releases write it; values of another form must be refused. The answers of all other operations of the crate are compared between a build with the feature and one without.',
        bounds='all 6 phrase kinds; phrases of 8 languages, 6 sizes and every single-bit entropy (quick: a quarter), of every word, and of every Unicode character in a word; errors with every character, text lengths and positions to the bound and around every power of two'),
    assumptions=['JSON and bincode stand for the self-describing and the compact formats'],
    wall_s=round(time.time() - t0, 2), violations=1 if bad else 0)
os.makedirs(os.path.join(root, 'evidence'), exist_ok=True)
json.dump(ev, open(os.path.join(root, 'evidence', 'C37.json'), 'w'), indent=1)
print('C37 %s: %d cases, %d steps, %d states, %.1f s' % (tier, r['cases'], r['steps'], r['states'], time.time() - t0))
sys.exit(code)
