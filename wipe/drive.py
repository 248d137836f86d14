"""C30: builds the wipe program in three profiles from /repo's working tree, runs it and writes the evidence."""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
root, args = sys.argv[1], sys.argv[2:]
here = os.path.join(root, 'wipe')
target = os.path.join(root, 'target', 'wipe')
os.makedirs(target, exist_ok=True)
PROFILES = {'dev': 'debug', 'release': 'release', 'lto': 'lto'}
env = {k: v for k, v in os.environ.items() if k not in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER')}

def build():
    for p in PROFILES:
        r = subprocess.run(['flock', os.path.join(target, '.lock'), 'cargo', 'build', '--offline', '--quiet', '--profile', p, '--target-dir', target],
                           cwd=here, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print('BUILD-FAILED'); print(r.stdout[-3000:]); sys.exit(3)

def run(profile, depth, only=None):
    """-> (report, how it died)"""
    cmd = [os.path.join(target, PROFILES[profile], 'wipe'), str(depth)] + ([only] if only else [])
    died = None
    for _ in range(2):  # a dead process counts only if it dies again
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if r.returncode == 0:
            return json.loads(r.stdout), None
        died = 'the process died with %d' % r.returncode
    return None, died

t0 = time.time()
if args[:1] == ['--replay']:
    j = json.load(open(args[1]))
    build()
    rep, died = run(j['profile'], j['depth'], j['history'])
    if died or rep['violations']:
        print('FAILED', j['profile'], died or rep['violations'][0]); sys.exit(3)
    print('passed'); sys.exit(0)
build()
if args[:1] == ['--build']:
    sys.exit(0)
tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
depth = 6 if tier == 'thorough' else 5
with ThreadPoolExecutor(3) as ex:
    res = dict(zip(PROFILES, ex.map(lambda p: run(p, depth - (p == "dev")), PROFILES)))
bad = []
tot = dict(histories=0, places=0, steps=0, states=0)
per = {}
for p, (rep, died) in res.items():
    if died:
        bad.append((p, None, died)); continue
    for k in tot: tot[k] += rep[k]
    for k, v in rep['per'].items(): per[p + ': ' + k] = v
    for h, e in rep['violations']: bad.append((p, h, e))
code = 0
if bad:
    p, h, e = bad[0]
    os.makedirs(os.path.join(root, 'replays'), exist_ok=True)
    f = os.path.join(root, 'replays', 'C30.json')
    json.dump(dict(property='C30', tier=tier, profile=p, depth=depth - (p == "dev"), history=h, error=e, others=len(bad) - 1,
                   replay='bash %s/wipe/run.sh --replay %s' % (root, f)), open(f, 'w'), indent=1)
    for p, h, e in bad[:5]: print('%s: %s: %s' % (p, h, e))
    print('VIOLATION property=C30 replay=' + f)
    code = 1
ev = dict(property='C30', tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
    coverage=dict(states=tot['states'], transitions=tot['steps'], traces_validated_against_impl=tot['histories'], evaluations=tot['places'],
        exhaustive=not bad, histories=per, profiles=list(PROFILES),
        rule='Every history of making, cloning, overwriting, moving and dropping entropy and seed values (6 sizes and the seed) over three heap slots up to the stated length, each ended normally and by a panic, in boxes and in shared pointers; every shortening of vectors of up to 5 values; 12 ways for a value to die in a stack frame, for every constructor. Each history runs with two contents, in 20 shapes (ordinary, zero at the ends, in a half or nearly everywhere, constant, printable; long histories take the shapes by turns); a byte that is the secret one under both contents after the drop was not wiped. Heap blocks are read when they reach the allocator, stack frames right after the function returned. Run in an unoptimized, an optimized and a link-time optimized build.',
        bounds='histories of up to %d operations over 3 slots (%d in the unoptimized build); vectors of up to 5 values' % (depth, depth - 1)),
    assumptions=['the places looked at are those the value had when it was dropped; copies left by moves are outside the property'],
    wall_s=round(time.time() - t0, 2), violations=1 if bad else 0)
os.makedirs(os.path.join(root, 'evidence'), exist_ok=True)
json.dump(ev, open(os.path.join(root, 'evidence', 'C30.json'), 'w'), indent=1)
print('C30 %s: %d histories, %d places, %d states, %.1f s' % (tier, tot['histories'], tot['places'], tot['states'], time.time() - t0))
sys.exit(code)
