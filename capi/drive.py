"""C36: builds the C library with every choice of networks, with and without backup, from /repo's working tree; compiles
prog.c against each generated header, links it to each library, and has its transcript judged by the Rust oracle."""
import fcntl, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
root, args = sys.argv[1], sys.argv[2:]
here = os.path.join(root, 'capi')
target = os.path.join(root, 'target', 'capi')
repo = os.path.realpath(os.path.join(root, '..', 'repo'))
os.makedirs(target, exist_ok=True)
env = {k: v for k, v in os.environ.items() if k not in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER')}
lib_env = dict(env, CARGO_PROFILE_DEV_OPT_LEVEL='2', CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_DEV_OVERFLOW_CHECKS='false', CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='false', CARGO_INCREMENTAL='0')
tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
NETS = ['cardano', 'ethereum', 'bitcoin']
COMMON = '''delete_data delete_error delete_keychain delete_keychain_manager delete_networks delete_string keychain_init_library
keychain_manager_add_network keychain_manager_change_password keychain_manager_generate_mnemonic keychain_manager_has_network
keychain_manager_keychain_data_from_mnemonic keychain_manager_keychain_data_from_seed keychain_manager_keychain_from_data
keychain_manager_new keychain_networks keychain_pub_key keychain_sign keychain_verify keypath_from_string'''.split()
OF = dict(cardano='NETWORK_CARDANO keypath_cardano_new'.split(),
    ethereum='NETWORK_ETHEREUM keypath_ethereum_new keypath_ethereum_new_metamask'.split(),
    bitcoin='NETWORK_BITCOIN keypath_bitcoin_new_bip44 keypath_bitcoin_new_bip49 keypath_bitcoin_new_bip84'.split(),
    backup='delete_key_backup delete_mnemonic_info keychain_manager_get_keys_data keychain_manager_retrieve_mnemonic'.split())

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

class Build:
    def __init__(self, bits, backup):
        self.bits, self.backup = bits, backup
        self.features = [n for i, n in enumerate(NETS) if bits >> i & 1] + ['backup'] * backup
        self.name = '+'.join(self.features)
        self.out = os.path.join(target, 'out', self.name)
    def make(self, src, tdir):
        """Builds the library in the copy `src` of the sources."""
        crate = os.path.join(src, 'keychain-c')
        os.utime(os.path.join(crate, 'build.rs'))  # the header is written anew
        shutil.rmtree(self.out, ignore_errors=True)
        for f in ('keychain.h', 'keychain_build_config.h'):
            if os.path.exists(os.path.join(crate, 'include', f)): os.remove(os.path.join(crate, 'include', f))
        r = run(['cargo', 'build', '--offline', '--quiet', '--no-default-features', '--features', ','.join(self.features), '--target-dir', tdir], cwd=crate, env=lib_env)
        if r.returncode != 0: return 'does not build:\n' + '\n'.join(l for l in r.stdout.split('\n') if 'warning' not in l)[-2500:]
        os.makedirs(self.out)
        for f in ('keychain.h', 'keychain_build_config.h'):
            p = os.path.join(crate, 'include', f)
            if not os.path.exists(p): return 'the build writes no ' + f
            shutil.copy2(p, self.out)
        for f in ('librust_keychain.a', 'librust_keychain.so'):
            shutil.copy2(os.path.join(tdir, 'debug', f), self.out)
    def symbols(self):
        """What is declared is what is exported."""
        x = os.path.join(self.out, 'protos')
        c = os.path.join(self.out, 'only.c')
        open(c, 'w').write('#include "keychain.h"\n')
        r = run(['gcc', '-std=c99', '-fsyntax-only', '-aux-info', x, '-I', self.out, c])
        if r.returncode != 0: return 'the header does not compile:\n' + r.stdout[:1500]
        declared = set(re.findall(r'(\w+) \(', '\n'.join(l.split('*/', 1)[1] for l in open(x) if '/keychain.h:' in l.split('*/')[0])))
        need = set(COMMON + [f for n in self.features for f in OF[n]])
        if need - declared: return 'the header does not declare ' + ', '.join(sorted(need - declared))
        so = {l.split()[-1] for l in run(['nm', '-D', '--defined-only', os.path.join(self.out, 'librust_keychain.so')]).stdout.split('\n') if ' T ' in l}
        so -= {'_init', '_fini', 'rust_eh_personality'}
        if declared - so: return 'declared in the header, and not exported: ' + ', '.join(sorted(declared - so))
        if so - declared: return 'exported, and not declared in the header: ' + ', '.join(sorted(so - declared))
        a = {l.split()[-1] for l in run(['nm', '-g', '--defined-only', os.path.join(self.out, 'librust_keychain.a')]).stdout.split('\n') if ' T ' in l}
        if declared - a: return 'declared in the header, and not in the static library: ' + ', '.join(sorted(declared - a))
        self.declared = len(declared)
    def transcript(self, conts, kind):
        exe, lines = os.path.join(self.out, 'prog.' + kind), os.path.join(self.out, 'lines.' + kind)
        link = ['-L' + self.out, '-Wl,-rpath,' + self.out, '-lrust_keychain'] if kind == 'so' else [os.path.join(self.out, 'librust_keychain.a')]
        r = run(['gcc', '-std=c99', '-D_DEFAULT_SOURCE', '-O1', '-Wall', '-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types',
                 '-Werror=int-conversion', '-I', self.out, os.path.join(here, 'prog.c'), '-o', exe] + link + ['-lpthread', '-ldl', '-lm'])
        if r.returncode != 0: return 'a C program does not compile (%s):\n%s' % (kind, '\n'.join(l for l in r.stdout.split('\n') if 'error' in l or 'undefined' in l)[:1500])
        for again in (1, 0):
            if os.path.exists(lines): os.remove(lines)
            try: r = run([exe, conts, '1' if tier == 'thorough' else '0', lines], timeout=3000)
            except subprocess.TimeoutExpired: return 'the C program does not end (%s)' % kind
            if r.returncode == 0: break
            if not again: return 'the C program dies with %d (%s) after: %s' % (r.returncode, kind, run(['tail', '-c', '300', lines]).stdout)
        if r.stdout: return 'the library prints: ' + r.stdout[:300]
        o = run([ORACLE, str(self.bits), lines])
        os.remove(lines)
        if o.returncode != 0 or not o.stdout.startswith('RIGHT '): return '%s: %s' % (kind, o.stdout[:3000])
        self.said = json.loads(o.stdout[6:])
    def judge(self, conts):
        e = self.symbols()
        if e: return e
        kinds = ['a', 'so'] if tier == 'thorough' else ['so' if self.backup else 'a']
        for k in kinds:
            e = self.transcript(conts, k)
            if e: return e

ORACLE = os.path.join(target, 'oracle', 'release', 'capi-oracle')
ALL = [Build(b, bk) for b in range(7, 0, -1) for bk in (True, False)]

def copy_sources(dst):
    """The working tree without what git ignores; unchanged files keep their times."""
    files = subprocess.run(['git', '-C', repo, 'ls-files', '-co', '--exclude-standard', '-z'], stdout=subprocess.PIPE, check=True).stdout.decode().split('\0')
    files = {f for f in files if f and os.path.isfile(os.path.join(repo, f))}
    for d, _, fs in os.walk(dst):
        for f in fs:
            r = os.path.relpath(os.path.join(d, f), dst)
            if r not in files and not r.startswith('keychain-c/include/'): os.remove(os.path.join(d, f))
    for f in files:
        a, b = os.path.join(repo, f), os.path.join(dst, f)
        os.makedirs(os.path.dirname(b), exist_ok=True)
        if not os.path.exists(b) or open(a, 'rb').read() != open(b, 'rb').read(): shutil.copy(a, b)

def group(builds):
    bits = builds[0].bits
    src, t = os.path.join(target, 'src%d' % bits), os.path.join(target, 't%d' % bits)
    copy_sources(src)
    if not os.path.isdir(t) and bits != 7: subprocess.run(['cp', '-a', os.path.join(target, 't7'), t], check=True)
    return {b.name: b.make(src, t) for b in builds}

t0 = time.time()
lock = open(os.path.join(target, '.lock'), 'w')
fcntl.flock(lock, fcntl.LOCK_EX)
todo = ALL
replay = args[:1] == ['--replay']
if replay:
    want = json.load(open(args[1]))['build']
    todo = [b for b in ALL if b.name == want]
def oracle():
    r = run(['cargo', 'build', '--offline', '--quiet', '--release', '--target-dir', os.path.join(target, 'oracle')], cwd=here, env=env)
    if r.returncode != 0:
        print('BUILD-FAILED'); print(r.stdout[-2500:]); os._exit(3)
groups = {}
for b in todo: groups.setdefault(b.bits, []).append(b)
errs = {}
with ThreadPoolExecutor(8) as ex:
    o = ex.submit(oracle)
    first = group([b for b in ALL if b.bits == 7])  # the full builds go first, the others start from their target folder
    o.result()
    if first[ALL[0].name]:
        print('BUILD-FAILED'); print(first[ALL[0].name]); sys.stdout.flush(); os._exit(3)
    errs.update(first)
    for e in ex.map(group, [g for k, g in groups.items() if k != 7]): errs.update(e)
if args[:1] == ['--build']: sys.exit(0)
conts = os.path.join(target, 'containers.%d' % os.getpid())
subprocess.run([ORACLE, '--make', conts], check=True)
bad = []
with ThreadPoolExecutor(8) as ex:
    for b, e in ex.map(lambda b: (b, errs[b.name] or b.judge(conts)), todo):
        if e: bad.append((b.name, e))
os.remove(conts)
if replay:
    for n, e in bad: print('FAILED', n, e)
    print('passed' if not bad else ''); sys.exit(3 if bad else 0)
code = 0
if bad:
    n, e = bad[0]
    os.makedirs(os.path.join(root, 'replays'), exist_ok=True)
    f = os.path.join(root, 'replays', 'C36.json')
    json.dump(dict(property='C36', tier=tier, build=n, error=e, others=[n for n, _ in bad[1:]], replay='bash %s/capi/run.sh --replay %s' % (root, f)), open(f, 'w'), indent=1)
    for n, e in bad[:3]: print('[%s] %s' % (n, e[:1500]))
    print('VIOLATION property=C36 replay=' + f)
    code = 1
good = [b for b in todo if hasattr(b, 'said')]
calls = sum(b.said['lines'] for b in good)
ev = dict(property='C36', tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
    coverage=dict(states=sum(b.said['states'] for b in good), transitions=calls, traces_validated_against_impl=len(good), evaluations=calls,
        exhaustive=not bad and len(good) == len(ALL), builds={b.name: dict(b.said, declared=b.declared) for b in good},
        rule='The C library is built with all 7 non-empty choices of networks, with and without backup (14 builds). The functions the generated header declares are compared with those the shared and the static library export, and with the interface of the chosen features. A C program compiled against that header makes every call of its interface: path texts and constructors over a grid of numbers, phrases in and imports of every language, seeds of every size near 64, and 14 wallets through all histories of adding networks and changing the password, each wallet opened, asked for keys, signatures and verdicts, and backed up. Every line is compared with the same operation of the Rust library; containers by their decrypted contents.',
        bounds='histories of depth %d; %s path texts; %s' % ((2, '8^5', 'linked to the static and to the shared library') if tier == 'thorough' else (1, '3 x 8^3', 'linked to the static library without, to the shared one with backup'))),
    assumptions=['gcc on this machine stands for every C compiler', 'what the Rust library does is what the other checks decide'],
    wall_s=round(time.time() - t0, 2), violations=1 if bad else 0)
os.makedirs(os.path.join(root, 'evidence'), exist_ok=True)
json.dump(ev, open(os.path.join(root, 'evidence', 'C36.json'), 'w'), indent=1)
print('C36 %s: %d builds, %d calls compared, %.1f s' % (tier, len(good), calls, time.time() - t0))
sys.exit(code)
