#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, '..')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
NOTE = {
 'default': 'Every case of the stated finite spaces is executed on the real code built from /repo and compared with an independent reference model; the evidence lists the spaces and their sizes. Trusted: the reference model, and the primitives it shares with the code (secp256k1 point arithmetic, Ed25519, Keccak, ChaCha20-Poly1305).',
}
T_IN = 'bounded exhaustive enumeration of inputs on the real code against a reference model'
T_H = 'explicit-state exploration of operation histories on the real code against a reference model'
TECH = {p['id']: T_IN for p in props}
for i in ['C19', 'C20', 'C21', 'C25', 'C27']: TECH[i] = T_H
TECH['C18'] = 'exhaustive enumeration of random-source answer sequences (deviation-bounded) over operation histories on the real code'
TECH['C28'] = 'exhaustive enumeration of malformed arguments and random-source failures over C calls on the real code'
TECH['C29'] = 'stateless model checking of the real code under a controlled scheduler (preemption-bounded)'
TECH['C30'] = 'exhaustive enumeration of clone/drop/panic histories on the real code with an instrumented allocator'
TECH['C31'] = 'exhaustive enumeration of feature configurations, transcripts compared with a reference model'
TECH['C35'] = 'exhaustive enumeration of operations and failures on the real code under a system-call monitor'
NOTE['C35'] = 'Every system call the operation makes is handed to the harness by the kernel (syscall user dispatch) and judged; secrets are searched in the messages in plain, hex, decimal and base64 form. System calls made without the syscall instruction of the thread under test are not seen.'
NOTE['C29'] = 'All interleavings of the stated thread programs up to the stated number of preemptions, at every memory access of the four crates, lock, allocation and read of the random source. Sequentially consistent executions only; accesses inside third-party crates are not scheduling points.'
NOTE['C30'] = 'Looks at the heap blocks and stack or heap places that held the value right after it is dropped, in an optimized build. Copies the compiler leaves in registers or in moved-from places are outside the property.'
claimed = subprocess.run(['sed', '-n', r's/^    "\(C[0-9]*\)" => .*/\1/p', os.path.join(root, 'harness/src/checks/mod.rs')], stdout=subprocess.PIPE, text=True).stdout.split()
EXTRA = {'C30': 'wipe', 'C31': 'features', 'C36': 'capi', 'C37': 'serial'}
TECH['C37'] = 'exhaustive enumeration of values and of damaged documents on the real code in three formats, with and without the feature'
NOTE['C37'] = 'Formats: JSON, a self-describing value, and a compact binary format of the harness. Trusted: serde and serde_json.'
TECH['C38'] = 'exhaustive enumeration of random sources, failures and nested operations on the real code'
TECH['C39'] = 'exhaustive enumeration of calls, inputs and histories of calls on the real code under a counting allocator'
NOTE['C39'] = 'Every allocation and release of the calling thread is counted. The fixed amount and the multiple are about five times what the code needs now.'
TECH['C40'] = 'exhaustive enumeration of panics and nested operations at every call of caller-supplied code, on the real code'
NOTE['C40'] = 'Every result is compared with what the same operation gives alone on objects of its own; what that should be is decided by the other properties.'
TECH['C36'] = 'exhaustive enumeration of feature configurations, calls and histories from a C program, every call compared with the Rust operation'
NOTE['C36'] = 'The library is built and linked as a C user does; the oracle replays every call of the transcript on the Rust crate. One C compiler, one platform.'
claimed += [i for i, d in EXTRA.items() if os.path.exists(os.path.join(root, d, 'run.sh'))]
checks = []
for p in props:
    i = p['id']
    if i not in claimed: continue
    cmd = 'bash %s/run.sh' % EXTRA[i] if i in EXTRA else 'bash run.sh ' + i
    checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd, evidence_file='evidence/%s.json' % i,
        technique=TECH[i], level='model_checking', level_note=NOTE.get(i, NOTE['default'])))
m = dict(version=1, setup_cmd=' && '.join(['bash run.sh --build'] + ['bash %s/run.sh --build' % EXTRA[i] for i in claimed if i in EXTRA]),
    hooks=dict(guard='none: no hook was added to /repo', enable='the harness builds the unmodified crates of /repo through path dependencies; tools/rustc-wrap.sh adds load/store instrumentation at compile time', source_commits=[]),
    checks=checks,
    not_applicable=[dict(property=p['id'], reason='its check is not built yet') for p in props if p['id'] not in claimed])
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed')
