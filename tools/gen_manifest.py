"""Writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLOW = 'guarded value-flow analysis of the compiled MIR, obligations discharged by guard entailment'
T = {
    'C07': 'value-flow analysis; accept guard compared with itself after exchanging the shreds',
    'C08': 'value-flow analysis; classification tables over all 256 variant bytes',
    'C09': 'value-flow analysis; inventory of header byte reads in the verdict guards',
    'C10': 'value-flow analysis with loop summarisation (recurrence matched against the specified fold for every variant byte)',
    'C16': 'value-flow analysis of the final account memory',
    'C17': 'value-flow analysis of the final account memory',
    'C21': 'value-flow analysis of the final account memory',
    'C22': 'value-flow analysis of the final account memory',
    'C23': 'bounds extracted from the accept guards of reporting and closing, compared',
    'C25': 'effect analysis (inventory of account writes, resizes and invocations with their guards)',
    'C27': 'value-flow analysis of the built instruction', 'C28': 'value-flow analysis of the built instructions',
    'C29': 'value-flow analysis of the built instructions', 'C30': 'value-flow analysis of the built instruction',
    'C31': 'type layout query on the compiled types, value-flow analysis of the accessors',
    'C32': 'value-flow analysis of the conversions',
    'C33': 'effect analysis (error propagation of every fallible step)',
    'C34': 'panic reachability over all assert and panic sites',
    'C35': 'initialisation dataflow over MaybeUninit memory',
}
NOTE = ('Decided for all inputs from the MIR of the current sources (all callees inlined, states joined at merges, the one '
        'data-dependent loop summarised as a recurrence); trusts rustc, the MIR dumper, the analyser with its models of '
        'library and runtime functions, and the written specification. Runtime answers are arbitrary; accounts are distinct.')
NA = {
    'C60': 'quantifies over the behaviour of honest validators and the hardness of forging ed25519/SHA-256, which is not in this source',
    'C61': 'the validator that produces shreds is not part of this repository; the layouts themselves are decided by C08-C10',
    'C62': 'compute units, heap and transaction size are runtime quantities of the SBF build; no sound static bound is in reach here',
    'C63': 'depends on the runtime\'s account locking and transaction ordering, which is outside the source; the per-transaction part is C13',
    'C64': 'a liveness property over an external ledger and network',
}
import sys
sys.path.insert(0, os.path.join(V, 'analysis'))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
import checks
try:
    import cli
    CLI = cli.PROPS
    CLIT = cli.TECH
    CLINOTE = cli.NOTE
except ImportError:
    CLI, CLIT, CLINOTE = {}, {}, ''
out = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the analysis reads the compiler\'s MIR of the unmodified sources', 'source_commits': []},
       'checks': [], 'not_applicable': [],
       'notes': 'Every check rebuilds the MIR dump from /repo\'s working tree. The fix: commits in /repo are recorded in known_findings.txt.'}
for p in props:
    if p in checks.PROPS or p in CLI:
        cl = p in CLI
        out['checks'].append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py ' + p,
                              'technique': CLIT.get(p, 'guarded value-flow analysis of the client\'s MIR, obligations discharged by guard entailment') if cl else T.get(p, FLOW),
                              'level': 'other', 'level_note': CLINOTE if cl else NOTE})
    else:
        out['not_applicable'].append({'property': p, 'reason': NA.get(p, 'no check yet')})
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(out['checks']), 'checks', len(out['not_applicable']), 'not applicable')
