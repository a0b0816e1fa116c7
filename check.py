#!/usr/bin/env python3
"""check.py <property id> : decides one property on /repo's current sources.

Exit 0: every obligation of the property was discharged (or fails only as a
listed known finding).  Exit 1 with a VIOLATION line otherwise."""
import json, os, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'analysis'))
sys.setrecursionlimit(100000)
import resource, threading
threading.stack_size(512 << 20)

KNOWN = os.path.join(VERIF, 'known_findings.txt')
TRUSTED = ['rustc nightly (type checking and MIR construction)', '/verif/driver (MIR dumper)',
           '/verif/analysis (value-flow analyser, models of the library functions in natives.py)',
           'the specification guards in analysis/report.py, analysis/checks.py and analysis/cli.py']
ASSUME = ['accounts passed to the program are distinct accounts (aliased inputs are not modelled)',
          'at most 6 accounts are distinguished',
          'sysvars, introspection, invocations, resizes and borrows answer arbitrarily for soundness and positively for completeness',
          'the clock epoch is below 2^64-1',
          'compute, heap and transaction size limits are out of scope']
CLIENT = ['cluster, ledger and file answers are arbitrary, errors included',
          'a panic of the client ends the command and is not judged by this property',
          'arguments are parsed by clap as declared; payload lengths fit 32 bits',
          'futures are polled to completion in program order (the commands await each call before the next)']


def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l[len('known: property=%s ' % pid):])
    return out


LIMIT_S = 800
STATE = {}


def timeout(pid):
    """report what was decided when the time ran out"""
    ob = STATE.get('ob')
    if ob is None:
        import checks
        ob = checks.Ob(pid)
    ob.open = list(ob.open) + [('analysis', 'no answer within %d s' % LIMIT_S)]
    STATE['done'] = (ob, {})
    return main()


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    import build
    bad, done, units, extra, undecided = [], [], [], {}, []
    try:
        import registry
        ob, extra = STATE.get('done') or registry.decide(pid, tier)
        bad, done, units, undecided = ob.bad, ob.done, ob.units, ob.open
    except build.BuildError as e:
        bad.append(('build', 'the sources could not be analysed: ' + str(e)[-3000:], []))
    except Exception as e:
        bad.append(('analysis', 'the analysis could not decide the property: %s\n%s' % (e, traceback.format_exc()[-3000:]), []))
    kn = known(pid)
    fresh, old = [], []
    for b in bad:
        m = [k for k in kn if b[0] == k.split(' :: ')[0]]
        (old if m else fresh).append(b)
    rep = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
    if os.path.exists(rep):
        os.unlink(rep)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': dict({'explanation': 'Interprocedural guarded value-flow analysis of the MIR of the current sources; '
                            'each obligation is an entailment between the guards the analysis derived and the specification.',
                            'obligations': len(done) + len(undecided), 'undecided': len(undecided),
                            'undecided_names': [n for n, _ in undecided][:50], 'discharged': sum(1 for _, ok in done if ok),
                            'checker_cmd': 'python3 check.py ' + pid, 'trusted_base': TRUSTED, 'analysed': units,
                            'obligation_names': [n for n, _ in done][:200]}, **extra),
          'assumptions': CLIENT if pid >= 'C40' else ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for n, w in undecided[:5]:
        print('UNDECIDED %s: %s (the sources use constructs the analysis does not follow)' % (pid, n))
    for b in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, b[0]))
    if fresh:
        with open(rep, 'w') as f:
            for n, w, l in fresh:
                f.write('property %s\nobligation: %s\n%s\n' % (pid, n, w))
                if l:
                    f.write('decided at:\n' + ''.join('  %s\n' % x for x in l))
                f.write('\n')
        for n, w, l in fresh[:5]:
            print('%s: %s: %s' % (pid, n, w.split('\n')[0][:400]))
            if l:
                print('   at ' + '; '.join(str(x) for x in l[-2:]))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rep, VERIF)))
        return 1
    print('%s: %d obligations discharged%s in %.1fs' % (pid, len(done), ', %d undecided' % len(undecided) if undecided else '',
                                                        time.time() - t0))
    return 0


if __name__ == '__main__':
    rc = [1]

    def go():
        try:
            rc[0] = main()
        except BaseException:
            traceback.print_exc()
            print('VIOLATION property=%s replay=-' % sys.argv[1])
    # an answer within the time allowed, whatever the sources look like
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    th = threading.Thread(target=go, daemon=True)
    th.start()
    th.join(LIMIT_S)
    if th.is_alive():
        rc[0] = timeout(sys.argv[1])
    sys.stdout.flush()
    os._exit(rc[0])
