"""Which analysis decides which property"""
import build


def decide(pid, tier):
    import checks
    if pid in checks.PROPS:
        d = build.dump('program')
        run = checks.Run(d)
        ob = checks.settle(pid, run, checks.PROPS[pid])
        extra = stats(run, d)
        return ob, extra
    import cli
    return cli.decide(pid, tier)


def stats(run, d):
    r = run._r
    out = {'functions_in_dump': len(d['insts'])}
    vis = set()
    ints = ([r.I] if r else []) + [f.I for f in run.fns.values()]
    for I in ints:
        vis |= {I.p.I[i]['path'] for i in I.visited}
    out['functions_analysed'] = len(vis)
    out['blocks_analysed'] = sum(I.blocks_done for I in ints)
    out['unmodelled'] = sorted({str(x)[:160] for I in ints for x in I.unknown})[:20]
    out['samples'] = sorted(vis)[:12]
    return out
