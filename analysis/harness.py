"""Entry states for the analysed functions."""
from interp import *
from natives import Natives, info_field
import terms as TM

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58(s):
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    b = n.to_bytes(32, 'big') if n else bytes(32)
    return b


PROGRAM_ID = b58('S1ashing11111111111111111111111111111111111')
SYSTEM_ID = bytes(32)
IX_SYSVAR = b58('Sysvar1nstructions1111111111111111111111111')
ED25519_ID = b58('Ed25519SigVerify111111111111111111111111111')

NACC = 6


def one(p, path_end, local=True):
    r = [i for i, f in enumerate(p.I) if f['path'].endswith(path_end) and f['body'] and (f['local'] or not local)]
    return r


class Acct:
    def __init__(self, p, i):
        self.i = i
        self.key = TM.region(('acct', i, 'key'), const(32))
        self.owner = TM.region(('acct', i, 'owner'), const(32))
        self.lam = TM.var(('acct', i, 'lamports'), 0, U64)
        self.data = TM.region(('acct', i, 'data'))
        C = p.cells
        # aliases are only distinguished by identity, see DESIGN.md
        C[('acct', i, 'key')] = mkAgg([leaf(rbytes(self.key))])
        C[('acct', i, 'owner')] = mkAgg([leaf(rbytes(self.owner))])
        C[('acct', i, 'lamports')] = mkL(self.lam)
        C[('acct', i, 'data')] = leaf(rbytes(self.data))
        C[('acctcell', i, 'lamports')] = mkNat('refcell', [leaf(ptr('cell', ('acct', i, 'lamports'), ()))])
        C[('acctcell', i, 'data')] = mkNat('refcell', [leaf(ptr('slice', ('acct', i, 'data'), (), ZERO, self.data.len, p.u8()))])
        t = [t for t in p.T if t and t['k'] == 'adt' and t['path'].endswith('AccountInfo') and t['variants']][0]
        f = []
        for n, ft in t['variants'][0]['fields']:
            if n in ('key', 'owner'):
                f.append(leaf(ptr('cell', ('acct', i, n), ())))
            elif n in ('lamports', 'data'):
                f.append(mkNat('rc', [leaf(ptr('cell', ('acctcell', i, n), ()))]))
            else:
                f.append(p.sym(ft, ('acct', i, n)))
        self.info = mkAgg(f)

    def bytes(self, n):
        return rbytes(getattr(self, n))


class Entry:
    """process_instruction(program id, accounts, input) from an arbitrary state"""

    def __init__(self, d, hooks=None):
        self.p = p = Prog(d)
        self.I = Interp(p, Natives(), hooks)
        inst = [i for i in one(p, 'processor::process_instruction')]
        if len(inst) != 1:
            raise Unsupported('process_instruction not found')
        self.inst = inst[0]
        self.acc = [Acct(p, i) for i in range(NACC)]
        at = [i for i, t in enumerate(p.T) if t and t['k'] == 'adt' and t['path'].endswith('AccountInfo') and t['variants']][0]
        p.cells[('accounts',)] = mkAgg([a.info for a in self.acc])
        self.n = TM.var('number of accounts', 0, NACC)
        self.input = TM.region('input')
        p.cells[('input',)] = leaf(rbytes(self.input))
        p.cells[('program id',)] = mkAgg([leaf(cbytes(PROGRAM_ID))])
        self.args = [leaf(ptr('cell', ('program id',), ())),
                     leaf(ptr('slice', ('accounts',), (), ZERO, self.n, at)),
                     leaf(ptr('slice', ('input',), (), ZERO, self.input.len, p.u8()))]

    def run(self):
        bdd.where = self.I.locate
        try:
            self.ret, self.st = self.I.run(self.inst, self.args, State(1, {}))
        finally:
            bdd.where = None
        return self


if __name__ == '__main__':
    import json, time, sys
    d = json.load(open('/tmp/dump/solana_slashing_program.json'))
    t = time.time()
    e = Entry(d)
    try:
        e.run()
    finally:
        I = e.I
        print('time', time.time() - t, 'blocks', I.blocks_done, 'bdd', len(bdd.names))
        print('panics')
        for x in I.panics:
            print(' ', x.msg, x.loc, show_guard(x.g)[:200])
        print('effects')
        for x in I.effects:
            print(' ', repr(x)[:600])
        print('unknown')
        for x in dict.fromkeys(I.unknown):
            print('  ', str(x)[:300])
        print(I.loopinfo)
    print(repr(e.ret)[:3000])
