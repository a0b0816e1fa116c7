"""The obligations of every property of the command line client."""
import re, time
from cliworld import *
from harness import PROGRAM_ID, SYSTEM_ID
from report import conj, disj, imp, LE
import checks
from checks import Ob, Missing
import build

# calls that are always present, return a value the properties do not depend on
BENIGN = re.compile(r'CommandFactory>?::command|get_matches|CommitmentConfig::(confirmed|processed|finalized)'
                    r'|(Options|Config) as std::default::Default>::default')
SEND = re.compile(r'^(send_\w+|request_airdrop\w*)$')
SIM = re.compile(r'^simulate_\w+$')
RECORD_HEADER = 33       # spl_record::state::RecordData
HEADER = 114             # ViolationReport
PACKET = 1232


class NotFollowed(Exception):
    """the sources use a construct the obligations cannot be stated over"""


def root(nm):
    while isinstance(nm, tuple) and nm:
        nm = nm[0]
    return nm


def env_label(lab):
    """does a condition only say whether the surroundings cooperate?"""
    if isinstance(lab, tuple) and lab[0] == 'bincode ok':
        return True
    if not isinstance(lab, tuple) or lab[0] not in ('is', 'bool'):
        return False
    r = root(lab[1])
    if lab[0] == 'bool':
        return r == 'slots'
    if r in ('cli', 'lazylock'):
        return True
    return lab[2] in ('Ok', 'Err')


def ok_label(lab):
    return isinstance(lab, tuple) and (lab[0] == 'bincode ok' or lab[0] == 'is' and lab[2] == 'Ok' or lab[0] == 'bool' and root(lab[1]) == 'slots')


class CRun:
    """one command, analysed"""

    def __init__(self, d, name):
        self.name = name
        self.C = Command(d, name)
        self.I, self.p = self.C.I, self.C.p
        self.C.run()
        self.st, self.ret = self.C.st, self.C.ret

    def fog(self):
        return self.I.fog

    def unknown(self):
        return [u for u in self.I.unknown if not BENIGN.search(str(u))]

    def effects(self, *kinds):
        return [e for e in self.I.effects if e.kind in kinds]

    def rpcs(self, pat):
        return [e for e in self.I.effects if e.kind == 'rpc' and re.search(pat, e.args[0])]

    def txs(self, sim=True):
        """(effect, transaction) of everything submitted or simulated"""
        out = []
        for e in self.I.effects:
            if e.kind != 'rpc' or not (SEND.match(e.args[0]) or sim and SIM.match(e.args[0])):
                continue
            t = [a for a in e.args if type(a) is Nat and a.kind == 'tx']
            if not t:
                raise NotFollowed('what %s submits' % e.args[0])
            out.append((e, t[0]))
        return out

    # ---- reading values
    def x(self, v):
        return self.p.expand(v) if type(v) is Sym else v

    def field(self, v, tid_or_agg, name=None):
        raise NotImplementedError

    def bytes_in(self, v, g=1):
        """the leaves of a key or byte string value: [(guard, Bytes)]"""
        v = self.x(v)
        while type(v) is Agg and len(v.f) == 1:
            v = self.x(v.f[0])
        if type(v) is Nat and v.kind in ('vec', 'rc') and len(v.f) == 1:
            return self.bytes_in(v.f[0], g)
        if type(v) is G and all(isinstance(l, Bytes) for _, l in v.items):
            return [(c, l) for c, l in v.items if AND(c, g) != 0]
        raise NotFollowed('bytes of %s' % (repr(v)[:200],))

    def lins(self, v, g=1):
        v = self.x(v)
        while type(v) is Agg and len(v.f) == 1:
            v = self.x(v.f[0])
        if type(v) is G and all(isinstance(l, Lin) for _, l in v.items):
            return [(c, l) for c, l in v.items if AND(c, g) != 0]
        if type(v) is G and all(isinstance(l, Bytes) for _, l in v.items):
            return [(c, LE(l, 8)) for c, l in v.items if AND(c, g) != 0]
        raise NotFollowed('number %s' % (repr(v)[:200],))

    def neq(self, v, want, g=1):
        """where a value differs from the specified bytes or number"""
        if isinstance(want, Bytes):
            return disj(*[AND(c, NOT(TM.beq(b, want))) for c, b in self.bytes_in(v, g)] or [0])
        return disj(*[AND(c, NOT(TM.eq(l, want))) for c, l in self.lins(v, g)] or [0])

    def enum(self, v, name):
        """(guard, fields) of an enum variant"""
        v = self.x(v)
        if type(v) is not Enum:
            raise NotFollowed('%s of %s' % (name, repr(v)[:120]))
        return v.v.get(self.p.var(v.tid, name), (0, ()))

    def struct(self, v, path):
        """fields by name of a struct value of a known type"""
        t = [i for i, t in enumerate(self.p.T) if t and t['k'] == 'adt' and re.search(path, t['path']) and t.get('variants')]
        if not t:
            raise NotFollowed('type ' + path)
        v = self.x(v)
        n = [n for n, _ in self.p.fields(t[0])]
        if type(v) is not Agg or len(v.f) != len(n):
            raise NotFollowed('%s: %s' % (path, repr(v)[:120]))
        return dict(zip(n, v.f))

    # ---- the list of reports
    def listing(self):
        """the listing of the accounts owned by the program: (effect, sequence, length, element)"""
        r = self.rpcs(r'^get_program_accounts')
        if len(r) != 1:
            raise NotFollowed('%d listings of program accounts' % len(r))
        e = r[0]
        g, f = self.enum(e.result, 'Ok')
        v = self.x(f[0])
        if type(v) is not Nat or v.kind != 'vec' or type(v.f[0]) is not Nat or v.f[0].kind != 'symseq':
            raise NotFollowed('listing')
        s = v.f[0]
        n = s.f[0]
        n = n.items[0][1] if type(n) is G else n
        return e, s, n

    def report(self, J):
        """key, data region, lamports of the J-th listed account"""
        e, s, n = self.listing()
        el = self.x(self.p.sym(s.tag[1], ('elem', s.tag[2], J)))
        k = self.bytes_in(el.f[0])
        a = self.struct(el.f[1], r'^solana_account::Account$|account::Account$')
        b = self.bytes_in(a['data'])
        if len(k) != 1 or len(b) != 1:
            raise NotFollowed('listed account')
        return Listed(k[0][1], b[0][1], a['lamports'])

    def pick(self, field):
        """the key an optional argument names: (given, Bytes or None)"""
        v = self.x(self.C.arg(field))
        given = NOT(self.enum(v, 'None')[0])
        nm = ((('args',), field), 'Some', '0')
        seen, st, out = set(), [], {}
        for e in self.I.effects:
            st.append(GuardKey(e.g))
            st.extend(x for x in e.args)
        aa, rr = atoms_of(*st)
        for r in rr:
            if derives(r.key, nm) and TM.is_const(r.len) and r.len.c == 32:
                out[r.id] = r
        if len(out) == 1:
            return given, rbytes(list(out.values())[0])
        if out:
            raise NotFollowed('argument ' + field)
        return given, None

    def filt(self, sel, R):
        """every given filter matches the report"""
        out = []
        for field, b in sel:
            given, k = self.pick(field)
            if k is None:
                if self.unknown():
                    raise NotFollowed('argument ' + field)
                k = rbytes(TM.region(('argument', field), const(32)))
            out.append(imp(given, TM.beq(k, b)))
        return conj(*out)


NAMES = {}


def derives(k, nm):
    """is nm the innermost name a key was made from?"""
    st = [k]
    seen = set()
    while st:
        x = st.pop()
        if x == nm:
            return True
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == '#':
                continue
            if x not in seen:
                seen.add(x)
                st.extend(x)
        elif isinstance(x, Sym):
            st.append(x.name)
        elif isinstance(x, (Agg, Nat)):
            st.extend(x.f)
        elif isinstance(x, Enum):
            for c, f in x.v.values():
                st.extend(f)
    return False


class Listed:
    def __init__(self, key, data, lam):
        self.key, self.data, self.lam = key, data, lam
        sub_ = lambda o, n: TM.bsub(data, const(o), const(n))
        self.len = TM.ZERO if False else blen(data)
        self.version = LE(sub_(0, 1), 1)
        self.reporter, self.destination, self.epoch, self.node = sub_(1, 32), sub_(33, 32), LE(sub_(65, 8), 8), sub_(73, 32)
        self.slot, self.kind = LE(sub_(105, 8), 8), LE(sub_(113, 1), 1)
        self.is_report = AND(TM.le(const(HEADER), self.len), NOT(TM.eq(self.version, ZERO)))
        self.proof = TM.bsub(data, const(HEADER), sub(self.len, const(HEADER)))


def blen(b):
    n = ZERO
    for s in b.segs:
        n = add(n, TM.seglen(s))
    return n


J = TM.of(TM.atom('var', ('J',), 0, 1 << 40))


def normal(run, e, vals):
    """restates an effect performed in some iteration of a loop, and values
    used in it, for the J-th element of the list the loop follows; a list that
    was itself built by selecting elements counts as the list it was selected
    from.  Returns (guard, values)"""
    objs = [GuardKey(e.g)] + list(vals)
    aa, rr = atoms_of(*objs)
    sels = [a for a in aa if a.kind == 'sel']
    ks = {k.t[0][0] for _, k, _ in e.loops if isinstance(k, Lin) and k.t}
    if sels:
        # innermost: sel(gk, element, condition, K)
        if len(sels) != 1:
            raise NotFollowed('nested selections')
        s = sels[0]
        gk, cond = s.args[0], s.args[2]
        cond = cond.g if isinstance(cond, B) else cond
        c = Subst(lambda a: J if a is gk else None).guard(cond)
        K = s.args[3]
        if not isinstance(K, Lin) or len(K.t) != 1 or K.t[0][0] not in ks:
            raise NotFollowed('selected element')
        kk = K.t[0][0]

        def lab(l):
            # the loop's own bound: the element is one of the selected
            if isinstance(l, tuple) and l[0] == 'le' and isinstance(l[1], Lin) and kk in [a for a, _ in l[1].t]:
                oth = [a for a, _ in l[1].t if a is not kk]
                if len(oth) == 1 and oth[0].kind == 'count' and oth[0].args[0] is gk:
                    cap = oth[0].args[2]
                    # count - K > 0
                    return NOT(AND(c, TM.lt(J, cap)))
            return None
        sb = Subst(lambda a: J if a is s else None, flabel=lab)
    else:
        if len(ks) > 1:
            # the loop whose counter the values depend on
            ks = {a for a in atoms_of(*vals)[0] if a in ks} or ks
        if len(ks) != 1:
            raise NotFollowed('loop of the effect')
        k = ks.pop()
        sb = Subst(lambda a: J if a is k else None)
    return sb.guard(e.g), [sb.val(v) for v in vals]


def exists_env(g):
    vs = [v for v in bdd.support(g) if env_label(bdd.names[v])]
    return bdd.exists(g, vs)


def all_ok(g):
    """every remote call and lookup succeeds"""
    for v in sorted(bdd.support(g), reverse=True):
        if ok_label(bdd.names[v]):
            g = bdd.cofactor(g, v, 1)
    return g


class COb(Ob):
    """obligations over summarised loops: a witness may take every loop to its
    end if the elements the obligation is about do not make it leave earlier"""

    def definite(self, g):
        d = checks.definite(g, self.run.fog() if self.run else 0)
        if d != 0 or self.run is None:
            return d
        g = self.complete(g)
        return checks.definite(g, self.run.fog()) if g != 0 else 0

    def complete(self, g):
        """the part of g where every loop runs to its end"""
        cs = 1
        Ls = self.run.I.completes
        for L in Ls:
            if L.passed in (0, 1):
                continue
            v = bdd.var[L.passed]
            if v not in bdd.support(g):
                continue
            ex = disj(*L.exits)
            g = bdd.cofactor(g, v, 1)
            # it went on at the element the obligation is about
            for k in (L.K, J.t[0][0]):
                cs = AND(cs, NOT(AND(Subst(lambda a: TM.of(k) if a is L.K else None).guard(ex),
                                     TM.lt(TM.of(k), L.bound) if L.bound is not None else 1)))
        g = AND(g, cs)
        # a loop left at the end of a list of one of several lengths
        for L in Ls:
            if L.passed != 0 or len(L.kxs) != 1:
                continue
            kx = list(L.kxs.values())[0].t[0][0]
            if kx not in atoms_of(GuardKey(g))[0]:
                continue
            rs = []
            for v in bdd.support(L.exits[0]):
                if v in TM.le_labels:
                    form, k = TM.le_labels[v]
                    c = dict(form.t).get(L.K)
                    if c is not None:
                        rs.append(addc(TM.add(form, TM.of(L.K)), -k) if c == -1 else None)
            if not rs or None in rs:
                continue
            g = disj(*[Subst(lambda a: r if a is kx else None).guard(g) for r in rs])
        return theory_sat(g)


def ixs(t):
    v = t.f[0]
    if type(v) is Nat and v.kind == 'vec':
        v = v.f[0]
    if type(v) is not Agg or not all(type(x) is Nat and x.kind == 'ix' for x in v.f):
        raise NotFollowed('instructions of a transaction')
    return v.f


def dry_run(run):
    f = [n for n, _ in run.p.fields(run.C.ct)]
    v = run.C.cli.f[f.index('dry_run')]
    v = run.x(v)
    if type(v) is not B:
        raise NotFollowed('dry run option')
    return v.g


def where(e):
    return [e.loc] if e.loc else []


# ---------------------------------------------------------------- properties
def c40(ob, run):
    dr = dry_run(run)
    n = 0
    for e in run.effects('rpc'):
        if SEND.match(e.args[0]):
            n += 1
            ob.unsat('%s: %s is not reached in a dry run' % (run.name, e.args[0]), AND(e.g, dr),
                     'with --dry-run the %s command submits a transaction' % run.name)
    ob.units.append('%s: %d submissions, %d remote calls' % (run.name, n, len(run.effects('rpc'))))
    ob.must('%s: some submission is analysed' % run.name, n or run.name == 'Display', 'no submission found')


CLOSE_FILTERS = ('report_account', 'node_pubkey', 'reporter', 'destination')


def epoch_now(run):
    r = run.rpcs(r'^get_epoch_info')
    if len(r) != 1:
        raise NotFollowed('%d epoch queries' % len(r))
    g, f = run.enum(r[0].result, 'Ok')
    e = run.struct(f[0], r'EpochInfo$')
    return run.lins(e['epoch'])[0][1]


def close_txs(run):
    """[(effect, tx, ix)] of the report-closing transactions"""
    out = []
    for e, t in run.txs():
        for x in ixs(t):
            if x.tag[:2] == ('solana_slashing_program', 'close_violation_report'):
                out.append((e, t, x))
    return out


def listing_config(ob, run, proof):
    """the listing returns every account of the program, with all its data"""
    e, s, n = run.listing()
    b = run.bytes_in(e.args[1], e.g)
    ob.unsat('the accounts of the slashing program are listed', AND(e.g, disj(*[AND(c, NOT(TM.beq(x, TM.cbytes(PROGRAM_ID)))) for c, x in b])),
             'the listing asks for the accounts of another program')
    if len(e.args) < 3:
        return
    cfg = run.struct(e.args[2], r'RpcProgramAccountsConfig$')
    g, f = run.enum(cfg['filters'], 'Some')
    if AND(g, e.g) != 0:
        raise NotFollowed('filters applied by the remote node')
    acc = run.struct(cfg['account_config'], r'RpcAccountInfoConfig$')
    g, f = run.enum(acc['encoding'], 'Some')
    good = 0
    if g != 0:
        for v in ('Base64', 'Base64Zstd', 'JsonParsed'):
            good = OR(good, AND(g, run.enum(f[0], v)[0]))
    ob.unsat('the listing uses an encoding for any account size', AND(e.g, NOT(good)),
             'accounts larger than 128 bytes cannot be encoded as requested, the listing fails')
    g, f = run.enum(acc['data_slice'], 'Some')
    if AND(g, e.g) != 0:
        sl = run.struct(f[0], r'UiDataSliceConfig$')
        ob.unsat('the listing returns the data from its start', conj(e.g, g, run.neq(sl['offset'], ZERO)), 'account data is cut off at the front')
        need = 10 << 20 if proof else HEADER
        bad = disj(*[AND(c, TM.lt(l, const(need))) for c, l in run.lins(sl['length'])])
        ob.unsat('the listing returns enough of the data', conj(e.g, g, bad), 'account data is cut off at the end')
        if not proof:
            raise NotFollowed('sliced account data')


def eligible(run, R, n):
    now = epoch_now(run)
    sel = list(zip(CLOSE_FILTERS, (R.key, R.node, R.reporter, R.destination)))
    return {'it is one of the listed accounts': TM.lt(J, n), 'it holds a report': R.is_report,
            'three epochs have passed': TM.le(addc(R.epoch, 3), now),
            'the filters match': run.filt(sel, R)}


def close_cases(run):
    """normalised closing transactions: [(effect, guard, target, destination, tx)]"""
    out = []
    for e, t, x in close_txs(run):
        g, v = normal(run, e, [x.f[0], x.f[1], t])
        out.append((e, g, v[0], v[1], v[2]))
    if not out:
        raise NotFollowed('no closing transaction')
    return out


def c42(ob, run):
    lst, s, n = run.listing()
    listing_config(ob, run, False)
    R = run.report(J)
    E = eligible(run, R, n)
    some = 0
    for e, g, tgt, dst, t in close_cases(run):
        for k, c in E.items():
            ob.unsat('%s: closed only if %s' % (e.args[0], k), AND(g, NOT(c)), 'a report is closed although it is not the case that ' + k)
        some = OR(some, exists_env(g))
    lively(ob, run, 'an eligible report is closed', conj(*E.values(), NOT(some)), 'a report that is old enough and matches is skipped')
    no_early_exit(ob, run, 'the closing loop')
    ob.units.append('%d closing transactions' % len(close_cases(run)))


def no_early_exit(ob, run, what):
    """a loop over a list is only left early when a remote call fails"""
    n = 0
    for L in run.I.completes:
        if not any(l.t and l.t[0][0] is L.K for e in run.effects('rpc') for _, l, _ in e.loops if isinstance(l, Lin)
                   and (SEND.match(e.args[0]) or SIM.match(e.args[0]))):
            continue
        if L.bound is None:
            ob.open.append((what, 'the loop %s has no recognised end' % L.name))
            continue
        n += 1
        for x in L.exits:
            ob.unsat('%s: left early only on failure' % L.name, all_ok(x),
                     'a loop over the listed accounts is left before its end although every remote call succeeds')
    ob.units.append('%d loops' % n)


def outputs(run, pat):
    """sequences of output records of a type in what the command prints: [(effect, sequence)]"""
    ts = {i for i, t in enumerate(run.p.T) if t and t['k'] == 'adt' and re.search(pat, t['path'])}
    out = []
    for e in run.effects('output'):
        st = list(e.args)
        while st:
            v = st.pop()
            if type(v) is Nat and v.kind == 'vec' and v.tag in ts:
                out.append((e, v.f[0]))
            elif type(v) in (Agg, Nat):
                st.extend(v.f)
            elif type(v) is G:
                st.extend(l for _, l in v.items)
    return out


def base_seq(s):
    """the selection behind a sorted sequence: (sequence, [sort descriptions])"""
    how = []
    while type(s) is Nat and s.kind == 'symseq' and s.tag[2][0] == 'sorted':
        how.append(s.tag[2])
        s = s.tag[2][1]
    if type(s) is not Nat or s.kind != 'symseq' or s.tag[2][0] != 'filt':
        raise NotFollowed('output list %s' % repr(s)[:160])
    return s, how


def out_items(run, pat):
    o = outputs(run, pat)
    if len(o) != 1:
        raise NotFollowed('%d output lists' % len(o))
    e, q = o[0]
    if type(q) is not Nat:
        raise NotFollowed('output list %s' % repr(q)[:160])
    s, how = base_seq(q)
    gk = s.tag[2][1]
    cnt = s.f[0]
    cnt = cnt.items[0][1] if type(cnt) is G else cnt
    cap = cnt.t[0][0].args[2]
    aa, _ = atoms_of(s.f[1])
    if any(a.kind == 'sel' for a in aa):
        raise NotFollowed('list selected from a selection')
    sb = Subst(lambda a: J if a is gk else None)
    g = s.f[2].g if isinstance(s.f[2], B) else s.f[2]
    return e, how, AND(sb.guard(g), TM.lt(J, cap)), sb.val(s.f[1])


def c43(ob, run):
    lst, s, n = run.listing()
    R = run.report(J)
    sent, sig = 0, None
    for e, g, tgt, dst, t in close_cases(run):
        ob.must('%s: one instruction' % e.args[0], len(ixs(t)) == 1, 'a closing transaction carries further instructions', where(e))
        ob.unsat('%s: closes the listed account' % e.args[0], AND(g, run.neq(tgt, R.key)), 'the close names another account')
        ob.unsat('%s: to the recorded destination' % e.args[0], AND(g, run.neq(dst, R.destination)),
                 'the close names a destination that is not the one stored in the report')
        payer_signs(ob, run, e, g, t)
    e, how, cond, item = out_items(run, r'CloseReportOutput$')
    f = run.struct(item, r'CloseReportOutput$')
    done = 0
    for x, g, tgt, dst, t in close_cases(run):
        done = OR(done, AND(g, x.ok if x.ok is not None else 1))
    # the same remote answers are named differently inside the list: forget them
    lively(ob, run, 'the summary lists a report that was closed', AND(e.g, AND(cond, NOT(exists_env(done)))), 'the summary lists a report for which no close was attempted')
    lively(ob, run, 'the summary lists every closed report', AND(exists_env(done), NOT(exists_env(cond))), 'a closed report is missing from the summary')
    for k, w in (('report_account', R.key), ('pubkey', R.node), ('reporter', R.reporter), ('destination', R.destination)):
        ob.unsat('the summary shows the report\'s ' + k, AND(cond, run.neq(f[k], w)), 'the summary shows another value as ' + k)
    ob.unsat('the summary shows the balance', AND(cond, run.neq(f['lamports'], run.lins(R.lam)[0][1])), 'the summary shows another balance')
    some, _ = run.enum(f['signature'], 'Some')
    ob.unsat('a signature is shown exactly if something was submitted', AND(cond, bdd.XOR(some, NOT(dry_run(run)))),
             'the summary shows a signature for a simulation, or none for a submission')


def payer(run):
    """the fee payer's key: the given signer, or the default one"""
    raise NotImplementedError


def payer_keys(run, v):
    v = run.x(v)
    g, f = run.enum(v, 'Some')
    if g != 1 and theory_sat(NOT(g)) != 0:
        raise NotFollowed('optional payer')
    return run.bytes_in(f[0])


def payer_signs(ob, run, e, g, t):
    """the transaction names a fee payer, who is its only signer"""
    pk = run.enum(t.f[1], 'Some')
    ob.unsat('%s: a fee payer is named' % e.args[0], AND(g, NOT(pk[0])), 'the transaction names no fee payer')
    if pk[0] == 0:
        return
    sg = t.f[2].f
    bad = 1
    for s in sg:
        m = disj(*[conj(c1, c2, TM.beq(a, b)) for c1, a in run.bytes_in(pk[1][0]) for c2, b in run.bytes_in(s)])
        bad = AND(bad, NOT(m))
    ob.unsat('%s: the fee payer signs' % e.args[0], AND(g, bad), 'the fee payer does not sign the transaction')


def c44(ob, run):
    lst, s, n = run.listing()
    listing_config(ob, run, True)
    R = run.report(J)
    e, how, cond, item = out_items(run, r'::ViolationReportOutput$|^output::ViolationReportOutput$')
    sel = [('node_pubkey', R.node), ('reporter', R.reporter)]
    m = run.filt(sel, R)
    ev = run.x(run.C.arg('epoch'))
    g, f = run.enum(ev, 'Some')
    if g != 0:
        m = AND(m, imp(g, TM.eq(run.lins(f[0])[0][1], R.epoch)))
    want = conj(TM.lt(J, n), R.is_report, m)
    ob.unsat('only matching reports are listed', AND(cond, NOT(want)), 'a listed entry is not a report matching the filters')
    lively(ob, run, 'every matching report is listed', AND(want, NOT(exists_env(cond))), 'a report that matches every filter is not listed')
    for L in run.I.completes:
        for x in L.exits:
            ob.unsat('%s: left early only on failure' % L.name, all_ok(x), 'the listing is cut short although every remote call succeeds')
    f = run.struct(item, r'ViolationReportOutput$')
    for k, w in (('report_address', R.key), ('pubkey', R.node), ('reporter', R.reporter), ('destination', R.destination),
                 ('epoch', R.epoch), ('slot', R.slot), ('proof', R.proof)):
        ob.unsat('an entry shows the report\'s ' + k, AND(cond, run.neq(f[k], w)), 'an entry shows another value as ' + k)
    d = run.enum(f['violation_type'], 'DuplicateBlockProof')[0]
    ob.unsat('an entry shows the violation type', AND(cond, bdd.XOR(d, TM.eq(R.kind, ONE))), 'an entry shows another violation type')
    ob.must('the list is sorted', how, 'the list is not sorted by slot')
    if how:
        _, orig, x1, x2, lt, le, stable = how[0]
        s1 = run.lins(run.struct(x1, r'ViolationReportOutput$')['slot'])[0][1]
        s2 = run.lins(run.struct(x2, r'ViolationReportOutput$')['slot'])[0][1]
        # the order must put a smaller slot first
        ob.unsat('a smaller slot comes first', AND(TM.lt(s1, s2), NOT(lt.g)), 'an entry with a smaller slot is not put first')
        ob.unsat('a larger slot does not come first', AND(TM.lt(s2, s1), le.g), 'an entry with a larger slot is put first')


def c49(ob, run):
    lst, s, n = run.listing()
    R = run.report(J)
    aa = 0
    bad = NOT(R.is_report)
    for x in run.I.panics:
        a, r = atoms_of(GuardKey(x.g))
        g, _ = normal_guard(run, x)
        if g is None:
            continue
        ob.unsat('%s: %s' % (run.name, x.msg), all_ok(AND(g, bad)) if False else AND(all_ok(g), bad),
                 'an account that holds no report aborts the command')
    for e in run.effects('exit'):
        g, _ = normal_guard(run, e)
        if g is not None:
            ob.unsat('%s: exit' % run.name, AND(all_ok(g), bad), 'an account that holds no report ends the command')
    for L in run.I.completes:
        if L.bound is not None and L.bound is not n and not made_of(L.bound, s.tag[2]):
            continue        # not over the listed accounts
        for x in L.exits:
            g = Subst(lambda a: J if a is L.K else None).guard(x)
            ob.unsat('%s: %s goes on' % (run.name, L.name), AND(all_ok(g), bad), 'an account that holds no report ends the listing')
    ob.units.append('%s: %d possible panics, %d loops' % (run.name, len(run.I.panics), len(run.I.completes)))


def normal_guard(run, x):
    """guard of a panic or exit inside a loop, for the J-th element; None outside every loop"""
    ks = {k.t[0][0] for _, k, _ in x.loops if isinstance(k, Lin) and k.t}
    aa, _ = atoms_of(GuardKey(x.g))
    ks = {k for k in ks if k in aa}
    if not ks:
        return None, None
    if len(ks) > 1:
        return None, None
    k = ks.pop()
    return Subst(lambda a: J if a is k else None).guard(x.g), k


# ---------------------------------------------------------------- attach
def one(xs, what):
    xs = list(xs)
    if len(xs) != 1:
        raise NotFollowed('%d %s' % (len(xs), what))
    return xs[0]


def neqv(run, a, b, g):
    """where two key or number values differ"""
    la, lb = run.bytes_in(a, g), run.bytes_in(b, g)
    return disj(*[conj(g, c1, c2, NOT(TM.beq(x, y))) for c1, x in la for c2, y in lb] or [0])


class Scan:
    """the scan of the attach command: which loop goes over the duplicate slots,
    and the transactions of each step"""

    def __init__(self, run):
        self.run = run
        I = run.I
        e = self.scan = one(run.effects('scan'), 'queries for duplicate slots')
        self.nm = e.args[0]
        self.n = slot_count(self.nm)
        self.loop = one([L for L in I.completes if L.bound is self.n], 'loops over the duplicate slots')
        self.K = TM.of(self.loop.K)
        self.slot = slot_at(self.nm, self.K)
        self.prefix = self.loop.outer + (self.K,)
        v = run.x(run.C.arg('end_slot'))
        g, f = run.enum(v, 'Some')
        self.in_range = imp(g, TM.le(self.slot, run.lins(f[0])[0][1])) if g != 0 else 1
        self.kinds = {}
        for e, t in run.txs():
            tags = [x.tag[:2] for x in ixs(t)]
            k = None
            for x in tags:
                k = {('solana_system_interface', 'create_account'): 'create', ('spl_record', 'write'): 'write',
                     ('spl_record', 'close_account'): 'close'}.get(x)
                if x[0] == 'solana_slashing_program' and x[1].startswith('duplicate_block_proof'):
                    k = 'report'
                if k:
                    break
            if k is None:
                raise NotFollowed('transaction of %s' % (tags,))
            self.kinds.setdefault(k, []).append((e, t))

    def of(self, kind):
        return self.kinds.get(kind, [])

    def inside(self, e):
        """is an effect part of processing one slot?"""
        ks = tuple(k for _, k, _ in e.loops)
        return ks[:len(self.prefix)] == self.prefix and (self.loop.name in [n for n, _, _ in e.loops])

    def need(self, kind):
        xs = self.of(kind)
        if not xs:
            raise NotFollowed('no %s transaction' % kind)
        return xs

    def leader(self):
        """(effect, its answer is a nonempty list, key bytes of the slot's leader)"""
        run = self.run
        c = [e for e in run.rpcs(r'^get_slot_leaders$') if self.inside(e)]
        e = one(c, 'queries for the slot leader')
        g, f = run.enum(e.result, 'Ok')
        v = run.x(f[0])
        if type(v) is not Nat or v.kind != 'vec' or type(v.f[0]) is not Nat or v.f[0].kind != 'symseq':
            raise NotFollowed('slot leaders')
        q = v.f[0]
        n = q.f[0]
        n = n.items[0][1] if type(n) is G else n
        key = rbytes(TM.region(((q.tag[2], '[0]'), '0'), const(32)))
        return e, TM.le(ONE, n), key

    def pda(self):
        e, some, key = self.leader()
        seeds = TM.concat(key, TM.bytes_of_int(self.slot, 8), TM.cbytes(b'\x01'))
        return rbytes(TM.region(('pda', seeds, TM.cbytes(PROGRAM_ID)), const(32)))

    def proof(self):
        run = self.run
        e = one([e for e in run.effects('proof') if self.inside(e)], 'proofs read from the ledger')
        g, f = run.enum(e.result, 'Some')
        f = run.struct(f[0], r'DuplicateSlotProof$')
        b = [rbytes(TM.region(('payload', f[k]))) for k in ('shred1', 'shred2')]
        return e, g, b

    def keypair(self):
        e = one([e for e in run_in(self, 'keypair')], 'new key pairs')
        return e, rbytes(TM.region(('pubkey', e.args[0]), const(32)))

    def recorded(self):
        """the existence query and when it says that the violation is recorded"""
        run = self.run
        first = min(run.I.effects.index(e) for e, t in self.need('create'))
        c = []
        for e in run.rpcs(r'^get_account(_with_\w+)?$|^get_account_data$|^get_multiple_accounts'):
            if self.inside(e) and run.I.effects.index(e) < first:
                c.append(e)
        if not c:
            return None, 0
        e = one(c, 'existence queries')
        if e.args[0] != 'get_account_with_commitment':
            raise NotFollowed('existence query by ' + e.args[0])
        g, f = run.enum(e.result, 'Ok')
        r = run.struct(f[0], r'response::Response$|::Response$')
        s, a = run.enum(r['value'], 'Some')
        a = run.struct(a[0], r'^solana_account::Account$|account::Account$')
        d = one(run.bytes_in(a['data']), 'data')[1]
        o = one(run.bytes_in(a['owner']), 'owner')[1]
        return e, conj(s, TM.le(ONE, blen(d)), NOT(TM.eq(LE(TM.bsub(d, ZERO, ONE), 1), ZERO)), TM.beq(o, TM.cbytes(PROGRAM_ID)))


def run_in(S, kind):
    return [e for e in S.run.effects(kind) if S.inside(e)]


def tried(xs):
    """the submission (or simulation) was made"""
    return disj(*[e.g for e, t in xs])


def cap_axiom(S):
    """a slot before the end of the list that the loop gets to"""
    return TM.lt(S.K, S.n)


def lively(ob, run, name, g, why):
    """something that has to happen does not: only decided if everything was followed"""
    if run.unknown():
        if theory_sat(g) != 0:
            ob.open.append((name, why + ': ' + '; '.join(str(u)[:160] for u in run.unknown()[:3])))
            return False
        g = 0
    return ob.unsat(name, g, why)


def c46(ob, run):
    S = Scan(run)
    le, some, key = S.leader()
    ob.unsat('each slot is looked up by its own number', AND(le.g, run.neq(le.args[1], S.slot)), 'the leader of another slot is queried')
    # nothing outside of the range, everything inside
    for kind, xs in S.kinds.items():
        if kind != 'close':
            for e, t in xs:
                ob.unsat('%s %s: only up to the end slot' % (e.args[0], kind), AND(e.g, NOT(S.in_range)), 'a slot after the end slot is processed')
    lively(ob, run, 'every slot up to the end slot is processed', conj(TM.lt(S.K, S.n), S.in_range, NOT(exists_env(le.g))),
             'a duplicate slot in the range is skipped')
    if S.loop.bound is None:
        raise NotFollowed('scan loop')
    for x in S.loop.exits:
        ob.unsat('the scan goes on up to the end slot', conj(x, TM.lt(S.K, S.n), S.in_range), 'the scan stops at a slot in the range')
    # where the scan starts
    start = S.scan.args[1]
    v = run.x(run.C.arg('start_slot'))
    g, f = run.enum(v, 'Some')
    given = run.lins(f[0])[0][1]
    outer = [L for L in run.I.completes if L.recs and any(L.K is k.t[0][0] for k in S.loop.outer)]
    ls = run.lins(start)
    if len(ls) != 1:
        raise NotFollowed('start slot')
    rec = None
    for L in outer:
        for lv, init, nxt in L.recs:
            ll = lv.items[0][1] if type(lv) is G and len(lv.items) == 1 else lv
            if ll is ls[0][1]:
                rec = (L, init, nxt)
    if rec is None:
        # the first scan is the only one, or each scan starts from the same place
        if any(is_lv(a.args) for a in atoms_of(start)[0] if a.kind == 'var'):
            raise NotFollowed('start slot recurrence')
        init, nxt, L = start, None, None
    else:
        L, init, nxt = rec
    ob.unsat('the first scan starts at the start slot', disj(conj(g, run.neq(init, given)), conj(NOT(g), run.neq(init, ZERO))),
             'the scan does not start at the given start slot, or at 0')
    ax = S.loop.axiom()
    cont = run.x(run.C.arg('continuous'))
    if type(cont) is not B:
        raise NotFollowed('continuous option')
    kx = [k for k in S.loop.kxs.values()]
    # after the whole list, or after the slots before the one at which it stopped
    cases = [(S.loop.passed, S.n)] + [(AND(NOT(S.loop.passed), Subst(lambda a, k=k: k if a is S.loop.K else None).guard(S.loop.outs[i])), k)
                                      for i, k in S.loop.kxs.items()]
    back = L.back if L else disj(*[x.back for x in run.I.completes if any(x.K is k.t[0][0] for k in S.loop.outer)])
    for i, (c, k) in enumerate(cases):
        c = conj(c, cont.g, back)
        if c == 0:
            continue
        last = addc(slot_at(S.nm, addc(k, -1)), 1)
        old = ls[0][1]
        if nxt is None:
            ob.unsat('the next scan resumes after the last slot (%d)' % i, conj(c, TM.lt(ZERO, k)), 'in continuous mode every scan starts from the same slot')
            continue
        ob.unsat('the next scan resumes after the last slot (%d)' % i, conj(c, TM.lt(ZERO, k), run.neq(nxt, last, AND(c, TM.lt(ZERO, k)))),
                 'in continuous mode the next scan does not resume after the last slot processed')
        ob.unsat('the next scan resumes where it was without slots (%d)' % i, conj(c, TM.le(k, ZERO), run.neq(nxt, old, AND(c, TM.le(k, ZERO)))),
                 'in continuous mode the next scan skips slots although none were found')
        # a recurrence without a closed form is looked at after its first steps
        for m in (1, 2):
            u = unrolled(run, nxt, k, m)
            if u is None:
                break
            at = Subst(lambda a: const(m) if TM.of(a) is k else None)
            ob.unsat('the next scan resumes after slot %d (%d)' % (m, i), AND(at.guard(c), run.neq(u, addc(slot_at(S.nm, const(m - 1)), 1))),
                     'in continuous mode the next scan does not resume after the last slot processed')
    # the command ends only when not continuous
    ok, f = run.enum(run.ret, 'Ok')
    ob.unsat('continuous mode does not end successfully', conj(run.st.pc, ok, cont.g), 'the command ends although it should scan continuously')
    ob.unsat('without continuous mode there is one scan', conj(back, NOT(cont.g)), 'the command scans again although not asked to')
    ob.units.append('slot loop %s, %d exits' % (S.loop.name, len(S.loop.exits)))


def unrolled(run, v, k, m):
    """a value defined by recurrence over k steps, for k = m; None if there is no recurrence"""
    v = run.x(v)
    if type(v) is not G or not any(isinstance(l, Lin) and any(a.kind == 'mu' for a, _ in l.t) for _, l in v.items):
        return None
    out = []
    for c, l in v.items:
        if not isinstance(l, Lin) or not any(a.kind == 'mu' for a, _ in l.t):
            out.append((c, l))
            continue
        if len(l.t) != 1 or l.t[0][1] != 1 or l.t[0][0].args[1] is not k:
            out.append((c, l))
            continue
        key, n, sfx = l.t[0][0].args
        cur = [x for x, _ in key]
        for i in range(m):
            vs = {}
            for pos, x in enumerate(cur):
                if type(x) is not G or len(x.items) != 1 or not isinstance(x.items[0][1], Lin):
                    if i:
                        return None        # guarded from the second step on
                    continue
                vs[pos] = x.items[0][1]
            if i and len(cur) != 1:
                return None
            fa = lambda a: const(i) if a.kind == 'bvK' else vs.get(a.args[0][1]) if a.kind == 'var' and isinstance(a.args[0], tuple) and a.args[0][0] == 'bv' else None
            cur = [Subst(fa).val(nx) for _, nx in key]
        x = run.x(cur[0])
        if type(x) is not G or not all(isinstance(q, Lin) for _, q in x.items):
            return None
        out += [(AND(c, cc), addc(q, l.c)) for cc, q in x.items]
    return mkG([(c, l) for c, l in out if c != 0])


def c47(ob, run):
    S = Scan(run)
    le, some, key = S.leader()
    q, rec = S.recorded()
    ob.must('the report address is queried before anything is created', q is not None, 'no existence query precedes the creation of the proof account')
    if q is None:
        return
    ob.unsat('the queried address is the report address', AND(q.g, run.neq(q.args[1], S.pda())), 'another address is queried for the recorded violation')
    for kind, xs in S.kinds.items():
        if kind != 'close':
            for e, t in xs:
                ob.unsat('%s %s: not if recorded' % (e.args[0], kind), conj(e.g, q.ok, rec), 'a recorded violation is submitted again')
    pe, psome, pb = S.proof()
    want = conj(TM.lt(S.K, S.n), S.in_range, NOT(rec), psome, some)
    lively(ob, run, 'submitted if not recorded', AND(want, NOT(exists_env(tried(S.need('create'))))), 'a violation that is not recorded is skipped')
    ob.units.append('existence query %s' % q.args[0])


def c48(ob, run):
    S = Scan(run)
    le, some, key = S.leader()
    ob.unsat('the leader of the slot is asked for', AND(le.g, run.neq(le.args[1], S.slot)), 'the leader of another slot is used')
    pe, psome, pay = S.proof()
    ob.unsat('the proof of the slot is read', AND(pe.g, run.neq(pe.args[1], S.slot)), 'the proof of another slot is used')
    ke, kp = S.keypair()
    for e, t in S.need('report'):
        xs = ixs(t)
        fn = xs[0].tag[1]
        if fn != 'duplicate_block_proof_with_sigverify_and_prefund':
            fund = [x for x in xs if x.tag[:2] == ('solana_system_interface', 'transfer')]
            if fund:
                raise NotFollowed('funding of the report')
            ob.must('%s: the report is funded' % e.args[0], False, 'the report account is not funded by the transaction', where(e))
            continue
        full = [i for i, x in enumerate(run.p.I) if x['path'].endswith('::' + fn)]
        ob.must('%s: all instructions in order' % e.args[0], [x.tag[2:] for x in xs] == [(i,) for i in range(len(xs))] and len(xs) == 3 and
                all(x.tag[1] == fn for x in xs), 'instructions of the report are missing or in another order', where(e))
        a = xs[0].f
        ob.unsat('%s: points at the proof account' % e.args[0], AND(e.g, run.neq(a[0], kp)), 'the report names another proof account')
        f = run.struct(a[1], r'DuplicateBlockProofInstructionData$')
        want = {'offset': const(RECORD_HEADER), 'slot': S.slot, 'node_pubkey': key}
        for k, w in want.items():
            ob.unsat('%s: %s' % (e.args[0], k), AND(e.g, run.neq(f[k], w)), 'the report names another value as ' + k)
        for k in ('reporter', 'destination'):
            given, w = run.pick(k)
            if w is None:
                if run.unknown():
                    raise NotFollowed('argument ' + k)
                w = rbytes(TM.region(('argument', k), const(32)))
            ob.unsat('%s: the given %s' % (e.args[0], k), conj(e.g, given, run.neq(f[k], w)), 'the report names another %s than the given one' % k)
            dk = default_key(run)
            ob.unsat('%s: the default %s' % (e.args[0], k), conj(e.g, NOT(given), run.neq(f[k], dk)),
                     'without the option the report does not name the default signer as ' + k)
        for i, b in ((1, pay[0]), (2, pay[1])):
            ob.unsat('%s: signature of shred %d' % (e.args[0], i), AND(e.g, run.neq(f['shred_%d_signature' % i], TM.bsub(b, ZERO, const(64)))),
                     'the signature of shred %d is not the first 64 bytes of the shred written' % i)
            ht = dict(run.p.fields([j for j, ty in enumerate(run.p.T) if ty and ty['k'] == 'adt' and ty['path'].endswith('DuplicateBlockProofInstructionData')][0]))
            w = run.bytes_in(run.p.expand(run.p.sym(ht['shred_%d_merkle_root' % i], ('merkle root', b))))[0][1]
            ob.unsat('%s: merkle root of shred %d' % (e.args[0], i), AND(e.g, run.neq(f['shred_%d_merkle_root' % i], w)),
                     'the merkle root of shred %d is not the one of the shred written' % i)
        fund = run.enum(a[2], 'Some')
        ob.unsat('%s: the fee payer funds the report' % e.args[0], AND(e.g, NOT(fund[0])), 'nobody funds the report account')
        if fund[0] != 0:
            pk = run.enum(t.f[1], 'Some')
            ob.unsat('%s: funded by the fee payer' % e.args[0], neqv(run, fund[1][0], pk[1][0], e.g), 'another account than the fee payer funds the report')
        payer_signs(ob, run, e, e.g, t)
    ob.units.append('%d submissions' % len(S.need('report')))


def default_key(run):
    """the default signer's key"""
    nm = set()
    st = []
    for e in run.I.effects:
        st.append(GuardKey(e.g))
        st.extend(e.args)
    out = {}
    for r in atoms_of(*st)[1]:
        if isinstance(r.key, tuple) and r.key and r.key[0] == 'pubkey' and root(r.key[1]) == 'signer_from_path':
            out[r.id] = r
    return rbytes(one(out.values(), 'default signers'))


def c45(ob, run):
    S = Scan(run)
    ke, kp = S.keypair()
    pe, psome, pay = S.proof()
    P = TM.concat(TM.bytes_of_int(blen(pay[0]), 4), pay[0], TM.bytes_of_int(blen(pay[1]), 4), pay[1])
    made = 0
    rec_id = [r for r in regions(run) if r.key[0] == 'id' and isinstance(r.key[1], str) and r.key[1].startswith('spl_record')]
    for e, t in S.need('create'):
        xs = ixs(t)
        tags = [x.tag[1] for x in xs]
        ob.must('%s: created and initialized' % e.args[0], tags == ['create_account', 'initialize'], 'the proof account is not created and initialized in one step', where(e))
        if tags != ['create_account', 'initialize']:
            continue
        c, i = xs
        pk = run.enum(t.f[1], 'Some')[1]
        ob.unsat('%s: the proof account is created' % e.args[0], AND(e.g, run.neq(c.f[1], kp)), 'another account is created')
        ob.unsat('%s: the fee payer pays' % e.args[0], neqv(run, c.f[0], pk[0], e.g), 'another account than the fee payer pays for the proof account')
        need = RECORD_HEADER + 2 * (PACKET + 4)
        ob.unsat('%s: room for the largest proof' % e.args[0], AND(e.g, disj(*[AND(g, TM.lt(l, const(need))) for g, l in run.lins(c.f[3], e.g)])),
                 'the proof account is too small for the record header and the largest proof')
        sp = run.lins(c.f[3], e.g)
        for g, l in run.lins(c.f[2], e.g):
            rs = [a for a in atoms_of(GuardKey(g), l)[0] | atoms_of(c.f[2])[0] if a.kind == 'rent']
            enough = 0
            for a in rs:
                if all(TM.is_const(x) for _, x in sp) and isinstance(a.args[1], Lin) and TM.is_const(a.args[1]) and all(a.args[1].c >= x.c for _, x in sp):
                    enough = OR(enough, TM.le(TM.of(a), l))
            if not rs and run.unknown():
                raise NotFollowed('rent')
            ob.unsat('%s: rent exempt' % e.args[0], conj(e.g, g, NOT(enough)), 'the proof account is not rent exempt')
        ob.unsat('%s: the record is initialized' % e.args[0], AND(e.g, run.neq(i.f[0], kp)), 'another record is initialized')
        ob.unsat('%s: authority' % e.args[0], neqv(run, i.f[1], pk[0], e.g), 'the record is initialized for another authority than the fee payer')
        payer_signs(ob, run, e, e.g, t)
        bad = 1
        for s in t.f[2].f:
            bad = AND(bad, disj(*[AND(g, NOT(TM.beq(b, kp))) for g, b in run.bytes_in(s)]))
        ob.unsat('%s: the proof account signs' % e.args[0], AND(e.g, bad), 'the new account does not sign its creation')
        made = OR(made, AND(e.g, e.ok if e.ok is not None else 1))
    W = S.need('write')
    for e, t in W:
        ob.unsat('%s: written after the creation' % e.args[0], AND(e.g, NOT(made)), 'the proof is written although the account was not created')
        xs = ixs(t)
        ob.must('%s: one write per transaction' % e.args[0], len(xs) == 1, 'several writes in a transaction', where(e)) if len(xs) != 1 and False else None
        if len(xs) != 1:
            raise NotFollowed('several writes in a transaction')
        x = xs[0]
        pk = run.enum(t.f[1], 'Some')[1]
        ob.unsat('%s: written to the proof account' % e.args[0], AND(e.g, run.neq(x.f[0], kp)), 'the proof is written to another account')
        ob.unsat('%s: written by the authority' % e.args[0], neqv(run, x.f[1], pk[0], e.g), 'the write names another authority')
        payer_signs(ob, run, e, e.g, t)
        k = [q for _, q, _ in e.loops][len(S.prefix):]
        if len(k) != 1:
            raise NotFollowed('loop of the writes')
        cover(ob, run, S, e, x, k[0], P)
    after_writes(ob, run, S, W)
    for e, t in S.need('report'):
        f = run.struct(ixs(t)[0].f[1], r'DuplicateBlockProofInstructionData$')
        ob.unsat('%s: points at the record\'s data' % e.args[0], AND(e.g, run.neq(f['offset'], const(RECORD_HEADER))), 'the report does not point at the start of the record\'s data')
    ob.units.append('%d creations, %d writes, %d submissions' % (len(S.of('create')), len(W), len(S.of('report'))))


def regions(run):
    st = []
    for e in run.I.effects:
        st.extend(e.args)
    return [r for r in atoms_of(*st)[1] if isinstance(r.key, tuple) and len(r.key) > 1]


def cover(ob, run, S, e, x, k, P):
    """the writes of a loop cover P completely, each with the bytes of P at its offset"""
    kk = k.t[0][0]
    bound = [b for n, q, b in e.loops if q is k][0]
    L = blen(P)
    offs = run.lins(x.f[2], e.g)
    datas = slices_of(run, x.f[3], e.g)
    nm = e.args[0]
    # symbolic argument first, concrete lengths when it does not go through
    bad = 0
    at = lambda l, v: Subst(lambda a: v if a is kk else None).lin(l)
    proved = True
    if bound is None or len(offs) != 1:
        raise NotFollowed('writes')
    off = offs[0][1]
    bad0 = NOT(TM.eq(at(off, ZERO), ZERO))
    bad1 = bad2 = 0
    nxt = at(off, addc(k, 1))
    for g, b in datas:
        n = blen(b)
        end = add(off, n)
        bad1 = OR(bad1, conj(e.g, g, NOT(TM.eq(end, nxt)), NOT(TM.eq(end, L))))
        bad2 = OR(bad2, conj(e.g, g, NOT(TM.beq(b, TM.bsub(P, off, n)))))
    ax = 1
    for l in run.I.completes:
        if l.kxs and any(q in l.kxs.values() for q in [bound]):
            ax = AND(ax, l.axiom())
    bad3 = conj(tried_all(S), ax, TM.lt(at(off, bound), L))
    bad = [('starts at the beginning', bad0), ('leaves no gap', bad1), ('writes the bytes of the proof', bad2), ('reaches the end', bad3)]
    # the packed length of a shred has four bytes
    lens = [a for a in atoms_of(P)[0] if a.kind == 'len']
    short = conj(*[TM.le(TM.of(a), const((1 << 32) - 1)) for a in lens])
    bad = [(w, theory_sat(AND(g, short))) for w, g in bad]
    bad = [(w, g) for w, g in bad if g != 0]
    if not bad:
        for w in ('starts at the beginning', 'leaves no gap', 'writes the bytes of the proof', 'reaches the end'):
            ob.done.append(('%s: %s' % (nm, w), True))
        return
    wit = concrete(run, S, e, x, k, bound, P)
    if wit is None or run.unknown() or run.fog() != 0:
        ob.open.append(('%s: the writes cover the proof' % nm, '; '.join(w for w, g in bad) + ': ' + show_guard(bad[0][1], 30)))
        return
    ob.done.append(('%s: the writes cover the proof' % nm, False))
    ob.bad.append(('%s: the writes cover the proof' % nm, wit, where(e)))


def tried_all(S):
    return disj(*[e.g for e, t in S.need('report')])


def slices_of(run, v, g):
    v = run.x(v)
    if type(v) is G and all(isinstance(l, Bytes) for _, l in v.items):
        return [(c, l) for c, l in v.items if AND(c, g) != 0]
    return run.bytes_in(v, g)


def concrete(run, S, e, x, k, bound, P):
    """tries proof lengths: describes a proof that is not covered, or None"""
    lens = [a for a in atoms_of(P)[0] if a.kind == 'len']
    if len(lens) != 2:
        return None
    kk = k.t[0][0]
    for l1, l2 in ((1203, 1203), (1228, 1203), (1228, 1228), (700, 92), (700, 93), (64, 100), (396, 396), (397, 396), (796, 796), (797, 796)):
        val = {lens[0].id: const(l1), lens[1].id: const(l2)}
        total = l1 + l2 + 8
        s0 = Subst(lambda a: val.get(a.id))
        pos = 0
        for i in range(0, 64):
            sb = Subst(lambda a: val.get(a.id, const(i) if a is kk else None))
            g = sb.guard(e.g)
            # free choice of everything but the lengths
            if not ok_here(g):
                break
            offs = [sb.lin(l) for c, l in run.lins(x.f[2], e.g) if ok_here(AND(sb.guard(c), g))]
            ds = [sb.bytes(b) for c, b in slices_of(run, x.f[3], e.g) if ok_here(AND(sb.guard(c), g))]
            if len(offs) != 1 or len(ds) != 1 or not TM.is_const(offs[0]) or not TM.is_const(blen(ds[0])):
                return None
            o, n = offs[0].c, blen(ds[0]).c
            if o > pos:
                return 'for shreds of %d and %d bytes nothing is written at offset %d: write %d starts at %d' % (l1, l2, pos, i, o)
            want = s0.bytes(P)
            if o + n > total or theory_sat(TM.beq(ds[0], TM.bsub(want, const(o), const(n)))) == 0:
                return 'for shreds of %d and %d bytes write %d at offset %d has other bytes than the proof' % (l1, l2, i, o)
            if theory_sat(NOT(TM.beq(ds[0], TM.bsub(want, const(o), const(n))))) != 0:
                return 'for shreds of %d and %d bytes write %d at offset %d has other bytes than the proof' % (l1, l2, i, o)
            pos = max(pos, o + n)
        if pos < total:
            return 'for shreds of %d and %d bytes only the first %d of %d bytes are written' % (l1, l2, pos, total)
    return None


def ok_here(g):
    return g != 0 and theory_sat(g) != 0


def after_writes(ob, run, S, W):
    """the report is submitted only if every write succeeded"""
    R = S.need('report')
    I = run.I
    for e, t in W:
        if e.ok is None:
            raise NotFollowed('result of a write')
        fail = AND(e.g, NOT(e.ok))
        guards = []
        for L in I.completes:
            if not L.exits or TM.of(L.K) not in [q for _, q, _ in e.loops]:
                continue
            rest = theory_sat(AND(fail, NOT(disj(*L.exits))))
            if rest == 0:
                guards.append(L)
        for r, rt in R:
            nm = '%s: submitted only after a successful %s' % (r.args[0], e.args[0])
            both = AND(r.g, exists_outer(e, S))
            if both == 0:
                # a simulated write does not precede a submission
                ob.done.append((nm, True))
                continue
            if any(AND(r.g, NOT(L.passed)) == 0 for L in guards):
                ob.done.append((nm, True))
                continue
            # the failing write is remembered in some other way?
            names = {bdd.names[v] for v in bdd.support(e.ok)}
            used = mentions(run, r.g, names, root_of(e))
            if used or run.unknown() or run.fog() != 0:
                ob.open.append((nm, 'the writes are connected to the submission in a way that is not followed'))
            else:
                ob.done.append((nm, False))
                ob.bad.append((nm, 'the report is submitted although a write of the proof failed', where(r)))


def exists_outer(e, S):
    """the conditions of an effect that do not concern its own innermost loop"""
    inner = {q.t[0][0] for _, q, _ in e.loops[len(S.prefix):]}
    vs = [v for v in bdd.support(e.g) if {a for a in atoms_of(GuardKey(bdd.mk(v, 0, 1)))[0]} & inner or env_label(bdd.names[v])]
    return bdd.exists(e.g, vs)


def root_of(e):
    return e.result


def mentions(run, g, labels, result):
    """does a condition depend on one of the labels, directly or inside a summary?"""
    todo = [bdd.names[v] for v in bdd.support(g)]
    seen = set()
    while todo:
        l = todo.pop()
        if l in labels:
            return True
        st = [l]
        while st:
            x = st.pop()
            i = getattr(x, 'id', None)
            if i is not None:
                if i in seen:
                    continue
                seen.add(i)
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, (B, GuardKey)):
                for v in bdd.support(x.g):
                    if bdd.names[v] not in seen:
                        seen.add(bdd.names[v])
                        todo.append(bdd.names[v])
            elif isinstance(x, TM.Atom):
                st.append(x.args)
            elif isinstance(x, Lin):
                st.extend(a for a, _ in x.t)
            elif isinstance(x, (Agg, Nat)):
                st.extend(x.f)
                st.append(x.tag if isinstance(x, Nat) else None)
            elif isinstance(x, Enum):
                for c, f in x.v.values():
                    st.append(mkB(c))
                    st.extend(f)
            elif isinstance(x, G):
                for c, q in x.items:
                    st.append(mkB(c))
                    st.append(q)
    # a loop that the condition says was not left early
    for L in run.I.completes:
        if L.passed > 1 and AND(g, NOT(L.passed)) == 0 or L.passed > 1 and AND(g, L.passed) == 0:
            if any(bdd.names[v] in labels for x in L.outs for v in bdd.support(x)):
                return True
    return False


def c41(ob, run):
    S = Scan(run)
    ke, kp = S.keypair()
    K = S.loop.K
    sb = Subst(lambda a: J if a is K else None)
    closes = []
    for e, t in S.need('close'):
        xs = ixs(t)
        if len(xs) != 1:
            raise NotFollowed('several closes in a transaction')
        x = xs[0]
        pk = run.enum(t.f[1], 'Some')[1]
        if S.inside(e):
            g, v = sb.guard(e.g), [sb.val(q) for q in x.f[:3]] + [sb.val(t)]
            v, t2 = v[:3], v[3]
        else:
            g, v = normal2(run, S, e, list(x.f[:3]) + [t])
            v, t2 = v[:3], v[3]
        pk = run.enum(t2.f[1], 'Some')[1]
        ob.unsat('%s: closes the account created for the slot' % e.args[0], AND(g, run.neq(v[0], sb.bytes(kp))), 'another account is closed')
        for i, w in ((1, 'authority'), (2, 'receiver')):
            ob.unsat('%s: the fee payer is the %s' % (e.args[0], w), neqv(run, v[i], pk[0], g), 'the %s of the close is not the fee payer' % w)
        payer_signs(ob, run, e, g, t2)
        closes.append((e, g))
    # conditions on the closing itself: its own remote calls may fail
    own = set()
    cl = {tuple(k for _, k, _ in e.loops) + tuple(n for n, _, _ in e.loops) for e, g in closes}
    for e in run.effects('rpc'):
        if e.ok is not None and tuple(k for _, k, _ in e.loops) + tuple(n for n, _, _ in e.loops) in cl and not S.inside(e):
            own |= {v for v in bdd.support(e.ok)}
    A = bdd.exists(disj(*[g for e, g in closes]), own)
    ax = 1
    for i, kx in S.loop.kxs.items():
        out = sb.guard(S.loop.outs[i])
        ax = AND(ax, disj(S.loop.passed, TM.lt(J, kx), AND(TM.eq(J, kx), out)))
    ax = AND(ax, S.loop.axiom())
    for e, t in S.need('create'):
        g = sb.guard(e.g)
        lively(ob, run, '%s: what is created is closed' % e.args[0], conj(g, ax, NOT(A)), 'no attempt is made to close a proof account that was created')
    # the closing loop goes on whatever happens
    for L in run.I.completes:
        mine = [e for e, g in closes if (L.name, TM.of(L.K)) in [(n, k) for n, k, _ in e.loops] and not S.inside(e) and TM.of(L.K) not in S.loop.outer]
        if not mine:
            continue
        att = bdd.exists(disj(*[e.g for e in mine]), own)
        for x in L.exits:
            ob.unsat('%s: goes on to the last account' % L.name, AND(x, att), 'the closing of proof accounts stops before the last one')
    ob.units.append('%d creations, %d closes' % (len(S.of('create')), len(closes)))


def normal2(run, S, e, vals):
    """like normal(), for the list of accounts collected during the scan (which may
    have ended early)"""
    aa, rr = atoms_of(GuardKey(e.g), *vals)
    sels = {a for a in aa if a.kind == 'sel'}
    if len(sels) != 1:
        raise NotFollowed('list of accounts to close')
    s = sels.pop()
    gk, cond = s.args[0], s.args[2]
    cond = cond.g if isinstance(cond, B) else cond
    c = Subst(lambda a: J if a is gk else None).guard(cond)
    kk = s.args[3].t[0][0]

    def lab(l):
        if isinstance(l, tuple) and l[0] == 'le' and isinstance(l[1], Lin) and kk in [a for a, _ in l[1].t]:
            oth = [(a, q) for a, q in l[1].t if a is not kk]
            if len(oth) == 1 and oth[0][0].kind == 'count' and oth[0][0].args[0] is gk:
                inside = AND(c, TM.lt(J, oth[0][0].args[2]))
                kc = dict((a, q) for a, q in l[1].t)[kk]
                # kc*K + oc*count <= b  <=>  K < count or its negation
                if kc == 1 and oth[0][1] == -1 and l[2] == -1:
                    return inside
                if kc == -1 and oth[0][1] == 1 and l[2] == 0:
                    return NOT(inside)
        return None
    sb = Subst(lambda a: J if a is s else None, flabel=lab)
    return sb.guard(e.g), [sb.val(v) for v in vals]


def cli_option(lab):
    return isinstance(lab, tuple) and lab[0] in ('is', 'bool') and root(lab[1]) == 'cli' and not (lab[0] == 'bool' and lab[1] == ('cli', 'dry_run'))


def no_format(g):
    """whatever output format was chosen"""
    return bdd.exists(g, [v for v in bdd.support(g) if cli_option(bdd.names[v]) and
                          bdd.names[v][1] in (('cli', 'output_format'), ('cli', 'verbose'))
                          or isinstance(bdd.names[v], tuple) and bdd.names[v][0] == 'is' and str(bdd.names[v][1]).startswith("(('cli', 'output_format')")])


def c50(ob, run):
    I = run.I
    okret, f = run.enum(run.ret, 'Ok')
    good = AND(run.st.pc, okret)
    n = 0
    for e in run.effects('rpc'):
        if e.ok is None or e.ok == 1:
            continue
        n += 1
        handled(ob, run, e, AND(e.g, NOT(e.ok)), [(nm, k) for nm, k, _ in e.loops], good, '%s %d' % (e.args[0], n))
    if run.name == 'Attach':
        S = Scan(run)
        st = [run.ret]
        for L in I.completes:
            st.extend(q for r in L.recs for q in r[2:])
        acc = {a for a in atoms_of(*st)[0] if a.kind == 'accum'}
        for a in acc:
            gk = a.args[0]
            for inc, b in a.args[1]:
                if inc == 0:
                    continue
                g = Subst(lambda x: S.K if x is gk else None).guard(b.g)
                for e, t in S.need('report'):
                    if e.ok is not None:
                        ob.unsat('a report is counted only if it was submitted (%s)' % e.args[0], conj(g, e.g, NOT(e.ok)),
                                 'a report whose submission failed is counted as reported')
        ob.units.append('%d counters' % len(acc))
    ob.units.append('%s: %d remote calls' % (run.name, n))


def handled(ob, run, e, F, loops, good, nm, depth=0):
    I = run.I
    F = theory_sat(F)
    name = '%s: failure of %s is reported' % (run.name, nm)
    if F == 0:
        ob.done.append((name, True))
        return
    pre = tuple(k for _, k in loops)
    # shown as an error while processing the same item
    shown = disj(*[no_format(x.g) for x in run.effects('eprint') if tuple(k for _, k, _ in x.loops) == pre])
    F = theory_sat(AND(F, NOT(shown)))
    if F == 0:
        ob.done.append((name, True))
        return
    if not loops:
        F1 = theory_sat(AND(F, good))
        if F1 == 0:
            ob.done.append((name, True))
            return
    else:
        k = loops[-1][1]
        rest = F
        for L in I.completes:
            if TM.of(L.K) is k and L.exits and L.outer == pre[:-1]:
                left = theory_sat(AND(rest, NOT(disj(*L.exits))))
                if left != rest and L.passed != 1:
                    # leaving the loop for this reason must itself be dealt with
                    x = AND(L.entry, NOT(L.passed))
                    ex = disj(*[AND(NOT(L.passed), Subst(lambda a, q=L.kxs[i]: q if a is L.K else None).guard(AND(L.outs[i], rest))) for i in L.rest])
                    if depth < 4:
                        handled(ob, run, e, ex, loops[:-1], good, nm, depth + 1)
                    rest = left
                if rest == 0:
                    return
        F = rest
    d = checks.definite(F, run.fog())
    if d == 0 or run.unknown() or flows(run, e):
        ob.open.append((name, 'what happens after a failure is not followed: ' + show_guard(F, 40)))
        return
    ob.done.append((name, False))
    ob.bad.append((name, 'the failure of a remote call is dropped\n  when: ' + show_guard(d, 60), where(e)))


def flows(run, e):
    """does the error of a failed call get into some list, message or result?"""
    try:
        g, f = run.enum(e.result, 'Err')
    except NotFollowed:
        return True
    if not f or type(f[0]) is not Sym:
        return True
    nm = f[0].name
    st = [run.ret]
    for x in run.effects('output', 'eprint'):
        st.extend(x.args)
    lists = [a for x in run.I.effects for a in atoms_of(GuardKey(x.g))[0] if a.kind in ('count', 'sel', 'accum')] if False else []
    return any(derives(v, nm) for v in st)


# ---------------------------------------------------------------- configuration and output
def parts(v, seen=None):
    """every value, name and label a value is made of"""
    seen = set() if seen is None else seen
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, (str, int)) or x is None:
            yield x
            continue
        if isinstance(x, (tuple, list)):
            yield x
            st.extend(x)
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        if isinstance(x, Sym):
            st.append(x.name)
        elif isinstance(x, Nat):
            st.append(x.tag)
            st.extend(x.f)
        elif isinstance(x, Agg):
            st.extend(x.f)
        elif isinstance(x, Enum):
            for c, f in x.v.values():
                st.append(f)
        elif isinstance(x, G):
            st.extend(l for _, l in x.items)
        elif isinstance(x, Bytes):
            for s in x.segs:
                if s[0] in ('r', 's'):
                    st.append(s[1])
        elif isinstance(x, TM.Region):
            st.append(x.key)
        elif isinstance(x, TM.Atom):
            st.append(x.args)
        elif isinstance(x, Lin):
            st.extend(a for a, _ in x.t)


def made_of(v, name):
    return any(x == name for x in parts(v) if isinstance(x, (str, tuple)))


def option(run, name):
    """(given, value) of a global option of the command line"""
    v = run.x(run.C.cli.f[[n for n, _ in run.p.fields(run.C.ct)].index(name)])
    g, f = run.enum(v, 'Some')
    return g, f[0] if f else None


def c51(ob, run):
    cs = run.effects('connect')
    if not cs:
        raise NotFollowed('connection to the cluster')
    url, uv = option(run, 'json_rpc_url')
    file, fv = option(run, 'config_file')
    loads = {e.args[0]: e for e in run.effects('load')}
    for e in cs:
        for c, b in run.bytes_in(e.args[1], e.g):
            if made_of(b, ('cli', 'json_rpc_url')):
                continue
            g = AND(e.g, c)
            ob.unsat('%s: the given URL is used' % run.name, AND(g, url), 'the client connects to another cluster than the one given with --url')
            if not made_of(b, 'json_rpc_url'):
                ob.unsat('%s: the configured URL is used' % run.name, g, 'the client connects to a cluster that is neither given nor configured')
                continue
            frm = [l for nm, l in loads.items() if made_of(b, nm)]
            if len(frm) != 1:
                raise NotFollowed('configuration %r' % (b,))
            if len(frm[0].args) < 2 or not made_of(frm[0].args[1], ('cli', 'config_file')):
                ob.unsat('%s: the given configuration is used' % run.name, AND(g, file), 'another configuration file than the one given is used')
        if len(e.args) > 2:
            what = [x for x in parts(e.args[2]) if isinstance(x, str)]
            ob.unsat('%s: reads at least confirmed state' % run.name, e.g if any(re.search('processed|recent|single', x) for x in what) else 0,
                     'the client decides on state that may still be rolled back')
            if not any(re.search('commitment::|confirmed|finalized', x, re.I) for x in what):
                raise NotFollowed('commitment %r' % (e.args[2],))
        elif e.args[0] == 'new':
            pass        # the library's default is 'finalized'
        else:
            raise NotFollowed(e.args[0])
    given, src = option(run, 'fee_payer')
    for e, t in run.txs():
        pk = run.enum(t.f[1], 'Some')
        for c, b in run.bytes_in(pk[1][0], AND(e.g, pk[0])):
            g = conj(e.g, pk[0], c)
            if made_of(b, ('cli', 'fee_payer')):
                continue
            # the given fee payer could be loaded
            ok = given
            for v in bdd.support(g):
                l = bdd.names[v]
                if isinstance(l, tuple) and l[0] == 'is' and l[2] == 'Ok' and 'signer_from_source(' in str(l[3]) and 'cli(fee_payer)' in str(l[3]):
                    ok = AND(ok, bdd.atom(l))
            ob.unsat('%s %s: the given fee payer pays' % (run.name, e.args[0]), AND(g, ok), 'another key than the given fee payer pays')
            paths = [(conj(g, pc), pb) for x in parts(b) if type(x) is G for pc, pb in x.items if isinstance(pb, Bytes) and made_of(pb, 'keypair_path')] \
                or [(g, b)]
            for pg, pb in paths:
                frm = [l for nm, l in loads.items() if made_of(pb, nm)]
                if not made_of(pb, 'keypair_path') or len(frm) != 1:
                    ob.unsat('%s %s: otherwise the default key pays' % (run.name, e.args[0]), pg, 'neither the given fee payer nor the default key pays')
                elif len(frm[0].args) < 2 or not made_of(frm[0].args[1], ('cli', 'config_file')):
                    ob.unsat('%s %s: the key of the given configuration' % (run.name, e.args[0]), AND(pg, file), 'the key of another configuration than the given one pays')
    ob.units.append('%s: %d connections, %d transactions' % (run.name, len(cs), len(run.txs())))


def whole(v):
    """the text a styled text taken apart into its fields comes from"""
    while type(v) is Agg and v.f:
        v = v.f[0]
    n = v.name if type(v) is Sym else None
    while isinstance(n, tuple) and len(n) == 2 and isinstance(n[0], tuple) and n[0]:
        n = n[0]
        if n[0] == 'text':
            return n[1]
    return None


def tokens(v, depth=0):
    """the pieces a text is made of: ('lit', bytes) and ('val', value); None if not followed"""
    if depth > 12:
        return None
    if type(v) is Sym and isinstance(v.name, tuple) and v.name and v.name[0] == 'text':
        return tokens(v.name[1], depth + 1)
    if type(v) is Nat and v.kind == 'fmtarg':
        x = strip(v.f[0])
        if type(x) is Agg and whole(x) is not None:
            return tokens(whole(x), depth + 1)
        if type(x) is Sym and isinstance(x.name, tuple) and x.name[:1] == ('text',) or type(x) is Nat and x.kind in ('text', 'fmtarg'):
            return tokens(x, depth + 1)
        if is_const(x) is not None:
            return [('lit', is_const(x))]
        if x is not v and type(x) is G:
            return tokens(x, depth + 1)
        return [('val', x)]
    if type(v) is Nat and v.kind == 'text':
        t = is_const(strip(v.f[0]))
        if t is None:
            return None
        if len(v.f) == 1:
            return [('lit', t)]
        args = v.f[1]
        if type(args) is not Agg:
            return None
        out = []
        i = a = 0
        while i < len(t):
            n = t[i]
            i += 1
            if n == 0:
                break
            if n < 0x80:
                out.append(('lit', t[i:i + n]))
                i += n
            elif n == 0x80:
                k = t[i] | t[i + 1] << 8
                out.append(('lit', t[i + 2:i + 2 + k]))
                i += 2 + k
            else:
                i += 4 * (n & 1) + 2 * (n >> 1 & 1) + 2 * (n >> 2 & 1)
                if n & 8:
                    a = t[i] | t[i + 1] << 8
                    i += 2
                if a >= len(args.f):
                    return None
                x = tokens(args.f[a], depth + 1)
                a += 1
                if x is None:
                    return None
                out += x
        return out
    x = strip(v)
    if is_const(x) is not None:
        return [('lit', is_const(x))]
    if x is not v:
        return tokens(x, depth + 1)
    if type(v) is G and len(v.items) == 1 and isinstance(v.items[0][1], Bytes):
        b = v.items[0][1]
        if len(b.segs) == 1 and b.segs[0][0] == 'r' and b.segs[0][1].key[:1] == ('text',) and b.segs[0][2] is ZERO and b.segs[0][3] is b.segs[0][1].len:
            return tokens(b.segs[0][1].key[1], depth + 1)
    return [('val', v)]


def strip(v):
    while True:
        if type(v) is Agg and len(v.f) == 1:
            v = v.f[0]
        elif type(v) is Nat and v.kind in ('vec', 'rc') and len(v.f) == 1:
            v = v.f[0]
        elif type(v) is G and len(v.items) == 1 and type(v.items[0][1]) in (Agg, Nat):
            v = v.items[0][1]
        else:
            return v


def is_const(v):
    """constant text"""
    if type(v) is G and len(v.items) == 1 and isinstance(v.items[0][1], Bytes):
        b = v.items[0][1]
        if all(s[0] == 'c' for s in b.segs):
            return b''.join(s[1] for s in b.segs)
    return None


def c52(ob, run):
    json, fmt = option(run, 'output_format')
    json = AND(json, disj(*[run.enum(fmt, k)[0] for k in ('Json', 'JsonCompact')]))
    n = 0
    free = []
    for e in run.effects('print'):
        t = tokens(e.args[0])
        n += 1
        doc = t is not None and [x for x in t if x[0] == 'val']
        doc = bool(doc) and len(doc) == 1 and made_of(doc[0][1], 'formatted') and \
            all(x[0] == 'val' or not x[1].strip() for x in t)
        if doc:
            free.append((e, True))
        elif run.name != 'Attach' or e.loops:
            ob.unsat('%s: %s is not printed' % (run.name, name_of(t)), AND(e.g, json), 'with a JSON output format something else than the document is printed')
        else:
            free.append((e, False))
    for i, (a, _) in enumerate(free):
        for b, _ in free[:i]:
            ob.unsat('%s: printed once' % run.name, conj(a.g, b.g, json), 'with a JSON output format more than the document is printed')
    if run.name != 'Attach':
        done = disj(*[e.g for e, d in free if d] or [0])
        os_ = run.effects('output')
        if not os_:
            raise NotFollowed('formatted output')
        for e in os_:
            lively(ob, run, '%s: the document is printed' % run.name, conj(e.g, NOT(done)), 'the result is not printed')
            f = run.x(e.args[1])
            if type(f) is not Enum:
                raise NotFollowed('output format')
            for k in f.v:
                g, _ = f.v[k]
                w = run.x(fmt)
                if type(w) is not Enum or k not in w.v:
                    continue
                ob.unsat('%s: the given format is used (%d)' % (run.name, k), conj(e.g, json, w.v[k][0], NOT(g)), 'the result is printed in another format than the given one')
    ob.units.append('%s: %d prints' % (run.name, n))


def name_of(t):
    if t is None:
        return 'a text'
    s = b''.join(x[1] if x[0] == 'lit' else b'{}' for x in t).decode('latin1').strip()
    return repr(s[:40])


class SRun(CRun):
    """a function that writes a value as text, analysed"""

    def __init__(self, d, path):
        self.name = re.sub(r'^<output::|>::\w+$', '', path)
        self.C = Shown(d, path, self.name)
        self.I, self.p, self.st, self.ret = self.C.I, self.C.p, self.C.st, self.C.ret
        self.value = self.C.value

    def unknown(self):
        # what the ledger says about a shred does not write
        return [u for u in super().unknown() if not re.search(r"'<?solana_ledger::", str(u))]

    def panics(self):
        return [x for x in self.I.panics if x.g != 0]


def text(run):
    """what is written: [(guard, loops, label, value)]; the label is the constant text before a value"""
    out = []
    label = ''
    for e in run.effects('text'):
        for a in e.args:
            t = tokens(a)
            if t is None:
                raise NotFollowed('text %s' % repr(a)[:160])
            for k, x in t:
                if k == 'lit':
                    s = x.decode('latin1')
                    label = s if re.search('[A-Za-z]', s) else label
                else:
                    out.append((e.g, e.loops, label, x, e))
                    label = ''
    return out


def element(run, v, j):
    """the j-th element of a list and the list's length"""
    v = run.x(v)
    if type(v) is not Nat or v.kind != 'vec' or type(v.f[0]) is not Nat or v.f[0].kind != 'symseq':
        raise NotFollowed('list')
    s = v.f[0]
    n = s.f[0]
    n = n.items[0][1] if type(n) is G else n
    return run.x(run.p.sym(s.tag[1], ('elem', s.tag[2], j))), n


CLOSED = {'report_account': r'account', 'pubkey': r'violator', 'reporter': r'reporter', 'destination': r'destination',
          'lamports': r'reclaim|lamports', 'signature': r'signature'}
LISTED = {'report_address': r'address|account', 'pubkey': r'violator', 'reporter': r'reporter', 'destination': r'destination',
          'epoch': r'epoch', 'slot': r'\bslot'}


def last_word(label, pats):
    """the field a label announces"""
    best = None
    for k, r in pats.items():
        for m in re.finditer(r, label, re.I):
            if best is None or m.end() > best[0]:
                best = (m.end(), k)
    return best[1] if best else None


def legible(v):
    """a value that is certainly not a field in disguise"""
    v = strip(v)
    if type(v) is G:
        return all(legible(x) for _, x in v.items)
    if isinstance(v, Bytes):
        return all(s[0] == 'c' for s in v.segs)
    return isinstance(v, Lin)


def shows(ob, run, rec, pats, cond, within):
    """every field of a record is written behind its own label; cond: the record is there"""
    T = [t for t in text(run) if (bool(t[1]) if within else not t[1])]
    # an aborted display shows nothing more
    alive = NOT(disj(*[x.g for x in run.panics()] or [0]))
    for k, pat in pats.items():
        f, c = rec[k], cond
        if k == 'signature':
            some, v = run.enum(f, 'Some')
            f, c = (v[0] if v else None), AND(cond, some)
        shown = 0
        for g, loops, label, v, e in T:
            if last_word(label, pats) != k:
                continue
            if f is None:
                raise NotFollowed(k)
            try:
                d = run.neq(f, run.bytes_in(v)[0][1] if k not in ('lamports', 'epoch', 'slot') else run.lins(v)[0][1])
            except NotFollowed:
                ob.open.append(('%s: %s' % (run.name, k), 'what is written as %s is not followed: %s' % (k, repr(v)[:200])))
                shown = 1
                continue
            ob.unsat('%s: %s is the record\'s' % (run.name, k), conj(g, c, alive, d), 'the text shows another value as %s' % k)
            shown = OR(shown, g)
        if any(not re.search('[A-Za-z]', t[2]) and not legible(t[3]) for t in T):
            if shown != 1:
                ob.open.append(('%s: %s is written' % (run.name, k), 'a text that is not followed may show it'))
            continue
        lively(ob, run, '%s: %s is written' % (run.name, k), conj(c, alive, NOT(shown)), 'the %s of a record is not written' % k)


def numbers(ob, run, want):
    """totals behind their labels: {key: (regex, number)}"""
    T = [t for t in text(run) if not t[1]]
    alive = NOT(disj(*[x.g for x in run.panics()] or [0]))
    pats = {k: r for k, (r, _) in want.items()}
    for k, (r, w) in want.items():
        shown = 0
        for g, loops, label, v, e in T:
            if last_word(label, pats) != k:
                continue
            d = w(g, v) if callable(w) else run.neq(v, w)
            ob.unsat('%s: %s' % (run.name, k), conj(g, alive, d), 'the text shows a wrong number as %s' % k)
            shown = OR(shown, g)
        lively(ob, run, '%s: %s is written' % (run.name, k), conj(alive, NOT(shown)), '%s is not written' % k)


def c53_closed(ob, run):
    shows(ob, run, run.struct(run.value, r'CloseReportOutput$'), CLOSED, 1, False)


def c53_listed(ob, run):
    shows(ob, run, run.struct(run.value, r'ViolationReportOutput$'), LISTED, 1, False)


def the_loop(run):
    ls = [t[1] for t in text(run) if t[1]]
    if not ls or any(len(l) != 1 or l[0][1] is not ls[0][0][1] for l in ls):
        raise NotFollowed('loop over the list')
    return ls[0][0][1]


def counter(k):
    return k if isinstance(k, Lin) else TM.of(k)


def c53_list(ob, run, field, pat, pats, want):
    k = counter(the_loop(run))
    el, n = element(run, run.x(run.value).f[field], k)
    shows(ob, run, run.struct(el, pat), pats, TM.lt(k, n), True)
    for L in run.I.completes:
        for x in L.exits:
            ob.unsat('%s: every entry is written' % run.name, AND(x, TM.lt(TM.of(L.K), n)), 'the list is cut short')
    numbers(ob, run, want(n))


def c53_closed_list(ob, run):
    early = run.lins(run.x(run.value).f[0])[0][1]

    def total(g, v):
        """where v is not the sum of the balances"""
        l = run.lins(v)
        if len(l) != 1:
            raise NotFollowed('total')
        a = [x for x, _ in l[0][1].t]
        if len(a) != 1 or a[0].kind != 'mu' or l[0][1].c != 0 or len(a[0].args[0]) != 1:
            if checks.marked(GuardKey(TM.eq(l[0][1], ZERO))) if hasattr(checks, 'marked') else False:
                raise NotFollowed('total')
            if any(x.kind in ('mu', 'accum', 'count', 'var') and not made_of(x, 'shown') for x in a) or any(x.kind in ('mu', 'accum') for x in a):
                raise NotFollowed('total')
            return g
        (init, nxt), = a[0].args[0]
        bv = [x for x in atoms_of(nxt)[0] if x.kind == 'var' and isinstance(x.args[0], tuple) and x.args[0][0] == 'bv']
        bk = [x for x in atoms_of(nxt)[0] if x.kind == 'bvK']
        if not bk:
            bk = [x for x in parts(nxt) if isinstance(x, TM.Atom) and x.kind == 'bvK']
        if len(bv) != 1 or not bk:
            raise NotFollowed('total')
        el, n = element(run, run.x(run.value).f[1], TM.of(bk[0]))
        lam = run.lins(run.struct(el, r'CloseReportOutput$')['lamports'])[0][1]
        step = 0
        for c, x in nxt.items:
            if len(x.t) == 1 and x.c == 0 and x.t[0][0].kind == 'mod' and x.t[0][0].args[1] == 1 << 64:
                x = x.t[0][0].args[0]
            step = OR(step, AND(c, NOT(TM.eq(x, TM.add(TM.of(bv[0]), lam)))))
        return conj(g, disj(step, run.neq(init, ZERO), NOT(TM.eq(a[0].args[1], n))))

    def want(n):
        return {'reports too soon': (r'soon', early), 'closed reports': (r'closed reports', n), 'total': (r'lamports', total)}
    c53_list(ob, run, 1, r'CloseReportOutput$', CLOSED, want)


def c53_listed_list(ob, run):
    c53_list(ob, run, 0, r'ViolationReportOutput$', LISTED, lambda n: {'open reports': (r'open reports', n)})


def c54(ob, run, rec=None, cond=1):
    """no stored report of a known type with a complete proof aborts the display"""
    if rec is None:
        rec = run.struct(run.value, r'ViolationReportOutput$')
    D = run.bytes_in(rec['proof'])
    if len(D) != 1:
        raise NotFollowed('stored proof')
    D = D[0][1]
    l1 = LE(TM.bsub(D, ZERO, TM.const(4)), 4)
    l2 = LE(TM.bsub(D, addc(l1, 4), TM.const(4)), 4)
    wf = conj(TM.le(TM.const(4), D.len), TM.le(addc(l1, 8), D.len), TM.le(TM.add(addc(l1, 8), l2), D.len))
    known = run.enum(rec['violation_type'], 'DuplicateBlockProof')[0]
    seen = set()
    for x in run.panics():
        nm = '%s: %s' % (run.name, re.sub(r'^.*/library/', '', str(x.msg))[:80])
        nm += ' (%d)' % len([1 for q in seen if q.startswith(nm)]) if nm in seen else ''
        seen.add(nm)
        ob.unsat(nm + ' is not reached', conj(x.g, cond, wf, known), 'displaying a stored report aborts: %s at %s' % (x.msg, x.loc))
    ob.units.append('%s: %d panic sites' % (run.name, len(run.panics())))


def c54_list(ob, run):
    k = counter(the_loop(run))
    el, n = element(run, run.x(run.value).f[0], k)
    c54(ob, run, run.struct(el, r'ViolationReportOutput$'), TM.lt(k, n))


# ---------------------------------------------------------------- what a scan announces
def pieces(e):
    """[(label, value)] of a printed message; a label is the text directly before a value"""
    t = tokens(e.args[0])
    if t is None:
        return None
    out, label = [], ''
    for k, x in t:
        if k == 'lit':
            label += x.decode('latin1')
        else:
            out.append((label, x))
            label = ''
    return out


def flat(e):
    """the message with its values replaced by <i>"""
    return ''.join(x.decode('latin1') if k == 'lit' else '\0%d\1' % i for i, (k, x) in enumerate(tokens(e.args[0])))


def is_it(run, g, v, w):
    """where (within g) a written value is certainly another number or key than w; None if not followed"""
    try:
        return theory_sat(AND(g, run.neq(v, w)))
    except NotFollowed:
        return None


def sure(run, pred):
    try:
        return pred()
    except NotFollowed:
        return None


def c55(ob, run):
    S = Scan(run)
    le, some, key = S.leader()
    ke, kp = S.keypair()
    F = disj(*[AND(e.g, NOT(e.ok)) for e in run.effects('rpc') if e.ok is not None and tuple(k for _, k, _ in e.loops) == S.prefix] or [0])
    told = named = again = 0
    n = 0
    for e in run.effects('eprint', 'print'):
        if not e.loops:
            continue
        P = pieces(e)
        here = tuple(k for _, k, _ in e.loops) == S.prefix and S.inside(e)
        if P is None:
            ob.open.append(('message', 'a message is not followed: ' + repr(e.args[0])[:160]))
            told = told if not here else 0
            continue
        n += 1
        if not here:
            continue
        nm = repr(flat(e).replace('\0', '<').replace('\1', '>').strip()[:40])
        slots = {}
        for i, (label, v) in enumerate(P):
            word = re.search(r'([A-Za-z-]+)[^A-Za-z]*$', label)
            word = word.group(1).lower() if word else ''
            if word in ('slot', 'at', '--start-slot', '--end-slot', 'start-slot', 'end-slot'):
                d = is_it(run, e.g, v, S.slot)
                if d is None:
                    ob.open.append(('%s: slot' % nm, 'what is written as the slot is not followed'))
                    continue
                ob.unsat('%s: %s is the slot' % (nm, word), d, 'the message names another slot')
                slots[i] = True
            elif word == 'for' and 'already' in label:
                d = is_it(run, e.g, v, key)
                if d is not None:
                    ob.unsat('%s: the leader is named' % nm, d, 'the message names another node')
            elif re.search(r'proof account\s*$', label):
                d = is_it(run, e.g, v, kp)
                if d is not None:
                    ob.unsat('%s: the proof account is named' % nm, d, 'the message names another account')
        if e.kind == 'eprint':
            told = OR(told, e.g)
            if slots or any(sure(run, lambda: theory_sat(AND(e.g, run.neq(v, S.slot))) == 0) for _, v in P):
                named = OR(named, e.g)
            s = flat(e)
            a = re.search(r'(?<!\S)--start-slot(?:\s+|=)\x00\d+\x01(?!\S)', s)
            b = re.search(r'(?<!\S)--end-slot(?:\s+|=)\x00\d+\x01(?!\S)', s)
            c = re.search(r'(?<!\S)spl-slashing\s+attach(?!\S)', s)
            if a and b and c:
                again = OR(again, e.g)
    F = theory_sat(AND(F, no_format(told)))
    if F == 0 and not run.unknown():
        ob.must('failures are announced', False, 'a report that failed is not announced', None)
    lively(ob, run, 'the announcement of a failed report names the slot', AND(F, NOT(no_format(named))), 'a report that failed is announced without its slot')
    lively(ob, run, 'the announcement of a failed report says how to retry', AND(F, NOT(no_format(again))),
           'the command line given to retry a failed report is not one that scans exactly that slot')
    # accounts that could not be closed
    for e in run.effects('eprint'):
        ks = tuple(k for _, k, _ in e.loops)
        for c, t in S.of('close'):
            if S.inside(c) or tuple(k for _, k, _ in c.loops) != ks:
                continue
            x = one(ixs(t), 'closes in a transaction')
            for label, v in pieces(e) or []:
                if re.search(r'account\s*$', label):
                    try:
                        w = run.bytes_in(x.f[0])
                        d = disj(*[AND(g, run.neq(v, b)) for g, b in w])
                    except NotFollowed:
                        continue
                    ob.unsat('the account that could not be closed is named', AND(e.g, d), 'the message about an account that could not be closed names another account')
    # the number of reports
    rep = S.need('report')
    done = disj(*[AND(e.g, e.ok) for e, t in rep if e.ok is not None] or [0])
    cnt = 0
    for e in run.effects('print'):
        if e.loops:
            continue
        for label, v in pieces(e) or []:
            if not re.search(r'Reported\s*$', label):
                continue
            cnt += 1
            for c, l in run.lins(v):
                if AND(c, e.g) == 0:
                    continue
                a = [x for x, _ in l.t]
                if not a:
                    if l.c != 0:
                        ob.must('the number of reports starts at zero', False, 'the number of reports announced is not the number submitted')
                        continue
                    lively(ob, run, 'every submitted report counts', all_ok(conj(e.g, c, TM.lt(ZERO, S.n))), 'no report is counted')
                    continue
                if len(a) != 1 or a[0].kind != 'accum' or l.t[0][1] != 1:
                    raise NotFollowed('number of reports')
                i0 = a[0].args[3]
                if isinstance(i0, Lin) and len(i0.t) == 1 and i0.t[0][0].kind == 'mu' and len(i0.t[0][0].args[0]) == 1:
                    # carried from scan to scan
                    i0 = run.lins(i0.t[0][0].args[0][0][0])
                    i0 = i0[0][1] if len(i0) == 1 else None
                if not isinstance(i0, Lin) or i0.t:
                    raise NotFollowed('first number of reports')
                if l.c != 0 or i0.c != 0:
                    ob.must('the number of reports starts at zero', False, 'the number of reports announced is not the number submitted')
                    continue
                gk = a[0].args[0]
                kx = {k.t[0][0]: TM.of(L.K) for L in run.I.completes for k in L.kxs.values() if any(L.K is q.t[0][0] for q in S.loop.outer)}
                sb = Subst(lambda x: S.K if x is gk else kx.get(x))
                up = 0
                for inc, b in a[0].args[1]:
                    if inc == 0:
                        continue
                    g = sb.guard(b.g)
                    if inc == 1:
                        up = OR(up, g)
                    ob.unsat('a submitted report counts once', AND(g, done) if inc != 1 else 0, 'a submitted report does not count as one')
                # conditions under which the step does not abort are not part of the counter
                A = AND(up, le.g)
                sup = set(bdd.support(A))
                ob.unsat('only submitted reports count', AND(A, NOT(bdd.exists(done, [v for v in bdd.support(done) if v not in sup]))) if not run.unknown() else 0, 'a slot is counted as reported without a report')
                lively(ob, run, 'every submitted report counts', all_ok(conj(done, NOT(up), S.in_range, TM.lt(S.K, S.n))), 'a submitted report is not counted')
    ob.units.append('%d messages, %d totals' % (n, cnt))


def c56(ob, run):
    S = Scan(run)
    opens = run.effects('open')
    if not opens:
        raise NotFollowed('opening of the ledger')
    for e in opens:
        if len(e.args) < 3:
            ob.must('the ledger is opened for reading only', False, 'the ledger is opened with write access, which a running validator excludes', where(e))
        else:
            f = run.struct(e.args[2], r'BlockstoreOptions$')
            g, _ = run.enum(f['access_type'], 'Secondary')
            ob.unsat('the ledger is opened for reading only', AND(e.g, NOT(g)), 'the ledger is opened with write access')
        cn = [c for c in run.effects('canonicalize') if made_of(e.args[1], c.args[0])]
        src = list(e.args[1:2]) + [c.args[1] for c in cn]
        ok = any(made_of(x, (('args',), 'ledger')) for x in src)
        if not ok and run.unknown():
            raise NotFollowed('path of the ledger')
        ob.must('the given ledger is opened', ok, 'another directory than the given ledger is opened', where(e))
    blk = [o for o in opens if made_of(S.scan.args[2], o.args[0])]
    o = one(blk, 'ledgers scanned')
    cont = run.x(run.C.arg('continuous'))
    if type(cont) is not B:
        raise NotFollowed('continuous option')
    again = [L for L in run.I.completes if any(L.K is k.t[0][0] for k in S.loop.outer)]
    # a secondary instance sees what was in the ledger when it was opened
    if S.loop.outer:
        fresh = tuple(k for _, k, _ in o.loops)[:len(S.loop.outer)] == S.loop.outer
        if not fresh and run.unknown():
            raise NotFollowed('opening of the ledger')
        ob.must('each scan sees the current ledger', fresh, 'in continuous mode every scan looks at the ledger as it was at the start', where(S.scan))
    pe, ps, pay = S.proof()
    ob.must('proofs are read from the ledger scanned', len(pe.args) < 3 or made_of(pe.args[2], o.args[0]), 'the proof is read from another ledger', where(pe))
    for u in run.I.unknown:
        if isinstance(u, tuple) and u[0] == 'call':
            ob.must('the ledger is not changed: %s' % u[1], not re.search(r'Blockstore::(insert|purge|remove|set|write|put|store|clear|destroy|add|update|mark|run_purge|cleanup)\w*$', u[1]),
                    'the scan changes the ledger of the validator')
    # the pause between scans
    sl = [e for e in run.effects('sleep') if tuple(k for _, k, _ in e.loops) == S.loop.outer]
    back = disj(*[L.back for L in again])
    paused = disj(*[e.g for e in sl])
    v = run.x(run.C.arg('scan_interval'))
    g, f = run.enum(v, 'Some')
    given = run.lins(f[0])[0][1]
    for e in sl:
        t = run.x(e.args[0])
        if type(t) is not Agg or len(t.f) != 2:
            raise NotFollowed('pause')
        ob.unsat('the pause is the scan interval', disj(conj(e.g, g, run.neq(t.f[0], given)), conj(e.g, NOT(g), run.neq(t.f[0], const(4 * 3600)))),
                 'the client does not pause for the scan interval (four hours if not given) between scans')
    lively(ob, run, 'there is a pause between scans', AND(back, NOT(exists_env(paused))), 'the client scans again without the pause')
    ob.units.append('%d ledgers opened, %d pauses' % (len(opens), len(sl)))


PROPS = {
    'C40': ([('Close', c40), ('Display', c40), ('Attach', c40)]),
    'C41': ([('Attach', c41)]),
    'C42': ([('Close', c42)]),
    'C43': ([('Close', c43)]),
    'C44': ([('Display', c44)]),
    'C45': ([('Attach', c45)]),
    'C46': ([('Attach', c46)]),
    'C47': ([('Attach', c47)]),
    'C48': ([('Attach', c48)]),
    'C49': ([('Close', c49), ('Display', c49)]),
    'C50': ([('Close', c50), ('Display', c50), ('Attach', c50)]),
    'C51': ([('Close', c51), ('Display', c51), ('Attach', c51)]),
    'C52': ([('Close', c52), ('Display', c52), ('Attach', c52)]),
    'C55': ([('Attach', c55)]),
    'C56': ([('Attach', c56)]),
    'C53': [('<output::CloseReportOutput as std::fmt::Display>::fmt', c53_closed),
            ('<output::CloseReportOutputList as std::fmt::Display>::fmt', c53_closed_list),
            ('<output::ViolationReportOutput as std::fmt::Display>::fmt', c53_listed),
            ('<output::ViolationReportOutput as solana_cli_output::VerboseDisplay>::write_str', c53_listed),
            ('<output::ViolationReportListOutput as std::fmt::Display>::fmt', c53_listed_list),
            ('<output::ViolationReportListOutput as solana_cli_output::VerboseDisplay>::write_str', c53_listed_list)],
    'C54': [('<output::ViolationReportOutput as std::fmt::Display>::fmt', c54),
            ('<output::ViolationReportOutput as solana_cli_output::VerboseDisplay>::write_str', c54),
            ('<output::ViolationReportListOutput as std::fmt::Display>::fmt', c54_list),
            ('<output::ViolationReportListOutput as solana_cli_output::VerboseDisplay>::write_str', c54_list)],
}
TECH = {
    'C40': 'effect analysis (inventory of submitting calls with their guards)',
    'C41': 'effect-pairing analysis (every creation is followed by a close attempt, across summarised loops)',
    'C45': 'value-flow and effect-ordering analysis of the written chunks',
    'C46': 'value-flow analysis with loop summarisation (range guards and resume recurrence)',
    'C49': 'panic and exit reachability over the listed accounts',
    'C50': 'error-propagation analysis of every remote call',
    'C51': 'value-flow analysis from options and configuration to connections and payers',
    'C52': 'effect analysis (inventory of printing calls with their guards)',
    'C55': 'value-flow analysis of the announced messages and counters',
    'C56': 'effect analysis of ledger access and pauses',
    'C53': 'value-flow analysis of the formatted text, with loop summarisation',
    'C54': 'panic reachability over the displayed records',
}
NOTE = ('Decided for every argument, ledger content and answer of the remote node from the MIR of the current sources (async bodies '
        'run to completion, loops over remote lists summarised for an arbitrary element); trusts rustc, the MIR dumper, the analyser '
        'with its models of the RPC client, wallet, ledger and instruction builders, and the written specification. Constructs that '
        'are not followed leave an obligation undecided (reported in the evidence), never an alarm.')


def decide(pid, tier, d=None):
    t = time.time()
    d = d or build.dump('cli')
    d = normalise(d)
    ob = COb(pid)
    ext = {'functions_in_dump': len(d['insts']), 'functions_analysed': 0, 'blocks_analysed': 0, 'unmodelled': [], 'samples': []}
    for name, f in PROPS[pid]:
        try:
            run = SRun(d, name) if name.startswith('<') else CRun(d, name)
            ob.run = run
            I = run.I
            ext['functions_analysed'] += len({I.p.I[i]['path'] for i in I.visited})
            ext['blocks_analysed'] += I.blocks_done
            ext['unmodelled'] += sorted({str(u)[:160] for u in run.unknown()})[:10]
            ext['samples'] = sorted({I.p.I[i]['path'] for i in I.visited if I.p.I[i]['local']})[:14]
            f(ob, run)
        except build.BuildError:
            raise
        except Exception as e:
            import traceback
            ob.open.append(('%s: not followed' % name, '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])))
    return ob, ext


if __name__ == '__main__':
    import sys, json, os
    sys.setrecursionlimit(100000)
    d = json.load(open(os.environ.get('DUMP', '/tmp/dump/cli.json')))
    for pid in sys.argv[1:]:
        t = time.time()
        ob, ext = decide(pid, 'quick', json.loads(json.dumps(d)))
        print(pid, len(ob.done), 'done', len(ob.bad), 'bad', len(ob.open), 'open', '%.1fs' % (time.time() - t), ob.units)
        for n, w, l in ob.bad:
            print('  BAD', n, '|', w[:900], l[-1:])
        for n, w in ob.open:
            print('  OPEN', n, '|', w[:1500])
