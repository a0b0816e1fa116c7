"""The command line client: entry states, the remote node, ledger and wallet
as unknowns, and what the interpreter needs beyond the on-chain program
(async bodies, sequences built by conditional pushes)."""
import re
from interp import *
import natives as N
from natives import Natives, opt, res, bytes_of, content_of, adopt, slices, ret_ty
import terms as TM
import harness

H = []


def native(*pats):
    def deco(f):
        for p in pats:
            H.append((re.compile(p), f))
        return f
    return deco


REEXPORT = re.compile(r'\b(?:serde_with|loom|task|map)::(core|alloc|std)::')


def normalise(d):
    """paths are printed through re-exports; undo that"""
    def fix(s):
        return REEXPORT.sub(r'\1::', s)
    for f in d['insts']:
        f['path'] = fix(f['path'])
    for t in d['types']:
        if t:
            t['s'] = fix(t['s'])
            if 'path' in t:
                t['path'] = fix(t['path'])
    return d


class CliNatives(Natives):
    def __init__(self):
        Natives.__init__(self)
        self.x = H

    def lookup(self, I, inst):
        p = I.p.I[inst]['path']
        base = Natives.lookup(self, I, inst)
        for r, f in self.x:
            if r.search(p):
                if base is None:
                    return f

                def both(I, st, inst, args, ci, d, f=f):
                    x = f(I, st, inst, args, ci, d)
                    return base(I, st, inst, args, ci, d) if x is NotImplemented else x
                return both
        return base


class CliProg(Prog):
    def _expand(self, s):
        t = self.T[s.tid]
        if t['k'] == 'coroutine':
            return mkAgg([self.sym(f, (s.name, str(i))) for i, f in enumerate(t['fields'])])
        return Prog._expand(self, s)


class Loop:
    """a summarised loop: exits are the path conditions under which iteration K
    leaves it; those in rest (the ones not due to the bound) make 'passed' false
    and happen at iteration kxs[i]"""

    def __init__(self, passed, K, bound, outs, rest, kxs, name, entry, recs, back, outer):
        self.passed, self.K, self.bound, self.outs, self.rest, self.kxs = passed, K, bound, outs, rest, kxs
        self.name, self.entry, self.recs, self.back, self.outer = name, entry, recs, back, outer
        self.exits = [outs[i] for i in rest]

    def axiom(self):
        """not passed means left at some iteration"""
        if not self.rest or self.passed == 1:
            return 1
        g = self.passed
        for i in self.rest:
            kx = self.kxs[i]
            g = OR(g, Subst(lambda a: kx if a is self.K else None).guard(self.outs[i]))
        return g


class CliInterp(Interp):
    """async bodies are run to completion when polled"""

    def __init__(self, prog, natives, hooks=None):
        Interp.__init__(self, prog, natives, hooks)
        self.completes = []     # summarised loops
        self.entries = {}       # loop K name -> entry guard

    def run_body(self, inst, f, body, args, st):
        if args and body['args'] == 2 and self.p.T[body['locals'][1]]['k'] == 'coroutine':
            dt = None
            co = args[0]
            pinned = not (type(co) is Sym)
            v = self.pinned(co, st)
            if v is not None:
                r, s = Interp.run_body(self, inst, f, body, [v, args[1] if len(args) > 1 else UNINIT], st)
                if s is None:
                    return UNINIT, None
                return self.ready(self.want, r), s
        return Interp.run_body(self, inst, f, body, args, st)

    want = None

    def call_inst1(self, inst, args, st, loc, ci=None, dest_tid=None):
        old = self.want
        self.want = dest_tid
        try:
            return Interp.call_inst1(self, inst, args, st, loc, ci, dest_tid)
        finally:
            self.want = old

    def pinned(self, v, st):
        """the future behind a Pin<&mut F>"""
        if type(v) is Sym:
            v = self.p.expand(v)
        while type(v) is Agg and len(v.f) == 1 and type(v.f[0]) in (G, Agg):
            v = v.f[0]
        if type(v) is G and all(isinstance(l, Ptr) for _, l in v.items):
            x = self.deref_load(v, st)
            return self.p.expand(x) if type(x) is Sym else x
        return None

    def ready(self, tid, v):
        return mkEnum(tid, {self.p.var(tid, 'Ready'): (1, (v,))})

    def cell(self, st, cid):
        # a fresh key pair never changes: its cell is determined by its name
        if isinstance(cid, tuple) and cid[0] == 'keypair':
            return mkNat('keypair', (), cid[1])
        return Interp.cell(self, st, cid)

    def marks(self):
        return Interp.marks(self) + (len(self.completes),)

    def rewind(self, m):
        Interp.rewind(self, m)
        del self.completes[m[4]:]

    # ---- sequences built by conditional pushes, values overwritten each time
    def loopvar(self, depth, idx, init, bv, cp, body, fr, tid):
        if type(init) is Agg and not init.f and cp[1][-1:] == (('n', 0),) and tid is not None and not self.p.is_u8(tid) \
                and type(bv) is G and all(type(l) is Agg for _, l in bv.items):
            nm = ('lv', depth, idx)
            return mkNat('symseq', [mkL(TM.of(TM.atom('var', ((nm, 'len'),), 0, LEN_MAX)))], ('symseq', tid, ('lvseq',) + nm))
        if type(init) is Agg and init.f and type(bv) is Agg and len(init.f) == len(bv.f):
            return mkAgg([self.loopvar(depth, (idx, i), x, y, cp, body, fr, None) for i, (x, y) in enumerate(zip(init.f, bv.f))])
        return Interp.loopvar(self, depth, idx, init, bv, cp, body, fr, tid)

    def closed(self, lv, bv, init, kl):
        r = Interp.closed(self, lv, bv, init, kl)
        if r is not None:
            return r
        K = kl.t[0][0]
        if type(lv) is Nat and lv.kind == 'symseq' and lv.tag[2][0] == 'lvseq':
            if type(bv) is not G or len(bv.items) != 2:
                return None
            keep = [c for c, l in bv.items if l is lv]
            app = [(c, l) for c, l in bv.items if type(l) is Nat and l.kind == 'symseq' and l.tag[2][0] == 'append' and l.tag[2][1] is lv]
            if len(keep) != 1 or len(app) != 1:
                return None
            g, l = app[0]
            x = l.tag[2][2]
            if type(x) is not Agg or len(x.f) != 1 or has_lv(x) or has_lv(mkB(g)):
                return None
            gk = TM.atom('gk', K.args, 0, 1 << 40)
            sb = Subst(lambda a: TM.of(gk) if a is K else None)
            e, gg = sb.val(x.f[0]), sb.val(mkB(g))
            n = TM.of(TM.atom('count', (gk, gg, kl), 0, LEN_MAX))
            return mkNat('symseq', [leaf(n), e, gg], ('symseq', lv.tag[1], ('filt', gk)))
        if type(lv) is G and type(bv) is G and len(lv.items) == 1 and isinstance(lv.items[0][1], Lin) \
                and all(isinstance(l, Lin) for _, l in bv.items):
            # a counter: a constant or nothing is added in each iteration
            x = lv.items[0][1]
            ds = [sub(l, x) for _, l in bv.items]
            its = self.items(init)
            if len(x.t) == 1 and all(not q.t and 0 <= q.c <= 1 << 20 for q in ds) and len(its) == 1 and its[0][1].lo >= 0:
                i0 = its[0][1]
                gk = TM.atom('gk', K.args, 0, 1 << 40)
                sb = Subst(lambda a: TM.of(gk) if a is K else (i0 if a is x.t[0][0] else None))
                nm = tuple((q.c, sb.val(mkB(c))) for q, (c, _) in zip(ds, bv.items))
                return mkL(TM.of(TM.atom('accum', (gk, nm, kl, i0), i0.lo, i0.hi + max(q.c for q in ds) * (1 << 40))))
        if has_lv(bv) or type(bv) in (Uninit,):
            return None
        prev = Subst(lambda a: addc(kl, -1) if a is K else None).val(bv)
        return ite(TM.eq(kl, ZERO), init, prev, self.p)

    def gen_elem(self, v, ix):
        if v.tag[2][0] == 'filt':
            gk = v.tag[2][1]
            j = TM.of(TM.atom('sel', (gk, v.f[1], v.f[2], ix), 0, 1 << 40))
            return Subst(lambda a: j if a is gk else None).val(v.f[1])
        if v.tag[2][0] == 'sorted':
            return self.gen_elem(v.tag[2][1], TM.of(TM.atom('perm', (v, ix), 0, 1 << 40)))
        return Interp.gen_elem(self, v, ix)

    def proj(self, v, step, st):
        if type(v) is Nat and v.kind == 'symseq' and step[0] == 'e' and v.tag[2][0] in ('filt', 'sorted'):
            return self.gen_elem(v, const(step[1]))
        return Interp.proj(self, v, step, st)

    def symidx(self, g, cid, path, ix, et, st):
        v = self.read_path(self.cell(st, cid), path, st)
        if type(v) is Nat and v.kind == 'symseq' and v.tag[2][0] in ('filt', 'sorted'):
            key = ('gen', v.id, ix.id)
            self.p.cells.setdefault(key, self.gen_elem(v, ix))
            return [(g, ('c', key, ()))]
        return Interp.symidx(self, g, cid, path, ix, et, st)

    def loop_id(self, name):
        # the same when an enclosing loop is analysed again
        return len([1 for L in self.completes if L.name == name])

    def loop_done(self, st, outs, back, sysd, K, bound, name, passed, rest, kxs):
        self.completes.append(Loop(passed, K, bound, [s.pc for _, s in outs], rest, kxs, name, st.pc, sysd,
                                   back.pc if back is not None else 0, tuple(k for _, k, _ in self.loops)))

    def here(self):
        """loop counters of the current iteration"""
        return tuple(k for _, k, _ in self.loops)

    def fresh(self, what):
        """name of a new unknown: what, occurrence, iteration"""
        n = sum(1 for e in self.effects if e.kind == 'new')
        self.effect(State(1, None), 'new', (what,))
        return (what, n) + self.here()


def has_lv(v):
    aa, rr = atoms_of(v)
    if any(is_lv(a.args) for a in aa if a.kind == 'var') or any(is_lv(r.key) for r in rr):
        return True
    labs = set()
    collect_labels(v, labs)
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and x[0] in ('lv', 'lvseq'):
                return True
            st.extend(x)
        elif isinstance(x, (Sym, Nat, Agg, Enum, G, B, Ptr)):
            if x.id in seen:
                continue
            seen.add(x.id)
            if isinstance(x, Sym):
                st.append(x.name)
            elif isinstance(x, Nat):
                st.append(x.tag)
                st.extend(x.f)
            elif isinstance(x, Agg):
                st.extend(x.f)
            elif isinstance(x, Enum):
                for c, f in x.v.values():
                    labs |= {bdd.names[q] for q in bdd.support(c)}
                    st.extend(f)
            elif isinstance(x, G):
                st.extend(l for _, l in x.items)
            elif isinstance(x, Ptr):
                st.extend(x.a)
        elif isinstance(x, TM.Atom):
            if x.id not in seen:
                seen.add(x.id)
                st.append(x.args)
    return any(is_lv(l) or 'lv(' in repr(l) for l in labs if isinstance(l, tuple))


def load_sym(I, v, st):
    x = I.deref_load(v, st)
    return I.p.expand(x) if type(x) is Sym else x


# ---------------------------------------------------------------- snapshots
def snap(I, v, st, tid=None, depth=0):
    """the value with pointers replaced by what they point to"""
    if depth > 12:
        return v
    if type(v) is Sym:
        return v
    if type(v) is Agg:
        return mkAgg([snap(I, x, st, None, depth + 1) for x in v.f])
    if type(v) is Enum:
        return mkEnum(v.tid, {k: (c, tuple(snap(I, x, st, None, depth + 1) for x in f)) for k, (c, f) in v.v.items()})
    if type(v) is Nat:
        if v.kind in ('rc',):
            return snap(I, v.f[0], st, None, depth + 1)
        if v.kind == 'vec':
            return mkNat('vec', [snap(I, x, st, None, depth + 1) for x in v.f], v.tag)
        return v
    if type(v) is G and any(isinstance(l, (Ptr, Nat, Agg)) for _, l in v.items):
        r = None
        for c, l in v.items:
            if AND(c, st.pc) == 0:
                continue
            if isinstance(l, Ptr):
                if l.kind == 'fn':
                    x = leaf(l)
                elif l.kind == 'slice':
                    x = snap(I, content_of(I, leaf(l), st), st, None, depth + 1)
                else:
                    x = snap(I, I.deref_load(leaf(l), st), st, None, depth + 1)
            elif isinstance(l, (Nat, Agg, Enum)):
                x = snap(I, l, st, None, depth + 1)
            else:
                x = leaf(l) if isinstance(l, (Lin, Bytes)) else l
            r = x if r is None else ite(c, x, r, I.p)
        return r if r is not None else v
    return v


# ---------------------------------------------------------------- remote calls
RPC = re.compile(r'rpc_client::RpcClient::(\w+)$')
RPCPOLL = re.compile(r'rpc_client::RpcClient::(\w+)(::<.*>)?::\{closure#0\}$')


@native(RPC.pattern)
def h_rpc(I, st, inst, args, ci, d):
    m = RPC.search(I.p.I[inst]['path']).group(1)
    d = ret_ty(I, inst, d)
    a = [snap(I, x, st) for x in args[1:]]
    if m.startswith('new'):
        I.effect(st, 'connect', (m,) + tuple(snap(I, x, st) for x in args))
        return mkSym(d, ('rpc client',))
    if I.p.T[d]['k'] in ('adt', 'int', 'bool', 'ref', 'tuple'):
        return I.p.sym(d, ('rpc attribute', m))
    return mkNat('fut', a, (m,))


@native(RPCPOLL.pattern)
def h_rpcpoll(I, st, inst, args, ci, d):
    f = I.pinned(args[0], st)
    if type(f) is not Nat or f.kind != 'fut' or d is None:
        return NotImplemented
    m = f.tag[0]
    out = I.p.T[d]['targs'][0]
    nm = I.fresh('rpc')
    e = I.effect(st, 'rpc', (m,) + tuple(f.f))
    r = I.p.expand(I.p.sym(out, nm))
    e.ok = None
    if type(r) is Enum and I.p.T[r.tid]['path'] == 'std::result::Result':
        e.ok = r.v[I.p.var(r.tid, 'Ok')][0]
        I.failed(st, NOT(e.ok), nm)
    e.result = r
    return I.ready(d, r)


def failed(I, st, g, nm):
    pass


CliInterp.failed = failed


def default_of(I, tid):
    t = I.p.T[tid]
    if t['k'] == 'bool':
        return mkB(0)
    if t['k'] == 'int':
        return mkI(0)
    if t['k'] == 'adt' and t['path'] == 'std::option::Option':
        return mkEnum(tid, {I.p.var(tid, 'None'): (1, ())})
    if t['k'] == 'adt' and t.get('adt') == 'struct':
        f = [default_of(I, ft) for _, ft in t['variants'][0]['fields']]
        return None if any(x is None for x in f) else mkAgg(f)
    return None


@native(r'^<[\w:]*::Rpc\w+Config as std::default::Default>::default$')
def h_rpcdefault(I, st, inst, args, ci, d):
    # derived defaults
    v = default_of(I, ret_ty(I, inst, d))
    return NotImplemented if v is None else v


@native(r'^<.* as std::clone::Clone>::clone$')
def h_clone(I, st, inst, args, ci, d):
    if I.p.I[inst]['body']:
        return NotImplemented
    return I.deref_load(args[0], st)


# ---------------------------------------------------------------- keys and signers
def pubkey_val(b):
    return mkAgg([leaf(b)])


def signer_key(I, v, st, depth=0):
    """public key bytes [(guard, Bytes)] of a signer reference"""
    if type(v) is Sym:
        w = I.p.expand(v)
        if w is v or type(w) in (Agg, Enum):
            return [(1, rbytes(TM.region(('pubkey', v.name), const(32))))]
        v = w
    if type(v) is Nat:
        if v.kind == 'keypair':
            return [(1, rbytes(TM.region(('pubkey', v.tag), const(32))))]
        if v.kind == 'rc':
            return signer_key(I, v.f[0], st, depth + 1)
        return []
    if type(v) is Agg and len(v.f) == 1:
        return signer_key(I, v.f[0], st, depth + 1)
    out = []
    if type(v) is G and depth < 12:
        for c, l in v.items:
            if AND(c, st.pc) == 0:
                continue
            if isinstance(l, Ptr):
                x = I.deref_load(leaf(l), st)
            else:
                x = l
            out += [(AND(c, g), b) for g, b in signer_key(I, x, st, depth + 1)]
    return out


@native(r' as .*Signer>::pubkey$', r'Signer::pubkey$')
def h_pubkey(I, st, inst, args, ci, d):
    k = signer_key(I, args[0], st)
    if not k:
        I.note('signer', repr(snap(I, args[0], st))[:100])
        return NotImplemented
    return mkAgg([mkG(k)])


@native(r'Keypair::new$')
def h_keypair(I, st, inst, args, ci, d):
    nm = I.fresh('keypair')
    I.effect(st, 'keypair', (nm,))
    return mkNat('keypair', (), nm)


@native(r'^std::(rc::Rc|sync::Arc|boxed::Box)::<T>::new$')
def h_arckey(I, st, inst, args, ci, d):
    if type(args[0]) is not Nat or args[0].kind != 'keypair' or 'Box' in I.p.I[inst]['path']:
        return NotImplemented
    return mkNat('rc', [leaf(ptr('cell', ('keypair', args[0].tag), ()))])


@native(r'^<std::(sync::Arc|rc::Rc)<.*> as std::convert::From<std::boxed::Box<.*>>>::from$')
def h_arcbox(I, st, inst, args, ci, d):
    v = args[0]
    if type(v) is Sym:
        v = I.p.expand(v)
    return mkNat('rc', [v])


@native(r'^solana_clap_v3_utils::keypair::(pubkey|signer)_from_\w+$')
def h_source(I, st, inst, args, ci, d):
    fn = I.p.I[inst]['path'].rsplit('::', 1)[1]
    src = snap(I, args[1], st)
    return I.p.expand(I.p.sym(ret_ty(I, inst, d), (fn, src)))


# ---------------------------------------------------------------- transactions
@native(r'Transaction::new_signed_with_payer$')
def h_tx(I, st, inst, args, ci, d):
    ixs = content_of(I, args[0], st)
    payer = snap(I, args[1], st)
    sg = I.deref_load(args[2], st)
    ks = []
    if type(sg) is Agg:
        for x in sg.f:
            k = signer_key(I, x, st)
            ks.append(mkG(k) if k else UNINIT)
    else:
        I.note('signers', repr(sg)[:100])
    return mkNat('tx', [ixs, payer, mkAgg(ks), args[3]], ())


@native(r'^spl_record::instruction::(\w+)$', r'^solana_system_interface::instruction::(\w+)$',
        r'^solana_slashing_program::instruction::(close_violation_report|duplicate_block_proof\w*)$')
def h_ix(I, st, inst, args, ci, d):
    p = I.p.I[inst]['path']
    d = ret_ty(I, inst, d)
    tag = (p.split('::')[0], p.rsplit('::', 1)[1])
    fs = [snap(I, a, st) for a in args]
    if I.p.T[d]['k'] == 'array':
        return mkAgg([mkNat('ix', fs, tag + (i,)) for i in range(I.p.T[d]['len'])])
    return mkNat('ix', fs, tag)


@native(r'^(spl_record|solana_slashing_program)::id$', r'::(system_program|program|sysvar(::\w+)*)::id$', r'SysvarId for .*>::id$',
        r'^(spl_record|solana_slashing_program)::ID$')
def h_id(I, st, inst, args, ci, d):
    p = I.p.I[inst]['path']
    if p.startswith('solana_slashing_program::'):
        return NotImplemented
    return mkAgg([leaf(rbytes(TM.region(('id', p), const(32))))])


@native(r'Pubkey as std::cmp::PartialEq>::(eq|ne)$')
def h_pkeq(I, st, inst, args, ci, d):
    a, b = load_sym(I, args[0], st), load_sym(I, args[1], st)
    g = N.val_eq(I, a, b, st)
    return mkB(g if I.p.I[inst]['path'].endswith('::eq') else NOT(g))


@native(r'Pubkey as std::convert::AsRef<\[u8\]>>::as_ref$', r'Pubkey::(as_array|to_bytes|as_ref)$')
def h_pkref(I, st, inst, args, ci, d):
    if I.p.I[inst]['path'].endswith('to_bytes'):
        v = args[0]
        v = I.p.expand(v) if type(v) is Sym else v
        return v.f[0]
    out = []
    for c, loc in I.locs_deref(args[0], st, None):
        if loc[0] == 'c':
            out.append((c, ptr('slice', loc[1], loc[2] + (('f', 0),), ZERO, const(32), I.p.u8())))
        elif loc[0] == 'v':
            out.append((c, ptr('slice', loc[1], loc[2], loc[3], const(32), I.p.u8())))
    return mkG(out) if out else NotImplemented


@native(r'ReadableAccount>::data$')
def h_data(I, st, inst, args, ci, d):
    t = I.p.T[I.p.T[ci['atys'][0]]['to']] if ci and ci.get('atys') else None
    out = []
    for c, loc in I.locs_deref(args[0], st, None):
        if loc[0] != 'c' or t is None or t['k'] != 'adt':
            return NotImplemented
        i = [n for n, _ in t['variants'][0]['fields']].index('data')
        out += [(AND(c, g), p) for g, p in slices(I, leaf(ptr('cell', loc[1], loc[2] + (('f', i),))), st)]
    return mkG(out)


# ---------------------------------------------------------------- ledger
@native(r'Blockstore::duplicate_slots_iterator$')
def h_slots(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    nm = I.fresh('slots')
    I.effect(st, 'scan', (nm, args[1], snap(I, args[0], st)))
    g = bdd.atom(('bool', (nm, 'ok'), 'slots ok'))
    it = mkNat('slots', [mkI(0)], nm)
    et = I.p.T[d]['targs'][1]
    r = res(I, d, g, it, mkSym(et, (nm, 'err')))
    I.failed(st, NOT(g), nm)
    return r


def slot_at(nm, k):
    return TM.of(TM.atom('var', ((('slot', nm, k)),), 0, U64))


def slot_count(nm):
    return TM.var(('len', nm), 0, LEN_MAX)


@native(r'Iterator>::next$')
def h_slotnext(I, st, inst, args, ci, d):
    v = I.deref_load(args[0], st)
    if type(v) is not Nat or v.kind != 'slots' or d is None:
        return NotImplemented
    pos = v.f[0].items[0][1]
    has = TM.lt(pos, slot_count(v.tag))
    if AND(NOT(has), st.pc) != 0 and AND(has, st.pc) != 0:
        I.sym_next = True
    I.deref_store(args[0], ite(has, mkNat('slots', [mkL(addc(pos, 1))], v.tag), v, I.p), st)
    return opt(I, d, has, mkL(slot_at(v.tag, pos)))


@native(r'Blockstore::get_duplicate_slot$')
def h_getdup(I, st, inst, args, ci, d):
    nm = I.fresh('duplicate proof')
    e = I.effect(st, 'proof', (nm, args[1], snap(I, args[0], st)))
    e.result = I.p.expand(I.p.sym(ret_ty(I, inst, d), nm))
    return e.result


@native(r'shred::(payload::)?Payload as std::(convert::AsRef<\[u8\]>>::as_ref|ops::Deref>::deref)$')
def h_payload(I, st, inst, args, ci, d):
    out = []
    for c, loc in I.locs_deref(args[0], st, None):
        v = I.read_path(I.cell(st, loc[1]), loc[2], st) if loc[0] == 'c' else I.load(loc, st)
        r = TM.region(('payload', v))
        cid = ('payload', v.id)
        I.p.cells.setdefault(cid, leaf(rbytes(r)))
        out.append((c, ptr('slice', cid, (), ZERO, r.len, I.p.u8())))
    return mkG(out) if out else NotImplemented


@native(r'^solana_ledger::shred::Shred::new_from_serialized_shred$')
def h_parse(I, st, inst, args, ci, d):
    """the ledger may refuse any shred the program accepted"""
    d = ret_ty(I, inst, d)
    return I.p.expand(I.p.sym(d, I.fresh('parsed shred')))


@native(r'^solana_ledger::shred::.*get_merkle_root$')
def h_root(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    b = bytes_of(I, args[0], st)
    r = None
    for c, x in I.items(b):
        if not isinstance(x, Bytes):
            return NotImplemented
        v = opt(I, d, bdd.atom(('has merkle root', x)), I.p.expand(I.p.sym(I.p.T[d]['targs'][0], ('merkle root', x))))
        r = v if r is None else ite(c, v, r, I.p)
    return r


@native(r'Blockstore::open(_with_\w+)?$')
def h_open(I, st, inst, args, ci, d):
    nm = I.fresh('blockstore')
    I.effect(st, 'open', (nm,) + tuple(snap(I, x, st) for x in args))
    return I.p.expand(I.p.sym(ret_ty(I, inst, d), nm))


# ---------------------------------------------------------------- output, environment
@native(r'^std::io::_?e?_?print$')
def h_print(I, st, inst, args, ci, d):
    p = I.p.I[inst]['path']
    if 'eprint' in p:
        I.effect(st, 'eprint', (snap(I, args[0], st),))
        I.reported(st)
    else:
        I.effect(st, 'print', (snap(I, args[0], st),))
    return UNIT


# text is followed as the pieces and values it is made of
@native(r'^core::fmt::rt::Argument::<.*>::new_\w+$')
def h_fmtarg(I, st, inst, args, ci, d):
    return mkNat('fmtarg', [snap(I, args[0], st)], (I.p.I[inst]['path'].rsplit('_', 1)[1],))


@native(r'^std::fmt::Arguments::<.*>::new$')
def h_fmtargs(I, st, inst, args, ci, d):
    return mkNat('text', [snap(I, x, st) for x in args])


@native(r'^std::fmt::Arguments::<.*>::from_str\w*$')
def h_fmtstr(I, st, inst, args, ci, d):
    return mkNat('text', [snap(I, args[0], st)])


@native(r'^(std|alloc)::fmt::format(::format_inner)?$', r'::to_string$', r'^console::style(::<.*>)?$', r'^console::StyledObject::<.*>::\w+$')
def h_text(I, st, inst, args, ci, d):
    v = snap(I, args[0], st)
    return mkSym(ret_ty(I, inst, d), ('text', v if I.p.I[inst]['path'].endswith(('format', 'format_inner')) else mkNat('fmtarg', [v], ('display',))))


@native(r'^std::fmt::Formatter::<.*>::write_(fmt|str|char)$', r'^(<.* as )?std::fmt::Write>?::write_(fmt|str|char)$',
        r'writeln_name_value$', r'^<.* as std::fmt::Write>::write_(fmt|str|char)$')
def h_write(I, st, inst, args, ci, d):
    I.effect(st, 'text', tuple(snap(I, x, st) for x in args[1:]))
    return res(I, ret_ty(I, inst, d), 1, UNIT, UNIT)


def reported(I, st):
    pass


CliInterp.reported = reported


@native(r'OutputFormat::formatted_string$')
def h_formatted(I, st, inst, args, ci, d):
    v = snap(I, args[1], st)
    I.effect(st, 'output', (v, snap(I, args[0], st)))
    return mkSym(ret_ty(I, inst, d), ('formatted', v))


@native(r'^std::process::exit$')
def h_exit(I, st, inst, args, ci, d):
    I.effect(st, 'exit', (args[0],))
    st.pc = 0
    return UNINIT


@native(r'^std::thread::sleep$', r'^tokio::time::sleep$')
def h_sleep(I, st, inst, args, ci, d):
    I.effect(st, 'sleep', (snap(I, args[0], st),))
    return UNIT if 'thread' in I.p.I[inst]['path'] else NotImplemented


@native(r'^solana_logger::')
def h_unit(I, st, inst, args, ci, d):
    return UNIT


@native(r'Rent::minimum_balance$')
def h_rentmin(I, st, inst, args, ci, d):
    r = snap(I, args[0], st)
    return I.lift2(args[1], args[1], lambda n, _: TM.of(TM.atom('rent', (r, n), 0, U64)), st)


@native(r'^std::fs::canonicalize$', r'^std::sys::fs::canonicalize$')
def h_canon(I, st, inst, args, ci, d):
    nm = I.fresh('path')
    I.effect(st, 'canonicalize', (nm, snap(I, args[0], st)))
    return I.p.expand(I.p.sym(ret_ty(I, inst, d), nm))


@native(r'^<[\w:]*[A-Z_]+ as std::ops::Deref>::deref$')
def h_static(I, st, inst, args, ci, d):
    return I.p.sym(ret_ty(I, inst, d), ('lazy', I.p.I[inst]['path']))


CTOR = {'std::prelude::v1::Ok', 'std::prelude::v1::Err', 'std::prelude::v1::Some', 'std::ops::ControlFlow::Break',
        'std::ops::ControlFlow::Continue', 'std::result::Result::Ok', 'std::result::Result::Err', 'std::option::Option::Some',
        'std::task::Poll::Ready'}


@native(r'::(Ok|Err|Some|Break|Continue|Ready)$')
def h_ctor(I, st, inst, args, ci, d):
    p = I.p.I[inst]['path']
    d = ret_ty(I, inst, d)
    if p not in CTOR or d is None or I.p.T[d]['k'] != 'adt' or I.p.T[d].get('adt') == 'struct':
        return NotImplemented
    return mkEnum(d, {I.p.var(d, p.rsplit('::', 1)[1]): (1, tuple(args))})


@native(r'^<std::boxed::Box<dyn std::error::Error.*> as std::convert::From<.*>>::from$',
        r"^<std::boxed::Box<\(?dyn std::error::Error.*>::from$",
        r'^std::boxed::convert::<impl std::convert::From<.*> for std::boxed::Box<\(?dyn std::error::Error.*>::from$')
def h_boxerr(I, st, inst, args, ci, d):
    return mkNat('rc', [snap(I, args[0], st)])


@native(r'solana_cli_config::Config::load$', r'^<solana_cli_config::Config as std::default::Default>::default$')
def h_cliconfig(I, st, inst, args, ci, d):
    nm = I.fresh('cli config')
    I.effect(st, 'load', (nm,) + tuple(snap(I, x, st) for x in args))
    return I.p.expand(I.p.sym(ret_ty(I, inst, d), nm))


@native(r'^<solana_cli_output::OutputFormat as std::cmp::PartialEq>::(eq|ne)$')
def h_ofeq(I, st, inst, args, ci, d):
    a, b = load_sym(I, args[0], st), load_sym(I, args[1], st)
    if type(a) is not Enum or type(b) is not Enum:
        return NotImplemented
    g = 0
    for k, (c, f) in a.v.items():
        if k in b.v:
            g = OR(g, AND(c, b.v[k][0]))
    return mkB(g if I.p.I[inst]['path'].endswith('::eq') else NOT(g))


@native(r'^<std::sync::LazyLock<.*> as std::ops::Deref>::deref$', r'^std::sync::LazyLock::<.*>::force$')
def h_lazylock(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    l = [l for _, l in I.items(args[0])]
    if len(l) != 1 or not isinstance(l[0], Ptr) or l[0].kind != 'cell':
        return NotImplemented
    cid = ('lazylock', repr(l[0].a))
    I.p.cells.setdefault(cid, I.p.sym(I.p.T[d]['to'], cid))
    return leaf(ptr('cell', cid, ()))


@native(r'^std::slice::<impl \[T\]>::sort(_unstable)?(_by|_by_key|_by_cached_key)?$')
def h_sort(I, st, inst, args, ci, d):
    how = I.p.I[inst]['path'].rsplit('::', 1)[1]
    sl = slices(I, args[0], st)
    if len(sl) != 1 or not (ci and ci.get('atys')):
        return NotImplemented
    g, p = sl[0]
    v = I.read_path(I.cell(st, p.a[0]), p.a[1], st)
    if type(v) is Agg and len(v.f) <= 1:
        return UNIT
    if type(v) is not Nat or v.kind != 'symseq' or p.a[2] is not ZERO or len(args) < 2 or v.tag[2][0] not in ('filt', 'gen', 'sorted'):
        return NotImplemented
    ft = ci['atys'][1]
    js = [TM.of(TM.atom('var', (('sorted', v.id, i),), 0, 1 << 40)) for i in (0, 1)]
    xs = [I.gen_elem(v, j) for j in js]
    ps = [leaf(ptr('cell', I.new_cell(st, x, tag='sorted'), ())) for x in xs]
    inner = st.copy()
    if 'key' in how:
        ks = []
        for q in ps:
            k, inner = I.call_closure((args[1], ft), [q], inner, how)
            if inner is None:
                return NotImplemented
            ks.append(k)
        lt = le = 0
        for c1, k1 in I.items(ks[0]):
            for c2, k2 in I.items(ks[1]):
                if not isinstance(k1, Lin) or not isinstance(k2, Lin):
                    return NotImplemented
                c = AND(c1, c2)
                lt = OR(lt, AND(c, TM.lt(k1, k2)))
                le = OR(le, AND(c, TM.le(k1, k2)))
    else:
        r, inner = I.call_closure((args[1], ft), ps, inner, how)
        if inner is None or type(r) is not Enum:
            return NotImplemented
        def at(n):
            i = I.p.var(r.tid, n)
            return r.v[i][0] if i in r.v else 0
        lt = at('Less')
        le = OR(lt, at('Equal'))
    st.mem.update({k: x for k, x in inner.mem.items() if k in st.mem})
    nv = mkNat('symseq', list(v.f), ('symseq', v.tag[1], ('sorted', v, xs[0], xs[1], mkB(lt), mkB(le), 'unstable' not in how)))
    st.mem[p.a[0]] = I.write_path(I.cell(st, p.a[0]), p.a[1], nv, st)
    return UNIT


@native(r'^<std::result::Result<.*> as std::iter::FromIterator<std::result::Result<.*>>>::from_iter$')
def h_tryvec(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    if not (ci and ci.get('atys')):
        return NotImplemented
    it, itt = args[0], ci['atys'][0]
    vt, et = I.p.T[d]['targs'][:2]
    vec = I.p.T[vt]['k'] == 'adt' and I.p.T[vt]['path'] == 'std::vec::Vec'
    if not vec and I.p.T[vt]['s'] != '()':
        return NotImplemented
    if type(it) is Sym:
        it = I.p.expand(it)
    s0 = st.copy()
    rc = I.new_cell(st, mkNat('vec', [UNIT], I.p.T[vt]['targs'][0]) if vec else UNIT, tag='collected')
    ec = I.new_cell(st, UNINIT, tag='first error')

    def stepf(acc, x, s):
        x = I.p.expand(x) if type(x) is Sym else x
        if type(x) is not Enum:
            raise Unsupported('collect of %r' % (repr(x)[:80],))
        ok = x.v.get(I.p.var(x.tid, 'Ok'), (0, (UNINIT,)))
        er = x.v.get(I.p.var(x.tid, 'Err'), (0, (UNINIT,)))
        bad = AND(s.pc, NOT(ok[0]))
        if bad != 0:
            s.mem[ec] = ite(bad, er[1][0], I.cell(s, ec), I.p)
        if vec:
            keep = s.mem[rc]
            N.vec_update(I, s, leaf(ptr('cell', rc, ())), lambda c, e: N.cappend(I, c, mkAgg([ok[1][0]]), e))
            s.mem[rc] = ite(ok[0], s.mem[rc], keep, I.p)
        return mkB(NOT(ok[0])), s, NOT(ok[0])
    b = N.drive(I, st, it, itt, mkB(0), stepf, 'collect')
    if b is None:
        adopt(st, s0)
        return NotImplemented
    if st.pc == 0:
        return UNINIT
    return res(I, d, NOT(b.g), I.cell(st, rc), I.cell(st, ec))


# ---------------------------------------------------------------- join_all
@native(r'future::join_all$', r'::join_all$')
def h_joinall(I, st, inst, args, ci, d):
    v = args[0]
    if type(v) is Sym:
        v = I.p.expand(v)
    if type(v) is not Nat or v.kind != 'vec':
        return NotImplemented
    return mkNat('joinall', [v], ())


@native(r'JoinAll<.*> as .*Future>::poll$')
def h_joinpoll(I, st, inst, args, ci, d):
    j = I.pinned(args[0], st)
    if type(j) is not Nat or j.kind != 'joinall' or d is None:
        return NotImplemented
    vec = j.f[0]
    ft = I.p.T[vec.tag]
    out = I.p.T[d]['targs'][0]         # Vec<Output>
    el = I.p.T[out]['targs'][0]
    if ft['k'] != 'coroutine' or ft.get('inst') is None:
        return NotImplemented
    c = I.new_cell(st, vec, tag='join')
    sl = slices(I, leaf(ptr('cell', c, ())), st)
    it = mkNat('siter', [mkG(sl), mkI(0), mkG([(g, p.a[3]) for g, p in sl])], 'v')
    rc = I.new_cell(st, mkNat('vec', [UNIT], el), tag='joined')
    pt = [i for i, t in enumerate(I.p.T) if t and t['k'] == 'adt' and t['path'] == 'std::task::Poll' and t['targs'] == [el]]
    if not pt:
        return NotImplemented

    def stepf(acc, x, s):
        fc = I.new_cell(s, x, tag='fut')
        r, s2 = I.call_inst(ft['inst'], [mkAgg([leaf(ptr('cell', fc, ()))]), UNINIT], s, 'join_all', None, pt[0])
        if s2 is None:
            return acc, None, 0
        v = r.v[I.p.var(r.tid, 'Ready')][1][0]
        N.vec_update(I, s2, leaf(ptr('cell', rc, ())), lambda c, e: N.cappend(I, c, mkAgg([v]), e))
        return acc, s2, 0
    if N.drive(I, st, it, I.p.u8(), UNIT, stepf, 'join_all') is None:
        return NotImplemented
    if st.pc == 0:
        return UNINIT
    return I.ready(d, I.cell(st, rc))


# ---------------------------------------------------------------- entry
class Command:
    """main with one command chosen and every argument, remote answer, ledger
    and wallet content unknown"""

    def __init__(self, d, name, config=True):
        self.p = p = CliProg(d)
        self.I = CliInterp(p, CliNatives())
        self.name = name
        self.d = d
        ct = [i for i, t in enumerate(p.T) if t and t['k'] == 'adt' and t['path'] == 'cli::Cli']
        if len(ct) != 1:
            raise Unsupported('Cli not found')
        ct = ct[0]
        f = []
        for n, t in p.fields(ct):
            if n == 'command':
                v = p.var(t, name)
                ft = p.T[t]['variants'][v]['fields'][0][1]
                f.append(mkEnum(t, {v: (1, (p.expand(p.sym(ft, ('args',))),))}))
                self.argt = ft
            else:
                f.append(p.sym(t, ('cli', n)))
        self.cli = mkAgg(f)
        self.ct = ct

    def arg(self, n):
        return self.p.sym(self.p.fields(self.argt)[self.p.fidx(self.argt, n)][1], (('args',), n))

    def run(self):
        p, I = self.p, self.I
        fs = p.find('main::{closure#0}')
        fs = [i for i in fs if p.T[p.I[i]['body']['locals'][1]]['k'] == 'coroutine']
        if len(fs) != 1:
            raise Unsupported('main not found')
        inst = fs[0]
        cli = self.cli

        def parse(I, st, inst, args, ci, d):
            return cli
        I.nat.x = [(re.compile(r'clap::Parser(>)?::parse$'), parse)] + I.nat.x
        st = State(1, {})
        body = p.I[inst]['body']
        I.st0 = st
        c = I.new_cell(st, mkAgg([]), tag='main')
        out = [i for i, t in enumerate(p.T) if t and t['k'] == 'adt' and t['path'] == 'std::task::Poll' and t['targs'] == [body['locals'][0]]]
        bdd.where = I.locate
        import interp
        un = interp.UNROLL
        interp.UNROLL = 1
        try:
            I.stack.append((inst, 'main'))
            I.want = None
            self.ret, self.st = Interp.run_body(I, inst, p.I[inst], body, [mkAgg([]), UNINIT], st)
        finally:
            bdd.where = None
            interp.UNROLL = un
        return self


class Shown:
    """one function that writes a value as text, for any value"""

    def __init__(self, d, path, name):
        self.p = p = CliProg(d)
        self.I = I = CliInterp(p, CliNatives())
        self.name, self.C = name, self
        fs = p.find(path)
        if len(fs) != 1:
            raise Unsupported('%s: %d functions' % (path, len(fs)))
        inst = fs[0]
        body = p.I[inst]['body']
        st = State(1, {})
        I.st0 = st
        self.tid = p.T[body['locals'][1]]['to']
        c = I.new_cell(st, p.expand(p.sym(self.tid, ('shown',))), tag='shown')
        out = I.new_cell(st, mkAgg([]), tag='writer')
        bdd.where = I.locate
        import interp
        un = interp.UNROLL
        interp.UNROLL = 1
        try:
            I.stack.append((inst, path))
            self.ret, self.st = Interp.run_body(I, inst, p.I[inst], body, [leaf(ptr('cell', c, ())), leaf(ptr('cell', out, ()))], st)
        finally:
            bdd.where = None
            interp.UNROLL = un
        self.value = I.cell(st, c)


if __name__ == '__main__':
    import json, time, sys
    d = normalise(json.load(open('/tmp/dump/cli.json')))
    t = time.time()
    e = Command(d, sys.argv[1])
    I = e.I
    try:
        e.run()
    finally:
        print('time', time.time() - t, 'blocks', I.blocks_done, 'bdd', len(bdd.names))
        print('panics')
        for x in I.panics:
            print(' ', x.msg, x.loc, show_guard(x.g)[:200])
        print('effects')
        for x in I.effects:
            if x.kind != 'new':
                print(' ', repr(x)[:700], 'LOOPS', [(n, k) for n, k, b in x.loops])
        print('unknown')
        for x in dict.fromkeys(I.unknown):
            print('  ', str(x)[:300])
        print(I.loopinfo)
        print('fog', show_guard(I.fog)[:300] if I.fog > 1 else I.fog)
    print(repr(e.ret)[:3000])
