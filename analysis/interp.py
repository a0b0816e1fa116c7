"""Gated value-flow analysis of monomorphic MIR.

One abstract state per program point; states are joined at every merge point
into gated values (no path enumeration).  Calls are analysed in context by
descending into the callee's MIR, library primitives are modelled in
natives.py, loops of symbolic length are summarised (closed forms for
induction variables, recurrences for the rest).
"""
import json, sys
from values import *
from terms import *
import terms as TM

sys.setrecursionlimit(200000)


VEC_MUT = {'std::vec::Vec::<T, A>::' + m for m in ('insert', 'remove', 'swap_remove', 'retain', 'retain_mut', 'drain', 'split_off',
                                                 'dedup', 'dedup_by', 'dedup_by_key', 'splice', 'pop_if', 'extract_if', 'try_remove')}

BROKEN = (KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError, RecursionError, NotImplementedError)
STRICT = False


class Unsupported(Exception):
    pass


class Prog:
    def __init__(self, d):
        self.d = d
        self.T = d['types']
        self.I = d['insts']
        self.crate = d['crate']
        self.bypath = {}
        for i, f in enumerate(self.I):
            self.bypath.setdefault(f['path'], []).append(i)
        self.cells = {}        # constant / symbolic cells: cid -> value
        self.symtid = {}
        self._exp = {}
        self._struct = {}
        self._u8 = None
        self._const = {}
        self.opaque_adts = set()
        self.tid_by_s = {}
        for i, t in enumerate(self.T):
            if t:
                self.tid_by_s.setdefault(t['s'], i)

    def find(self, suffix, local=True):
        r = [i for i, f in enumerate(self.I) if (f['path'] == suffix or f['path'].endswith('::' + suffix))
             and f['body'] and (f['local'] or not local)]
        return r

    def adt(self, path):
        return [i for i, t in enumerate(self.T) if t and t['k'] == 'adt' and t['path'] == path]

    def transparent(self, tid):
        t = self.T[tid]
        return t is not None and t['k'] == 'adt' and t['path'] in ('std::mem::ManuallyDrop', 'std::mem::MaybeDangling')

    def is_u8(self, tid):
        t = self.T[tid]
        return t['k'] == 'int' and t['bits'] == 8 and not t['signed']

    def fields(self, tid, var=0):
        """[(name, tid)]"""
        t = self.T[tid]
        if t['k'] == 'adt':
            return [(n, f) for n, f in t['variants'][var]['fields']] if t['variants'] else []
        if t['k'] in ('tuple', 'closure', 'coroutine'):
            return [(str(i), f) for i, f in enumerate(t['fields'])]
        raise Unsupported('fields of ' + t['s'])

    def fidx(self, tid, name, var=0):
        for i, (n, f) in enumerate(self.fields(tid, var)):
            if n == name:
                return i
        raise Unsupported('%s has no field %s' % (self.T[tid]['s'], name))

    def var(self, tid, name):
        for i, v in enumerate(self.T[tid]['variants']):
            if v['name'] == name:
                return i
        raise Unsupported('%s has no variant %s' % (self.T[tid]['s'], name))

    def size(self, tid):
        t = self.T[tid]
        k = t['k']
        if k == 'int':
            return t['bits'] // 8
        if k == 'bool':
            return 1
        if k == 'char':
            return 4
        if k == 'array':
            s = self.size(t['elem'])
            return None if s is None or t['len'] is None else s * t['len']
        if k in ('tuple', 'adt'):
            return t['size']
        if k in ('ref', 'ptr'):
            return 16 if self.T[t['to']]['k'] in ('slice', 'str', 'dyn') else 8
        if k in ('closure', 'fndef'):
            return 0 if not t.get('fields') else None
        return None

    def align(self, tid):
        t = self.T[tid]
        k = t['k']
        if k == 'int':
            return t['bits'] // 8
        if k == 'array':
            return self.align(t['elem'])
        if k in ('tuple', 'adt'):
            return t['align'] or 1
        if k in ('ref', 'ptr'):
            return 8
        if k == 'char':
            return 4
        return 1

    # ---- symbolic values ----
    def sym(self, tid, name):
        v = self._sym1(tid, name)
        return v if v is not None else mkSym(tid, name)

    def _sym1(self, tid, name):
        t = self.T[tid]
        k = t['k']
        if k == 'int':
            b = t['bits']
            if t['signed']:
                return mkL(TM.var(name, -(1 << (b - 1)), (1 << (b - 1)) - 1))
            return mkL(TM.var(name, 0, (1 << b) - 1))
        if k == 'bool':
            return mkB(bdd.atom(('bool', TM._k(name), show_key(name))))
        if k == 'char':
            return mkL(TM.var(name, 0, 0x10ffff))
        if k == 'array' and self.is_u8(t['elem']) and t['len'] is not None:
            return leaf(rbytes(TM.region(name, const(t['len']))))
        if k == 'tuple' and not t['fields']:
            return UNIT
        if k in ('fndef',):
            return leaf(ptr('fn', t['inst'])) if t['inst'] is not None else None
        if k in ('ref', 'ptr'):
            to = self.T[t['to']]
            cid = ('sym', TM._k(name))
            if to['k'] == 'slice' and self.is_u8(to['elem']) or to['k'] == 'str':
                if cid not in self.cells:
                    self.cells[cid] = leaf(rbytes(TM.region(name)))
                return leaf(ptr('slice', cid, (), ZERO, TM.region(name).len, self.u8()))
            if to['k'] == 'slice':
                ln = TM.var(('len', name), 0, LEN_MAX)
                if cid not in self.cells:
                    self.cells[cid] = mkNat('symseq', (leaf(ln),), ('symseq', to['elem'], name))
                return leaf(ptr('slice', cid, (), ZERO, ln, to['elem']))
            if cid not in self.cells:
                self.cells[cid] = mkSym(t['to'], ('*', name))
            return leaf(ptr('cell', cid, ()))
        return None

    def u8(self):
        if self._u8 is None:
            for i, t in enumerate(self.T):
                if t and t['k'] == 'int' and t['bits'] == 8 and not t['signed']:
                    self._u8 = i
        return self._u8

    def expand(self, s):
        if type(s) is not Sym:
            return s
        r = self._exp.get(s.id)
        if r is None:
            r = self._expand(s)
            self._exp[s.id] = r
        return r

    def _expand(self, s):
        v = self._sym1(s.tid, s.name)
        if v is not None:
            return v
        t = self.T[s.tid]
        k = t['k']
        if k == 'array' and t['len'] is not None and t['len'] <= 64:
            return mkAgg([self.sym(t['elem'], (s.name, '[%d]' % i)) for i in range(t['len'])])
        if k in ('tuple', 'closure'):
            return mkAgg([self.sym(f, (s.name, str(i))) for i, f in enumerate(t['fields'])])
        if k != 'adt':
            return s
        p = t['path']
        if p in ('std::vec::Vec', 'std::string::String'):
            el = t['targs'][0] if p == 'std::vec::Vec' else self.u8()
            if self.is_u8(el):
                return mkNat('vec', [leaf(rbytes(TM.region(s.name)))], el)
            return mkNat('vec', [mkNat('symseq', (leaf(TM.var(('len', s.name), 0, LEN_MAX)),),
                                       ('symseq', el, s.name))], el)
        if p in ('std::rc::Rc', 'std::sync::Arc'):
            cid = ('sym', TM._k(s.name), 'rc')
            self.cells.setdefault(cid, self.sym(t['targs'][0], s.name))
            return mkNat('rc', [leaf(ptr('cell', cid, ()))])
        if p == 'std::boxed::Box':
            cid = ('sym', TM._k(s.name), 'box')
            self.cells.setdefault(cid, self.sym(t['targs'][0], s.name))
            return leaf(ptr('cell', cid, ()))
        if p in ('std::cell::RefCell', 'std::cell::Cell'):
            return mkNat('refcell', [self.sym(t['targs'][-1], s.name)])
        if t['adt'] == 'struct' and self.transparent(s.tid):
            return self.expand(self.sym(t['variants'][0]['fields'][0][1], s.name))
        if t['adt'] == 'struct':
            fs = t['variants'][0]['fields']
            return mkAgg([self.sym(f, (s.name, n)) for n, f in fs])
        if t['adt'] == 'enum':
            vs = t['variants']
            rest = 1
            d = {}
            for i, v in enumerate(vs):
                if i == len(vs) - 1:
                    c = rest
                else:
                    a = bdd.atom(('is', TM._k(s.name), v['name'], show_key(s.name)))
                    c = AND(rest, a)
                    rest = AND(rest, NOT(a))
                d[i] = (c, tuple(self.sym(f, (s.name, v['name'], n)) for n, f in v['fields']))
            return mkEnum(s.tid, d)
        return s

    # ---- constants ----
    def konst(self, c):
        k = c['c']
        if k == 'int':
            t = self.T[c['t']]
            if t['k'] == 'bool':
                return TRUE if c['v'] not in ('0', 'false') else FALSE
            return mkI(int(c['v']))
        key = json.dumps(c, sort_keys=True)
        v = self._const.get(key)
        if v is None:
            v = self._konst(c, key)
            self._const[key] = v
        return v

    def _konst(self, c, key):
        k = c['c']
        if k in ('str', 'bytes'):
            return leaf(cbytes(bytes.fromhex(c['hex'])))
        if k == 'ref':
            inner = c['v']
            cid = ('const', len(self._const), TM.nid())
            to = self.T[self.T[c['t']]['to']] if self.T[c['t']]['k'] in ('ref', 'ptr') else None
            if inner['c'] in ('str', 'bytes'):
                b = bytes.fromhex(inner['hex'])
                self.cells[cid] = leaf(cbytes(b))
                if to and to['k'] in ('slice', 'str'):
                    return leaf(ptr('slice', ('cb', b), (), ZERO, const(len(b)), self.u8())) if self._cb(b) else None
                return leaf(ptr('cell', ('cb', b), ())) if self._cb(b) else None
            self.cells[cid] = self.konst(inner)
            if inner['c'] == 'arr':
                if to and to['k'] == 'slice':
                    return leaf(ptr('slice', cid, (), ZERO, const(len(inner['v'])), to['elem']))
            if inner['c'] == 'array' and to and to['k'] == 'slice':
                n = inner['v']
                return leaf(ptr('slice', cid, (), ZERO, const(len(n['v']) if n['c'] == 'arr' else len(n['hex']) // 2),
                                to['elem']))
            return leaf(ptr('cell', cid, ()))
        if k == 'agg':
            t = self.T[c['t']]
            f = [self.konst(x) for x in c['f']]
            if t['k'] == 'adt' and t['adt'] == 'enum':
                return mkEnum(c['t'], {c['var']: (1, f)})
            if t['k'] == 'adt' and t['path'] in ('std::vec::Vec', 'std::string::String'):
                el = t['targs'][0] if t['path'].endswith('Vec') else self.u8()
                return mkNat('vec', [leaf(EMPTY) if self.is_u8(el) else UNIT], el)
            return mkAgg(f)
        if k == 'array':
            return self.konst(c['v'])
        if k == 'arr':
            return mkAgg([self.konst(x) for x in c['v']])
        if k == 'zst':
            t = self.T[c['t']]
            if t['k'] == 'fndef':
                return leaf(ptr('fn', t['inst'])) if t['inst'] is not None else mkSym(c['t'], ('fndef', t['path']))
            if t['k'] == 'closure':
                return UNIT
            if t['k'] == 'adt' and t['adt'] == 'enum':
                return mkEnum(c['t'], {0: (1, ())})
            if t['k'] == 'array':
                return UNIT
            return UNIT
        if k == 'fnptr':
            return leaf(ptr('fn', c['inst']))
        if k == 'static':
            return leaf(ptr('cell', ('static', c['path']), ()))
        if k == 'opaque':
            if 't' in c and self.T[c['t']] and self.T[c['t']].get('path', '').endswith('MaybeUninit'):
                return mkNat('union', [mkNat('unwritten')], (1,))
            return UNINIT if 't' not in c else mkSym(c['t'], ('const', TM.nid()))
        raise Unsupported('const ' + k)

    def _cb(self, b):
        self.cells.setdefault(('cb', b), leaf(cbytes(b)))
        return True

    # ---- control flow structure ----
    def succs(self, bb):
        t = bb['t']['k']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x for _, x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        if k == 'yield':
            return [t[2]]
        return []

    def structure(self, inst):
        r = self._struct.get(inst)
        if r is None:
            body = self.I[inst]['body']
            bl = body['blocks']
            succ = {i: [s for s in self.succs(b) if bl[s] is not None] for i, b in enumerate(bl) if b is not None}
            # reachable
            seen = set()
            st = [0]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st.extend(succ[x])
            succ = {i: s for i, s in succ.items() if i in seen}
            r = (succ, _nest(seen, 0, succ, None))
            self._struct[inst] = r
        return r


def _nest(blocks, entry, succ, header):
    """topologically ordered components; loops as ('l', header, members, inner)"""
    idx = {}
    low = {}
    onst = set()
    stack = []
    comps = []

    def sc(v0):
        work = [(v0, iter([s for s in succ[v0] if s in blocks and s != header]))]
        idx[v0] = low[v0] = len(idx)
        stack.append(v0)
        onst.add(v0)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    stack.append(w)
                    onst.add(w)
                    work.append((w, iter([s for s in succ[w] if s in blocks and s != header])))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = stack.pop()
                    onst.discard(w)
                    c.append(w)
                    if w == v:
                        break
                comps.append(c)
    sc(entry)
    comps.reverse()
    out = []
    for c in comps:
        if len(c) == 1 and (c[0] == header or c[0] not in succ[c[0]]):
            out.append(('b', c[0]))
        else:
            cs = set(c)
            # header: member entered from outside
            heads = [b for b in c if any(b in succ[p] for p in blocks if p not in cs)] or [c[-1]]
            if entry in cs:
                heads = [entry]
            if len(heads) > 1:
                raise Unsupported('irreducible loop')
            h = heads[0]
            out.append(('l', h, cs, _nest(cs, h, succ, h)))
    return out


class State:
    __slots__ = ('pc', 'mem')

    def __init__(self, pc, mem):
        self.pc, self.mem = pc, mem

    def copy(self):
        return State(self.pc, dict(self.mem))


class Panic:
    __slots__ = ('g', 'msg', 'loc', 'stack', 'loops')


class Effect:
    __slots__ = ('g', 'kind', 'args', 'loc', 'stack', 'loops', 'ok', 'strs', 'result')

    def __repr__(self):
        return '%s%r at %s if %s' % (self.kind, self.args, self.loc, show_guard(self.g) if self.g > 1 else bool(self.g))


UNROLL = 6


class Interp:
    started = []

    def __init__(self, prog, natives, hooks=None):
        Interp.started.append(self)
        self.p = prog
        self.nat = natives
        self.natcache = {}
        self.panics = []
        self.effects = []
        self.unknown = []
        self.visited = {}
        self.nframe = 0
        self.heap = 0
        self.stack = []
        self.loops = []
        self.celltid = {}
        self.sym_next = False
        self.known_next = False
        self.hooks = hooks or {}
        self.maxdepth = 120
        self.opaque_n = 0
        self.facts = {}
        self.blocks_done = 0
        self.switches = {}
        self.order = 0
        self.loopinfo = []
        self.curpc = 1
        self.fog = 0         # where something was not followed exactly

    # ---------- helpers ----------
    def new_cell(self, st, v, tid=None, tag='h'):
        self.heap += 1
        cid = (tag, self.heap)
        st.mem[cid] = v
        if tid is not None:
            self.celltid[cid] = tid
        return cid

    def panic(self, st, bad, msg, loc=None):
        g = AND(st.pc, bad)
        if g != 0:
            p = Panic()
            p.g, p.msg = g, msg
            p.loc = loc or (self.stack[-1][1] if self.stack else '?')
            p.stack = [(self.p.I[i]['path'], l) for i, l in self.stack]
            p.loops = list(self.loops)
            self.panics.append(p)
            st.pc = AND(st.pc, NOT(bad))

    def effect(self, st, kind, args, ok=None):
        e = Effect()
        e.g, e.kind, e.args = st.pc, kind, args
        e.stack = [(self.p.I[i]['path'], l) for i, l in self.stack]
        e.loc = self.locate()
        e.loops = list(self.loops)
        e.ok = ok
        self.effects.append(e)
        return e

    def locate(self):
        """innermost frame of the analysed crate"""
        for i, l in reversed(self.stack):
            f = self.p.I[i]
            if f['local']:
                return '%s (%s)' % (l, f['path'])
        return self.stack[-1][1] if self.stack else '?'

    def merge(self, states):
        states = [s for s in states if s is not None and s.pc != 0]
        if not states:
            return None
        a = states[0]
        if len(states) == 1:
            return a
        a = State(a.pc, dict(a.mem))
        for b in states[1:]:
            u = OR(a.pc, b.pc)
            sel = bdd.restrict(a.pc, u)
            am, bm = a.mem, b.mem
            for k, vb in bm.items():
                va = am.get(k)
                if va is vb:
                    continue
                if va is None:
                    va = self.p.cells.get(k)
                if va is None:
                    am[k] = vb
                else:
                    am[k] = ite(sel, va, vb, self.p)
            for k, va in list(am.items()):
                if k not in bm:
                    vb = self.p.cells.get(k)
                    if vb is not None and vb is not va:
                        am[k] = ite(sel, va, vb, self.p)
            a.pc = u
        return a

    # ---------- memory ----------
    def cell(self, st, cid):
        v = st.mem.get(cid)
        if v is None:
            v = self.p.cells.get(cid)
            if v is None:
                return UNINIT
        return v

    def proj(self, v, step, st):
        t = type(v)
        if t is Sym:
            e = self.p.expand(v)
            if e is v:
                return self.symproj(v, step)
            return self.proj(e, step, st)
        k = step[0]
        if t is Agg:
            if k == 'f' or k == 'e':
                if step[1] < len(v.f):
                    return v.f[step[1]]
                return UNINIT
            if k == 'vf':
                return v.f[step[2]] if step[2] < len(v.f) else UNINIT
            if k == 'n' and len(v.f) == 1:
                return self.proj(v.f[0], step, st)
        if t is Enum:
            if k == 'vf':
                c = v.v.get(step[1])
                if c is None or step[2] >= len(c[1]):
                    return UNINIT
                return c[1][step[2]]
            if k == 'f' and len(v.v) == 1:
                return list(v.v.values())[0][1][step[1]]
        if t is Nat:
            if k == 'n':
                return v.f[step[1]]
            if k == 'f' and v.kind == 'union':
                for i, x in zip(v.tag, v.f):
                    if i == step[1]:
                        return x
                if v.f and v.f[0] is not UNINIT:
                    return v.f[0]
                return UNINIT
            if k == 'f' and v.kind in ('newtype',):
                return v.f[0]
            if k == 'e' and v.kind == 'symseq':
                el, nm = v.tag[1], v.tag[2]
                if nm[0] == 'gen':
                    return self.gen_elem(v, const(step[1]))
                return self.p.sym(el, (nm, '[%s]' % step[1]))
            if k == 'f' and v.kind == 'vec' and len(v.f) == 1:
                # wrapper around a vector (String { vec })
                return v
        if t is G:
            if k == 'e':
                out = []
                for c, l in v.items:
                    if isinstance(l, Bytes):
                        out.append((c, int_le(bsub(l, const(step[1]), ONE), 1)))
                    else:
                        return self.gproj(v, step, st)
                return mkG(out)
            if all(isinstance(l, Ptr) for _, l in v.items) and k in ('f', 'n'):
                return v
            return self.gproj(v, step, st)
        if t is Uninit:
            return UNINIT
        if t is B:
            return v
        return self.bad_proj(v, step)

    def gproj(self, v, step, st):
        r = None
        for c, l in v.items:
            if isinstance(l, (Agg, Enum, Nat, Sym, B, G)):
                x = self.proj(l, step, st)
            else:
                x = self.bad_proj(l, step)
            r = x if r is None else ite(c, x, r, self.p)
        return r

    def symproj(self, v, step):
        key = (v.name, step)
        self.note('opaque projection', '%r%r' % (v, step))
        return mkSym(v.tid, ('proj', v.name, step))

    def bad_proj(self, v, step):
        self.note('projection', '%r . %r' % (type(v).__name__, step))
        return UNINIT

    def note(self, kind, what, pc=None):
        self.unknown.append((kind, what, self.locate()))
        self.fog = OR(self.fog, self.curpc if pc is None else pc)

    def read_path(self, v, path, st):
        for s in path:
            v = self.proj(v, s, st)
        return v

    def write_path(self, v, path, new, st):
        if not path:
            return new
        s = path[0]
        t = type(v)
        if t is Sym:
            e = self.p.expand(v)
            if e is v:
                self.note('write into opaque', repr(v))
                return v
            return self.write_path(e, path, new, st)
        k = s[0]
        if t is Agg or (t is Uninit and k in ('f', 'e')):
            f = list(v.f) if t is Agg else []
            i = s[1] if k != 'vf' else s[2]
            while len(f) <= i:
                f.append(UNINIT)
            f[i] = self.write_path(f[i], path[1:], new, st)
            return mkAgg(f)
        if t is Enum and k in ('vf', 'f'):
            var = s[1] if k == 'vf' else list(v.v)[0]
            i = s[2] if k == 'vf' else s[1]
            if var not in v.v:
                return mkEnum(v.tid, {**v.v, var: (0, (UNINIT,) * (i + 1))})
            c, f = v.v[var]
            f = list(f)
            while len(f) <= i:
                f.append(UNINIT)
            f[i] = self.write_path(f[i], path[1:], new, st)
            d = dict(v.v)
            d[var] = (c, tuple(f))
            return mkEnum(v.tid, d)
        if t is Nat:
            if k == 'n':
                f = list(v.f)
                f[s[1]] = self.write_path(f[s[1]], path[1:], new, st)
                return mkNat(v.kind, f, v.tag)
            if v.kind == 'union':
                if s[1] in v.tag:
                    f = list(v.f)
                    j = v.tag.index(s[1])
                    f[j] = self.write_path(f[j], path[1:], new, st)
                    return mkNat('union', f, v.tag)
                return mkNat('union', [self.write_path(UNINIT, path[1:], new, st)], (s[1],))
            if v.kind == 'symseq' and k == 'e':
                self.note('write into unbounded sequence', repr(v))
                return v
        if t is G:
            if k == 'e' and all(isinstance(l, Bytes) for _, l in v.items) and len(path) == 1:
                return self.combine2(v, new, lambda b, n: bwrite(b, const(s[1]), bytes_of_int(n, 1)))
            its = v.items
            if all(isinstance(l, (Agg, Enum, Nat, Sym)) for _, l in its):
                r = None
                for c, l in its:
                    x = self.write_path(l, path, new, st)
                    r = x if r is None else ite(c, x, r, self.p)
                return r
        self.note('write path', '%s %r' % (t.__name__, path))
        return v

    def combine2(self, a, b, f):
        out = []
        for c1, l1 in self.items(a):
            for c2, l2 in self.items(b):
                c = AND(c1, c2)
                if c != 0:
                    out.append((c, f(l1, l2)))
        return mkG(out)

    def items(self, v):
        t = type(v)
        if t is G:
            return v.items
        if t is Sym:
            e = self.p.expand(v)
            if e is not v:
                return self.items(e)
        if t is B:
            return ((v.g, ONE), (NOT(v.g), ZERO))
        return ((1, v),)

    # Loc: ('c', cid, path) | ('v', cid, path, off, tid) | ('s', Ptr slice) | ('x', key, tid)
    def locs_deref(self, v, st, tid):
        """locations a pointer value designates; tid = pointer type"""
        out = []
        pt = self.p.T[tid] if tid is not None else None
        to = pt.get('to') if pt else None
        for c, l in self.items(v):
            if AND(c, st.pc) == 0:
                continue
            if isinstance(l, Ptr):
                if l.kind == 'cell':
                    out.append((c, ('c', l.a[0], l.a[1])))
                elif l.kind == 'view':
                    out.append((c, ('v',) + l.a))
                elif l.kind == 'slice':
                    out.append((c, ('s', l)))
                else:
                    out.append((c, ('x', ('fn', l.id), to)))
            elif isinstance(l, Nat) and l.kind == 'rc':
                out.extend((AND(c, c2), x) for c2, x in self.locs_deref(l.f[0], st, tid))
            elif isinstance(l, Agg) and l.f:
                # wrapper around a pointer
                out.extend((AND(c, c2), x) for c2, x in self.locs_deref(l.f[0], st, tid))
            else:
                if l is not UNINIT:
                    self.note('deref of opaque pointer', repr(l)[:120])
                out.append((c, ('x', ('deref', l), to)))
        return out

    def ptr_of(self, loc):
        if loc[0] == 'c':
            return ptr('cell', loc[1], loc[2])
        if loc[0] == 'v':
            return ptr('view', *loc[1:])
        if loc[0] == 's':
            return loc[1]
        cid = ('sym', TM._k(loc[1]))
        if loc[2] is not None and cid not in self.p.cells:
            self.p.cells[cid] = mkSym(loc[2], loc[1])
        return ptr('cell', cid, ())

    def load(self, loc, st):
        k = loc[0]
        if k == 'c':
            v = self.read_path(self.cell(st, loc[1]), loc[2], st)
            if type(v) is Sym:
                v = self.p.expand(v)
            return v
        if k == 'v':
            return self.decode(self.read_path(self.cell(st, loc[1]), loc[2], st), loc[3], loc[4])
        if k == 'V':
            sl = self.nat.cell_slices(self, ptr('cell', loc[1], loc[2]), st)
            if loc[3] == 0:
                return mkG([(c, p) for c, p in sl]) if sl else UNINIT
            return mkG([(c, p.a[3]) for c, p in sl]) if sl else UNINIT
        if k == 's':
            l = loc[1]
            if self.p.is_u8(l.a[4]):
                return self.slice_bytes(l, st)
            c = self.read_path(self.cell(st, l.a[0]), l.a[1], st)
            if not l.a[2].t and not l.a[3].t and l.a[3].c <= 64:
                return mkAgg([self.proj(c, ('e', l.a[2].c + i), st) for i in range(l.a[3].c)])
            return mkNat('subseq', (c, leaf(l.a[2]), leaf(l.a[3])))
        if loc[2] is None:
            return UNINIT
        return self.p.sym(loc[2], loc[1])

    def slice_bytes(self, l, st):
        """content of a u8 slice pointer"""
        c = self.read_path(self.cell(st, l.a[0]), l.a[1], st)
        c = self.as_bytes(c)
        return mkG([(g, bsub(b, l.a[2], l.a[3]) if isinstance(b, Bytes) else b) for g, b in self.items(c)])

    def as_bytes(self, c):
        if type(c) is Sym:
            c = self.p.expand(c)
        if type(c) is Nat and c.kind == 'vec':
            return c.f[0]
        if type(c) is Agg:
            # single field wrapper or array of u8 values
            if len(c.f) == 1 and type(c.f[0]) is not G:
                return self.as_bytes(c.f[0])
            if len(c.f) == 1 and any(isinstance(l, Bytes) for _, l in c.f[0].items):
                return c.f[0]
            acc = leaf(EMPTY)
            for x in c.f:
                if x is UNINIT:
                    return leaf(rbytes(TM.region(('uninit', c.id), const(len(c.f)))))
                acc = self.combine2(acc, x, lambda b, n: concat(b, bytes_of_int(n, 1)))
            return acc
        if type(c) is Uninit:
            return leaf(rbytes(TM.region(('uninit',))))
        if type(c) is Sym or type(c) is B:
            return leaf(rbytes(TM.region(('bytes of', c))))
        return c

    def store(self, loc, new, st, g=1):
        """write (only under guard g)"""
        k = loc[0]
        if k == 'c':
            old = self.cell(st, loc[1])
            if g != 1 and loc[2] == () and old is not UNINIT:
                new = ite(g, new, old, self.p)
            elif g != 1:
                o = self.read_path(old, loc[2], st)
                if o is not UNINIT:
                    new = ite(g, new, o, self.p)
            self.wrote(st, loc, g)
            st.mem[loc[1]] = self.write_path(old, loc[2], new, st)
        elif k == 'v':
            b = self.encode(new, loc[4], st)
            self.store_bytes(loc[1], loc[2], loc[3], b, st, g)
        elif k == 's':
            l = loc[1]
            if self.p.is_u8(l.a[4]):
                self.store_bytes(l.a[0], l.a[1], l.a[2], new, st, g)
            else:
                self.note('slice store', repr(l))
        else:
            self.note('store to opaque pointer', repr(loc)[:200], OR(self.curpc, st.pc))
            self.effect(st, 'store-unknown', (loc[1],))

    def store_bytes(self, cid, path, off, b, st, g=1):
        old = self.cell(st, cid)
        cont = self.as_bytes(self.read_path(old, path, st))
        new = self.combine2(cont, self.as_bytes(b), lambda x, y: bwrite(x, off, y) if isinstance(x, Bytes) and isinstance(y, Bytes) else rbytes(TM.region(('written', x, y))))
        if g != 1:
            new = ite(g, new, cont, self.p)
        self.wrote(st, ('c', cid, path), g)
        st.mem[cid] = self.write_path(old, path, new, st)

    def wrote(self, st, loc, g):
        cid = loc[1]
        if isinstance(cid, tuple) and cid and cid[0] in ('acct', 'sym', 'static', 'const'):
            s = State(AND(st.pc, g), None)
            self.effect(s, 'write', (cid, loc[2]))

    def decode(self, cont, off, tid):
        cont = self.as_bytes(cont)
        r = None
        its = self.items(cont)
        for c, b in its:
            x = self.decode1(b, off, tid) if isinstance(b, Bytes) else mkSym(tid, ('decode', b, off))
            r = x if r is None else ite(c, x, r, self.p)
        return r

    def decode1(self, b, off, tid):
        t = self.p.T[tid]
        k = t['k']
        if k == 'int':
            n = t['bits'] // 8
            return mkL(int_le(bsub(b, off, const(n)), n, t['signed']))
        if k == 'bool':
            return mkB(NOT(TM.eq(int_le(bsub(b, off, ONE), 1), ZERO)))
        if k == 'array':
            if self.p.is_u8(t['elem']):
                return leaf(bsub(b, off, const(t['len'])))
            es = self.p.size(t['elem'])
            return mkAgg([self.decode1(b, addc(off, i * es), t['elem']) for i in range(t['len'])])
        if k == 'tuple' or k == 'adt' and t['adt'] == 'struct':
            fs = self.p.fields(tid)
            return mkAgg([self.decode1(b, addc(off, o), f) for (n, f), o in zip(fs, t['offs'])])
        return mkSym(tid, ('decode', b, off))

    def encode(self, v, tid, st):
        """value -> G of Bytes"""
        t = self.p.T[tid]
        k = t['k']
        if type(v) is Sym:
            v = self.p.expand(v)
        if v is UNINIT:
            return leaf(rbytes(TM.region(('uninit', tid), const(self.p.size(tid) or 0))))
        if k == 'int':
            n = t['bits'] // 8
            return mkG([(c, bytes_of_int(l, n)) if isinstance(l, Lin) else (c, rbytes(TM.region(('enc', l), const(n))))
                        for c, l in self.items(v)])
        if k == 'bool':
            return mkG([(c, bytes_of_int(l, 1)) for c, l in self.items(v)])
        if k == 'array':
            if self.p.is_u8(t['elem']):
                return self.as_bytes(v)
            acc = leaf(EMPTY)
            for i in range(t['len']):
                acc = self.combine2(acc, self.encode(self.proj(v, ('e', i), st), t['elem'], st), concat)
            return acc
        if k == 'tuple' or k == 'adt' and t['adt'] == 'struct':
            fs = self.p.fields(tid)
            acc = leaf(EMPTY)
            pos = 0
            for (n, f), o, i in sorted(zip(fs, t['offs'], range(len(fs))), key=lambda x: (x[1], self.p.size(x[0][1]) or 0)):
                if o > pos:
                    pad = rbytes(TM.region(('padding', tid, pos), const(o - pos)))
                    acc = self.combine2(acc, leaf(pad), concat)
                acc = self.combine2(acc, self.encode(self.proj(v, ('f', i), st), f, st), concat)
                pos = o + (self.p.size(f) or 0)
            if t['size'] is not None and pos < t['size']:
                acc = self.combine2(acc, leaf(rbytes(TM.region(('padding', tid, pos), const(t['size'] - pos)))), concat)
            return acc
        return leaf(rbytes(TM.region(('enc', v), const(self.p.size(tid)) if self.p.size(tid) is not None else None)))

    # ---------- places ----------
    def place_ty(self, body, pl):
        tid = body['locals'][pl[0]]
        var = None
        for e in pl[1]:
            tid, var = self.step_ty(tid, e, var)
        return tid

    def is_vec(self, tid):
        if tid is None:
            return False
        t = self.p.T[tid]
        return t['k'] == 'adt' and t['path'] == 'std::vec::Vec'

    def step_ty(self, tid, e, var=None):
        t = self.p.T[tid] if tid is not None else None
        k = e[0]
        if k == '*':
            if t and t['k'] in ('ref', 'ptr'):
                return t['to'], None
            if t and t['k'] == 'adt' and t['path'] == 'std::boxed::Box':
                return t['targs'][0], None
            return None, None
        if k == 'f':
            return e[2], None
        if k in ('i', 'ci'):
            return (t['elem'] if t and 'elem' in t else None), None
        if k == 'd':
            return tid, e[1]
        return tid, None

    def place_locs(self, fr, body, pl, st):
        """[(guard, Loc)]"""
        cid = (fr, pl[0])
        if not pl[1]:
            return [(1, ('c', cid, ()))]
        locs = [(1, ('c', cid, ()))]
        tid = body['locals'][pl[0]]
        var = None
        for e in pl[1]:
            k = e[0]
            nlocs = []
            for g, loc in locs:
                if AND(g, st.pc) == 0:
                    continue
                if k == '*':
                    v = self.load(loc, st)
                    v = simp(v, AND(st.pc, g))
                    for c, l in self.locs_deref(v, st, tid):
                        nlocs.append((AND(g, c), l))
                elif k == 'f':
                    if loc[0] == 'V':
                        nlocs.append((g, loc))
                    elif tid is not None and self.p.transparent(tid):
                        nlocs.append((g, loc if loc[0] != 'v' else loc[:4] + (e[2],)))
                    elif loc[0] == 'c' and self.is_vec(tid):
                        # private fields of a vector in inlined library code
                        nlocs.append((g, ('V', loc[1], loc[2], e[1])))
                    elif loc[0] == 'c':
                        if var is not None:
                            nlocs.append((g, ('c', loc[1], loc[2] + (('vf', var, e[1]),))))
                        else:
                            nlocs.append((g, ('c', loc[1], loc[2] + (('f', e[1]),))))
                    elif loc[0] == 'v':
                        vt = self.p.T[loc[4]]
                        if vt['k'] in ('tuple', 'adt') and vt['offs']:
                            nlocs.append((g, ('v', loc[1], loc[2], addc(loc[3], vt['offs'][e[1]]), e[2])))
                        else:
                            self.note('field of view', vt['s'])
                            nlocs.append((g, ('x', ('viewfield', loc[1:], e[1]), e[2])))
                    elif loc[0] == 's':
                        # wrapper of a slice (str, Path, ...)
                        nlocs.append((g, loc))
                    else:
                        nm = (loc[1], e[1]) if var is None else (loc[1], var, e[1])
                        nlocs.append((g, ('x', nm, e[2])))
                elif k == 'd':
                    nlocs.append((g, loc))
                elif k in ('i', 'ci'):
                    if k == 'i':
                        ixv = simp(self.cell(st, (fr, e[1])), st.pc)
                        ixs = [(c, l) for c, l in self.items(ixv) if isinstance(l, Lin)]
                    else:
                        ixs = None
                    et = self.step_ty(tid, e)[0]
                    nlocs.extend(self.index_loc(g, loc, ixs, e, et, tid, st))
                elif k == 'ss':
                    nlocs.extend(self.subslice_loc(g, loc, e, tid, st))
                else:
                    self.note('projection kind', k)
            locs = nlocs
            tid, var = self.step_ty(tid, e, var)
        return locs

    def index_loc(self, g, loc, ixs, e, et, tid, st):
        out = []
        n = None
        if ixs is None:
            off, minl, fromend = e[1], e[2], e[3]
            if not fromend:
                ixs = [(1, const(off))]
            elif loc[0] == 's':
                ixs = [(1, addc(loc[1].a[3], -off))]
            else:
                t = self.p.T[tid]
                ixs = [(1, const(t['len'] - off))]
        for c, ix in ixs:
            gg = AND(g, c)
            if AND(gg, st.pc) == 0:
                continue
            if loc[0] == 'c':
                if et is not None and self.p.is_u8(et):
                    out.append((gg, ('v', loc[1], loc[2], ix, et)))
                elif not ix.t:
                    out.append((gg, ('c', loc[1], loc[2] + (('e', ix.c),))))
                else:
                    out.extend(self.symidx(gg, loc[1], loc[2], ix, et, st))
            elif loc[0] == 'v':
                es = self.p.size(et)
                out.append((gg, ('v', loc[1], loc[2], add(loc[3], scale(ix, es)), et)))
            elif loc[0] == 's':
                l = loc[1]
                pos = add(l.a[2], ix)
                if self.p.is_u8(l.a[4]):
                    out.append((gg, ('v', l.a[0], l.a[1], pos, l.a[4])))
                elif not pos.t:
                    out.append((gg, ('c', l.a[0], l.a[1] + (('e', pos.c),))))
                else:
                    out.extend(self.symidx(gg, l.a[0], l.a[1], pos, l.a[4], st))
            else:
                out.append((gg, ('x', ('elem', loc[1], ix), et)))
        return out

    def gen_elem(self, v, ix):
        """element ix of a sequence built by pushing f(0), f(1), ..."""
        gk = v.tag[2][1]
        return Subst(lambda a: ix if a is gk else None).val(v.f[1])

    def symidx(self, g, cid, path, ix, et, st):
        v = self.read_path(self.cell(st, cid), path, st)
        if type(v) is Sym:
            v = self.p.expand(v)
        if type(v) is Agg and 0 < len(v.f) <= 32:
            return [(AND(g, TM.eq(ix, const(i))), ('c', cid, path + (('e', i),))) for i in range(len(v.f))
                    if AND(AND(g, TM.eq(ix, const(i))), st.pc) != 0]
        if type(v) is Nat and v.kind == 'symseq' and v.tag[2][0] == 'gen':
            key = ('gen', v.id, ix.id)
            self.p.cells.setdefault(key, self.gen_elem(v, ix))
            return [(g, ('c', key, ()))]
        if type(v) is Nat and v.kind == 'symseq':
            nm = ('elem', v.tag[2], ix)
            key = ('sym', TM._k(nm))
            self.p.cells.setdefault(key, mkSym(v.tag[1], nm))
            return [(g, ('c', key, ()))]
        return [(g, ('x', ('elem', cid, path, ix, v), et))]

    def subslice_loc(self, g, loc, e, tid, st):
        frm, to, fromend = e[1], e[2], e[3]
        t = self.p.T[tid]
        if loc[0] == 's':
            l = loc[1]
            n = addc(l.a[3], -frm - to) if fromend else const(to - frm)
            return [(g, ('s', ptr('slice', l.a[0], l.a[1], addc(l.a[2], frm), n, l.a[4])))]
        n = t['len'] - frm - to if fromend else to - frm
        if loc[0] == 'c':
            return [(g, ('s', ptr('slice', loc[1], loc[2], const(frm), const(n), t['elem'])))]
        return [(g, ('x', ('subslice', loc), tid))]

    def read_place(self, fr, body, pl, st):
        if not pl[1]:
            v = st.mem.get((fr, pl[0]), UNINIT)
            if type(v) is Sym:
                v = self.p.expand(v)
            return simp(v, st.pc)
        locs = self.place_locs(fr, body, pl, st)
        return self.load_locs(locs, st)

    def load_locs(self, locs, st):
        r = None
        for g, loc in locs:
            v = self.load(loc, st)
            v = simp(v, AND(st.pc, g))
            r = v if r is None else ite(g, v, r, self.p)
        return simp(r, st.pc) if r is not None else UNINIT

    def write_place(self, fr, body, pl, v, st):
        if not pl[1]:
            st.mem[(fr, pl[0])] = v
            return
        locs = self.place_locs(fr, body, pl, st)
        for g, loc in locs:
            gg = 1 if AND(NOT(g), st.pc) == 0 else g
            self.store(loc, v, st, gg)

    def deref_load(self, v, st, tid=None):
        return self.load_locs(self.locs_deref(v, st, tid), st)

    def deref_store(self, p, v, st, tid=None):
        for g, loc in self.locs_deref(p, st, tid):
            gg = 1 if AND(NOT(g), st.pc) == 0 else g
            self.store(loc, v, st, gg)

    # ---------- operands / rvalues ----------
    def operand(self, fr, body, o, st):
        if o[0] in 'pm':
            return self.read_place(fr, body, o[1], st)
        return self.p.konst(o[1])

    def op_ty(self, body, o):
        if o[0] in 'pm':
            return self.place_ty(body, o[1])
        return o[1].get('t')

    def rvalue(self, fr, body, r, st, dest_tid):
        k = r[0]
        if k == 'use':
            return self.operand(fr, body, r[1], st)
        if k in ('ref', 'reborrow'):
            locs = self.place_locs(fr, body, r[1], st)
            return mkG([(g, self.ptr_of(l)) for g, l in locs if AND(g, st.pc) != 0]) if locs else UNINIT
        if k == 'bin':
            return self.binop(r[1], self.operand(fr, body, r[2], st), self.operand(fr, body, r[3], st), r[4], st)
        if k == 'un':
            return self.unop(r[1], self.operand(fr, body, r[2], st), r[3], st, dest_tid)
        if k == 'cast':
            return self.cast(r[1], self.operand(fr, body, r[2], st), r[3], r[4], st)
        if k == 'discr':
            v = self.read_place(fr, body, r[1], st)
            return self.discr(v, r[2], st)
        if k == 'agg':
            return self.aggregate(r, [self.operand(fr, body, o, st) for o in r[4]], st)
        if k == 'repeat':
            v = self.operand(fr, body, r[1], st)
            n = int(r[2]) if r[2] is not None and r[2] != 'null' else 0
            et = self.p.T[dest_tid].get('elem') if dest_tid is not None else None
            if et is not None and self.p.is_u8(et):
                its = self.items(v)
                if len(its) == 1 and isinstance(its[0][1], Lin):
                    b = bytes_of_int(its[0][1], 1)
                    if b.segs and b.segs[0][0] == 'c':
                        return leaf(cbytes(b.segs[0][1] * n))
                    if n <= 64:
                        return leaf(concat(*[b] * n))
                return leaf(rbytes(TM.region(('repeat', v, n), const(n))))
            if n <= 256:
                return mkAgg([v] * n)
            return mkSym(dest_tid, ('repeat', v, n))
        if k == 'opaque':
            self.note('rvalue', str(r[1]))
            return UNINIT
        raise Unsupported('rvalue ' + k)

    def discr(self, v, tid, st):
        if type(v) is Sym:
            v = self.p.expand(v)
        if type(v) is Enum:
            vs = self.p.T[v.tid]['variants']
            return mkG([(c, const(int(vs[i]['discr']))) for i, (c, f) in v.v.items()])
        if type(v) is G and all(isinstance(l, Enum) for _, l in v.items):
            return mkG([(AND(c, c2), l2) for c, l in v.items for c2, l2 in self.discr(l, tid, st).items])
        if type(v) is G and all(isinstance(l, Lin) for _, l in v.items):
            return v
        if v is UNINIT:
            return UNINIT
        self.note('discriminant', repr(v)[:100])
        return mkL(TM.var(('discr', v), 0, max(1, len(self.p.T[tid].get('variants', [1, 1])) - 1)))

    def aggregate(self, r, ops, st):
        kind, tid, var = r[1], r[2], r[3]
        t = self.p.T[tid]
        if kind == 'array':
            if self.p.is_u8(t['elem']):
                if not ops:
                    return leaf(EMPTY)
                acc = leaf(EMPTY)
                for o in ops:
                    if o is UNINIT:
                        return mkAgg(ops)
                    acc = self.combine2(acc, o, lambda b, n: concat(b, bytes_of_int(n, 1)))
                return acc
            return mkAgg(ops)
        if kind == 'adt':
            if t['adt'] == 'enum':
                return mkEnum(tid, {var: (1, ops)})
            if t['adt'] == 'union':
                return mkNat('union', ops, (r[5] if r[5] is not None else 0,))
            if len(ops) == 1 and self.p.transparent(tid):
                return ops[0]
            return mkAgg(ops)
        if kind == 'rawptr':
            # (data pointer, metadata)
            out = []
            for c, p in self.items(ops[0]):
                for c2, n in self.items(ops[1]):
                    g = AND(c, c2)
                    if g == 0:
                        continue
                    if isinstance(p, Ptr) and isinstance(n, Lin):
                        to = self.p.T[t['to']] if t['k'] in ('ptr', 'ref') else None
                        el = to.get('elem', self.p.u8()) if to else self.p.u8()
                        if p.kind == 'view':
                            out.append((g, ptr('slice', p.a[0], p.a[1], p.a[2], n, el)))
                        elif p.kind == 'slice':
                            out.append((g, ptr('slice', p.a[0], p.a[1], p.a[2], n, el)))
                        elif p.kind == 'cell':
                            out.append((g, self.elem_to_slice(p, n, el)))
                        else:
                            out.append((g, p))
                    else:
                        out.append((g, p))
            return mkG(out)
        return mkAgg(ops)

    def elem_to_slice(self, p, n, el):
        path = p.a[1]
        if path and path[-1][0] == 'e':
            return ptr('slice', p.a[0], path[:-1], const(path[-1][1]), n, el)
        return ptr('slice', p.a[0], path, ZERO, n, el)

    def int_ty(self, tid):
        t = self.p.T[tid]
        if t['k'] == 'int':
            return t['bits'], t['signed']
        if t['k'] == 'bool':
            return 1, False
        if t['k'] == 'char':
            return 32, False
        return 64, False

    def lift2(self, a, b, f, st):
        out = []
        for c1, l1 in self.items(a):
            for c2, l2 in self.items(b):
                c = AND(c1, c2)
                if c == 0 or AND(c, st.pc) == 0:
                    continue
                out.append((c, f(l1, l2)))
        if not out:
            return UNINIT
        return mkG(out)

    def arith(self, op, a, b, bits, signed, pc=1):
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            if op in ('and', 'or', 'xor', 'add', 'mul'):
                a, b = sorted((a, b), key=lambda x: getattr(x, 'id', 0))
            return TM.op('arith_' + op, (a, b, bits), -(1 << (bits - 1)) if signed else 0,
                         (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1)
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            return mul(a, b)
        if op in ('div', 'rem'):
            if not b.t and b.c > 0 and (a.lo >= 0 or not signed):
                return div(a, b.c) if op == 'div' else mod(a, b.c)
            if not a.t and not b.t and b.c != 0:
                q = abs(a.c) // abs(b.c) * (1 if (a.c < 0) == (b.c < 0) else -1)
                return const(q if op == 'div' else a.c - q * b.c)
            return TM.op(op + 'v', (a, b), 0 if not signed else -(1 << 63), max(a.hi, 0))
        if op in ('and', 'or', 'xor'):
            return TM.bitop(op, a, b, bits)
        if op == 'shl':
            if not b.t:
                return scale(a, 1 << (b.c % bits))
            return TM.op('shl', (a, b, bits), 0, (1 << bits) - 1)
        if op == 'shr':
            if a.lo >= 0 or not signed:
                return shr(a, b if b.t else const(b.c % bits))
            return TM.op('sar', (a, b), a.lo, max(0, a.hi))
        raise Unsupported(op)

    def binop(self, op, a, b, tid, st):
        t = self.p.T[tid]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            g = self.compare(op, a, b, st, t)
            return mkB(g)
        if t['k'] == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = self.guard(a), self.guard(b)
            return mkB({'BitAnd': AND, 'BitOr': OR, 'BitXor': bdd.XOR}[op](x, y))
        bits, signed = self.int_ty(tid)
        base = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'BitAnd': 'and', 'BitOr': 'or',
                'BitXor': 'xor', 'Shl': 'shl', 'Shr': 'shr'}
        if op.endswith('WithOverflow'):
            o = base[op[:-12]]
            raw = self.lift2(a, b, lambda x, y: self.arith(o, x, y, bits, signed), st)
            return mkAgg([raw, mkB(self.overflow(raw, bits, signed))])
        if op.endswith('Unchecked'):
            o = base[op[:-9]]
            raw = self.lift2(a, b, lambda x, y: self.arith(o, x, y, bits, signed), st)
            return self.wrapv(raw, bits, signed, st) if o == 'shl' else raw
        if op in base:
            raw = self.lift2(a, b, lambda x, y: self.arith(base[op], x, y, bits, signed), st)
            return self.wrapv(raw, bits, signed, st)
        if op == 'Cmp':
            return self.ordering(a, b, st)
        if op == 'Offset':
            return self.ptr_offset(a, b, tid, st)
        self.note('binop', op)
        return mkL(TM.op('bin' + op, (a, b), 0, U64))

    def ordering(self, a, b, st, tid=None):
        if tid is None:
            tid = self.p.adt('std::cmp::Ordering')[0]
        l = self.compare('Lt', a, b, st, None)
        e = self.compare('Eq', a, b, st, None)
        vs = {v['name']: i for i, v in enumerate(self.p.T[tid]['variants'])}
        return mkEnum(tid, {vs['Less']: (l, ()), vs['Equal']: (AND(e, NOT(l)), ()),
                            vs['Greater']: (NOT(OR(l, e)), ())})

    def ptr_offset(self, a, b, tid, st):
        t = self.p.T[tid]
        el = t.get('to')

        def f(p, n):
            if isinstance(p, Ptr) and isinstance(n, Lin):
                if p.kind == 'view':
                    return ptr('view', p.a[0], p.a[1], add(p.a[2], scale(n, self.p.size(el) or 1)), p.a[3])
                if p.kind == 'slice':
                    return ptr('slice', p.a[0], p.a[1], add(p.a[2], n), sub(p.a[3], n), p.a[4])
                if p.kind == 'cell' and p.a[1] and p.a[1][-1][0] == 'e' and not n.t:
                    return ptr('cell', p.a[0], p.a[1][:-1] + (('e', p.a[1][-1][1] + n.c),))
            return p
        return self.lift2(a, b, f, st)

    def overflow(self, raw, bits, signed):
        g = 0
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        for c, l in self.items(raw):
            if isinstance(l, Lin):
                bad = OR(TM.lt(const(hi), l), TM.lt(l, const(lo)))
                g = OR(g, AND(c, bad))
        return g

    def wrapv(self, raw, bits, signed, st=None):
        pc = st.pc if st is not None else 1
        out = []
        for c, l in self.items(raw):
            if isinstance(l, Lin):
                w = self.wrap1(l, bits, signed, AND(pc, c))
                if w is not l:                  # exact where it fits
                    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
                    bad = OR(TM.lt(const(hi), l), TM.lt(l, const(lo)))
                    out.append((AND(c, NOT(bad)), l))
                    c, l = AND(c, bad), w
            out.append((c, l))
        return mkG(out)

    def wrap1(self, l, bits, signed, pc):
        if TM.fits(l, bits, signed):
            return l
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        # in range because of an earlier check on this path
        if (l.lo >= lo or AND(pc, TM.lt(l, const(lo))) == 0) and (l.hi <= hi or AND(pc, TM.lt(const(hi), l)) == 0):
            return l
        return TM.wrap(l, bits, signed)

    def guard(self, v):
        if type(v) is Sym:
            v = self.p.expand(v)
        if type(v) is B:
            return v.g
        if type(v) is G:
            g = 0
            for c, l in v.items:
                if isinstance(l, Lin):
                    g = OR(g, AND(c, NOT(TM.eq(l, ZERO))))
                elif isinstance(l, B):
                    g = OR(g, AND(c, l.g))
                else:
                    g = OR(g, AND(c, bdd.atom(('truth', l))))
            return g
        if v is UNINIT:
            return bdd.atom(('uninit bool', TM.nid()))
        return bdd.atom(('truth', v))

    def compare(self, op, a, b, st, t):
        if type(a) is B and type(b) is B:
            x, y = a.g, b.g
            return {'Eq': lambda: bdd.IFF(x, y), 'Ne': lambda: bdd.XOR(x, y), 'Lt': lambda: AND(NOT(x), y),
                    'Le': lambda: OR(NOT(x), y), 'Gt': lambda: AND(x, NOT(y)), 'Ge': lambda: OR(x, NOT(y))}[op]()
        r = 0
        for c1, l1 in self.items(a):
            for c2, l2 in self.items(b):
                c = AND(c1, c2)
                if c == 0 or AND(c, st.pc) == 0:
                    continue
                r = OR(r, AND(c, self.cmp1(op, l1, l2)))
        return r

    def cmp1(self, op, x, y):
        if isinstance(x, Lin) and isinstance(y, Lin):
            return {'Eq': lambda: TM.eq(x, y), 'Ne': lambda: NOT(TM.eq(x, y)), 'Lt': lambda: TM.lt(x, y),
                    'Le': lambda: TM.le(x, y), 'Gt': lambda: TM.lt(y, x), 'Ge': lambda: TM.le(y, x)}[op]()
        if x is y:
            return 1 if op in ('Eq', 'Le', 'Ge') else 0
        if isinstance(x, Bytes) and isinstance(y, Bytes) and op in ('Eq', 'Ne'):
            g = beq(x, y)
            return g if op == 'Eq' else NOT(g)
        neg = False
        if op in ('Ne', 'Ge', 'Gt'):
            op = {'Ne': 'Eq', 'Ge': 'Lt', 'Gt': 'Le'}[op]
            neg = True
        if op == 'Eq' and getattr(x, 'id', 0) > getattr(y, 'id', 0):
            x, y = y, x
        g = bdd.atom(('cmp' + op, x, y))
        return NOT(g) if neg else g

    def unop(self, op, v, tid, st, dest):
        t = self.p.T[tid]
        if op == 'Not':
            if t['k'] == 'bool':
                return mkB(NOT(self.guard(v)))
            bits, signed = self.int_ty(tid)
            if signed:
                return mkG([(c, addc(scale(l, -1), -1)) for c, l in self.items(v)])
            return mkG([(c, sub(const((1 << bits) - 1), l)) for c, l in self.items(v)])
        if op == 'Neg':
            bits, signed = self.int_ty(tid)
            return mkG([(c, self.wrap1(scale(l, -1), bits, signed, AND(st.pc, c)) if isinstance(l, Lin) else l) for c, l in self.items(v)])
        if op == 'PtrMetadata':
            return self.ptr_len(v, st)
        self.note('unop', op)
        return UNINIT

    def ptr_len(self, v, st):
        out = []
        for c, l in self.items(v):
            if isinstance(l, Ptr) and l.kind == 'slice':
                out.append((c, l.a[3]))
            else:
                if AND(c, st.pc) != 0:
                    self.note('metadata', repr(l)[:80])
                    out.append((c, TM.var(('meta', l), 0, LEN_MAX)))
        return mkG(out) if out else UNINIT

    def cast(self, kind, v, to, frm, st):
        tt, ft = self.p.T[to], self.p.T[frm]
        if kind == 'int':
            bits, signed = self.int_ty(to)
            if ft['k'] == 'adt':
                v = self.discr(v, frm, st)
            if type(v) is B:
                return mkG([(v.g, ONE), (NOT(v.g), ZERO)])
            return self.wrapv(v, bits, signed, st)
        if kind == 'unsize':
            return self.unsize(v, to, frm, st)
        if kind in ('reify', 'ptr', 'subtype', 'fnptr', 'arrptr', 'reifyclosure'):
            if kind == 'reifyclosure' and ft.get('inst') is not None:
                return leaf(ptr('fn', ft['inst']))
            if kind == 'ptr' and tt['k'] == 'ptr' and self.p.T[tt['to']]['k'] not in ('slice', 'str', 'dyn'):
                # slice pointer to element pointer
                return self.retarget(v, tt['to'])
            return v
        if kind == 'transmute':
            if to == frm:
                return v
            return self.transmute(v, to, frm, st)
        if kind != 'BoxDerefTransmute':
            self.note('cast', kind)
        return v

    def retarget(self, v, tid):
        out = []
        for c, l in self.items(v):
            if isinstance(l, Ptr) and l.kind == 'slice':
                if self.p.is_u8(l.a[4]):
                    l = ptr('view', l.a[0], l.a[1], l.a[2], tid)
                elif not l.a[2].t:
                    l = ptr('cell', l.a[0], l.a[1] + (('e', l.a[2].c),))
            elif isinstance(l, Ptr) and l.kind == 'view':
                l = ptr('view', l.a[0], l.a[1], l.a[2], tid)
            out.append((c, l))
        return mkG(out) if type(v) is not Agg else v

    def unsize(self, v, to, frm, st):
        tt, ft = self.p.T[to], self.p.T[frm]
        if tt['k'] in ('ref', 'ptr') and self.p.T[tt['to']]['k'] == 'slice' and ft['k'] in ('ref', 'ptr'):
            arr = self.p.T[ft['to']]
            if arr['k'] == 'array':
                n = const(arr['len'])
                out = []
                for c, l in self.items(v):
                    if isinstance(l, Ptr) and l.kind == 'cell':
                        out.append((c, ptr('slice', l.a[0], l.a[1], ZERO, n, arr['elem'])))
                    elif isinstance(l, Ptr) and l.kind == 'view':
                        out.append((c, ptr('slice', l.a[0], l.a[1], l.a[2], n, arr['elem'])))
                    else:
                        out.append((c, l))
                return mkG(out)
        if tt['k'] == 'adt' and tt['path'] == 'std::boxed::Box':
            inner = self.p.T[tt['targs'][0]]
            fin = self.p.T[ft['targs'][0]] if ft['k'] == 'adt' else None
            if inner['k'] == 'slice' and fin and fin['k'] == 'array':
                n = const(fin['len'])
                return mkG([(c, ptr('slice', l.a[0], l.a[1], ZERO, n, fin['elem']) if isinstance(l, Ptr) and l.kind == 'cell' else l)
                            for c, l in self.items(v)])
        return v

    def transmute(self, v, to, frm, st):
        tt, ft = self.p.T[to], self.p.T[frm]
        if tt['k'] in ('ref', 'ptr') and ft['k'] in ('ref', 'ptr'):
            return v
        if tt['k'] == 'adt' and tt['path'] in ('std::ptr::NonNull', 'std::ptr::Unique') or \
                ft['k'] == 'adt' and ft['path'] in ('std::ptr::NonNull', 'std::ptr::Unique', 'std::boxed::Box'):
            return v
        # byte-wise reinterpretation
        s1, s2 = self.p.size(frm), self.p.size(to)
        if s1 is not None and s1 == s2 and self.pod(frm) and self.pod(to):
            return self.decode(self.encode(v, frm, st), ZERO, to)
        if tt['k'] == 'adt' and tt['adt'] == 'struct' and len(tt['variants'][0]['fields']) == 1:
            return mkAgg([self.transmute(v, tt['variants'][0]['fields'][0][1], frm, st)])
        if ft['k'] == 'adt' and ft['adt'] == 'struct' and len(ft['variants'][0]['fields']) == 1:
            return self.transmute(self.proj(v, ('f', 0), st), to, ft['variants'][0]['fields'][0][1], st)
        if tt['k'] == 'adt' and tt['adt'] == 'union':
            return mkNat('union', [v], (1,))
        if ft['k'] == 'adt' and ft['adt'] == 'union':
            return self.proj(v, ('f', 1), st)
        if tt['k'] == 'array' and ft['k'] == 'array' and tt['len'] == ft['len'] and type(v) is Agg:
            return mkAgg([self.transmute(x, tt['elem'], ft['elem'], st) for x in v.f])
        if tt['k'] == 'adt' and tt['adt'] == 'enum' and ft['k'] == 'int':
            its = self.items(v)
            d = {}
            ok = 0
            for i, vv in enumerate(tt['variants']):
                g = 0
                for c, l in its:
                    if isinstance(l, Lin):
                        g = OR(g, AND(c, TM.eq(l, const(int(vv['discr'])))))
                d[i] = (g, ())
                ok = OR(ok, g)
            self.panic(st, NOT(ok), 'transmute of an invalid discriminant')
            return mkEnum(to, d)
        if ft['k'] in ('ptr', 'ref') and tt['k'] == 'int':
            return mkL(TM.var(('address', v), 1, (1 << 64) - 1))
        self.note('transmute', '%s -> %s' % (ft['s'][:80], tt['s'][:80]))
        return v

    def pod(self, tid):
        t = self.p.T[tid]
        k = t['k']
        if k == 'int':
            return True
        if k == 'array':
            return self.pod(t['elem'])
        if k == 'tuple' or k == 'adt' and t['adt'] == 'struct':
            return bool(t['size'] is not None) and all(self.pod(f) for _, f in self.p.fields(tid)) and self.p.fields(tid)
        return False

    # ---------- functions ----------
    def run(self, inst, args, st=None):
        """analyse a function from a given state; returns (value, state)"""
        st = st or State(1, {})
        return self.call_inst(inst, args, st, 'entry')

    def native_for(self, inst):
        r = self.natcache.get(inst, 0)
        if r == 0:
            r = self.nat.lookup(self, inst)
            self.natcache[inst] = r
        return r

    def call_inst(self, inst, args, st, loc, ci=None, dest_tid=None):
        saved = st.pc, dict(st.mem)
        depth, nl = len(self.stack), len(self.loops)
        cur = self.curpc
        try:
            r = self.call_inst1(inst, args, st, loc, ci, dest_tid)
            self.curpc = cur
            return r
        except (Unsupported,) + BROKEN as e:
            # a construct the analysis cannot follow: forget what it may do
            del self.stack[depth:]
            del self.loops[nl:]
            st.pc, st.mem = saved
            self.curpc = cur
            if STRICT:
                raise
            tb = e.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            self.note('not followed', '%s: %s: %s at %s:%d' % (self.p.I[inst]['path'], type(e).__name__, str(e)[:100],
                      tb.tb_frame.f_code.co_name, tb.tb_lineno), st.pc)
            if dest_tid is None:
                f = self.p.I[inst]
                if f['body']:
                    dest_tid = f['body']['locals'][0]
                elif isinstance(ci, dict) and ci.get('ret') is not None:
                    dest_tid = ci['ret']
            return self.opaque_call(inst, args, st, loc, dest_tid, ci.get('atys') if isinstance(ci, dict) else None)

    def call_inst1(self, inst, args, st, loc, ci=None, dest_tid=None):
        f = self.p.I[inst]
        h = self.native_for(inst)
        if h is not None:
            self.stack.append((inst, loc))
            try:
                r = h(self, st, inst, args, ci, dest_tid)
            finally:
                self.stack.pop()
            if r is not NotImplemented:
                if st.pc == 0:
                    return UNINIT, None
                return r, st
        body = f['body']
        if h is not None and body is not None and f['path'].startswith('std::vec::Vec::<T, A>::') and args:
            # what a vector holds is not spelled out here: its methods cannot be read from their text
            return self.opaque_call(inst, args, st, loc, dest_tid, ci.get('atys') if isinstance(ci, dict) else None)
        if h is None and body is not None and f['path'] in VEC_MUT:
            return self.opaque_call(inst, args, st, loc, dest_tid, ci.get('atys') if isinstance(ci, dict) else None)
        if body is None or len(self.stack) > self.maxdepth or sum(1 for i, _ in self.stack if i == inst) > 2:
            return self.opaque_call(inst, args, st, loc, dest_tid, ci.get('atys') if isinstance(ci, dict) else None)
        self.visited[inst] = self.visited.get(inst, 0) + 1
        self.stack.append((inst, loc))
        try:
            return self.run_body(inst, f, body, args, st)
        finally:
            self.stack.pop()

    def run_body(self, inst, f, body, args, st):
        self.nframe += 1
        fr = self.nframe
        n = body['args']
        if len(args) != n:
            if body['spread'] is not None and len(args) > 0:
                pass
            # rust-call: untuple the last argument
            last = args[-1]
            if type(last) is Sym:
                last = self.p.expand(last)
            if type(last) is Agg and len(args) - 1 + len(last.f) == n:
                args = list(args[:-1]) + list(last.f)
            elif body['spread'] is not None and len(args) >= n - 1:
                args = list(args[:n - 1]) + [mkAgg(args[n - 1:])]
            else:
                self.note('arity', '%s %d/%d' % (f['path'], len(args), n))
                args = list(args)[:n] + [UNINIT] * (n - len(args))
        elif f['closure'] and f['kind'] == 'item' and n == 2 and body['spread'] is None:
            # closure with one parameter called through the Fn traits
            pt = self.p.T[body['locals'][2]]
            last = args[-1]
            if self.untuple:
                args = [args[0], self.proj(last, ('f', 0), st)]
        for i, a in enumerate(args):
            st.mem[(fr, i + 1)] = a
        succ, struct = self.p.structure(inst)
        outs = self.exec_region(inst, body, fr, struct, 0, st, None)
        res = self.merge(outs.get('ret', []))
        if res is None:
            return UNINIT, None
        v = res.mem.get((fr, 0), UNIT)
        v = simp(v, res.pc)
        if res is st:
            pass
        mem = res.mem
        for k in [k for k in mem if k[0] == fr]:
            del mem[k]
        return v, res

    untuple = False

    def exec_region(self, inst, body, fr, struct, entry, st, header):
        """returns {target: [states]} for edges leaving the region (target header = back edge)"""
        pend = {entry: [st]}
        outs = {}
        members = set()
        for c in struct:
            if c[0] == 'b':
                members.add(c[1])
            else:
                members |= c[2]
        first = True
        for c in struct:
            h = c[1]
            ss = pend.pop(h, None)
            if not ss:
                continue
            s = self.merge(ss)
            if s is None:
                continue
            if c[0] == 'b':
                res = self.exec_block(inst, body, fr, h, s)
            else:
                res = self.exec_loop(inst, body, fr, c, s)
            for t, s2 in res:
                if s2 is None or s2.pc == 0:
                    continue
                if t in members and t != header:
                    pend.setdefault(t, []).append(s2)
                else:
                    outs.setdefault(t, []).append(s2)
        return outs

    def exec_block(self, inst, body, fr, bb, st):
        self.blocks_done += 1
        self.curpc = st.pc
        b = body['blocks'][bb]
        stack = self.stack
        me = stack[-1][0] if stack else inst
        for pl, rv, loc in b['st']:
            if loc:
                stack[-1] = (me, loc)
            if pl is None:
                self.note('statement', str(rv))
                continue
            if rv[0] == 'setdiscr':
                continue
            v = self.rvalue(fr, body, rv, st, self.place_ty(body, pl))
            self.write_place(fr, body, pl, v, st)
        t = b['t']
        k = t['k']
        if t['s']:
            stack[-1] = (me, t['s'])
        kind = k[0]
        if kind == 'goto':
            return [(k[1], st)]
        if kind == 'return':
            return [('ret', st)]
        if kind == 'drop':
            return [(k[2], st)]
        if kind == 'unreachable' or kind == 'resume':
            return []
        if kind == 'assert':
            v = self.operand(fr, body, k[1], st)
            g = self.guard(v)
            good = g if k[2] in (True, 'True', 'true') else NOT(g)
            if not k[3].startswith('ubcheck'):
                self.panic(st, NOT(good), k[3], t['s'])
            if st.pc == 0:
                return []
            return [(k[4], st)]
        if kind == 'switch':
            return self.switch(inst, body, fr, k, st, bb)
        if kind == 'call':
            return self.call_term(inst, body, fr, k, st, t['s'])
        if kind == 'yield':
            return self.yield_term(inst, body, fr, k, st, t['s'])
        raise Unsupported('terminator ' + kind)

    def switch(self, inst, body, fr, k, st, bb):
        v = self.operand(fr, body, k[1], st)
        v = simp(v, st.pc)
        out = []
        rest = st.pc
        isb = type(v) is B
        if type(v) in (Enum,):
            v = self.discr(v, k[4], st)
        if not isb and type(v) is not G:
            if type(v) is not Uninit:
                self.note('switch on', repr(v)[:100])
            v = mkL(TM.var(('switch', v if v is not UNINIT else TM.nid()), 0, U64))
        bits, signed = self.int_ty(k[4])
        tgts = []
        for val, t in k[2]:
            val = int(val)
            if signed and val >= 1 << (bits - 1):
                val -= 1 << bits
            if isb:
                c = v.g if val == 1 else NOT(v.g)
            else:
                c = 0
                for g, l in v.items:
                    if isinstance(l, Lin):
                        c = OR(c, AND(g, TM.eq(l, const(val))))
                    elif isinstance(l, B):
                        c = OR(c, AND(g, l.g if val == 1 else NOT(l.g)))
                    else:
                        c = OR(c, AND(g, bdd.atom(('cmpEq', l, val))))
            tgts.append((t, AND(rest, c)))
            rest = AND(rest, NOT(c))
        tgts.append((k[3], rest))
        live = [(t, g) for t, g in tgts if g != 0]
        if len(live) > 1:
            self.switches[(inst, bb)] = self.switches.get((inst, bb), 0) + 1
        for i, (t, g) in enumerate(live):
            if len(live) == 1:
                s = st
            else:
                s = State(g, dict(st.mem))
            s.pc = g
            if self.infeasible(g):
                continue
            out.append((t, s))
        return out

    def infeasible(self, g):
        return g == 0

    def fn_target(self, v, st):
        """[(guard, inst or None, value)]"""
        out = []
        for c, l in self.items(v):
            if AND(c, st.pc) == 0:
                continue
            if isinstance(l, Ptr) and l.kind == 'fn':
                out.append((c, l.a[0], l))
            else:
                out.append((c, None, l))
        return out

    def call_term(self, inst, body, fr, k, st, loc):
        callee, aops, dest, target = k[1], k[2], k[3], k[4]
        args = [self.operand(fr, body, o, st) for o in aops]
        dtid = self.place_ty(body, dest)
        if callee.get('ptr') is not None:
            fv = self.operand(fr, body, callee['ptr'], st)
            r, s = self.call_value(fv, args, st, loc, dtid)
        elif callee.get('inst') is None:
            callee = dict(callee)
            callee['atys'] = [self.op_ty(body, o) for o in aops]
            r, s = self.opaque_named(callee['orig'], args, st, loc, dtid, None, callee['atys'])
        else:
            callee = dict(callee)
            callee['atys'] = [self.op_ty(body, o) for o in aops]
            r, s = self.call_resolved(callee['inst'], args, st, loc, callee, dtid)
        if s is None or target is None:
            return []
        self.write_place(fr, body, dest, r, s)
        return [(target, s)]

    def call_resolved(self, ci, args, st, loc, callee, dtid):
        f = self.p.I[ci]
        if f['closure'] and f['kind'] == 'item' and f['body'] and len(args) == 2 and callee and \
                callee['orig'].startswith('std::ops::') and '::call' in callee['orig']:
            args = self.untuple_args(f, args, st)
        return self.call_inst(ci, args, st, loc, callee, dtid)

    def untuple_args(self, f, args, st):
        n = f['body']['args']
        last = args[-1]
        return [args[0]] + [self.proj(last, ('f', i), st) for i in range(n - 1)]

    def call_value(self, fv, args, st, loc, dtid):
        """call through a function pointer value"""
        tg = self.fn_target(fv, st)
        if len(tg) == 1 and tg[0][1] is not None:
            return self.call_inst(tg[0][1], args, st, loc, None, dtid)
        if len(tg) == 1:
            return self.opaque_named('fnptr', args, st, loc, dtid)
        res = []
        val = None
        for c, i, l in tg:
            s = State(AND(st.pc, c), dict(st.mem))
            if i is None:
                r, s = self.opaque_named('fnptr', args, s, loc, dtid)
            else:
                r, s = self.call_inst(i, args, s, loc, None, dtid)
            if s is not None:
                s.mem[('tmp', 0)] = r
                res.append(s)
        m = self.merge(res)
        if m is None:
            return UNINIT, None
        return m.mem.pop(('tmp', 0)), m

    def call_closure(self, f, cargs, st, loc, dtid=None):
        """Call a callable value (closure aggregate, function item) given its type.
        f = (value, tid); cargs = list of argument values."""
        v, tid = f
        t = self.p.T[tid]
        if t['k'] in ('ref', 'ptr'):
            inner = self.p.T[t['to']]
            if inner['k'] in ('closure', 'fndef', 'fnptr', 'ref'):
                if inner['k'] == 'closure':
                    return self.closure_body(inner, v, True, cargs, st, loc, dtid)
                return self.call_closure((self.deref_load(v, st, tid), t['to']), cargs, st, loc, dtid)
        if t['k'] == 'closure':
            return self.closure_body(t, v, False, cargs, st, loc, dtid)
        if t['k'] == 'fndef' and t['inst'] is not None:
            return self.call_inst(t['inst'], cargs, st, loc, None, dtid)
        if t['k'] == 'fnptr':
            return self.call_value(v, cargs, st, loc, dtid)
        return self.opaque_named('callable ' + t['s'][:60], [v] + list(cargs), st, loc, dtid)

    def closure_body(self, t, v, is_ref, cargs, st, loc, dtid):
        inst = t['inst']
        f = self.p.I[inst]
        if not f['body']:
            return self.opaque_named(f['path'], [v] + list(cargs), st, loc, dtid)
        self_t = self.p.T[f['body']['locals'][1]]
        if self_t['k'] == 'ref':
            if not is_ref:
                v = leaf(ptr('cell', self.new_cell(st, v), ()))
        elif is_ref:
            v = self.deref_load(v, st)
        return self.call_inst(inst, [v] + list(cargs), st, loc, None, dtid)

    def opaque_call(self, inst, args, st, loc, dtid, atys=None):
        return self.opaque_named(self.p.I[inst]['path'], args, st, loc, dtid, inst, atys)

    def havoc(self, v, key, st, tid, mut, seen):
        """forget what an unknown callee may change through v"""
        t = self.p.T[tid] if tid is not None else None
        if (v.id, mut) in seen:
            return
        seen.add((v.id, mut))
        if type(v) is Sym or type(v) is B or type(v) is Uninit:
            return
        if t and t['k'] in ('ref', 'ptr'):
            mut = bool(t.get('mut'))
            to = t.get('to')
            if type(v) is G:
                for c, l in v.items:
                    if AND(c, st.pc) != 0:
                        self.havoc_ptr(l, key, st, to, mut, seen, c)
                return
        if type(v) is G:
            for c, l in v.items:
                if isinstance(l, Ptr) and AND(c, st.pc) != 0:
                    self.havoc_ptr(l, key, st, None, mut, seen, c)
                elif type(l) in (Nat, Agg, Enum, G):
                    self.havoc(l, key, st, None, mut, seen)
            return
        if type(v) is Enum:
            vs = t['variants'] if t and t['k'] == 'adt' else None
            for k, (c, f) in v.v.items():
                for i, x in enumerate(f):
                    ft = vs[k]['fields'][i][1] if vs and k < len(vs) and i < len(vs[k]['fields']) else None
                    self.havoc(x, key, st, ft, mut, seen)
            return
        if type(v) is Nat and v.kind in ('rc', 'refcell'):
            for x in v.f:
                self.havoc(x, key, st, None, mut or v.kind == 'refcell', seen)
            return
        if type(v) in (Agg, Nat):
            fs = []
            try:
                fs = self.p.fields(tid) if t and type(v) is Agg else []
            except Unsupported:
                pass
            for i, x in enumerate(v.f):
                self.havoc(x, key, st, fs[i][1] if i < len(fs) else None, mut, seen)

    def havoc_ptr(self, l, key, st, to, mut, seen, g):
        if not isinstance(l, Ptr):
            return self.havoc(l, key, st, None, mut, seen) if type(l) in (Nat, Agg, Enum) else None
        if l.kind == 'fn':
            return
        cid = l.a[0]
        old = st.mem.get(cid, self.p.cells.get(cid))
        if old is None:
            return
        inner = self.read_path(old, l.a[1], st)
        self.havoc(inner, key + (l,), st, to if l.kind == 'cell' else None, mut if to is None else False, seen)
        if not mut or (isinstance(cid, tuple) and cid and cid[0] in ('const', 'static')):
            return
        try:
            if l.kind == 'slice' and self.p.is_u8(l.a[4]):
                self.store_bytes(cid, l.a[1], l.a[2], leaf(rbytes(TM.region(key + (l,), l.a[3]))), st, g)
                return
            if l.kind == 'view':
                self.store(('v',) + l.a, self.p.sym(l.a[3], key + (l,)), st, g)
                return
            tid = to if to is not None else (self.celltid.get(cid) if l.a[1] == () else None)
            if type(inner) is G and any(isinstance(x, Bytes) for _, x in inner.items) and tid is None:
                new = leaf(rbytes(TM.region(key + (l,), inner.items[0][1].len)))
            elif type(inner) is Nat and inner.kind == 'vec' and type(inner.f[0]) is G and \
                    any(isinstance(x, Bytes) for _, x in inner.f[0].items):
                new = mkNat('vec', (leaf(rbytes(TM.region(key + (l,)))),) + inner.f[1:], inner.tag)
            else:
                new = self.p.sym(tid, key + (l,)) if tid is not None else mkNat('havoc', (), key + (l,))
            self.store(('c', cid, l.a[1]), new, st, g)
        except Unsupported as e:
            self.note('havoc', repr(l)[:100])

    def opaque_named(self, path, args, st, loc, dtid, inst=None, atys=None):
        h = self.hooks.get('opaque')
        if h:
            r = h(self, path, args, st, loc, dtid, inst)
            if r is not None:
                return r
        self.unknown.append(('call', path, loc))
        self.opaque_n += 1
        if dtid is not None and self.p.T[dtid]['k'] == 'never':
            return UNINIT, None
        # what it can reach through mutable references is unknown afterwards
        hk = ('havoc', path) + tuple(args)
        seen = set()
        for k, a in enumerate(args):
            self.havoc(a, hk + (k,), st, atys[k] if atys and k < len(atys) else None, True, seen)
        key = ('call', path) + tuple(args)
        r = self.p.sym(dtid, key) if dtid is not None else UNINIT
        return r, st

    def yield_term(self, inst, body, fr, k, st, loc):
        return [(k[2], st)]

    # ---------- loops ----------
    def exec_loop(self, inst, body, fr, comp, st):
        def run(s):
            o = self.exec_region(inst, body, fr, comp[3], comp[1], s, comp[1])
            back = self.merge(o.pop(comp[1], []))
            return [(t, s2) for t, ss in o.items() for s2 in ss], back
        return self.loop(run, st, '%s bb%d' % (self.p.I[inst]['path'], comp[1]), body=body, fr=fr)

    def marks(self):
        return len(self.panics), len(self.effects), len(self.unknown), self.fog

    def rewind(self, m):
        self.fog = m[3]
        del self.panics[m[0]:]
        del self.effects[m[1]:]
        del self.unknown[m[2]:]

    def loop(self, run, st, name, body=None, fr=None):
        """run(state) -> ([(target, state)], back state or None)"""
        m = self.marks()
        saved, known = self.sym_next, self.known_next
        cur = st.copy()
        exits = []
        it = 0
        while True:
            self.sym_next = self.known_next = False
            o, back = run(cur.copy())
            exits += o
            if back is None or back.pc == 0 or TM.theory_sat(back.pc, False) == 0:
                self.sym_next, self.known_next = saved, known
                return exits
            it += 1
            if self.sym_next or it >= 300 or (it >= UNROLL and o and not (self.known_next and it < 20)):
                break
            cur = back
        self.rewind(m)
        try:
            return self.summarise(run, st, name, body, fr)
        finally:
            self.sym_next, self.known_next = saved, known

    def summarise(self, run, st, name, body, fr):
        depth = len(self.loops)
        m = self.marks()
        K = TM.atom('K', (depth,), 0, 1 << 40)
        kl = of(K)
        changed = []       # (cid, path)
        repl = {}          # (cid, path) -> value while analysing one iteration
        induct = {}
        self.loops.append(('?', kl, None))
        try:
            for rnd in range(40):
                self.rewind(m)
                e = st.copy()
                for (cid, path), v in repl.items():
                    e.mem[cid] = self.write_path(self.cell(e, cid), path, v, e)
                ent = e.copy()
                outs, back = run(e)
                if back is None or back.pc == 0:
                    break
                new = []
                for cid, v in ent.mem.items():
                    w = back.mem.get(cid, v)
                    if w is not v:
                        self.diff(v, w, cid, (), new)
                new = [x for x in new if x not in repl]
                if new:
                    for cp in new:
                        # drop finer paths below a coarser one
                        for q in [q for q in repl if q[0] == cp[0] and q[1][:len(cp[1])] == cp[1] and q != cp]:
                            del repl[q]
                            induct.pop(q, None)
                            changed.remove(q)
                        changed.append(cp)
                        init = self.read_path(self.cell(st, cp[0]), cp[1], st)
                        bv = self.read_path(back.mem[cp[0]], cp[1], back)
                        el = None
                        if cp[1][-1:] == (('n', 0),):
                            par = self.read_path(self.cell(st, cp[0]), cp[1][:-1], st)
                            el = par.tag if type(par) is Nat and par.kind == 'vec' else None
                        repl[cp] = self.loopvar(depth, len(changed), init, bv, cp, body, fr, el)
                    continue
                # closed forms
                prog = False
                for i, cp in enumerate(changed):
                    if cp in induct:
                        continue
                    lv = repl[cp]
                    bv = simp(self.read_path(self.cell(back, cp[0]), cp[1], back), back.pc)
                    init = self.read_path(self.cell(st, cp[0]), cp[1], st)
                    f = self.closed(lv, bv, init, kl)
                    if f is not None:
                        repl[cp] = f
                        induct[cp] = True
                        prog = True
                    elif type(lv) is Sym or (type(lv) is G and isinstance(lv.items[0][1], Lin)):
                        pass
                if not prog:
                    break
            else:
                self.note('loop', 'no fixpoint in ' + name)
        finally:
            self.loops.pop()
        # final pass results: outs, back with loop vars
        mus = [cp for cp in changed if cp not in induct]
        sysd = []
        for cp in mus:
            lv = repl[cp]
            if type(lv) is Nat and lv.kind == 'symseq' and lv.tag[2][0] == 'lvseq':
                raise Unsupported('sequence built in a loop: ' + name)
            init = self.read_path(self.cell(st, cp[0]), cp[1], st)
            nxt = simp(self.read_path(self.cell(back, cp[0]), cp[1], back), back.pc) if back is not None else init
            sysd.append((lv, init, nxt))
        return self.finish_loop(st, outs, back, sysd, K, name, m, depth)

    def closed(self, lv, bv, init, kl):
        if type(lv) is Nat and lv.kind == 'symseq' and lv.tag[2][0] == 'lvseq':
            if type(bv) is not Nat or bv.kind != 'symseq' or bv.tag[2][0] != 'append' or bv.tag[2][1] is not lv:
                return None
            x = bv.tag[2][2]
            if type(x) is not Agg or len(x.f) != 1:
                return None
            aa, rr = atoms_of(x)
            labs = set()
            collect_labels(x, labs)
            if any(is_lv(a.args) for a in aa if a.kind == 'var') or any(is_lv(r.key) for r in rr) or any('lv' in repr(q) for q in labs):
                return None
            gk = TM.atom('gk', kl.t[0][0].args, 0, 1 << 40)
            e = Subst(lambda a: of(gk) if a is kl.t[0][0] else None).val(x.f[0])
            return mkNat('symseq', [leaf(kl), e], ('symseq', lv.tag[1], ('gen', gk)))
        if type(lv) is not G or type(bv) is not G or len(lv.items) != 1 or len(bv.items) != 1:
            return None
        x, y = lv.items[0][1], bv.items[0][1]
        if isinstance(x, Lin) and isinstance(y, Lin):
            d = sub(y, x)
            if not d.t:
                return mkG([(c, add(l, scale(kl, d.c))) for c, l in self.items(init)])
            if len(y.t) == 1 and y.c == 0 and y.t[0][1] == 1:
                a = y.t[0][0]
                if a.kind == 'div' and a.args[0] is x and a.args[1] & (a.args[1] - 1) == 0:
                    sh = a.args[1].bit_length() - 1
                    return mkG([(c, TM.shr(l, scale(kl, sh))) for c, l in self.items(init)])
            # a constant increment inside a tight range wraps as mod: x+c mod 2^64
            if len(y.t) == 1 and y.c == 0 and y.t[0][0].kind == 'mod' and y.t[0][0].args[1] == 1 << 64:
                d = sub(y.t[0][0].args[0], x)
                if not d.t:
                    return mkG([(c, add(l, scale(kl, d.c))) for c, l in self.items(init)])
            return None
        if isinstance(x, Bytes) and isinstance(y, Bytes):
            n = len(x.segs)
            if n != 1 or y.segs[:1] != x.segs or len(y.segs) != 2:
                return None
            s = y.segs[1]
            if s[0] not in 'rs' or s[3] is not const(1):
                return None
            o = sub(s[2], kl)
            if kl.t[0][0] in [a for a, _ in o.t]:
                return None
            aa, rr = atoms_of(leaf(mkbytes([(s[0], s[1], o, const(1))])))
            if any(is_lv(a.args) for a in aa if a.kind == 'var') or any(is_lv(r.key) for r in rr) or kl.t[0][0] in aa:
                return None
            body = rbytes(s[1], o, kl) if s[0] == 'r' else bsub(s[1], o, kl)
            return mkG([(c, concat(l, body)) for c, l in self.items(init)])
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.kind == y.kind == 'slice' and x.a[0] == y.a[0] and x.a[1] == y.a[1]:
            d1, d2 = sub(y.a[2], x.a[2]), sub(y.a[3], x.a[3])
            if not d1.t and not d2.t:
                out = []
                for c, l in self.items(init):
                    out.append((c, ptr('slice', l.a[0], l.a[1], add(l.a[2], scale(kl, d1.c)), add(l.a[3], scale(kl, d2.c)), l.a[4])))
                return mkG(out)
        return None

    def diff(self, v, w, cid, path, out):
        if v is w:
            return
        if type(v) is Sym:
            v = self.p.expand(v)
        if type(w) is Sym:
            w = self.p.expand(w)
        if v is w:
            return
        if type(v) is Agg and type(w) is Agg and len(v.f) == len(w.f):
            for i, (a, b) in enumerate(zip(v.f, w.f)):
                self.diff(a, b, cid, path + (('f', i),), out)
            return
        if type(v) is Nat and type(w) is Nat and v.kind == w.kind and len(v.f) == len(w.f) and v.tag == w.tag and v.kind != 'union':
            for i, (a, b) in enumerate(zip(v.f, w.f)):
                self.diff(a, b, cid, path + (('n', i),), out)
            return
        if type(v) is Enum and type(w) is Enum and set(v.v) == set(w.v) and len(v.v) == 1:
            k = list(v.v)[0]
            for i, (a, b) in enumerate(zip(v.v[k][1], w.v[k][1])):
                self.diff(a, b, cid, path + (('vf', k, i),), out)
            return
        if v is UNINIT:
            # assigned before use inside the body; carries no value around
            if (cid, path) not in out:
                out.append((cid, path))
            return
        out.append((cid, path))

    def loopvar(self, depth, idx, init, bv, cp, body, fr, tid):
        nm = ('lv', depth, idx)
        if init is UNINIT:
            return UNINIT2(self, nm, bv)
        if type(init) is B:
            return mkB(bdd.atom(('bool', nm, show_key(nm))))
        its = self.items(init)
        if type(init) is Enum:
            return mkSym(init.tid, nm)
        if all(isinstance(l, Lin) for _, l in its):
            lo = min(l.lo for _, l in its)
            allb = [l for _, l in self.items(bv) if isinstance(l, Lin)]
            lo = 0 if all(l.lo >= 0 for l in allb) and lo >= 0 else -(1 << 63)
            return mkL(of(TM.atom('var', (nm,), lo, U64)))
        if all(isinstance(l, Bytes) for _, l in its):
            lens = {l.len for _, l in its} | {l.len for _, l in self.items(bv) if isinstance(l, Bytes)}
            if len(lens) == 1:
                return leaf(rbytes(TM.region(nm, list(lens)[0])))
            return leaf(rbytes(TM.region(nm)))
        if all(isinstance(l, Ptr) and l.kind == 'slice' for _, l in its):
            p = its[0][1]
            if all(l.a[0] == p.a[0] and l.a[1] == p.a[1] for _, l in its) and \
                    all(isinstance(l, Ptr) and l.kind == 'slice' and l.a[0] == p.a[0] and l.a[1] == p.a[1] for _, l in self.items(bv)):
                return leaf(ptr('slice', p.a[0], p.a[1], of(TM.atom('var', ((nm, 'start'),), 0, LEN_MAX)),
                                of(TM.atom('var', ((nm, 'len'),), 0, LEN_MAX)), p.a[4]))
        if type(init) is Nat and init.kind == 'vec' or type(bv) is Nat and bv.kind == 'vec':
            el = (init if type(init) is Nat else bv).tag
            return mkNat('vec', [self.loopvar(depth, (idx, 'c'), init.f[0], bv.f[0], cp, body, fr, None)], el)
        if type(init) is Agg and not init.f and type(bv) is Agg and bv.f and cp[1][-1:] == (('n', 0),) and tid is not None:
            return mkNat('symseq', [mkL(of(TM.atom('var', ((nm, 'len'),), 0, LEN_MAX)))], ('symseq', tid, ('lvseq',) + nm))
        self.note('loop variable', '%r at %r' % (repr(init)[:80], cp))
        return leaf(rbytes(TM.region(nm)))

    def finish_loop(self, st, outs, back, sysd, K, name, m, depth):
        kl = of(K)
        # exits that depend on the iteration counter only through its bound
        gov = None
        pcs = [s.pc for _, s in outs]
        bound = None
        if back is not None:
            bound = self.solve_bound(st, outs, back, K)
        info = {'name': name, 'bound': bound, 'recurrences': len(sysd), 'exits': len(outs)}
        self.loopinfo.append(info)
        depmap = self.mu_terms(sysd)
        res = []
        others = [i for i in range(len(outs))]
        govset = set()
        if bound is not None:
            goes_on = self.bound_lit
            split = []
            for t, s in outs:
                # one exit may serve the end of the list and other reasons
                e, r = AND(s.pc, NOT(goes_on)), AND(s.pc, goes_on)
                if e == 0 or r == 0 or theory0(e) or theory0(r):
                    split.append((t, s))
                    continue
                s2 = s.copy()
                s.pc, s2.pc = e, r
                split += [(t, s), (t, s2)]
            outs[:] = split
            for i, (t, s) in enumerate(outs):
                # an exit is the governing one when it is impossible while K < bound
                g = AND(s.pc, TM.le(addc(kl, 1), bound))
                if g == 0 or theory0(AND(s.pc, goes_on)) or theory0(g):
                    govset.add(i)
        rest = [i for i in range(len(outs)) if i not in govset]
        passed = 1
        if rest:
            key = ('completes', name, self.loop_id(name))
            passed = bdd.atom(key) if govset else 0
        kxs = {}
        for i, (t, s) in enumerate(outs):
            if i in govset:
                n = bound
                if n.lo < 0:
                    # zero iterations when the bound is not positive
                    pos = TM.le(ZERO, n)
                    n2 = mkG([(pos, n), (NOT(pos), ZERO)])
                    if AND(s.pc, NOT(pos)) != 0 and TM.theory_sat(AND(st.pc, NOT(pos)), False) != 0:
                        n = of(TM.atom('max0', (bound,), 0, max(0, bound.hi)))
                s2 = self.subst_state(s, K, n, depmap, st)
                s2.pc = AND(s2.pc, passed)
            else:
                kx = kxs[i] = of(TM.atom('Kx', (name, depth, self.loop_id(name), i), 0, 1 << 40))
                s2 = self.subst_state(s, K, kx, depmap, st)
                s2.pc = AND(s2.pc, NOT(passed))
            res.append((t, s2))
        self.loop_done(st, outs, back, sysd, K, bound, name, passed, rest, kxs)
        if not outs and back is not None:
            self.note('loop', 'never left: ' + name)
        # effects and panics recorded in the body keep K as "some iteration"
        for lst in (self.panics[m[0]:], self.effects[m[1]:]):
            for x in lst:
                x.loops = [(name, kl, bound) if l[0] == '?' and l[1] is kl else l for l in x.loops]
                if bound is not None:
                    x.g = AND(x.g, TM.lt(kl, bound))
        return res

    def loop_id(self, name):
        return TM.nid()

    def loop_done(self, *a):
        pass

    def solve_bound(self, st, outs, back, K):
        """bound N such that the loop continues exactly while K < N (as far as K is concerned)"""
        kl = of(K)
        best = None
        for v in bdd.support(back.pc):
            if v not in TM.le_labels:
                continue
            form, k = TM.le_labels[v]
            d = dict(form.t)
            c = d.get(K)
            if not c:
                continue
            g = TM.le_form(form, k)
            # which polarity continues?
            if AND(back.pc, NOT(g)) == 0:
                # form <= k continues:  c*K + r <= k
                if c > 0:
                    r = mklin(0, {a: x for a, x in form.t if a is not K})
                    num = sub(const(k), r)        # c*K <= num  <=> K < floor(num/c)+1
                    n = addc(num, 1) if c == 1 else addc(TM.div(num, c), 1)
                    cand = n
                else:
                    continue
            elif AND(back.pc, g) == 0:
                # form > k continues: c*K + r >= k+1
                if c < 0:
                    r = mklin(0, {a: x for a, x in form.t if a is not K})
                    num = sub(r, const(k + 1))    # -c*K <= num
                    n = addc(num, 1) if c == -1 else addc(TM.div(num, -c), 1)
                    cand = n
                else:
                    continue
            else:
                continue
            if any(a.kind in ('var',) and isinstance(a.args[0], tuple) and a.args[0][0] == 'lv' for a, _ in cand.t):
                continue
            if best is None or len(cand.t) < len(best.t):
                best = cand
                self.bound_lit = g if AND(back.pc, NOT(g)) == 0 else NOT(g)
        return best

    def mu_terms(self, sysd):
        """loop variable -> function(count) giving its value after count iterations"""
        if not sysd:
            return None
        ids = {}
        for i, (lv, init, nxt) in enumerate(sysd):
            ids[i] = lv
        # identify loop variables by their atoms / regions / labels
        keys = []
        for lv, init, nxt in sysd:
            ks = set()
            a, r = atoms_of(lv)
            for x in a:
                if x.kind == 'var':
                    ks.add(('a', x.id))
            for x in r:
                if isinstance(x.key, tuple) and x.key and x.key[0] == 'lv':
                    ks.add(('r', x.id))
            if type(lv) is B:
                ks.add(('g', lv.g))
            if type(lv) is Sym:
                ks.add(('n', TM._k(lv.name)))
            keys.append(ks)
        return sysd, keys

    def subst_state(self, s, K, n, mu, st0):
        """replace the iteration counter by n and loop variables by recurrences"""
        if isinstance(n, G):
            n = n.items[0][1]
        murepl = self.mu_subst(mu, n, K)

        def fa(a):
            if a is K:
                return n
            return murepl['a'].get(a.id)

        def fr(r):
            return murepl['r'].get(r.id)

        def flabel(lab):
            return murepl['l'].get(lab)

        def fv(v):
            if type(v) is Sym and v.id in murepl['s']:
                return murepl['s'][v.id]
            return None
        sb = Subst(fa, fr, fv, None, flabel)
        out = State(sb.guard(s.pc), {})
        base = st0.mem
        for c, v in s.mem.items():
            if base.get(c) is v:
                out.mem[c] = v
            else:
                out.mem[c] = sb.val(v)
        return out

    def mu_subst(self, mu, n, K):
        res = {'a': {}, 'r': {}, 'l': {}, 's': {}}
        if not mu:
            return res
        sysd, keys = mu
        # dependency graph
        deps = []
        owner = {}
        for i, (lv, init, nxt) in enumerate(sysd):
            a, r = atoms_of(lv)
            for x in a:
                if x.kind == 'var' and isinstance(x.args[0], tuple) and (x.args[0][0] == 'lv' or (isinstance(x.args[0][0], tuple) and x.args[0][0][0] == 'lv')):
                    owner[('a', x.id)] = i
            for x in r:
                owner[('r', x.id)] = i
            if type(lv) is B:
                for v in bdd.support(lv.g):
                    owner[('l', bdd.names[v])] = i
            if type(lv) is Sym:
                owner[('s', lv.id)] = i

        def uses(v):
            a, r = atoms_of(v)
            out = []
            for x in sorted(a, key=lambda q: q.id):
                if ('a', x.id) in owner:
                    out.append(owner[('a', x.id)])
            for x in sorted(r, key=lambda q: q.id):
                if ('r', x.id) in owner:
                    out.append(owner[('r', x.id)])
            labs = set()
            collect_labels(v, labs)
            for l in sorted(labs, key=repr):
                if ('l', l) in owner:
                    out.append(owner[('l', l)])
            return out
        ud = [uses(nxt) for _, _, nxt in sysd]
        for i, (lv, init, nxt) in enumerate(sysd):
            order = [i]
            for j in order:
                for k in ud[j]:
                    if k not in order:
                        order.append(k)
            # canonical bound names
            # (bound variables differ from the counters of later loops)
            ba, br, bl = {K.id: of(TM.atom('bvK', K.args, K.lo, K.hi))}, {}, {}
            for pos, j in enumerate(order):
                a, r = atoms_of(sysd[j][0])
                for kind_, x in sorted([('a', x) for x in a if ('a', x.id) in owner] + [('r', x) for x in r if ('r', x.id) in owner], key=lambda q: q[1].id):
                    if kind_ == 'a':
                        sfx = x.args[0][1] if isinstance(x.args[0][0], tuple) else ''
                        ba[x.id] = of(TM.atom('var', (('bv', pos, sfx),), x.lo, x.hi))
                    else:
                        br[x.id] = rbytes(TM.region(('bv', pos), x.len if not x.len.t or x.len.t[0][0].kind != 'len' else None))
                if type(sysd[j][0]) is B:
                    for v in bdd.support(sysd[j][0].g):
                        bl[bdd.names[v]] = bdd.atom(('bool', ('bv', pos), 'bv%d' % pos))
            sb = Subst(lambda a: ba.get(a.id), lambda r: br.get(r.id), None, None, lambda l: bl.get(l))
            key = tuple((sysd[j][1], sb.val(sysd[j][2])) for j in order)
            a, r = atoms_of(lv)
            for x in a:
                if owner.get(('a', x.id)) == i:
                    sfx = x.args[0][1] if isinstance(x.args[0][0], tuple) else ''
                    res['a'][x.id] = of(TM.atom('mu', (key, n, sfx), x.lo, x.hi))
            for x in r:
                if owner.get(('r', x.id)) == i:
                    ln = x.len if not x.len.t or x.len.t[0][0].kind != 'len' else None
                    res['r'][x.id] = rbytes(TM.region(('mu', key, n), ln))
            if type(lv) is B:
                for v in bdd.support(lv.g):
                    res['l'][bdd.names[v]] = bdd.atom(('mu', key, n))
            if type(lv) is Sym:
                res['s'][lv.id] = mkSym(lv.tid, ('mu', key, n))
        return res


def theory0(g):
    return g == 0 or TM.theory_sat(g) == 0


def is_lv(x):
    if isinstance(x, tuple):
        return bool(x) and (x[0] == 'lv' or any(is_lv(y) for y in x))
    return False


def UNINIT2(I, nm, bv):
    return UNINIT


def collect_labels(v, out):
    t = type(v)
    if t is B:
        out |= {bdd.names[x] for x in bdd.support(v.g)}
    elif t is G:
        for c, l in v.items:
            out |= {bdd.names[x] for x in bdd.support(c)}
    elif t in (Agg, Nat):
        for x in v.f:
            collect_labels(x, out)
    elif t is Enum:
        for c, f in v.v.values():
            out |= {bdd.names[x] for x in bdd.support(c)}
            for x in f:
                collect_labels(x, out)
