"""Instruction semantics, calls, exceptions."""
import z3
from z3 import *
import cxx, irparse
import logic as L
from logic import VerifUnsupported, zs, fresh, I, PtrDT
import vc
from vc import *

INTSORTS = ('i8', 'i16', 'i32', 'i64')
TYPEIDS = {}


def typeid(n):
    return TYPEIDS.setdefault(n, len(TYPEIDS) + 2)


def typename(X, o):
    """class named by a typeinfo operand"""
    d = X.dm.get(o.v) or vc_demangle(o.v)
    return d.replace('typeinfo for ', '').strip()


_dmc = {}


def vc_demangle(n):
    if n not in _dmc:
        import build
        _dmc[n] = build.demangle([n])[n]
    return _dmc[n]


def step(self, b, k, x, env, st):
    op = x.op
    if op == 'load':
        p = self.val(env, x.a[0])
        rt = self.mod.resolve(x.ty)
        if rt.k == 'st' and len(rt.fs) > 1:
            fo = self.mod.layout(x.ty)[2]
            env[x.res] = [self.load(st, self.sortof(f), self.padd(st, p, o)) for o, f in fo]
            return
        sort = self.sortof(x.ty)
        v = self.load(st, sort, p)
        if rt.k == 'i' and rt.w == 1:
            v = IV(1, b=v.b)
        env[x.res] = v
        return
    if op == 'store':
        v, p = self.val(env, x.a[0]), self.val(env, x.a[1])
        rt = self.mod.resolve(x.a[0].ty)
        if isinstance(v, list):
            fo = self.mod.layout(x.a[0].ty)[2]
            for (o, f), y in zip(fo, v):
                self.store(st, self.sortof(f), self.padd(st, p, o), y)
            return
        sort = self.sortof(x.a[0].ty)
        if rt.k == 'i' and rt.w == 1:
            v = IV(8, u=v.u)
        self.store(st, sort, p, v)
        return
    if op == 'getelementptr':
        env[x.res] = self.gep(st, x, x.x['bt'], [self.val(env, a) for a in x.a])
        return
    if op in irparse.BIN:
        if op[0] == 'f':
            a, c = self.val(env, x.a[0]), self.val(env, x.a[1])
            env[x.res] = fop(self, st, op, a, c)
            return
        env[x.res] = self.binop(st, op, self.val(env, x.a[0]), self.val(env, x.a[1]), x.ty.w, x.x['flags'])
        return
    if op == 'fneg':
        env[x.res] = -self.val(env, x.a[0])
        return
    if op == 'icmp':
        env[x.res] = self.icmp(st, x.x['pred'], self.val(env, x.a[0]), self.val(env, x.a[1]))
        return
    if op == 'fcmp':
        a, c = self.val(env, x.a[0]), self.val(env, x.a[1])
        p = x.x['pred']
        e = {'oeq': lambda: a == c, 'ueq': lambda: a == c, 'one': lambda: a != c, 'une': lambda: a != c,
             'olt': lambda: a < c, 'ult': lambda: a < c, 'ole': lambda: a <= c, 'ule': lambda: a <= c,
             'ogt': lambda: a > c, 'ugt': lambda: a > c, 'oge': lambda: a >= c, 'uge': lambda: a >= c,
             'ord': lambda: BoolVal(True), 'uno': lambda: BoolVal(False)}[p]()
        env[x.res] = IV(1, b=e)
        return
    if op in irparse.CAST:
        env[x.res] = cast(self, st, op, x, self.val(env, x.a[0]))
        return
    if op == 'select':
        c, a, d = [self.val(env, y) for y in x.a]
        if same(a, d):
            env[x.res] = a
            return
        if isinstance(a, IV) and isinstance(d, IV):
            if z3.is_true(c.b):
                env[x.res] = a
            elif z3.is_false(c.b):
                env[x.res] = d
            elif a.w == 1:
                if z3.is_false(d.b):
                    env[x.res] = IV(1, b=And(c.b, a.b))
                elif z3.is_true(a.b):
                    env[x.res] = IV(1, b=Or(c.b, d.b))
                else:
                    env[x.res] = IV(1, b=If(c.b, a.b, d.b))
            elif self.quick(st, c.b):
                env[x.res] = a
            elif self.quick(st, Not(c.b)):
                env[x.res] = d
            else:
                env[x.res] = IV(a.w, u=If(c.b, a.u, d.u), s=If(c.b, a.s, d.s) if a._s is not None or d._s is not None else None)
            return
        if z3.is_expr(a) and z3.is_expr(d):
            env[x.res] = If(c.b, a, d)
            return
        # pointers: split the path
        n = 0
        for cond, v in ((c.b, a), (Not(c.b), d)):
            if self.feasible(st, cond):
                s2 = st.copy()
                s2.assume(cond)
                e2 = dict(env)
                e2[x.res] = v
                self.stack.append((b, None, e2, s2, k + 1))
                n += 1
        return 'end'
    if op == 'freeze':
        env[x.res] = self.val(env, x.a[0])
        return
    if op == 'alloca':
        rt = self.mod.resolve(x.ty)
        # one object per alloca instruction (re-entered in loops: same object)
        self.nalloca += 1
        i = self.nalloca
        if rt.k == 'arr':
            sz = self.mod.layout(x.ty)[0]
            self.localsize[i] = sz
            env[x.res] = PB(-i, 0)
        else:
            env[x.res] = PA(i, 0)
        return
    if op == 'br':
        if len(x.x['to']) == 1:
            self.goto(b, x.x['to'][0], env, st)
            return 'end'
        c = self.val(env, x.a[0])
        if isinstance(c, Undef):
            c = IV(1, b=fresh('undef', BoolSort()))
        t, f = x.x['to']
        ft, ff = self.feasible(st, c.b), self.feasible(st, Not(c.b))
        if ft and ff:
            s2 = st.copy()
            s2.assume(Not(c.b))
            self.goto(b, f, env, s2)
            st.assume(c.b)
            self.goto(b, t, env, st)
        elif ft:
            st.assume(c.b)
            self.goto(b, t, env, st)
        elif ff:
            st.assume(Not(c.b))
            self.goto(b, f, env, st)
        return 'end'
    if op == 'switch':
        v = self.val(env, x.a[0])
        rest = []
        for cvv, lab in x.x['cases']:
            e = v.u == self.constop(cvv).u
            rest.append(Not(e))
            if self.feasible(st, e):
                s2 = st.copy()
                s2.assume(e)
                self.goto(b, lab, env, s2)
        if self.feasible(st, And(*rest)):
            for r in rest:
                st.assume(r)
            self.goto(b, x.x['default'], env, st)
        return 'end'
    if op == 'ret':
        v = self.val(env, x.a[0]) if x.a else None
        self.leave(st, 'ret', v, self.curline)
        return 'end'
    if op == 'unreachable':
        # reached only after a noreturn call, which ends the path itself
        self.oblige(st, "unreachable code is not reached", BoolVal(False), 'memory')
        return 'end'
    if op == 'resume':
        self.unwind(b, None, env, st, st.exc)
        return 'end'
    if op == 'extractvalue':
        v = self.val(env, x.a[0])
        for i in x.x['idx']:
            v = v[i] if not isinstance(v, Undef) else UND
        env[x.res] = v
        return
    if op == 'insertvalue':
        v = self.val(env, x.a[0])
        if isinstance(v, Undef):
            v = [UND] * len(self.mod.resolve(x.ty).fs)
        v = list(v)
        if len(x.x['idx']) != 1:
            raise VerifUnsupported("nested insertvalue")
        v[x.x['idx'][0]] = self.val(env, x.a[1])
        env[x.res] = v
        return
    if op == 'landingpad':
        exc = st.exc
        sel = None
        clean = False
        for kd, o in x.x['clauses']:
            if kd == 'cleanup':
                clean = True
            elif kd == 'catch' and sel is None:
                if o.k == 'null':
                    sel = 1
                else:
                    t = typename(self, o)
                    if derives(exc.cls, t):
                        sel = typeid(t)
            elif kd == 'filter':
                raise VerifUnsupported("exception filter")
        if sel is None:
            if not clean:
                self.leave(st, exc.cls, None, self.curline)
                return 'end'
            sel = 0
        env[x.res] = [exc, IV.const(32, sel)]
        return
    if op in ('call', 'invoke'):
        return docall(self, b, k, x, env, st)
    raise VerifUnsupported("instruction " + op)


def fop(self, st, op, a, c):
    if op == 'fadd':
        return a + c
    if op == 'fsub':
        return a - c
    if op == 'fmul':
        return a * c
    if op == 'fdiv':
        self.oblige(st, "no floating division by zero", c != 0, 'memory')
        return a / c
    raise VerifUnsupported(op)


def cast(self, st, op, x, v):
    ty = self.mod.resolve(x.ty)
    if isinstance(v, Undef):
        return UND
    if op == 'zext':
        if v.isconst():
            return IV.const(ty.w, v.cval())
        return IV(ty.w, u=v.u, s=v.u)
    if op == 'sext':
        if v.isconst():
            return IV.const(ty.w, cv(v.s) % (1 << ty.w))
        if self.quick(st, v.s >= 0):
            t = v._u if v._u is not None else v.s
            return IV(ty.w, u=t, s=t)
        return IV(ty.w, s=v.s)
    if op == 'trunc':
        if isinstance(v, Ptr):
            raise VerifUnsupported("trunc of pointer")
        if ty.w == 1:
            return IV(1, b=v.b)
        m = 1 << ty.w
        if v.isconst():
            return IV.const(ty.w, v.cval())
        if v._u is not None and self.quick(st, v.u < m):
            return IV(ty.w, u=v.u)
        if v._s is not None and self.quick(st, And(v.s >= -(m // 2), v.s < m // 2)):
            return IV(ty.w, s=v.s)
        return IV(ty.w, u=v.u % IntVal(m))
    if op in ('bitcast',):
        return v
    if op == 'ptrtoint':
        return v
    if op == 'inttoptr':
        if isinstance(v, Ptr):
            return v
        if v.isconst():
            return PB(0, v.s)
        raise VerifUnsupported("inttoptr")
    if op == 'uitofp':
        return ToReal(v.u)
    if op == 'sitofp':
        return ToReal(v.s)
    if op in ('fpext', 'fptrunc'):
        return v
    if op in ('fptosi', 'fptoui'):
        t = fresh('fpint', I)
        r = v
        st.assume(And(Implies(r >= 0, And(ToReal(t) <= r, r < ToReal(t) + 1)), Implies(r < 0, And(ToReal(t) >= r, r > ToReal(t) - 1))))
        return IV(ty.w, s=t) if op == 'fptosi' else IV(ty.w, u=t)
    raise VerifUnsupported(op)


def unwind(self, b, ins, env, st, exc):
    """an exception leaves instruction ins (None: resume)"""
    if ins is not None and ins.op == 'invoke':
        st.exc = exc
        self.goto(b, ins.x['to'][1], env, st)
        return
    self.leave(st, exc.cls, None, self.curline)


def docall(self, b, k, ins, env, st):
    name = ins.x['callee']
    args = [self.val(env, a) for a in ins.a]
    st.ncall += 1
    if ins.x['indirect']:
        f = env.get(name)
        if not (isinstance(f, vc.PVT) and f.level == 1 and f.off == 16 and args and isinstance(args[0], vc.PX) and ins.ty.k == 'ptr'):
            raise VerifUnsupported("indirect call")
        # std::exception::what(), never fails
        outs = [(st, vc.PS(fresh('what', L.StrS), 0), None)]
    else:
        outs = callee(self, st, name, args, ins)
    if outs == 'end':
        return 'end'
    last = None
    multi = len(outs) > 1
    for s2, rv, exc in outs:
        if exc is not None:
            self.unwind(b, ins, dict(env), s2, exc)
            continue
        if ins.op == 'invoke':
            e2 = dict(env)
            if ins.res:
                e2[ins.res] = rv
            self.goto(b, ins.x['to'][0], e2, s2)
        elif multi or s2 is not st:
            e2 = dict(env)
            if ins.res:
                e2[ins.res] = rv
            self.stack.append((b, None, e2, s2, k + 1))
        else:
            if ins.res:
                env[ins.res] = rv
            last = 'go'
    return None if last == 'go' else 'end'


def callee(self, st, name, args, ins):
    lib = self.lib
    if name.startswith('llvm.'):
        return intrinsic(self, st, name, args, ins)
    h = lib.exact.get(name)
    if h:
        r = h(self, st, args, ins)
        return r if isinstance(r, list) and (not r or isinstance(r[0], tuple)) or r == 'end' else [(st, r, None)]
    d = self.dm.get(name) or vc_demangle(name)
    c = lib.contracts.get(norm(d))
    if c is not None:
        self.used_contracts.add(norm(d))
        return apply_contract(self, st, norm(d), c, args, ins)
    comps, params, head = parsed(d)
    for m, hd in lib.handlers:
        if m(comps, params, head):
            self.used_assumed.add(short(comps))
            info = Info(comps, params, ins, d)
            r = hd(self, st, args, info)
            return r if isinstance(r, list) and r and isinstance(r[0], tuple) and len(r[0]) == 3 or r == 'end' else [(st, r, None)]
    raise VerifUnsupported("call to %s, which has no contract" % d[:200])


_pn = {}


def parsed(d):
    if d not in _pn:
        _pn[d] = cxx.parse_name(d)
    return _pn[d]


def short(comps):
    return '::'.join(c[0] for c in comps)


class Info:
    def __init__(self, comps, params, ins, d):
        self.comps, self.params, self.ins, self.d = comps, params, ins, d
        self.cls, self.targs = comps[-2] if len(comps) > 1 else (None, None)
        self.method = comps[-1][0]
        self.mtargs = comps[-1][1]


def norm(d):
    return d


def freshret(self, st, ty, name):
    rt = self.mod.resolve(ty)
    if rt.k == 'void':
        return None
    if rt.k == 'i':
        return self.freshiv(st, rt.w, name)
    if rt.k == 'ptr':
        return self.freshptr(st, name)
    if rt.k == 'double':
        return fresh(name, RealSort())
    if rt.k == 'st':
        return [freshret(self, st, f, name) for f in rt.fs]
    raise VerifUnsupported("result type %r" % (rt,))


def apply_contract(self, st, name, contract, args, ins):
    spec = Spec(self, st, args, 'call', name)
    contract(spec, *args)
    cases = spec.finish()
    for n, f in spec.pre:
        self.oblige(st, "precondition of %s: %s" % (name.split('(')[0].replace('Columbus::', ''), n), f, 'pre')
    outs = []
    todo = [c for c in cases if c.cond is None or self.feasible(st, c.cond)]
    for n, c in enumerate(todo):
        s2 = st if n == len(todo) - 1 else st.copy()
        if c.cond is not None:
            s2.assume(c.cond)
        apply_effects(self, s2, c)
        rv = None
        if c.kind == 'ret':
            rv = c.ret
            if callable(rv) and not z3.is_expr(rv):
                rv = rv(self, s2)
            if rv is None:
                rv = freshret(self, s2, ins.ty, 'ret')
            else:
                rv = wrapret(self, s2, rv, ins.ty)
        for nm, f in c.ens:
            s2.assume(f(Post(self, s2), rv))
        outs.append((s2, rv, None if c.kind == 'ret' else PX(0, c.kind)))
    if not outs:
        return 'end'
    return outs


def evalcontract(self, st, name, contract, args, ty):
    """the result of a call without effects, for use in invariants"""
    ph, self.phase = self.phase, 'houdini'
    try:
        st = st.copy()
        spec = Spec(self, st, args, 'call', name)
        contract(spec, *args)
        cs = [c for c in spec.finish() if c.kind == 'ret']
        if len(cs) != 1 or cs[0].effects or cs[0].ret is None or (callable(cs[0].ret) and not z3.is_expr(cs[0].ret)):
            raise VerifUnsupported("not evaluable")
        return wrapret(self, st, cs[0].ret, ty)
    finally:
        self.phase = ph


def wrapret(self, st, rv, ty):
    rt = self.mod.resolve(ty)
    if rt.k == 'i':
        if isinstance(rv, IV):
            return rv
        if z3.is_bool(rv):
            return IV(rt.w, b=rv)
        if rt.w == 1:
            return IV(1, b=rv)
        self.assume_range(st, rt.w, rv)
        return IV(rt.w, u=rv)
    return rv


def apply_effects(self, st, c):
    involved = []
    pend = []
    nx0 = st.g['next']
    for op, sort, p, v in c.effects:
        if sort in self.reps_active and not isinstance(p, PE) and op in ('set', 'destroy'):
            if not (isinstance(p, PA) and (p.id, p.off) not in st.cells):
                involved += self.reps_active[sort].owned(self, st, p)
    for op, sort, p, v in c.effects:
        if op == 'row':
            self.frame(st, 'i8', p, None)
            for s in INTSORTS:
                self.setrow(st, s, p, fresh('rowhv', ArraySort(I, I)), frame=False)
            continue
        if op == 'moved':
            if sort in self.reps_active:
                raise VerifUnsupported("move of a %s inside its own class" % sort)
            if not isinstance(p, PA):
                raise VerifUnsupported("move out of a %s that is not a local" % sort)
            st.cells[(p.id, p.off)] = ('moved:' + sort, None)
            st.writes.append(('cell', p.id, p.off, 'moved:' + sort))
            continue
        if sort in self.reps_active and not isinstance(p, PE):
            rep = self.reps_active[sort]
            if any(isinstance(o, Family) for o in rep.owned(self, st, p)):
                raise VerifUnsupported("%s of a %s inside its own class" % (op, sort))
            if op == 'destroy':
                for o in rep.owned(self, st, p):
                    self.oblige(st, "released memory is owned", Or(o == 0, o >= self.next0, *[o == x for x in self.mayfree]), 'frame')
                    st.g['alive'] = Store(st.g['alive'], o, False)
                    st.writes.append(('g', 'alive'))
                if isinstance(p, PA):
                    pass
                continue
            for s, fo in rep.fields:
                self.store(st, s, self.padd(st, p, fo), self.tov_any(st, s), check=False)
            for o in involved:
                st.g['alive'] = Store(st.g['alive'], o, fresh('al', BoolSort()))
                for s in rep.rowsorts:
                    self.setrow(st, s, o, fresh('rowhv', ArraySort(I, zs(s))), frame=False)
            pend.append((rep, p, v))
            continue
        if op == 'destroy':
            destroy(self, st, sort, p)
            continue
        if v is None:
            v = self.tov(st, sort, fresh('post_' + cxx.sname(sort), zs(sort)))
        self.store(st, sort, p, v, check=False)
    if pend:
        nx = fresh('next', I)
        st.assume(nx >= nx0)
        st.g['next'] = nx
        st.writes.append(('g', 'next'))
        st.writes.append(('g', 'alive'))
    for rep, p, v in pend:
        # what the new private data points to is new as well
        for n in range(len(rep.owned(self, st, p))):
            t = rep.owned(self, st, p)[n]
            for s in rep.rowsorts:
                self.setrow(st, s, t, fresh('rowhv', ArraySort(I, zs(s))), frame=False)
        for t in rep.owned(self, st, p):
            st.assume(And(t >= 0, t < st.g['next']))
            st.assume(Or(t == 0, t >= nx0, *[t == x for x in involved]))
            st.g['alive'] = Store(st.g['alive'], t, True)
            ad = self.addr(p)
            st.g['owner'] = Store(st.g['owner'], t, PtrDT.mkptr(ad[0], ad[1]))
            st.writes.append(('g', 'owner'))
    if pend:
        own = [t for rep, p, v in pend for t in rep.owned(self, st, p)]
        for o in involved:
            st.assume(Or(o == 0, Not(Select(st.g['alive'], o)), *[o == t for t in own]))
        q = fresh('o', I)
        al = Select(L.nm(st.g['alive']), q)
        st.assume(ForAll([q], Implies(And(q >= nx0, q < st.g['next'], al), Or(*[q == t for t in own])), patterns=[al]))
    for rep, p, v in pend:
        for n, f in rep.wf(self, st, p):
            st.assume(f)
        if v is not None:
            cur = rep.view(self, st, p)
            if sort_is_word(rep):
                st.assume(cur == v)
                continue
            st.assume((rep.eq or (lambda a, b_: L.eqv(rep.sort, a, b_)))(cur, v))


def sort_is_word(rep):
    return rep.name == 'Word'


def destroy(self, st, sort, p):
    if isinstance(p, PA):
        if (p.id, p.off) not in st.cells:
            self.oblige(st, "%s is destroyed once" % cxx.sname(sort), BoolVal(False), 'memory')
            return
        del st.cells[(p.id, p.off)]
        st.writes.append(('dead', p.id, p.off))
    elif isinstance(p, PB):
        # destroying a member of a heap object: its value becomes meaningless
        self.store(st, sort, p, self.tov(st, sort, fresh('dead', zs(sort))), check=False)


def intrinsic(self, st, name, args, ins):
    if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.donothing')):
        return [(st, None, None)]
    if name.startswith('llvm.eh.typeid.for'):
        return [(st, IV.const(32, typeid(typename(self, ins.a[0]))), None)]
    if name.startswith('llvm.umul.with.overflow'):
        a, c = args[0], args[1]
        w = a.w
        t = self.mul(st, a.u, c.u)
        if isc(t):
            ov = cv(t) >= (1 << w)
            return [(st, [IV.const(w, cv(t)), IV.const(1, int(ov))], None)]
        if self.quick(st, t < IntVal(1 << w)):
            return [(st, [IV(w, u=t), IV.const(1, 0)], None)]
        return [(st, [IV(w, u=t % IntVal(1 << w)), IV(1, b=t >= IntVal(1 << w))], None)]
    if name.startswith('llvm.umin') or name.startswith('llvm.umax') or name.startswith('llvm.smin') or name.startswith('llvm.smax'):
        a, c = args
        sg = name[5] == 's'
        x, y = (a.s, c.s) if sg else (a.u, c.u)
        t = If(x < y, x, y) if 'min' in name else If(x < y, y, x)
        return [(st, IV(a.w, s=t) if sg else IV(a.w, u=t), None)]
    if name.startswith('llvm.abs'):
        a = args[0]
        return [(st, IV(a.w, s=If(a.s < 0, -a.s, a.s)), None)]
    if name.startswith(('llvm.memcpy', 'llvm.memmove')):
        memcpy(self, st, args[0], args[1], args[2])
        return [(st, None, None)]
    if name.startswith('llvm.memset'):
        memset(self, st, args[0], args[1], args[2])
        return [(st, None, None)]
    if name.startswith('llvm.trap'):
        self.oblige(st, "trap is not reached", BoolVal(False), 'memory')
        return 'end'
    raise VerifUnsupported("intrinsic " + name)


def memcpy(self, st, d, s, n):
    if n.isconst() and n.cval() == 0:
        return
    if isinstance(d, PA):
        if not n.isconst():
            raise VerifUnsupported("memcpy of symbolic size into local")
        nn = n.cval()
        if isinstance(s, PA):
            items = [((i, o), c) for (i, o), c in st.cells.items() if i == s.id and s.off <= o < s.off + nn]
            for (i, o), c in items:
                st.cells[(d.id, d.off + o - s.off)] = c
                st.writes.append(('cell', d.id, d.off + o - s.off, c[0]))
            if not items and s.id in st.bg:
                st.bg[d.id] = list(st.bg.get(d.id, [])) + [(d.off, nn, st.copy(), s)]
            return
        if isinstance(s, PG):
            out, const, size = self.ginit(s.name)
            o0 = cv(s.off)
            for o, e in out.items():
                if o0 <= o < o0 + nn:
                    if e[0] == 'ptr':
                        st.cells[(d.id, d.off + o - o0)] = ('ptr', e[1])
                    else:
                        st.cells[(d.id, d.off + o - o0)] = ('i%d' % e[0], IV.const(e[0], e[1]))
            return
        for (i, o) in list(st.cells):
            if i == d.id and d.off <= o < d.off + nn:
                del st.cells[(i, o)]
        st.bg[d.id] = list(st.bg.get(d.id, [])) + [(d.off, nn, st.copy(), s)]
        st.writes.append(('cellrange', d.id, d.off, nn))
        return
    if isinstance(s, PA):
        nn = n.cval()
        items = sorted(((o, c) for (i, o), c in st.cells.items() if i == s.id and s.off <= o < s.off + nn), key=lambda z: z[0])
        for o, c in items:
            self.store(st, c[0], self.padd(st, d, o - s.off), c[1])
        if not items:
            raise VerifUnsupported("memcpy from unknown local")
        return
    if isinstance(d, PE) or isinstance(s, PE):
        if isinstance(d, PE) and isinstance(s, PE) and n.isconst():
            es = d.cs[1]
            if n.cval() == cxx.size(es) and d.off == 0 and s.off == 0:
                self.store(st, es, d, self.load(st, es, s))
                return
        raise VerifUnsupported("memcpy on container elements")
    nn = n.u
    if not n.isconst() and not self.quick(st, nn > 0):
        # a zero-length copy touches nothing
        guard = nn > 0
    else:
        guard = None

    def chk(p, what):
        if isinstance(p, PB):
            o, f = p.obj, p.off
            if isc(o) and cv(o) < 0:
                c = And(f >= 0, f + nn <= self.localsize[-cv(o)])
            else:
                c = And(o != 0, Select(st.g['alive'], o), f >= 0, f + nn <= L.osize(o))
            self.oblige(st, "memory-safe %s" % what, c if guard is None else Implies(guard, c), 'memory')
    chk(d, "copy target")
    chk(s, "copy source")
    self.limit(st, s, nn)
    if not isinstance(d, PB):
        raise VerifUnsupported("memcpy target %r" % (d,))
    fr = d.obj
    c0 = len(st.path)
    self.frame(st, 'i8', d.obj, None)
    if isinstance(s, PB):
        for sort in INTSORTS + ('ptr', 'f64'):
            src = self.row(st, sort, s.obj)
            r = L.copyrow(sort)(self.row(st, sort, d.obj), d.off, src, s.off, nn)
            self.setrow(st, sort, d.obj, r, frame=False)
        return
    if isinstance(s, PG):
        out, const, size = self.ginit(s.name)
        o0 = cv(s.off)
        for o, e in sorted(out.items()):
            if o0 <= o < o0 + cv(nn):
                self.store(st, 'i%d' % e[0], self.padd(st, d, o - o0), IV.const(e[0], e[1]))
        return
    if isinstance(s, PS):
        sr = Function('srow', L.StrS, ArraySort(I, I))
        if not any(a[2] == 'srow' for a in L.AXIOMS):
            S, j = Const('S', L.StrS), Int('j')
            L.axiom('srow', ['srow'], ForAll([S, j], sr(S)[j] == If(And(0 <= j, j < L.slen(S)), L.sbyte(S, j), 0), patterns=[sr(S)[j]]))
        r = L.copyrow('i8')(self.row(st, 'i8', d.obj), d.off, sr(s.s), s.off, nn)
        self.oblige(st, "memory-safe copy of string", Implies(nn > 0, And(s.off >= 0, s.off + nn <= L.slen(s.s) + 1)), 'memory')
        self.setrow(st, 'i8', d.obj, r, frame=False)
        return
    raise VerifUnsupported("memcpy %r <- %r" % (d, s))


def memset(self, st, d, v, n):
    if isinstance(d, PA):
        nn = n.cval()
        st.bg[d.id] = list(st.bg.get(d.id, [])) + [(d.off, nn, st.copy(), PZ())]
        for (i, o) in list(st.cells):
            if i == d.id and d.off <= o < d.off + nn:
                del st.cells[(i, o)]
        return
    if not isinstance(d, PB):
        raise VerifUnsupported("memset %r" % (d,))
    nn = n.u
    o, f = d.obj, d.off
    if isc(o) and cv(o) < 0:
        c = And(f >= 0, f + nn <= self.localsize[-cv(o)])
    else:
        c = And(o != 0, Select(st.g['alive'], o), f >= 0, f + nn <= L.osize(o))
    self.oblige(st, "memory-safe memset", Implies(nn > 0, c), 'memory')
    self.frame(st, 'i8', d.obj, None)
    z = v.isconst() and v.cval() == 0
    for sort in INTSORTS + ('ptr', 'f64'):
        if z:
            val = {'ptr': PtrDT.mkptr(0, 0), 'f64': RealVal(0)}.get(sort, IntVal(0))
        elif sort == 'i8':
            val = v.u
        else:
            if v.isconst() and sort in INTSORTS:
                k = int(sort[1:]) // 8
                val = IntVal(int.from_bytes(bytes([v.cval()]) * k, 'little'))
            else:
                val = fresh('ms', zs(sort))
        self.setrow(st, sort, d.obj, L.fillrow(sort)(self.row(st, sort, d.obj), d.off, nn, val), frame=False)


class PZ(Ptr):
    """zeroed memory"""

    def __init__(self, off=0):
        self.off = off


def tov_any(self, st, sort):
    return self.tov(st, sort, fresh('hv', zs(sort)))


Exec.step = step
Exec.unwind = unwind
Exec.tov_any = tov_any
_load0, _padd0 = Exec.load, Exec.padd


def load(self, st, sort, p, check=True):
    if isinstance(p, PZ):
        if sort == 'ptr':
            return NULL
        if sort == 'f64':
            return RealVal(0)
        if sort in INTSORTS:
            return IV.const(int(sort[1:]), 0)
        raise VerifUnsupported("zeroed %r" % (sort,))
    v = _load0(self, st, sort, p, check)
    if z3.is_expr(v) and (isinstance(sort, tuple) or sort in L.BASE):
        for f in L.bounds(sort, v):
            st.assume(f)
    return v


def padd(self, st, p, k):
    if isinstance(p, PZ):
        return p
    return _padd0(self, st, p, k)


Exec.load, Exec.padd = load, padd
