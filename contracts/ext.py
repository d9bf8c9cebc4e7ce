"""Assumed contracts of the C library, ICU, iconv and the C++ runtime (listed as trusted in the evidence)."""
import z3
from z3 import *
import cxx
import logic as L
from logic import VerifUnsupported, zs, fresh, I, PtrDT, ROWI
import vc
from vc import *
import steps
from steps import INTSORTS, memcpy, memset

NEW, NEWARR, MALLOC, ICONV, MAPPING, FILE_ = 1, 2, 3, 5, 6, 7


def install(lib):
    E = lib.exact

    def ex(*names):
        def d(f):
            for n in names:
                E[n] = f
            return f
        return d

    @ex('_Znwm')
    def op_new(X, st, a, ins):
        return X.alloc(st, a[0].u, NEW)

    @ex('_Znam')
    def op_newarr(X, st, a, ins):
        return X.alloc(st, a[0].u, NEWARR)

    @ex('_ZdlPv', '_ZdlPvm')
    def op_delete(X, st, a, ins):
        X.dealloc(st, a[0], NEW)

    @ex('_ZdaPv', '_ZdaPvm')
    def op_deletearr(X, st, a, ins):
        X.dealloc(st, a[0], NEWARR)

    @ex('malloc')
    def malloc(X, st, a, ins):
        return X.alloc(st, a[0].u, MALLOC)

    @ex('calloc')
    def calloc(X, st, a, ins):
        n = a[0].u * a[1].u
        p = X.alloc(st, n, MALLOC)
        for s in INTSORTS:
            X.setrow(st, s, p.obj, L.fillrow(s)(X.row(st, s, p.obj), IntVal(0), n, IntVal(0)))
        return p

    @ex('free')
    def free(X, st, a, ins):
        X.dealloc(st, a[0], MALLOC)

    def cstr_ok(X, st, p, what):
        if isinstance(p, PB):
            S = L.cstr(X.row(st, 'i8', p.obj), p.off)
            X.oblige(st, "%s: the text is a terminated string in its memory" % what,
                     And(p.obj != 0, Select(st.g['alive'], p.obj), p.off >= 0, L.ends(X.row(st, 'i8', p.obj), p.off), p.off + L.slen(S) + 1 <= L.osize(p.obj)), 'memory')
            return S
        return X.cstrof(st, p)
    lib.cstr_ok = cstr_ok

    @ex('strlen')
    def strlen(X, st, a, ins):
        S = cstr_ok(X, st, a[0], 'strlen')
        t = L.slen(S)
        X.assume_range(st, 32, t)
        return IV(64, u=t)

    @ex('strcmp')
    def strcmp(X, st, a, ins):
        S, T = cstr_ok(X, st, a[0], 'strcmp'), cstr_ok(X, st, a[1], 'strcmp')
        r = fresh('cmp', I)
        X.assume_range(st, 32, r)
        st.assume((r == 0) == (S == T))
        return IV(32, u=r)

    @ex('strdup')
    def strdup(X, st, a, ins):
        S = cstr_ok(X, st, a[0], 'strdup')
        p = X.alloc(st, L.slen(S) + 1, MALLOC)
        st.assume(And(L.ends(X.row(st, 'i8', p.obj), IntVal(0)), L.cstr(X.row(st, 'i8', p.obj), IntVal(0)) == S))
        return p

    @ex('memcpy', 'memmove')
    def cmemcpy(X, st, a, ins):
        memcpy(X, st, a[0], a[1], a[2])
        return a[0]

    @ex('memset')
    def cmemset(X, st, a, ins):
        memset(X, st, a[0], a[1], a[2])
        return a[0]

    @ex('iconv_open')
    def iconv_open(X, st, a, ins):
        to, frm = X.cstrof(st, a[0]), X.cstrof(st, a[1])
        u8 = L.strlit(b'UTF-8')
        inv = {v.get_id(): k for k, v in L.LIT.items()}
        tn, fn_ = inv.get(to.get_id()), inv.get(frm.get_id())
        outs = []
        s2 = st.copy()
        s2.assume(L.noconv)
        outs.append((s2, PB(0, -1), None))
        st.assume(Not(L.noconv))
        if tn == b'UTF-8' and fn_ and fn_.startswith(b'UTF-16'):
            d = 8
        elif fn_ == b'UTF-8' and tn and tn.startswith(b'UTF-16'):
            d = 16
        else:
            raise VerifUnsupported("iconv_open(%s, %s)" % (tn, fn_))
        p = X.alloc(st, IntVal(d), ICONV)
        outs.append((st, p, None))
        return outs

    @ex('iconv_close')
    def iconv_close(X, st, a, ins):
        X.dealloc(st, a[0], ICONV)
        return IV.const(32, 0)

    @ex('iconv')
    def iconv(X, st, a, ins):
        ic, pin, pinb, pout, poutb = a
        X.oblige(st, "iconv on an open converter", And(ic.obj != 0, Select(st.g['alive'], ic.obj), L.akind(ic.obj) == ICONV), 'memory')
        if X.quick(st, L.osize(ic.obj) == 16):
            d = 16
        elif X.quick(st, L.osize(ic.obj) == 8):
            d = 8
        else:
            raise VerifUnsupported("iconv direction")
        inp, inb = X.load(st, 'ptr', pin), X.load(st, 'i64', pinb)
        outp, outb = X.load(st, 'ptr', pout), X.load(st, 'i64', poutb)
        nin = inb.u
        osz = L.osize(outp.obj)
        X.oblige(st, "iconv writes inside its buffer", Implies(outb.u > 0, And(outp.obj != 0, Select(st.g['alive'], outp.obj), outp.off >= 0,
                                                           outp.off + outb.u <= osz)), 'memory')
        X.frame(st, 'i8', outp.obj, None)
        outs = []
        if d == 16:
            S = cstr_ok(X, st, inp, 'iconv') if not isinstance(inp, PB) else L.cstr(X.row(st, 'i8', inp.obj), inp.off)
            if isinstance(inp, PB):
                X.oblige(st, "iconv reads the whole text", And(Select(st.g['alive'], inp.obj), nin == L.slen(S), inp.off + nin <= L.osize(inp.obj)), 'memory')
            okc = And(L.utf8ok(S), outb.u >= 2 * L.u16len(S))
            n = 2 * L.u16len(S)
        else:
            W = L.mkw(X.row(st, 'i16', inp.obj), inp.off, nin / 2)
            X.oblige(st, "iconv reads existing letters", Implies(nin > 0, And(inp.obj != 0, Select(st.g['alive'], inp.obj), inp.off >= 0, inp.off + nin <= L.osize(inp.obj), nin % 2 == 0)), 'memory')
            S = L.utf8(W)
            okc = And(L.convertible(W), outb.u >= L.slen(S))
            n = L.slen(S)
        for okk in (True, False):
            s2 = st.copy()
            c = okc if okk else Not(okc)
            if not X.feasible(s2, c):
                continue
            s2.assume(c)
            m = n if okk else fresh('written', I)
            s2.assume(And(m >= 0, m <= outb.u))
            for srt in INTSORTS:
                old = X.row(s2, srt, outp.obj)
                new = fresh('conv_' + srt, ROWI)
                k = fresh('k', I)
                w = int(srt[1:]) // 8
                s2.assume(ForAll([k], Implies(Or(k + w <= outp.off, k >= outp.off + m), Select(new, k) == Select(old, k)), patterns=[Select(new, k)]))
                if okk and srt == 'i16' and d == 16:
                    i = fresh('i', I)
                    s2.assume(ForAll([i], Implies(And(0 <= i, i < L.u16len(S)), Select(new, outp.off + 2 * i) == L.u16at(S, i)),
                                     patterns=[L.u16at(S, i), Select(new, outp.off + 2 * i)]))
                if okk and srt == 'i8' and d == 8:
                    i = fresh('i', I)
                    s2.assume(ForAll([i], Implies(And(0 <= i, i < L.slen(S)), Select(new, outp.off + i) == L.sbyte(S, i)),
                                     patterns=[L.sbyte(S, i), Select(new, outp.off + i)]))
                X.setrow(s2, srt, outp.obj, new, frame=False)
            left = IntVal(0) if okk else fresh('left', I)
            X.store(s2, 'i64', pinb, IV(64, u=left))
            s2.assume(And(left >= 0, left <= nin))
            X.store(s2, 'i64', poutb, IV(64, u=outb.u - m))
            X.store(s2, 'ptr', pout, PB(outp.obj, outp.off + m))
            X.store(s2, 'ptr', pin, X.padd(s2, inp, nin - left))
            if okk:
                r = fresh('nonrev', I)
                s2.assume(And(r >= 0, r < 2**62))
                outs.append((s2, IV(64, u=r), None))
            else:
                outs.append((s2, IV.const(64, 2**64 - 1), None))
        return outs

    def tolower(X, st, a, ins):
        t = L.low(a[0].u)
        st.assume(And(t >= 0, t < 65536))
        return IV(32, u=t)
    for v in ('', ) + tuple('_%d' % k for k in range(50, 100)):
        E['u_tolower' + v] = tolower

    @ex('__assert_fail')
    def assert_fail(X, st, a, ins):
        X.oblige(st, "assertion in the code holds", BoolVal(False), 'memory')
        return 'end'

    @ex('exit', 'abort', '_ZSt9terminatev', '__clang_call_terminate', '_ZSt17__throw_bad_allocv', '_ZSt20__throw_length_errorPKc')
    def noret(X, st, a, ins):
        X.oblige(st, "the process is not ended", BoolVal(False), 'memory')
        return 'end'

    @ex('_ZSt28__throw_bad_array_new_lengthv', '__cxa_throw_bad_array_new_length')
    def badlen(X, st, a, ins):
        return [(st, None, PX(0, 'std::bad_alloc'))]

    @ex('fprintf', 'printf', 'puts', 'fputs', 'fwrite', 'fflush')
    def fprintf(X, st, a, ins):
        return X.freshiv(st, 32, 'printed') if ins.ty.k == 'i' and ins.ty.w == 32 else X.freshiv(st, ins.ty.w, 'printed') if ins.ty.k == 'i' else None

    @ex('__cxa_allocate_exception')
    def alloc_exc(X, st, a, ins):
        return PX(st.ncall)

    @ex('__cxa_free_exception')
    def free_exc(X, st, a, ins):
        return None

    @ex('__cxa_throw')
    def cxa_throw(X, st, a, ins):
        return [(st, None, PX(a[0].id, steps.typename(X, ins.a[1])))]

    @ex('__cxa_begin_catch')
    def begin_catch(X, st, a, ins):
        st.caught = st.caught + [a[0]]
        return a[0]

    @ex('__cxa_end_catch')
    def end_catch(X, st, a, ins):
        st.caught = st.caught[:-1]
        return None

    @ex('__cxa_rethrow')
    def rethrow(X, st, a, ins):
        return [(st, None, st.caught[-1])]

    @ex('gettimeofday')
    def gettimeofday(X, st, a, ins):
        if isinstance(a[0], PA):
            st.cells[(a[0].id, a[0].off)] = ('i64', X.freshiv(st, 64, 'sec'))
            st.cells[(a[0].id, a[0].off + 8)] = ('i64', X.freshiv(st, 64, 'usec'))
        return IV.const(32, 0)

    # ---- temporary files and their mappings: every mapping of a file shows the file
    mapfd, fdof = L.mapfd, L.fdof

    @ex('strerror')
    def strerror(X, st, a, ins):
        return PS(fresh('errortext', L.StrS), IntVal(0))

    @ex('tmpfile')
    def tmpfile(X, st, a, ins):
        s2 = st.copy()
        p = X.alloc(st, fresh('filesize', I), FILE_)
        fd = fdof(p.obj)
        st.assume(And(fd >= 0, fd < 2**31))
        return [(s2, NULL, None), (st, p, None)]

    @ex('fclose')
    def fclose(X, st, a, ins):
        X.oblige(st, "only an open file is closed", And(a[0].obj != 0, Select(st.g['alive'], a[0].obj)), 'release')
        X.dealloc(st, a[0], FILE_)
        return X.freshiv(st, 32, 'closed')

    @ex('fileno')
    def fileno(X, st, a, ins):
        X.oblige(st, "the file is open", And(a[0].obj != 0, a[0].off == 0, Select(st.g['alive'], a[0].obj), L.akind(a[0].obj) == FILE_), 'memory')
        fd = fdof(a[0].obj)
        st.assume(And(fd >= 0, fd < 2**31, L.fileof(fd) == a[0].obj))
        return IV(32, u=fd)

    @ex('ftruncate')
    def ftruncate(X, st, a, ins):
        s2 = st.copy()
        st.g['flen'] = Store(st.g['flen'], a[0].u, a[1].u)
        st.writes.append(('g', 'flen'))
        return [(s2, IV.const(32, 2**32 - 1), None), (st, IV.const(32, 0), None)]

    @ex('mmap')
    def mmap(X, st, a, ins):
        n, fd = a[1].u, a[4].u
        s2 = st.copy()
        X.oblige(st, "the mapping is inside the file", And(n > 0, a[5].u == 0, n <= Select(st.g['flen'], fd)), 'memory')
        nx, al = st.g['next'], L.nm(st.g['alive'])
        p = X.alloc(st, n, MAPPING)
        st.assume(mapfd(p.obj) == fd)
        if not (a[2].isconst() and a[2].cval() == 3):
            raise VerifUnsupported("a mapping that is not for reading and writing")
        if a[3].isconst() and a[3].cval() == 1:
            q, k, q2 = fresh('mq', I), fresh('mk', I), fresh('mr', I)
            never = ForAll([q], Implies(And(L.fileof(fd) < q, q < nx), mapfd(q) != fd), patterns=[mapfd(q)])
            for s in INTSORTS:
                r = fresh('mapped_' + s, ROWI)
                M = L.nm(X.memarr(st, s))
                st.assume(ForAll([q2, k], Implies(And(Select(al, q2), L.akind(q2) == MAPPING, mapfd(q2) == fd, 0 <= k, k + int(s[1:]) // 8 <= L.osize(q2)), Select(r, k) == Select(Select(M, q2), k)),
                                 patterns=[MultiPattern(mapfd(q2), Select(r, k)), MultiPattern(mapfd(q2), Select(Select(M, q2), k))]))
                # (a new file is all zeros)
                st.assume(Or(Not(never), L.fileof(fd) < X.next0, ForAll([k], Select(r, k) == 0, patterns=[Select(r, k)])))
                X.setrow(st, s, p.obj, r, frame=False)
        return [(s2, PB(0, -1), None), (st, p, None)]

    @ex('munmap')
    def munmap(X, st, a, ins):
        # (a refused munmap leaves the mapping as it is)
        s2 = st.copy()
        X.oblige(st, "the whole mapping is released", L.osize(a[0].obj) == a[1].u, 'release')
        X.dealloc(st, a[0], MAPPING)
        if ins.res is None or not X.used(ins.res):
            return IV.const(32, 0)      # (failure not looked at: munmap of a whole mapping is assumed to succeed)
        return [(s2, IV.const(32, 2**32 - 1), None), (st, IV.const(32, 0), None)]

    @ex('madvise')
    def madvise(X, st, a, ins):
        X.oblige(st, "advice on a mapping", And(Select(st.g['alive'], a[0].obj), L.akind(a[0].obj) == MAPPING), 'memory')
        return X.freshiv(st, 32, 'advised')

    @ex('__errno_location')
    def errno_loc(X, st, a, ins):
        X.nalloca += 1
        return PA(X.nalloca, 0)
