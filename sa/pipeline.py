"""Abstract interpretation of the whole tool, from main to the emitted text, on skeleton translation units.

main is interpreted; clang::tooling::ClangTool::run is modelled by its contract (for every file an action is
created and started, and if it starts, its AST consumer handles the translation unit; the result is 1 iff some
file has errors).  The mutation objects created by the visitor are opaque: applying one uses no id or a positive,
symbolic number of ids."""
import clangmodel as M
import engine as E
import explore
import gen
import stdmodel
import visit
from engine import (T, Term, Lin, Cell, Obj, Vec, Ptr, NULL, Opt, TStr, rv, hashable, base_type, strip_targs, truth, add,
                    Unsupported, tstr)
from visit import VisitConfig

TOOL = 'clang::tooling::ClangTool'


class PipeConfig(VisitConfig):
    open_sizes = True       # containers stand for arbitrarily large ones
    locs = True
    distinct = True     # are the texts of mutator functions pairwise different?

    # files: list of scenarios (skeleton translation units), one per source file.

    def __init__(self, prog, files, cxx, flags, assert_mode='assume', names=None, spell=None, facts=None):
        VisitConfig.__init__(self, prog, files[0], cxx, flags, assert_mode)
        self.files = files
        self.names = names or ['file%d' % i for i in range(len(files))]
        self.spell = spell or self.names
        self.fixed = facts or {}
        self.cur = None
        self.setup = self.prepare_all

    def prepare_all(self, _):
        for s in self.files:
            self.s = s
            self.prepare(_)
        self.cur = None
        self.diag = []
        self.applied = 0
        self.vobj = None
        E.C.facts.update(self.fixed)
        if self.cxx is not None:
            E.C.facts[T('lang', 'CPlusPlus')] = bool(self.cxx)

    # ------------------------------------------------------------ the tool
    def ext_ctor(self, prog, info, cls, kind, vals):
        s = strip_targs(cls or '')
        if s in ('clang::ChainedDiagnosticConsumer',) and kind not in ('copy', 'move'):
            for v in vals:
                self.note_diag(v)
            return T('C:' + s)
        if s == 'llvm::SmallString':
            return TStr(()) if not vals else stdmodel.to_str(vals[0])
        return VisitConfig.ext_ctor(self, prog, info, cls, kind, vals)

    def note_diag(self, v):
        v = rv(v)
        while isinstance(v, Ptr):
            v = v.c.v
        if isinstance(v, Obj) and self.prog.is_subclass(v.cls, 'clang::DiagnosticConsumer') and \
                all(x is not v for x in self.diag):
            self.diag.append(v)

    def m_toString(self, prog, info, v, a, o):
        # APSInt::toString(buffer, radix), APInt::toString(buffer, radix, signed)
        if len(a) < 2 or not isinstance(a[0], Cell) or not isinstance(v, Term) or 'SmallVectorImpl' not in (info.get('ps') or [''])[0]:
            return NotImplemented
        old = rv(a[0])
        signed = rv(a[2]) if len(a) > 2 else True
        t = T('digits', v, hashable(rv(a[1]))) if signed is True or signed == 1 else T('.getZExtValue', v)
        a[0].v = TStr((old.p if isinstance(old, TStr) else ()) + (t,))
        return None

    def m_setDiagnosticConsumer(self, prog, info, v, a, o):
        self.note_diag(a[0])
        E.C.effect('setdiag')
        return None

    def error(self, i):
        return T('errors', i)

    def virtual(self, obj, name, args):
        cls = obj.cls
        key = None
        todo = [cls]
        while todo and key is None:
            c = todo.pop(0)
            for k, f in self.prog.fns.items():
                if f.get('cls') == c and f['qn'].split('::')[-1] == name and f.get('b') is not None and \
                        len(f['p']) == len(args):
                    key = k
                    break
            todo += list(self.prog.bases.get(c, ()))
        if key is None:
            return None, False
        return self.prog.invoke(key, Cell(obj), args), True

    def obj_of(self, v):
        v = rv(v)
        while isinstance(v, Ptr):
            v = v.c.v
        return v

    def m_run(self, prog, info, v, a, o):
        if TOOL not in (info.get('qn') or ''):
            return NotImplemented
        factory = self.obj_of(a[0])
        if not isinstance(factory, Obj):
            raise Unsupported('the action factory is %r' % (factory,))
        E.C.effect('run')
        failed = False
        for i, s in enumerate(self.files):
            self.cur, self.s = i, s
            self.vecs = {}
            E.C.effect('file', i)
            act, ok = self.virtual(factory, 'create', [])
            act = self.obj_of(act)
            if not ok or not isinstance(act, Obj):
                raise Unsupported('create() of the action factory')
            self.act = act
            r, ok = self.virtual(act, 'BeginInvocation', [Cell(T('CI'))])
            if ok and not truth(rv(r)):
                E.C.effect('skipped', i)
                continue
            E.C.effect('started', i)
            r, ok = self.virtual(act, 'BeginSourceFileAction', [Cell(T('CI'))])
            if ok and not truth(rv(r)):
                E.C.effect('skipped', i)
                continue
            c, ok = self.virtual(act, 'CreateASTConsumer', [Cell(T('CI')), TStr((T('fname', self.spell[i]),))])
            c = self.obj_of(c)
            if not ok or not isinstance(c, Obj):
                raise Unsupported('CreateASTConsumer')
            if truth(self.error(i)):
                failed = True
                for d in self.diag:
                    lv = enumval(prog, 'clang::DiagnosticsEngine::Level', 'Fatal' if truth(T('fatal', i)) else 'Error')
                    self.virtual(d, 'HandleDiagnostic', [lv, Cell(T('diaginfo', i))])
            self.virtual(c, 'HandleTranslationUnit', [Cell(T('AC'))])
            self.virtual(act, 'EndSourceFileAction', [])
            E.C.effect('endfile', i)
        self.cur = None
        E.C.effect('ran', failed)
        return 1 if failed else 0

    def m_hasErrorOccurred(self, prog, info, v, a, o):
        return self.error(self.cur)

    def m_hasUncompilableErrorOccurred(self, prog, info, v, a, o):
        # false when all errors are warnings that are treated as errors
        return truth(self.error(self.cur)) and (E.C.facts.get(T('fatal', self.cur)) is True or truth(T('uncompilable', self.cur)))

    def m_hasUnrecoverableErrorOccurred(self, prog, info, v, a, o):
        return truth(self.error(self.cur)) and (E.C.facts.get(T('fatal', self.cur)) is True or truth(T('unrecoverable', self.cur)))

    def m_hasFatalErrorOccurred(self, prog, info, v, a, o):
        return truth(self.error(self.cur)) and truth(T('fatal', self.cur))

    def m_getNumErrors(self, prog, info, v, a, o):
        if self.cur is not None:
            return 1 if truth(self.error(self.cur)) else 0
        return 1 if any(E.C.facts.get(self.error(i)) for i in range(len(self.files))) else 0

    def name(self):
        return TStr((T('fname', self.spell[self.cur]),))

    def m_getName(self, prog, info, v, a, o):
        if 'FileEntry' in (info.get('qn') or '') and self.cur is not None:
            return self.name()
        return NotImplemented

    def m_tryGetRealPathName(self, prog, info, v, a, o):
        return TStr((T('realpath', self.ident()),))

    def ident(self):
        return self.names[self.cur]

    def base_method(self, prog, info, qn, n, obj, v, vals):
        if n in ('getCurrentFile', 'getCurrentFileOrBufferName') and self.cur is not None:
            return self.name()
        return VisitConfig.base_method(self, prog, info, qn, n, obj, v, vals)

    # ------------------------------------------------------------ array types and their written form
    # TL(d,i): the i-th level of the written type of declaration d; tlty(d,i): that type
    def level(self, d, i):
        ls = getattr(self.s, 'arrays', {}).get(d)
        return None if ls is None else ls[i] if i < len(ls) else 'other'

    def isa(self, n, cls):
        if n.f == 'tlty':
            k = self.level(*n.a)
            exact = {'carr': 'clang::ConstantArrayType', 'iarr': 'clang::IncompleteArrayType',
                     'varr': 'clang::VariableArrayType'}.get(k)
            if exact:
                return self.prog.is_subclass(exact, cls) or cls == exact or cls == 'clang::ArrayType'
        return VisitConfig.isa(self, n, cls)

    def ext_method(self, prog, info, qn, obj, vals):
        v = rv(obj)
        n = info['n']
        if isinstance(v, Term) and v.f == 'TL':
            d, i = v.a
            k = self.level(d, i)
            if n in ('getUnqualifiedLoc', 'IgnoreParens', 'getUnqualifiedLocSlow', 'operator->', 'operator*'):
                return v
            if n in ('getAs', 'castAs', 'getAsAdjusted', 'findExplicitQualifierLoc'):
                cls = base_type((info.get('ta') or [''])[0]).split('::')[-1]
                ok = {'ConstantArrayTypeLoc': k == 'carr', 'ArrayTypeLoc': k in ('carr', 'iarr', 'varr'),
                      'IncompleteArrayTypeLoc': k == 'iarr', 'VariableArrayTypeLoc': k == 'varr'}.get(cls)
                if ok is None:
                    raise Unsupported('TypeLoc::getAs<%s>' % cls)
                return v if ok else T('TLnull')
            if n in ('operator bool',):
                return True
            if n == 'isNull':
                return False
            if n == 'getSizeExpr':
                return T('size_expr', d, i)
            if n in ('getElementLoc', 'getNextTypeLoc', 'getPointeeLoc'):
                return T('TL', d, i + 1)
            if n in ('getType', 'getTypePtr', 'getInnerType'):
                return T('tlty', d, i)
        if isinstance(v, Term) and v.f == 'TLnull':
            if n in ('operator bool', 'isNull'):
                return n == 'isNull'
        if isinstance(v, Term) and n == 'getTypeLoc' and v.f == '.getTypeSourceInfo' and self.level(v.a[0], 0) is not None:
            return T('TL', v.a[0], 0)
        if n in ('getSize', 'getElementType') and isinstance(v, Term):
            t = v
            while isinstance(t, Term) and (t.f.startswith('as<') or t.f in ('canon', 'unqual')):
                t = t.a[0]
            if isinstance(t, Term) and (t.f == 'tlty' or (t.f == 'ty' and self.level(t.a[0], 0) is not None)):
                d, i = t.a if t.f == 'tlty' else (t.a[0], 0)
                return T('asize', d, i) if n == 'getSize' else T('tlty', d, i + 1)
        return VisitConfig.ext_method(self, prog, info, qn, obj, vals)

    def truth_of(self, t):
        return {'TL': True, 'TLnull': False}.get(t.f)

    def m_getTranslationUnitDecl(self, prog, info, v, a, o):
        return T('TU')

    def m_getCompilations(self, prog, info, v, a, o):
        return T('compilations')

    # ------------------------------------------------------------ visitor
    def rav(self, prog, info, n, obj, v, vals):
        if isinstance(v, Obj):
            self.obj = v
        return VisitConfig.rav(self, prog, info, n, obj, v, vals)

    # ------------------------------------------------------------ applying a mutation
    def m_Apply(self, prog, info, v, a, o):
        if not v.f.startswith('C:dredd::'):
            return NotImplemented
        ps = info.get('ps') or []
        idc = first = None
        decls = None
        rw = None
        for x, p in zip(a, ps):
            b = base_type(p)
            if b == 'int' and p.rstrip().endswith('&') and 'const' not in p:
                idc = x
            elif b == 'int':
                first = rv(x)
            elif strip_targs(b) in ('std::unordered_set', 'std::set', 'std::vector'):
                decls = rv(x)
            elif b == 'clang::Rewriter':
                rw = rv(x)
        if type(idc) is not Cell:
            raise Unsupported('the id counter is not passed by reference')
        k = self.applied
        self.applied += 1
        before = idc.v
        grp = Obj('dredd::protobufs::MutationGroup')
        n = 0
        if truth(T('has_mutants', self.cur, k)):
            n = T('N', self.cur, k)
            idc.v = add(before, n)
            grp.f['grp'] = Cell(T('group', self.cur, k))
            if isinstance(decls, Vec):
                d = TStr((T('decl', self.cur, k),))
                stdmodel.seq_insert(decls, d)
                E.C.effect('insert', d, decls.kind)
        else:
            grp.f['grp'] = Cell(T('nogroup', self.cur, k))
        opts = [self.obj_of(x) for x, p in zip(a, ps) if base_type(p) == 'dredd::Options']
        E.C.effect('apply', self.cur, k, v, hashable(first), hashable(before), hashable(n),
                   opts[0] if opts else None, E.C.line)
        return grp

    def sign(self, d):
        r = VisitConfig.sign(self, d)
        if r is not None:
            return r
        l = E.as_lin(d)
        if l is None:
            return None
        c, m = l
        if all(isinstance(t, Term) and t.f == 'N' for t in m):
            if c >= 0 and all(x > 0 for x in m.values()):
                return 1
            if c <= 0 and all(x < 0 for x in m.values()):
                return -1
        return None

    def equal_int(self, a, b):
        d = add(a, b, -1) if E.as_lin(a) is not None and E.as_lin(b) is not None else None
        if d is not None:
            if isinstance(d, int):
                return d == 0
            r = self.sign(d)
            if r is not None and r != 0:
                return False
        return VisitConfig.equal_int(self, a, b)

    def null(self, v):
        if v.f in ('C:clang::tooling::ClangTool', 'TU', 'FE'):
            return False
        return VisitConfig.null(self, v)

    def str_empty(self, s):
        if len(s.p) == 1 and isinstance(s.p[0], Term) and s.p[0].f in ('fname', 'realpath'):
            return False
        return VisitConfig.str_empty(self, s)

    def invalid(self, x):
        if isinstance(x, Term) and (x.f == '.getMainFileID' or repr(x) == 'SM.translateLineCol(SM.getMainFileID,1,1)'):
            return False
        return VisitConfig.invalid(self, x)

    def theory(self, t):
        if t.f == 'bool' and isinstance(t.a[0], Term) and t.a[0].f in ('TL', 'TLnull'):
            return t.a[0].f == 'TL'
        if t.f == 'bool' and isinstance(t.a[0], Term) and t.a[0].f == 'ec':
            return t.a[0].a[0] == 1
        if t.f == '.isEmpty' and isinstance(t.a[0], Term) and t.a[0].f == '.getCurrentInput':
            return False
        if t.f == 'eq':
            a, b = t.a
            if E.as_lin(a) is not None and E.as_lin(b) is not None and (isinstance(a, Lin) or isinstance(b, Lin) or
                                                                        'N' in (getattr(a, 'f', 0), getattr(b, 'f', 0))):
                d = add(a, b, -1)
                if isinstance(d, int):
                    return d == 0
                r = self.sign(d)
                if r is not None:
                    return r == 0
            r = self.same_file(a, b)
            if r is not None:
                return r
        return VisitConfig.theory(self, t)

    def same_file(self, a, b):
        if isinstance(a, TStr) and len(a.p) == 1:
            a = a.p[0]
        if isinstance(b, TStr) and len(b.p) == 1:
            b = b.p[0]
        if isinstance(a, Term) and isinstance(b, Term) and a.f == b.f == 'realpath':
            return a.a[0] == b.a[0]
        if isinstance(a, Term) and isinstance(b, Term) and a.f == b.f == 'fname':
            return a.a[0] == b.a[0]
        if isinstance(a, Term) and isinstance(b, Term) and {a.f, b.f} == {'fname', 'realpath'}:
            f, r = (a, b) if a.f == 'fname' else (b, a)
            of = [self.names[i] for i, s in enumerate(self.spell) if s == f.a[0]]
            if of and of[0] != r.a[0]:
                return False        # the real path of another file
        if isinstance(a, Term) and isinstance(b, Term) and a.f == b.f == 'decl' and self.distinct:
            return a is b
        return None


def enumval(prog, enum, name):
    for n, v in prog.p['enums'].get(enum) or []:
        if n.split('::')[-1] == name:
            return int(v)
    raise Unsupported('enumerator %s::%s' % (enum, name))


def hooks(cf):
    def real_path(prog, info, qn, vals):
        if qn == 'llvm::toString' and len(vals) >= 2 and isinstance(rv(vals[0]), Term):
            x, r = rv(vals[0]), rv(vals[1])
            if x.f == 'apsint' and isinstance(x.a[0], int) and r == 10:
                return E.tstr(str(x.a[0]))
            return TStr((T('digits', x, r),))
        if qn == 'llvm::sys::fs::real_path':
            f = stdmodel.to_str(vals[0])
            out = vals[1]
            if truth(T('norealpath', cf.ident())):
                return T('ec', 1)
            out.v = TStr((T('realpath', cf.ident()),))
            return T('ec', 0)
        return NotImplemented
    return (real_path,)


def main_key(P):
    for k, f in P.fns.items():
        if f['qn'] == 'main' and f.get('b') is not None:
            return k
    import build
    raise build.AnalysisError('main not found')


def run_main(P, cf):
    k = main_key(P)
    cf.ext_hooks = hooks(cf)
    P.rec_bound = 40

    def go():
        args = [T('argc'), T('argv')][:len(P.fns[k]['p'])]
        r = P.invoke(k, None, args)
        return {'status': rv(r)}
    return go
