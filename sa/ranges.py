"""Analysis of the functions that trace a source range to the main file."""
import build
import clangmodel as M
import explore
import gen
import gendb
from engine import T, Term
from report import Finding, rel

R = T('R')
MAIN = 'SM.getMainFileID'


def subterms(t):
    if isinstance(t, Term):
        yield t
        for a in t.a:
            yield from subterms(a)


def facts_of(p):
    return {t: v for t, v in p.facts.items() if isinstance(t, Term)}


def api(t):
    """(name, argument) of a query of the source manager or preprocessor, or of a location."""
    if not isinstance(t, Term):
        return None, None
    if t.f.startswith('.') and t.a and isinstance(t.a[0], Term) and t.a[0].f in ('SM', 'PP') and not t.a[0].a:
        return t.a[0].f + t.f, t.a[1] if len(t.a) > 1 else None
    return t.f, t.a[0] if t.a else None


KNOWN = ('eq', 'invalid', 'isnull', 'null')


def in_main(loc, fs):
    """True: known to be text of the main file; False: no fact says so; None: facts of an unknown kind."""
    unknown = False
    file_main = written = fileid = False
    for t, v in fs.items():
        if loc not in set(subterms(t)):
            continue
        if t.f == 'eq' and any(api(a)[0] == 'SM.getMainFileID' for a in t.a):
            o = [a for a in t.a if api(a)[0] != 'SM.getMainFileID']
            if o and api(o[0])[0] == 'SM.getFileID' and api(o[0])[1] is loc:
                file_main |= v
                if not v:
                    file_main = False
                continue
            continue
        n, x = api(t)
        if n == 'SM.isWrittenInMainFile' and x is loc:
            written |= v
        elif n == '.isMacroID' and x is loc:
            fileid |= not v
        elif n == '.isFileID' and x is loc:
            fileid |= v
        elif n in ('SM.isWrittenInScratchSpace', 'PP.isAtStartOfMacroExpansion', 'PP.isAtEndOfMacroExpansion',
                     'SM.isMacroBodyExpansion', 'SM.isMacroArgExpansion', 'SM.isInMainFile') or t.f in KNOWN:
            pass
        elif v:
            unknown = True
    if file_main or (written and fileid):
        return True
    return None if unknown else False


def endpoint(loc, side, fs):
    """'' if fine, a message, or None if it cannot be decided."""
    own = T('.getBegin' if side == 0 else '.getEnd', R)
    what = 'beginning' if side == 0 else 'end'
    want = 'PP.isAtStartOfMacroExpansion' if side == 0 else 'PP.isAtEndOfMacroExpansion'
    if not isinstance(loc, Term):
        return None
    if loc.f in ('.getBegin', '.getEnd') and loc.a[0] is R:
        if loc is not own:
            return 'the %s of the result is the other end of the range' % what
        r = in_main(loc, fs)
        return {True: '', None: None, False: 'the %s of the range is accepted without being text of the main file' %
                what}[r]
    if loc.f == 'out' and api(loc.a[0])[0] in ('PP.isAtStartOfMacroExpansion',
                                                                        'PP.isAtEndOfMacroExpansion'):
        q = loc.a[0]
        qn, qx = api(q)
        if qn != want:
            return 'the %s of the range is traced with %s' % (what, qn[3:])
        if qx is not own:
            return None
        if fs.get(q) is not True:
            return 'a macro expansion is accepted as the %s of a range although the location is in the middle of it' % what
        scratch = [v for t, v in fs.items() if api(t)[0] == 'SM.isWrittenInScratchSpace' and own in set(subterms(t))]
        if not scratch or any(scratch):
            return 'text made by token pasting is accepted as the %s of a range' % what
        r = in_main(loc, fs)
        return {True: '', None: None,
                False: 'a macro expansion that need not be in the main file is accepted as the %s of a range' % what}[r]
    return None


def check(rep, complete=False):
    P = gendb.program(build.export())
    ks = [k for k, v in P.opaque.items() if v == 'MR']
    if not ks:
        raise build.AnalysisError('no function that traces a range to the main file was found')
    for k in ks:
        del P.opaque[k]
    for k in ks:
        f = P.fns[k]
        cf = M.Config(P, True, {}, None, 'assume')
        where = '%s:%s' % (rel(f.get('file') or '?'), f.get('line') or f['qn'])

        def go():
            args = [R if 'SourceRange' in p['t'] else gen.sym_arg(cf, p['t'], None) for p in f['p']]
            return P.invoke(k, None, args)
        st = {'n': 0, 'und': 0}

        def on(p):
            if p.status != 'ok':
                st['und'] += 1
                return
            fs = facts_of(p)
            r = p.result
            from engine import rv
            r = rv(r)
            st['n'] += 1
            log = ', '.join('%s=%s' % (t, v) for t, v in fs.items())[:900]
            if isinstance(r, Term) and r.f == 'SR0':
                if complete:
                    both = all(in_main(T(e, R), fs) is True and fs.get(T('invalid', T(e, R))) is not True
                               for e in ('.getBegin', '.getEnd'))
                    if both:
                        rep.add(Finding('range in the main file rejected', where, 'range-in-main-file',
                                        'a range of the main file is not recognised as such', log))
                return
            if r is R:
                b, e = T('.getBegin', R), T('.getEnd', R)
            elif isinstance(r, Term) and r.f == 'SR':
                b, e = r.a
            else:
                st['und'] += 1
                return
            if isinstance(b, Term) and fs.get(T('invalid', b)) is True or isinstance(e, Term) and fs.get(T('invalid', e)) is True:
                return
            for loc, side in ((b, 0), (e, 1)):
                m = endpoint(loc, side, fs)
                if m is None:
                    st['und'] += 1
                elif m and not complete:
                    rep.add(Finding(m, where, 'range-in-main-file', m, log))
        explore.explore(cf, go, limit=20000, on_path=on)
        rep.count('range_partitions', st['n'])
        if st['und']:
            rep.count('range_partitions_undecided', st['und'])
        if not st['n']:
            raise build.AnalysisError('the function that traces a range to the main file could not be analysed')
