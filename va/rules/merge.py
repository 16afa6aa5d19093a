"""Merging of models (P09)."""
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V, COPY
from .clone import kinds_left, kind_field, KINDS, BY_KIND, WHAT, strip_copy, unvar
from .reader import fx_reach
from .writer import nodes

MERGE = V + 'mergeFeatureModels'
GPF = V + 'Feature::getParentFeature'
CLONE = V + 'FeatureModel::clone'
TEXT = [V + 'FeatureSourceRange::toString',
        V + 'FeatureSourceRange::FeatureSourceLocation::toString',
        V + 'Feature::toString']
SAME = V + 'FeatureSourceRange::operator=='
COMMIT = COPY + '::commit'


def subtree_unit(ck, fn):
    """the function that merges a feature and, recursively, those below it"""
    for g in fx_reach(ck, fn).values():
        if not any('Transaction' in p['t'] for p in g['params']):
            continue
        for n in nodes(g.get('body') or {}):
            h = n.get('fn')
            if isinstance(h, dict) and h.get('id') == g['id']:
                return g
    raise Undecided('no recursive function merges the features')


def binding(ck, g):
    """indices of transaction, model, feature, strictness"""
    ix = {}
    for i, p in enumerate(g['params']):
        t = p['t'].replace('const', '').replace('&', '').replace('*', '').strip()
        k = 'T' if 'Transaction' in t else 'M' if last(t) == 'FeatureModel' else \
            'F' if last(t) == 'Feature' else 'S' if t == 'bool' else None
        if k is None or k in ix:
            raise Undecided('parameters of %s' % g['q'])
        ix[k] = i
    if not {'T', 'M', 'F', 'S'} <= set(ix):
        raise Undecided('parameters of %s' % g['q'])
    return ix


@rule('P09', 'merge', 'Merging works on a copy of the first model, merges all '
      'features of the second one starting at its root, and returns the '
      'committed copy, or nothing if a feature cannot be merged or the commit fails.')
def merge(ck):
    fn = ck.fn(MERGE)
    u = subtree_unit(ck, fn)
    ix = binding(ck, u)
    R = roles(ck)
    ms = [i for i, p in enumerate(fn['params']) if 'FeatureModel' in p['t']]
    st = [i for i, p in enumerate(fn['params']) if p['t'] == 'bool']
    if len(ms) != 2 or len(st) != 1:
        raise Undecided('parameters of %s' % fn['q'])
    P = [('param', i, fn['params'][i]['n']) for i in range(len(fn['params']))]
    FM1, FM2, S = P[ms[0]], P[ms[1]], P[st[0]]
    ps = ck.paths(fn, join=False, opaque=[u['q'], COMMIT, CLONE])
    some = False
    for p in ps:
        if p.kind != 'ret':
            continue
        for e in effects(ck, p):
            if not mentions(e.obj, lambda t: t[0] == 'new' and 'Transaction' in t[1]):
                ck.bad('inputs', 'an input model is changed (%s)' % e.kind, e.ev)
        call = [e for e in p.events if e.kind == 'call' and short(e.q) == short(u['q'])]
        if p.ret == NULL:
            # a reason
            why = [a for a, v in p.facts.items() if v is False and a[0] in ('nn', 'ok')
                   and mentions(a, lambda t: t[0] == 'call' and
                                (short(t[1]) == short(u['q']) or last(t[1]) == 'commit'))]
            ck.req(why, 'rejection', 'no model although merging succeeds', fn)
            continue
        some = True
        if not call:
            ck.bad('features', 'a model is returned without merging the features', fn)
            continue
        a = call[0].args
        done = [v for f, v in p.facts.items() if f[0] == 'nn' and f[1][0] == 'call' and
                short(f[1][1]) == short(u['q'])]
        ck.req(done and all(done), 'failed merge', 'a model is returned although a feature '
               'could not be merged', call[0])
        ck.req(a[ix['F']] == ('fld', FM2, R.f('root', FM2)[2]), 'features',
               'merging starts at %s' % show(a[ix['F']]), call[0])
        ck.req(a[ix['M']] == FM1 or a[ix['M']][0] == 'fld', 'base',
               'features are compared with %s' % show(a[ix['M']]), call[0])
        ck.req(a[ix['S']] == S, 'strictness', 'passed as %s' % show(a[ix['S']]), call[0])
        t = a[ix['T']]
        ck.req(t[0] == 'new' and t[2][:1] == (FM1,), 'base copy',
               'the transaction edits %s' % show(t), call[0])
        r = p.ret
        ck.req(r[0] == 'val' and r[1][0] == 'call' and last(r[1][1]) == 'commit' and
               r[1][2] == t, 'result', 'the returned model is %s' % show(r), fn)
        ok = [v for f, v in p.facts.items() if f[0] == 'nn' and f[1][0] == 'ok' and
              f[1][1] == r[1]]
        ck.req(bool(ok) and all(ok), 'failed commit', 'the result of a failed commit is used', fn)
    ck.need(some, 'no path returns a model')


@rule('P09', 'subtree', 'A feature that both models have is merged only if its '
      'properties agree, and gets exactly the locations it lacks; one that only the '
      'second model has is added below the same parent with all attributes; the '
      'features below it are merged alike; a failure is passed on. Nothing is '
      'rejected without a difference.')
def subtree(ck):
    R = roles(ck)
    R.need('features', 'fname', 'fopt', 'flocs', 'fout', 'values', 'step', 'parent')
    u = subtree_unit(ck, ck.fn(MERGE))
    ix = binding(ck, u)
    P = [('param', i, p['n']) for i, p in enumerate(u['params'])]
    T, M, F, S = (P[ix[k]] for k in 'TMFS')
    en = Engine(ck.fx, join=False, max_paths=20000, mark_loops='ret', opaque=[GPF, COMMIT, SAME] + TEXT)
    ps = ck.paths(u, eng=en)
    kf = kind_field(ck)
    O = ('feat', M, ('name', F))                 # its counterpart
    NF = ('name', F)
    nfound = nmiss = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        fs = {}
        imp = False
        for a, v in p.facts.items():
            c = unk(canon(ck, a))
            if a[0] == 'ok' or fs.get(c, v) != v:
                imp = True
            fs[c] = v
        if imp:
            continue
        ret = p.ret in (TRUE, ('lit', True)) if p.ret in (TRUE, FALSE) else None
        if ret is None:
            # returns the result of the recursion, or a comparison
            if p.ret[0] == 'call' and short(p.ret[1]) == short(u['q']):
                ret = True
            else:
                ck.undec('-', 'result %s' % show(p.ret), u)
                continue
        feats = ('fld', M, R.of['features'])
        has = fs.get(('contains', feats, NF))
        nn = fs.get(('nn', O))
        found = nn if nn is not None else has
        if has is False:
            found = False
        if has and nn is False:
            continue                              # not in a map of features
        if found is None:
            ck.undec('-', 'no look-up of the feature', u)
            continue
        rec = [e for e in p.events if e.kind == 'call' and short(e.q) == short(u['q'])]
        recf = [v for a, v in fs.items() if a[0] == 'nn' and a[1][0] == 'call' and
                short(a[1][1]) == short(u['q'])]
        effs, raw = effects(ck, p), {}
        for e in effs:
            raw[id(e)] = e.val
            e.obj, e.val = unk(canon(ck, e.obj)), unk(canon(ck, e.val))
        # nothing but the copy
        for e in effs:
            if not mentions(e.obj, lambda t: t == T or t[0] == 'new'):
                ck.bad('inputs', 'an input model is changed: %s of %s' %
                       (e.kind, show(e.obj)), e.ev)

        def eq(x, y):
            for a, v in fs.items():
                if a[0] == 'eq' and (a[1:3] == (x, y) or a[1:3] == (y, x)):
                    return v
            if x == y:
                return True
            return None
        opt = eq(('fld', F, R.of['fopt']), ('fld', O, R.of['fopt']))
        if opt is None:
            b = [fs.get(('nn', ('fld', x, R.of['fopt']))) for x in (F, O)]
            opt = (b[0] == b[1]) if None not in b else None
        kind = eq(('fld', F, kf), ('fld', O, kf))
        kF, kO = kinds_left(fs, F, kf), kinds_left(fs, O, kf)
        if kind is True:
            kF = kO = kF & kO
        if not kF or not kO and has:
            continue
        if kind is None and len(kF) == 1 and kF == kO:
            kind = True
        if kind is None and not kF & kO:
            kind = False
        isroot = lambda k: k == {'FK_ROOT'}
        root = isroot(kF) or isroot(kO)

        # parents: by name
        def par_of(t, x):
            return mentions(t, lambda s: s[0] == 'call' and short(s[1]) == GPF and s[2] == x) \
                or mentions(t, lambda s: s == ('fld', x, R.of['parent']))
        par = pk = None
        for a, v in fs.items():
            if a[0] != 'eq':
                continue
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if par_of(x, F) and par_of(y, O) and not par_of(x, O):
                    if mentions(x, lambda s: s[0] == 'name') and \
                            mentions(y, lambda s: s[0] == 'name'):
                        par = v
                    elif mentions(x, lambda s: s[0] == 'fld' and last(s[2]) == 'Kind'):
                        pk = v
        vals = eq(('fld', F, R.of['values']), ('fld', O, R.of['values']))
        strict = fs.get(('nn', S))
        if found:
            nfound += 1
            agree = [('parent', par if not root else True)]
            if strict is not False:
                agree += [('optionality', opt), ('kind', kind)]
                if not root:
                    agree += [('kind of parent', pk)]
                    if 'FK_NUMERIC' in kF & kO:
                        agree += [('values', vals)]
            if ret:
                for what, v in agree:
                    ck.req(v is True, 'conflict: ' + what, 'two features are merged although '
                           'their %s was not found to agree' % what, u)
        else:
            nmiss += 1
        if not ret:
            why = any(recf) is False and bool(recf) or recf and not all(recf)
            if found:
                diff = [v for _, v in agree] + [eq(NF, ('name', O))]
                if strict is not False and root:
                    diff += [kind]
                if strict is not False and 'FK_UNKNOWN' in kF | kO and kF <= {'FK_UNKNOWN'}:
                    diff += [False]
                # a comparison of the values failed because one has none
                why = why or any(v is False for v in diff)
            else:
                why = why or 'FK_UNKNOWN' in kF or not kF
            ck.req(why, 'spurious conflict', 'rejected although nothing differs: %s' %
                   ', '.join(('' if v else 'not ') + show(a)[:60] for a, v in fs.items()
                             if a[0] in ('eq', 'isa', 'nn'))[:900], u)
            continue
        # locations
        L = ('fld', F, R.of['flocs'])
        copies = lambda t: t[0] == 'feat' and t[1] != M and mentions(t[1], lambda s: s == T) \
            and t[2] in (NF, ('name', O))
        adds = [e for e in effs if e.kind == 'flocs+']
        if found:
            if fs.get(('empty', L)) is None:
                ck.bad('locations', 'the locations of a feature of both models are not merged', u)
            elif fs.get(('empty', L)) is False:
                it = [e for e in p.events if e.kind in ('iter', 'lret', 'brk') and
                      unk(canon(ck, e.args[0])) == L]
                for e in it:
                    ck.req(e.kind == 'iter', 'all locations', 'not every location is merged', e)
                have = [v for a, v in fs.items() if a[0] == 'contains' and
                        a[1][0] == 'fld' and a[1][2] == R.of['flocs'] and a[1][1] != F and
                        a[2] == ('elem', L)]
                el = lambda t: t == ('elem', L)
                oth = lambda t: t[0] == 'elem' and t[1][0] == 'fld' and \
                    t[1][2] == R.of['flocs'] and t[1][1] != F
                for a, v in fs.items():
                    if a[0] == 'eq' and (el(a[1]) and oth(a[2]) or el(a[2]) and oth(a[1])):
                        have.append(v)
                    elif a[0] == 'nn' and a[1][0] == 'call' and short(a[1][1]) == SAME:
                        ab = (a[1][2],) + tuple(a[1][3]) if a[1][2] else tuple(a[1][3])
                        if any(map(el, ab)) and any(map(oth, ab)):
                            have.append(v)
                    elif a[0] == 'empty' and v and a[1][0] == 'fld' and \
                            a[1][2] == R.of['flocs'] and a[1][1] != F:
                        have.append(False)
                own = [a for a, v in fs.items() if a[0] == 'contains' and a[1] == L]
                gone = [a for a, v in fs.items() if v is False and a[0] in ('contains', 'nn')
                        and (a[0] == 'contains' and a[1][0] == 'fld' and
                             a[1][2] == R.of['features'] and a[1][1] != M or
                             a[0] == 'nn' and copies(a[1]) or
                             a[0] == 'nn' and a[1][0] == 'fld' and a[1][1] == T)]
                if gone:
                    continue                     # not in the copy: contradiction
                good = [e for e in adds if copies(e.obj) and e.val == ('elem', L)]
                if True in have:
                    ck.req(not adds, 'known location', 'a location is added twice', u)
                elif False in have:
                    ck.req(bool(good) and len(adds) == 1, 'new location',
                           'a location that only the second model has is not added to the '
                           'feature', u)
                elif own or not good:
                    ck.bad('new location', 'a location that only the second model has is '
                           'not added to the feature', u)
                else:
                    ck.bad('known location', 'a location may be added twice', u)
        else:
            new = [e for e in effs if e.kind == 'feat+']
            gone = [a for a, v in fs.items() if v is False and a[0] in ('nn', 'contains')
                    and mentions(a, lambda s: s == T)]
            if not new:
                # the copy has no such parent, or has the feature already
                if gone or [a for a, v in fs.items() if v and a[0] == 'contains' and
                            mentions(a[1], lambda s: s == T) and a[2] == NF] or \
                        isroot(kF):
                    continue
                ck.bad('new feature', 'a feature of the second model is not added', u)
                continue
            ck.req(len(new) == 1 and mentions(new[0].obj, lambda s: s == T), 'new feature',
                   'added to %s' % show(new[0].obj), new[0].ev)
            n = raw[id(new[0])]
            ks = kF
            for k in sorted(ks):
                site = 'new feature (%s)' % k
                if n[0] != 'new' or n[1] != KINDS[k]:
                    ck.bad(site, 'copied as %s' % show(n)[:80], new[0].ev)
                    continue
                ck.good(site)
                for role in BY_KIND[k]:
                    g = en.field_of_new(n, R.of[role])
                    g = strip_copy(unvar(unk(g))) if g else None
                    want = ('fld', F, R.of[role])
                    ck.req(g == want, '%s %s' % (site, WHAT[role]), 'the %s of the copy is %s'
                           % (WHAT[role], show(g) if g else 'not set'), new[0].ev)
                if k == 'FK_NUMERIC':
                    sf = ('fld', F, R.of['step'])
                    g = en.field_of_new(n, R.of['step'])
                    g = unk(g) if g else NULL
                    h = fs.get(('nn', sf))
                    if h is False:
                        ck.req(g == NULL, site + ' step', 'step function invented', new[0].ev)
                    elif g in (NULL, sf):
                        ck.bad(site + ' step', 'the step function is dropped or shared',
                               new[0].ev)
                    else:
                        ck.req(mentions(g, lambda s: s == sf), site + ' step',
                               'the step function is %s' % show(g), new[0].ev)
            pa = [e for e in effs if e.kind == 'parent=' and e.obj[0] == 'new']
            if isroot(ks):
                continue
            orphan = [a for a, v in fs.items() if a[0] == 'nn' and v is False and
                      a[1][0] == 'call' and short(a[1][1]) == GPF and a[1][2] == F]
            for e in () if orphan else pa:
                v = e.val
                ck.req(v[0] == 'feat' and mentions(v[1], lambda s: s == T) and
                       v[2][0] == 'name' and v[2][1] in (('call', GPF, F, ()),
                                                         ('fld', F, R.of['parent'])) or
                       v[0] == 'feat' and mentions(v[1], lambda s: s == T) and
                       v[2][0] == 'name' and v[2][1][0] == 'call' and
                       short(v[2][1][1]) == GPF and v[2][1][2] == F,
                       'parent of new feature', 'put below %s' % show(v), e.ev)
            if not pa and not gone:
                ck.bad('parent of new feature', 'not put below any feature', u)
        # features below
        kids = [a for a in fs if a[0] == 'empty' and a[1][0] == 'kids' and a[1][2] == F]
        if not kids:
            ck.bad('features below', 'the features below a feature are not merged', u)
            continue
        if fs[kids[0]]:
            continue
        K = kids[0][1]
        ck.req(last(K[1]) == 'Feature' and (len(K) < 4 or K[3] != ('int', 0)),
               'features below', 'only %s are merged' % show(K), u)
        ok = [e for e in rec if unk(e.args[ix['F']]) == ('elem', K)]
        if not ok:
            ck.bad('features below', 'the features below a feature are not merged', u)
            continue
        e = ok[0]
        ck.req(e.args[ix['T']] == T and e.args[ix['M']] == M and e.args[ix['S']] == S,
               'arguments below', 'merged with %s' % ', '.join(show(x) for x in e.args), e)
        ck.req(recf and all(recf), 'failure below', 'a conflict below a feature is ignored', e)
        for e in p.events:
            if e.kind in ('lret', 'brk') and unk(e.args[0]) == K:
                ck.bad('all features below', 'not every feature below a feature is merged', e)
    ck.need(nfound and nmiss, 'features are not looked up')
