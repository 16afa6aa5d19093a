"""Commit and abort of transactions; the consistency rules (P01, P03)."""
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V, MODIFY, COPY
from .tx import ceffs, cfacts, is_err, code, modify_ops, OPS, MODEL, copy_model

VALID = V + 'FeatureModelConsistencyChecker'


def valid_fns(ck):
    f = [fn for fn in ck.fx.fns.values() if fn.get('body') is not None and
         short(fn['q']) == VALID + '::isFeatureModelValid']
    if not f:
        raise Undecided('no consistency checker')
    return f


def commit_paths(ck, cls):
    fn = ck.fn(cls + '::commit')
    en = Engine(ck.fx, opaque=[f['q'] for f in valid_fns(ck)], join=False, mark_loops='ret')
    return fn, ck.paths(fn, eng=en)


def validity(facts, m):
    """value of 'model m is valid' on a path"""
    for a, v in facts.items():
        t = a[1] if a[0] in ('nn', 'ok') else a
        if t and t[0] == 'ok':
            t = t[1]
        if t and t[0] == 'call' and last(t[1]) == 'isFeatureModelValid':
            return v if unk(t[3][0]) == m else None
    return None


def gates(ps):
    """fields of the transaction that must be set for a commit to succeed"""
    g = None
    for p in ps:
        if p.kind == 'ret' and p.ret[0] == 'Ok':
            s = {a[1] for a, v in p.facts.items()
                 if a[0] == 'nn' and v and a[1][0] == 'fld' and a[1][1] == THIS}
            g = s if g is None else g & s
    return g or set()


@rule('P01', 'commit-gated', 'Every path of commit that reports success has '
      'passed the consistency check of the committed model after the last '
      'modification.')
def commit_gated(ck):
    for mode, cls in (('copy', COPY), ('modify', MODIFY)):
        fn, ps = commit_paths(ck, cls)
        n = 0
        for p in ps:
            if p.kind != 'ret' or p.ret[0] != 'Ok':
                continue
            n += 1
            fs = {unk(a): v for a, v in p.facts.items()}
            if mode == 'copy':
                m = unk(p.ret[1])
                if not mentions(m, lambda t: t == THIS):
                    ck.bad('commit (copy)', 'returned model is %s' % show(m), fn)
                    continue
                v = validity(fs, m)
            else:
                ms = {unk(t[3][0]) for a in fs for t in walk(a)
                      if t and t[0] == 'call' and last(t[1]) == 'isFeatureModelValid'}
                ex = {unk(e.args[0]) for e in p.events
                      if e.kind == 'call' and last(e.q) == 'exec'}
                if ex and ms and ex != ms:
                    ck.bad('commit (modify)', 'another model is checked than modified', fn)
                    continue
                v = any(validity(fs, m) for m in ms)
                # the check comes last
                idx = [i for i, e in enumerate(p.events) if e.kind == 'call' and
                       last(e.q) == 'isFeatureModelValid']
                exi = [i for i, e in enumerate(p.events) if e.kind == 'call' and
                       last(e.q) == 'exec']
                if v and idx and exi and max(exi) > min(idx):
                    ck.bad('commit (modify)', 'modifications are executed after '
                           'the consistency check', p.events[max(exi)])
                    continue
            ck.req(v is True, 'commit (%s)' % mode, 'success is reported on a path '
                   'that does not depend on the consistency check', fn)
        if not n:
            ck.bad('commit (%s)' % mode, 'commit never succeeds', fn)


@rule('P01', 'consistency-rules', 'A model passes the check only if its root '
      'is the only root feature, every other feature has a parent feature, and '
      'every parent lists the feature among its children.')
def consistency(ck):
    R = roles(ck)
    R.need('root', 'features', 'parent')
    for v in valid_fns(ck):
        checks = {}
        for fn in ck.fx.fns.values():
            if fn.get('body') is not None and fn['q'].startswith(V) and \
                    len(fn['params']) == 1 and fn['rt'] == 'bool' and \
                    'FeatureModel' in fn['params'][0]['t'] and fn.get('cls') and \
                    fn['key'] != v['key']:
                checks[fn['q']] = fn
        en = Engine(ck.fx, opaque=list(checks), join=False)
        ps = ck.paths(v, eng=en)
        ok = [p for p in ps if p.kind == 'ret' and p.ret[0] == 'Ok']
        if not ok:
            ck.bad('isFeatureModelValid', 'no model is accepted', v)
            return
        conj = None
        M = ('param', 0, v['params'][0]['n'])
        for p in ok:
            s = {t[1] for a, b in p.facts.items() if b for t in [a[1] if a[0] == 'nn' else a]
                 if t[0] == 'call' and t[1] in checks and unk(t[3][0]) == M}
            conj = s if conj is None else conj & s
        got = {'root': None, 'parent': None, 'child': None}
        why = {}
        F = ('fld', M, R.of['features'])
        el = ('elem', F)
        par = ('fld', el, R.of['parent'])
        for q in sorted(conj):
            fn = checks[q]
            M1 = ('param', 0, fn['params'][0]['n'])
            sub = lambda t: M if t == M1 else tuple(sub(x) if isinstance(x, tuple) else x
                                                    for x in t)
            pp = ck.paths(fn, join=False)
            acc, rej = [], []
            for p in pp:
                if p.kind != 'ret':
                    continue
                if p.ret == TRUE:
                    acc.append({sub(unk(a)): b for a, b in p.facts.items()})
                elif p.ret == FALSE:
                    rej.append({sub(unk(a)): b for a, b in p.facts.items()})
                else:
                    raise Undecided('%s returns %s' % (q, show(p.ret)))
            # exactly one root
            root = ('fld', M, R.of['root'])
            isr = [a for p in acc for a in p if a[0] == 'isa' and
                   a[1].endswith('RootFeature') and a[2] == root]
            cnt = [a for p in acc + rej for a in p if a[0] in ('eq', 'lt') and
                   mentions(a, lambda t: t[0] == 'isa' and t[1].endswith('RootFeature')
                            and t[2] == el) or a[0] == 'eq' and mentions(
                                a, lambda t: t[0] in ('count', 'count_if', 'accumulate'))]
            if isr or cnt:
                good = all(p.get(('isa', isr[0][1], root)) is True for p in acc) if isr else False
                one = lambda a: a[0] == 'eq' and ('int', 1) in (a[1], a[2])
                g2 = cnt and all(any(one(a) and p.get(a) is True for a in cnt) or
                                 p.get(('empty', F)) is True for p in acc)
                if cnt and good and g2:
                    got['root'] = True
                elif got['root'] is None:
                    got['root'] = False
                    why['root'] = 'root: %s, number of roots: %s' % (
                        'checked' if good else 'not checked',
                        'checked' if g2 else 'not restricted to one')
                    if good and not cnt and any(mentions(a, lambda t: t == el)
                                                for p in acc + rej for a in p):
                        raise Undecided('number of roots counted by an unknown idiom')
            # per-feature conditions
            ne = [p for p in acc if p.get(('empty', F)) is False and
                  not any(a[0] == 'isa' and a[1].endswith('RootFeature') and
                          a[2] == el and b for a, b in p.items())]
            ps2 = [p for p in acc + rej if p.get(('empty', F)) is False]
            if not ps2:
                continue
            edge = lambda p: any(b and (
                (a[0] == 'eq' and {a[1], a[2]} == {('elem', ('edges', par)), el}) or
                (a[0] == 'contains' and a[1] == ('edges', par) and a[2] == el))
                for a, b in p.items())
            anyedge = any(mentions(a, lambda t: t == ('edges', par))
                          for p in ps2 for a in p)
            hasp = lambda p: any(b and (
                (a[0] == 'nn' and a[1] == par) or
                (a[0] == 'isa' and mentions(a[2], lambda t: t == par)))
                for a, b in p.items())
            noneg = any(p.get(('nn', par)) is False for p in rej)
            if anyedge:
                g = bool(ne) and all(edge(p) for p in ne)
                got['child'] = got['child'] or g
                if not g:
                    why['child'] = '%s accepts features their parent does not list' % q
            elif any(mentions(a, lambda t: t == par) for p in ps2 for a in p):
                g = all(hasp(p) for p in ne) and noneg
                got['parent'] = got['parent'] or g
                if not g:
                    why['parent'] = '%s accepts features without parent' % q
        names = {'root': 'exactly one root', 'parent': 'every feature has a parent',
                 'child': 'parents list their children'}
        for k, v2 in got.items():
            if v2 is True:
                ck.good(names[k])
            elif v2 is False:
                ck.bad(names[k], why.get(k, ''), v)
            else:
                ck.bad(names[k], 'no rule of the consistency check establishes this', v)


@rule('P03', 'open', 'A transaction that was just opened can be committed.')
def opened(ck):
    for mode, cls in (('copy', COPY), ('modify', MODIFY)):
        fn, ps = commit_paths(ck, cls)
        G = gates(ps)
        cs = [f for f in ck.fx.fns.values() if f.get('ctor') and f.get('body') is not None and
              len(f['params']) == 1 and 'FeatureModel &' in f['params'][0]['t'] and
              f.get('cls') == fn.get('cls')]
        if not G or not cs:
            ck.undec('open (%s)' % mode, 'constructors of transactions')
            continue
        for f in cs:
            for p in ck.paths(f, join=False, opaque=[V + 'FeatureModel::clone']):
                for g in sorted(G):
                    v = p.heap.get(g)
                    while v and v[0] in ('list', 'some') and v[1] and \
                            isinstance(v[1][0], tuple) and len(v[1]) == 1:
                        v = v[1][0]
                    site = 'open (%s)' % mode
                    if v is None:
                        ck.undec(site, 'initial state')
                    else:
                        ck.req(v not in (FALSE, NULL) and v[0] not in ('list',), site,
                               'a new transaction counts as committed or aborted (%s is %s)' % (
                                   last(g[2]), show(v)), f)


@rule('P03', 'deferred', 'An edit of a modify transaction does nothing but '
      'append one modification; the model is untouched until commit.')
def deferred(ck):
    for op in OPS:
        try:
            ms = modify_ops(ck, op)
        except Undecided as u:
            ck.undec(op, str(u))
            continue
        for fn, p, news in ms:
            if effects(ck, p):
                ck.bad(op, 'the model is changed before commit: %r' % effects(ck, p)[0], fn)
                continue
            adds = [e for e in p.events if e.kind == 'call' and e.obj is not None and
                    e.obj[0] == 'fld' and e.obj[1] == THIS and last(e.q) in ADD | DEL]
            if len(adds) != 1 or len(news) != 1:
                ck.bad(op, '%d modifications are recorded' % len(news), fn)
                continue
            e = adds[0]
            if last(e.q) in ('push_back', 'emplace_back'):
                ck.good(op)
            elif last(e.q) in ('push_front', 'insert', 'emplace'):
                at = e.args[0] if e.args else VOID
                if at[0] == 'iter':
                    ck.bad(op, 'the modification is not recorded at the end', e)
                elif at[0] == 'end':
                    ck.good(op)
                else:
                    ck.undec(op, 'recorded with %s' % last(e.q))
            else:
                ck.undec(op, 'recorded with %s' % last(e.q))


@rule('P03', 'commit-applies', 'Commit executes every recorded modification in '
      'order on the model, stops at the first error and returns that error; '
      'aborted or committed transactions do nothing.')
def applies(ck):
    fn, ps = commit_paths(ck, MODIFY)
    G = gates(ps)
    if not G:
        ck.bad('commit (modify)', 'commit is not guarded by the state of the transaction', fn)
        return
    nerr = nok = nab = 0
    for c, e in cut_short([p for p in ps if p.kind == 'ret' and not is_err(p.ret)]):
        ck.bad('commit (modify)', 'not all recorded modifications are executed', e)
    adds = set()
    for op in OPS:
        try:
            for _, p, _ in modify_ops(ck, op):
                adds |= {e.obj for e in p.events if e.kind == 'call' and e.obj and
                         e.obj[0] == 'fld' and e.obj[1] == THIS and last(e.q) in ADD}
        except Undecided:
            pass
    if len(adds) != 1:
        raise Undecided('recorded modifications: %s' % [show(a) for a in adds])
    mods = adds.pop()
    for p in ps:
        if p.kind != 'ret':
            continue
        ex = [e for e in p.events if e.kind == 'call' and last(e.q) == 'exec']
        gate = all(p.facts.get(('nn', g)) is True for g in G)
        if not gate:
            nab += 1
            if ex:
                ck.bad('commit (modify)', 'modifications run in a finished transaction', ex[0])
            elif not is_err(p.ret):
                ck.bad('commit (modify)', 'finished transaction reports success', fn)
            elif code(p.ret) not in ('ABORTED', None):
                ck.bad('commit (modify)', 'finished transaction reports %s' % code(p.ret), fn)
            else:
                ck.good('commit (modify): finished')
            continue
        em = p.facts.get(('empty', mods))
        if em is None and not ex:
            ck.bad('commit (modify)', 'recorded modifications are not executed', fn)
            continue
        if em is False and not ex:
            ck.bad('commit (modify)', 'recorded modifications are not executed', fn)
            continue
        for e in ex:
            if len(e.loops) != 1 or unk(e.loops[0]) != mods or unk(e.obj) != ('elem', mods):
                if e.loops and mentions(e.loops[0], lambda t: t == mods):
                    if e.loops[0][0] in ('rev', 'reverse') or 'rev' in show(e.loops[0]):
                        ck.bad('commit (modify)', 'modifications are executed in '
                               'another order (%s)' % show(e.loops[0]), e)
                        continue
                raise Undecided('executed in loop %s' % [show(l) for l in e.loops])
            okf = [v for a, v in p.facts.items() if a[0] == 'nn' and a[1][0] == 'ok' and
                   a[1][1][0] == 'call' and last(a[1][1][1]) == 'exec']
            if not okf and is_err(p.ret) is False and p.ret[0] == 'Ok':
                ck.bad('commit (modify)', 'failure of a modification is ignored', e)
                continue
            if okf and okf[0] is False:
                nerr += 1
                good = p.ret[0] == 'call' and last(p.ret[1]) == 'exec' or (
                    is_err(p.ret) and mentions(p.ret, lambda t: t[0] == 'call' and
                                               last(t[1]) == 'exec'))
                ck.req(good, 'commit (modify): first error',
                       'error of a modification is answered with %s' % show(p.ret), e)
            else:
                nok += 1
                ck.good('commit (modify): in order')
        fin = any(p.heap.get(g) in (NULL, FALSE) for g in G)
        ck.req(fin, 'commit (modify): finished afterwards',
               'the modifications can be committed a second time', fn)
    if nok and not nerr:
        ck.bad('commit (modify)', 'commit goes on after a failing modification', fn)
    for mode, cls in (('modify', MODIFY), ('copy', COPY)):
        fn, ps = commit_paths(ck, cls)
        G = gates(ps)
        af = ck.fn(cls + '::abort')
        for p in ck.paths(af, join=False):
            ck.req(any(p.heap.get(g) in (NULL, FALSE) for g in G),
                   'abort (%s)' % mode, 'an aborted transaction can still be committed', af)
    fn, ps = commit_paths(ck, COPY)
    G = gates(ps)
    for p in ps:
        if p.kind == 'ret' and not all(p.facts.get(('nn', g)) is True for g in G):
            ck.req(is_err(p.ret), 'commit (copy): finished',
                   'finished transaction returns a model', fn)


@rule('P02', 'copy-owns-clone', 'A copy transaction works on a clone of the '
      'given model, never on the model itself.')
def clone_owned(ck):
    from .tx import _cache
    m = None
    for fn in ck.fns(COPY + '::FeatureModelTransaction'):
        if not fn['params'] or 'FeatureModelTransaction' in fn['params'][0]['t']:
            continue
        en = Engine(ck.fx, opaque=[V + 'FeatureModel::clone'])
        for p in ck.paths(fn, eng=en):
            ini = [e for e in p.events if e.kind == 'init' and e.args and
                   mentions(e.args[0], lambda t: t[0] == 'param')]
            if not ini:
                raise Undecided('constructor does not use the given model')
            for e in ini:
                a = e.args[0]
                ck.req(a[0] == 'call' and short(a[1]) == V + 'FeatureModel::clone' and
                       a[2][0] == 'param', 'openTransaction (copy)',
                       'the transaction stores %s' % show(a), fn)


@rule('P02', 'copy-isolated', 'In a copy transaction every object that is '
      'changed, and every node that is linked into the model, belongs to the '
      'copy (looked up in it, created, or handed over by the caller).')
def isolated(ck):
    from .tx import op_paths
    R = roles(ck)
    M = unk(copy_model(ck))

    def mine(t, owned):
        if t == M or t[0] in ('new', 'model'):
            return True
        if t[0] in ('feat',):
            return t[1] == M
        if t[0] == 'fld':
            if t[2] == R.of.get('root'):
                return t[1] == M
            return mine(t[1], owned)
        if t[0] == 'elem':
            c = t[1]
            if c[0] == 'kids':
                return mine(c[2], owned)
            if c[0] == 'edges':
                return mine(c[1], owned)
            return mine(c, owned)
        if t[0] in ('mapent', 'at', 'mapval', 'found', 'back'):
            return mine(t[1], owned)
        if t[0] == 'cast':
            return mine(t[2], owned)
        if t[0] == 'edges':
            return mine(t[1], owned)
        if t[0] == 'param':
            return t[1] in owned
        if t[0] == 'call' and t[2]:
            return mine(t[2], owned)
        return None
    for op in OPS:
        try:
            ps = op_paths(ck, 'copy', op)
        except Undecided as u:
            ck.undec(op, str(u))
            continue
        errs, n = {}, 0
        for _, _, fn, p in ps:
            owned = {i for i, q in enumerate(fn['params'])
                     if 'unique_ptr' in q['t']}
            for e in ceffs(ck, p):
                objs = [e.obj]
                if e.kind in ('edge+', 'edge-', 'parent=', 'cfeature=', 'root=', 'fcons+'):
                    if e.val not in (NULL, VOID):
                        objs.append(e.val)
                for t in objs:
                    n += 1
                    r = mine(t, owned)
                    if r is False or (r is None and mentions(t, lambda y: y[0] == 'param')
                                      and t[0] in ('get', 'param', 'fld')):
                        errs.setdefault('%s: %s is not part of the copy' % (
                            e.kind, show(t)), e.ev)
        if errs:
            for m, ev in sorted(errs.items()):
                ck.bad(op, m, ev)
        elif n:
            ck.good(op, '%d objects' % n)
        else:
            ck.undec(op, 'no effects found')
