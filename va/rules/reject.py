"""Impossible edits are rejected before anything changes (P05); what removal
of features and relationships leaves behind (P06)."""
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V, MODIFY, COPY
from .tx import (op_paths, ceffs, cfacts, is_err, code, denotes, OPS,
                 known_nonnull, infeasible, MODEL, copy_model)

# parameter that names an existing node -> error code when it does not exist
NODES = {
    'addFeature': {1: ('MISSING_PARENT',)},
    'removeFeature': {0: ('MISSING_FEATURE',)},
    'addRelationship': {1: ('MISSING_PARENT',)},
    'removeRelationship': {0: ('MISSING_PARENT', 'MISSING_FEATURE')},
    'addLocation': {0: ('MISSING_FEATURE',)},
    'removeLocation': {0: ('MISSING_FEATURE',)},
    'addChild': {0: ('MISSING_PARENT',), 1: ('MISSING_CHILD',)},
}
KEYS = {'addFeature': 0, 'setRoot': 0}


def missing(R, M, fs, pi, op, mode):
    """do the facts of the path say that the node named by parameter pi does
    not exist?"""
    feats = ('fld', M, R.of['features'])
    for a, v in fs.items():
        if v is not False:
            continue
        if a[0] == 'nn' and denotes(a[1], pi):
            if op == 'addFeature' and a[1][0] == 'param':
                continue        # no parent given
            return a
        if a[0] == 'isa' and a[1].endswith('FeatureTreeNode') and denotes(a[2], pi):
            return a
        if a[0] == 'contains' and a[1] == feats:
            k = a[2]
            if k[0] == 'get' and k[2][0] == 'param' and k[2][1] == pi:
                return a
            if k[0] == 'name' and denotes(k[1], pi):
                return a
            if k[0] == 'param' and k[1] == pi:
                return a
    return None


def known_child(fs):
    """is the child of addChild known to exist on the path?"""
    return any(v and a[0] in ('nn', 'isa') and denotes(a[1] if a[0] == 'nn' else a[2], 1)
               and (a[1] if a[0] == 'nn' else a[2])[0] != 'get' for a, v in fs.items())


@rule('P05', 'rejected', 'On every path on which a named node does not exist '
      'the edit changes nothing and reports the matching error; every node '
      'that is changed or linked is known to exist on its path.')
def rejected(ck):
    R = roles(ck)
    R.need('features', 'root', 'parent')
    for mode in ('modify', 'copy'):
        for op, prm in NODES.items():
            site = '%s (%s)' % (op, mode)
            try:
                ps = op_paths(ck, mode, op)
            except Undecided as u:
                ck.undec(site, str(u))
                continue
            errs, nrej, nok = {}, 0, 0
            for _, M, fn, p in ps:
                if p.kind != 'ret':
                    continue
                M = unk(M)
                es, fs = ceffs(ck, p), cfacts(ck, p)
                miss = {}
                for pi, codes in prm.items():
                    if op == 'addFeature' and pi == 1 and mode == 'modify':
                        continue
                    if missing(R, M, fs, pi, op, mode):
                        miss[pi] = codes
                if miss:
                    nrej += 1
                    if es:
                        errs.setdefault('the model is changed (%s) although the %s does '
                                        'not exist' % (es[0].kind, fn['params'][min(miss)]['n']),
                                        es[0].ev)
                    if p.ret[0] == 'Ok' or (p.ret == VOID and mode == 'modify'):
                        errs.setdefault('success is reported although %s does not exist'
                                        % fn['params'][min(miss)]['n'], fn)
                    elif is_err(p.ret):
                        allowed = {c for cs in miss.values() for c in cs}
                        if op == 'addChild' and not known_child(fs):
                            allowed.add('MISSING_CHILD')
                        if code(p.ret) and code(p.ret) not in allowed:
                            errs.setdefault('missing %s is reported as %s' % (
                                fn['params'][min(miss)]['n'], code(p.ret)), fn)
                    continue
                if is_err(p.ret) and es and not infeasible(fs):
                    errs.setdefault('an error (%s) is reported after the model has been '
                                    'changed' % code(p.ret), es[0].ev)
                for e in es:
                    for t in (e.obj, e.val):
                        for pi in prm:
                            if t is not None and t[0] in ('feat', 'get', 'param', 'cast') and \
                                    denotes(t, pi) and e.kind not in ('feat+',):
                                nok += 1
                                k = known_nonnull(fs, t)
                                if k is None and t[0] != 'param':
                                    errs.setdefault('%s is used without checking that it '
                                                    'exists' % show(t), e.ev)
            if nrej == 0 and not (op == 'addFeature' and mode == 'modify'):
                errs.setdefault('no path rejects a node that does not exist', fn)
            if errs:
                for m, w in sorted(errs.items()):
                    ck.bad(site, m, w)
            else:
                ck.good(site, '%d rejecting paths, %d uses' % (nrej, nok))


@rule('P05', 'existing-names', 'A feature is only inserted under a name that '
      'is not taken; otherwise the edit reports that it is already present.')
def names(ck):
    R = roles(ck)
    for mode in ('modify', 'copy'):
        for op, pi in KEYS.items():
            site = '%s (%s)' % (op, mode)
            try:
                ps = op_paths(ck, mode, op)
            except Undecided as u:
                ck.undec(site, str(u))
                continue
            errs, n = {}, 0
            for _, M, fn, p in ps:
                if p.kind != 'ret':
                    continue
                es, fs = ceffs(ck, p), cfacts(ck, p)
                if infeasible(fs):
                    continue
                feats = ('fld', unk(M), R.of['features'])
                key = [v for a, v in fs.items() if a[0] == 'contains' and a[1] == feats and
                       a[2][0] == 'name' and a[2][1][0] == 'param' and a[2][1][1] == pi]
                for e in es:
                    if e.kind == 'feat+':
                        n += 1
                        if not key or key[0] is not False:
                            errs.setdefault('a feature is stored without checking that its '
                                            'name is free', e.ev)
                if key and key[0] is True:
                    n += 1
                    if es:
                        errs.setdefault('the model is changed although the name is taken', es[0].ev)
                    if not is_err(p.ret):
                        errs.setdefault('success is reported although the name is taken', fn)
                    elif code(p.ret) not in ('ALREADY_PRESENT', None):
                        errs.setdefault('taken name is reported as %s' % code(p.ret), fn)
            if errs:
                for m, w in sorted(errs.items()):
                    ck.bad(site, m, w)
            elif n:
                ck.good(site)
            else:
                ck.undec(site, 'no insertion found')


@rule('P05', 'tree-guards', 'The root and, unless asked for, features with '
      'children are not removed; nodes are never moved below themselves; a '
      'relationship that does not exist is not removed.')
def guards(ck):
    R = roles(ck)
    for mode in ('modify', 'copy'):
        # removal
        site = 'removeFeature (%s)' % mode
        try:
            errs, n, leaf, rooted = {}, 0, 0, 0
            for _, M, fn, p in op_paths(ck, mode, 'removeFeature'):
                if p.kind != 'ret':
                    continue
                es, fs = ceffs(ck, p), cfacts(ck, p)
                rem = [e for e in es if e.kind == 'feat-' and not e.loops]
                pars = [v for a, v in fs.items() if a[0] == 'nn' and a[1][0] == 'fld' and
                        a[1][2] == R.of['parent'] and denotes(a[1][1], 0)]
                isroot = [v for a, v in fs.items() if
                          (a[0] == 'isa' and a[1].endswith('RootFeature') and denotes(a[2], 0))
                          or (a[0] == 'eq' and any(x[0] == 'fld' and x[2] == R.of['root']
                                                   for x in a[1:]))]
                kids = [v for a, v in fs.items() if a[0] == 'empty' and a[1][0] in (
                    'kids', 'edges') and denotes(a[1][2] if a[1][0] == 'kids' else a[1][1], 0)
                    and not (a[1][0] == 'kids' and a[1][1] == 'Relationship')]
                rec = [v for a, v in fs.items() if a[0] == 'nn' and a[1][0] == 'param' and
                       a[1][1] == 1]
                if rem:
                    n += 1
                    if not (pars and pars[0]) and not (isroot and isroot[0] is False):
                        errs.setdefault('the root can be removed', rem[0].ev)
                if kids and kids[0] is False and rec and rec[0] is False:
                    leaf += 1
                    if es:
                        errs.setdefault('a feature with children is removed although '
                                        'that was not asked for', es[0].ev)
                    if p.ret[0] == 'Ok':
                        errs.setdefault('success is reported for a feature with children', fn)
                    elif is_err(p.ret) and code(p.ret) not in ('NON_LEAF_NODE', None):
                        errs.setdefault('feature with children reported as %s' % code(p.ret), fn)
            if not leaf:
                errs.setdefault('features with children are never rejected', fn)
            report(ck, site, errs, n)
        except Undecided as u:
            ck.undec(site, str(u))
        # cycles
        site = 'addChild (%s)' % mode
        try:
            errs, n, rec = {}, 0, 0
            for _, M, fn, p in op_paths(ck, mode, 'addChild'):
                if p.kind != 'ret':
                    continue
                es, fs = ceffs(ck, p), cfacts(ck, p)
                eqs = [(a, v) for a, v in fs.items() if a[0] == 'eq' and
                       any(denotes(x, 1) for x in a[1:])]
                if is_err(p.ret) and code(p.ret) == 'RECURSIVE_EDGE':
                    rec += 1
                    if es:
                        errs.setdefault('changed before the cycle is reported', es[0].ev)
                if es and not is_err(p.ret):
                    n += 1
                    same_ = [v for a, v in eqs if all(denotes(x, 0) or denotes(x, 1)
                                                      for x in a[1:])]
                    walks = [e for e in p.events if e.loops and e.loops[0][0] == 'while' and
                             mentions(e.res if e.res else VOID, lambda t: t[0] == 'fld' and
                                      t[2] == R.of['parent'])
                             or (e.loops and any(mentions(x, lambda t: t[0] == 'fld' and
                                                          t[2] == R.of['parent'])
                                                 for x in e.args if x))]
                    opq = [a for a in fs if a[0] == 'nn' and a[1][0] in ('call', 'recur')]
                    if not same_ and not opq and not walks:
                        errs.setdefault('a node can be moved below itself', es[0].ev)
                    elif same_ and True in same_:
                        errs.setdefault('a node is moved below itself', es[0].ev)
                    elif not walks and not opq:
                        errs.setdefault('a node can be moved below one of its descendants',
                                        es[0].ev)
            if not rec:
                errs.setdefault('no path reports a recursive edge', fn)
            report(ck, site, errs, n)
        except Undecided as u:
            ck.undec(site, str(u))
        site = 'removeRelationship (%s)' % mode
        try:
            errs, n = {}, 0
            for _, M, fn, p in op_paths(ck, mode, 'removeRelationship'):
                if p.kind != 'ret':
                    continue
                es, fs = ceffs(ck, p), cfacts(ck, p)
                e0 = [v for a, v in fs.items() if a[0] == 'empty' and a[1][0] == 'kids' and
                      a[1][1] == 'Relationship']
                if any(e.kind == 'rel-' for e in es):
                    n += 1
                    if not e0 or e0[0] is not False:
                        errs.setdefault('a relationship is taken from an empty set', es[0].ev)
                if e0 and e0[0] is True:
                    if es or p.ret[0] == 'Ok':
                        errs.setdefault('removing a relationship that does not exist '
                                        'is reported as success', fn)
            report(ck, site, errs, n)
        except Undecided as u:
            ck.undec(site, str(u))


def report(ck, site, errs, n):
    if errs:
        for m, w in sorted(errs.items()):
            ck.bad(site, m, w)
    elif n:
        ck.good(site, '%d paths' % n)
    else:
        ck.undec(site, 'no matching path')


@rule('P05', 'constraint-features', 'A constraint is stored only after every '
      'feature it mentions has been found in the model, and every mention is '
      'then bound to the feature of that model, which learns about it.')
def constraint_features(ck):
    R = roles(ck)
    R.need('fcons', 'cfeature', 'features')
    for mode in ('modify', 'copy'):
        site = 'addConstraint (%s)' % mode
        errs, n = {}, 0
        visitors = {}
        for _, M, fn, p in op_paths(ck, mode, 'addConstraint'):
            if p.kind != 'ret':
                continue
            es, fs = ceffs(ck, p), cfacts(ck, p)
            st = [e for e in es if e.kind in ('bcons+', 'ncons+', 'mcons+')]
            acc = [(i, e) for i, e in enumerate(p.events) if e.kind == 'call' and
                   last(e.q) == 'accept' and e.args and e.args[0][0] == 'new']
            for s in st:
                n += 1
                before = [e for i, e in acc if i < s.i]
                after = [e for i, e in acc if i > s.i]
                if not before:
                    errs.setdefault('the constraint is stored before its features have '
                                    'been looked up', s.ev)
                for e in before:
                    t = ('call', e.q, unk(e.obj), (unk(e.args[0]),))
                    v = [b for a, b in fs.items() if a[0] == 'nn' and a[1][0] == 'call' and
                         last(a[1][1]) == 'accept' and a[1][3] and a[1][3][0][1] == e.args[0][1]]
                    if v and v[0] is False:
                        errs.setdefault('a constraint with missing features is stored', s.ev)
                    elif not v:
                        errs.setdefault('the result of the feature lookup is ignored', s.ev)
                    visitors.setdefault(e.args[0][1], 'check')
                for e in after:
                    visitors.setdefault(e.args[0][1], 'bind')
                if not after and not is_err(p.ret):
                    errs.setdefault('the features of the constraint are not bound', s.ev)
        report(ck, site, errs, n)
        for cls, what in sorted(visitors.items()):
            vs = [f for f in ck.fx.fns.values() if f.get('body') is not None and
                  f['q'] == cls + '::visit' and len(f['params']) == 1 and
                  'PrimaryFeatureConstraint' in f['params'][0]['t']]
            vsite = '%s %s' % (site, what)
            if not vs:
                ck.bad(vsite, '%s does not look at features' % last(cls))
                continue
            for p in ck.paths(vs[0], join=False, opaque=[V + 'FeatureModel::getFeature']):
                if p.kind != 'ret':
                    continue
                lk = [t for a in list(p.facts) for t in walk(a) if t and t[0] == 'call' and
                      short(t[1]) == V + 'FeatureModel::getFeature'] + \
                    [t for t in walk(p.ret) if t and t[0] == 'call' and
                     short(t[1]) == V + 'FeatureModel::getFeature']
                if not lk:
                    ck.bad(vsite, 'features are accepted without being looked up', vs[0])
                    continue
                nn = p.facts.get(('nn', lk[0]))
                es = effects(ck, p)
                if what == 'check':
                    ret = p.ret
                    neg = ret == ('op', '!=', lk[0], NULL) or ret == ('nn', lk[0]) or \
                        (ret in (TRUE, FALSE) and nn is not None and (ret == TRUE) == nn)
                    if not neg and ret in (TRUE, FALSE):
                        ck.bad(vsite, 'a missing feature is accepted', vs[0])
                    elif not neg and ret[0] == 'op' and ret[1] == '==':
                        ck.bad(vsite, 'lookup result is inverted', vs[0])
                    else:
                        ck.good(vsite)
                    continue
                if nn is False:
                    ck.req(not es and p.ret == FALSE, vsite,
                           'a missing feature is bound', vs[0])
                    continue
                c = ('param', 0, vs[0]['params'][0]['n'])
                b = [e for e in es if e.kind == 'cfeature=' and e.obj == c and e.val == lk[0]]
                a = [e for e in es if e.kind == 'fcons+' and e.obj == lk[0] and e.val == c]
                ck.req(len(b) == 1, vsite, 'the constraint keeps a feature of another model', vs[0])
                ck.req(len(a) == 1, vsite, 'the feature does not learn about the constraint', vs[0])
                ck.req(p.ret == TRUE, vsite, 'binding succeeds but reports failure', vs[0])


# ------------------------------------------------------------------ removal
def alias_of(fs, x):
    out = {x}
    for a, v in fs.items():
        if v and a[0] == 'eq' and x in a[1:]:
            out |= set(a[1:])
    return out


@rule('P06', 'feature-erased', 'Removing a feature resets the root reference '
      'when it was the root, removes every constraint over it from each '
      'collection and from the features attached to it, and erases exactly '
      'that feature.')
def erased(ck):
    R = roles(ck)
    R.need('features', 'root', 'fcons', 'bcons', 'ncons', 'mcons', 'fname')
    fn = ck.fn(V + 'FeatureModel::removeFeature')
    F = ('param', 0, fn['params'][0]['n'])
    root = ('fld', THIS, R.of['root'])
    ps = ck.paths(fn, join=False, mark_loops='ret')
    en = ck.last_engine
    n = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        n += 1
        fs = {unk(a): v for a, v in p.facts.items()}
        es = effects(ck, p)
        er = [e for e in es if e.kind == 'feat-']
        ok = [e for e in er if unk(canon(ck, e.val)) in (('name', F), F) or
              unk(canon(ck, e.val)) == ('feat', THIS, ('name', F))]
        if len(er) != 1 or not ok:
            ck.bad('map entry', 'the entry of the removed feature is not erased', fn)
            continue
        if any(e.i > er[0].i and e.kind != 'root=' for e in es):
            ck.bad('map entry', 'the feature is erased before its constraints are dropped', er[0].ev)
        ck.good('map entry')
        isroot = fs.get(('eq', root, F), fs.get(('eq', F, root)))
        rw = [e for e in es if e.kind == 'root=']
        if isroot is None and not rw:
            iskind = [v for a, v in fs.items() if a[0] == 'isa' and a[1].endswith('RootFeature')]
            if not iskind:
                ck.bad('root reference', 'the root reference is kept although the '
                       'feature may be the root', fn)
        elif isroot is True:
            ck.req(len(rw) == 1 and rw[0].val == NULL, 'root reference',
                   'removing the root leaves a dangling root reference', fn)
        elif isroot is False:
            ck.req(not rw, 'root reference', 'removing another feature resets the root', fn)
        # constraints
        fc = ('fld', F, R.of['fcons'])
        if fs.get(('empty', fc)) is True:
            continue
        if any(v and a[0] in ('empty', 'contains') and (a[1][0] in ('ver', 'new') and a[0] == 'empty' or a[1][0] == 'new') for a, v in fs.items()):
            continue      # set of affected constraints empty: infeasible
        for r in ('bcons', 'ncons', 'mcons'):
            d = [e for e in es if e.kind == r + '-']
            C = ('fld', THIS, R.of[r])
            asked = [v for a, v in fs.items() if a[0] == 'contains' and
                     mentions(a[2], lambda t: t == ('elem', C))]
            if asked or fs.get(('empty', C)):
                # decided for each constraint in turn
                if any(e.kind in ('brk', 'lret') and e.args and (
                        unk(e.args[0]) == C or d and e.args[0][0] == 'while' and
                        d[0].i < i < d[0].i + 5) for i, e in enumerate(p.events)):
                    ck.bad('constraints (%s)' % last(R.of[r]), 'only some are looked at', fn)
                elif asked and all(v is not True for v in asked):
                    ck.req(not d, 'constraints (%s)' % last(R.of[r]),
                           'the wrong constraints are removed', fn)
                    continue
                elif not asked and not d:
                    continue
            if not d:
                ck.bad('constraints (%s)' % last(R.of[r]), 'constraints over the removed '
                       'feature are kept in %s' % last(R.of[r]), fn)
                continue
            v = d[0].val
            if v[0] == 'partial':
                ck.bad('constraints (%s)' % last(R.of[r]),
                       'the collection is not erased to its end', d[0].ev)
                continue
            if v[0] == 'lambda':
                node, _ = en.lambdas[v[1]]
                bodies = [b for b in node['bodies'] if b.get('body')]
                pol = set()
                for b in bodies:
                    try:
                        from_st = p.st
                        for q in en.lambda_paths(node, [('cand',)], st=from_st,
                                                 body=node['bodies'].index(b)):
                            atom, po = en.norm_cond(q.ret)
                            if atom is None:
                                atom, po = ('const',), po
                            pol.add((atom[0], po))
                    except Exception:
                        pol.add(('?', None))
                if ('contains', False) in pol or ('const', False) in pol or ('const', True) in pol:
                    ck.bad('constraints (%s)' % last(R.of[r]),
                           'the wrong constraints are removed', d[0].ev)
                    continue
            ck.good('constraints (%s)' % last(R.of[r]))
        feats = ('fld', THIS, R.of['features'])
        if fs.get(('empty', feats)) is False:
            det = [e for e in es if e.kind == 'fcons-' and e.loops and
                   unk(e.loops[0]) == feats and mentions(unk(e.obj), lambda t: t == ('elem', feats))]
            inn = [a for a, v in fs.items() if a[0] == 'contains' and v and
                   mentions(a[2], lambda t: t == ('elem', feats))]
            stop = [e for e in p.events if e.kind in ('brk', 'lret') and e.args and
                    mentions(unk(e.args[0]), lambda t: t == feats)]
            if stop:
                ck.bad('attached features', 'only some features or constraints are looked at',
                       stop[0])
                continue
            loops = [a for a, v in fs.items() if a[0] == 'empty' and not v and a[1][0] == 'fld'
                     and mentions(a[1], lambda t: t == ('elem', feats))]
            if inn and not det:
                ck.bad('attached features', 'features keep references to removed constraints', fn)
            elif det:
                ck.good('attached features')
            elif not any(a[0] in ('empty', 'contains', 'nn') and mentions(
                    a, lambda t: t == ('fld', ('elem', feats), R.of['fcons'])) for a in fs) and \
                    not any(a[0] == 'eq' and mentions(a, lambda t: t == ('elem', feats))
                            for a in fs):
                ck.bad('attached features', 'other features keep references to '
                       'removed constraints', fn)
    if not n:
        raise Undecided('no path')


@rule('P06', 'affected-constraints', 'Removing a feature considers every constraint attached '
      'to it, and compares constraints by their outermost one.')
def affected(ck):
    R = roles(ck)
    R.need('features', 'fcons')
    fn = ck.fn(V + 'FeatureModel::removeFeature')
    F = ('param', 0, fn['params'][0]['n'])
    fc, feats = ('fld', F, R.of['fcons']), ('fld', THIS, R.of['features'])
    root = V + 'Constraint::getRoot'
    if not ck.fx.by_q.get(root):
        raise Undecided('how the outermost constraint is found')

    def attached(t):
        """an entry of the constraints attached to a feature"""
        return t[0] == 'elem' and (t[1] == fc or mentions(t[1], lambda s: s[0] == 'fld' and
                                                          s[2] == R.of['fcons']))

    def outer(t):
        return t[0] == 'call' and t[1] == root and mentions(t[2:], attached)

    some, paths = False, []
    for p in ck.paths(fn, join=False, mark_loops='ret', opaque=[root]):
        if p.kind != 'ret':
            continue
        fs = {unk(a): v for a, v in p.facts.items()}
        if fs.get(('empty', fc)) is not False:
            for a, v in fs.items():
                compare(ck, a, attached, outer, fn)
            continue
        ins = [(e, unk(x)) for e in p.events if e.kind == 'call' and last(e.q) in (
            'insert', 'emplace', 'push_back', 'emplace_back', 'transform-out')
            for x in e.args if mentions(unk(x), lambda t: t == ('elem', fc))]
        some = some or bool(ins)
        paths.append((p, fs, ins))
        for a, v in fs.items():
            compare(ck, a, attached, outer, fn)
    for p, fs, ins in paths:
        stop = [e for e in p.events if e.kind in ('brk', 'lret') and e.args and
                unk(e.args[0]) == fc]
        for e in stop:
            ck.bad('constraints of the feature', 'only some of them are considered', e)
        if not some:
            if any(e.kind != 'iter' and mentions(
                    tuple(unk(x) for x in e.args if x is not None) +
                    ((unk(e.obj),) if e.obj is not None else ()),
                    lambda t: t == fc or t[0] == 'fld' and t[2] == R.of['fcons'] and
                    t[1][0] != 'elem') for q, _, _ in paths for e in q.events):
                ck.undec('constraints of the feature', 'how they are collected')
            else:
                ck.bad('constraints of the feature', 'they are not considered', fn)
            continue
        if not ins and not stop and not any(v and a[0] == 'contains' and outer(a[2])
                                            for a, v in fs.items()):
            ck.bad('constraints of the feature', 'a constraint over the removed feature is '
                   'not considered', fn)
        for e, x in ins:
            if x == ('elem', fc):
                ck.bad('constraints of the feature', 'a constraint is removed without those '
                       'around it', e)
            elif outer(x):
                ck.good('constraints of the feature')
            else:
                ck.undec('constraints of the feature', 'collects %s' % show(x))


def compare(ck, a, attached, outer, fn):
    if a[0] == 'contains' and a[1][0] != 'fld':
        if attached(a[2]):
            ck.bad('compared constraints', 'a reference to a removed constraint is kept if the '
                   'feature is nested in it', fn)
        elif outer(a[2]):
            ck.good('compared constraints')


@rule('P06', 'relationship-erased', 'Removing a relationship erases exactly '
      'the given relationship.')
def rel_erased(ck):
    R = roles(ck)
    R.need('rels')
    fn = ck.fn(V + 'FeatureModel::removeRelationship')
    P0 = ('param', 0, fn['params'][0]['n'])
    rels = ('fld', THIS, R.of['rels'])
    found = 0
    for p in ck.paths(fn, join=False):
        if p.kind != 'ret':
            continue
        fs = {unk(a): v for a, v in p.facts.items()}
        es = [e for e in effects(ck, p) if e.kind == 'rel-']
        if fs.get(('empty', rels)) is True:
            continue
        hit = [a for a, v in fs.items() if v and a[0] == 'eq' and P0 in a[1:]]
        for e in es:
            v = unk(e.val)
            if v[0] == 'found' and hit:
                found += 1
                ck.good('removeRelationship')
            elif v[0] == 'found':
                ck.bad('removeRelationship', 'a relationship other than the given one '
                       'is erased', e.ev)
            elif v[0] in ('end', 'iter'):
                if hit:
                    ck.bad('removeRelationship', 'erases %s' % show(v), e.ev)
                elif v[0] == 'iter':
                    ck.bad('removeRelationship', 'the first relationship is erased', e.ev)
            elif v[0] == 'lambda' or v == P0:
                found += 1
            else:
                ck.undec('removeRelationship', 'erases %s' % show(v))
        if hit and not es:
            ck.bad('removeRelationship', 'the relationship is kept', fn)
    if not found:
        ck.undec('removeRelationship', 'idiom not recognised')


@rule('P06', 'constraint-bookkeeping', 'A feature drops a constraint from every '
      'list it was put into: the list of constraints and the lists of '
      'implications and exclusions.')
def bookkeeping(ck):
    R = roles(ck)
    R.need('fcons', 'fimpl', 'fexcl')
    add = ck.fn(V + 'Feature::addConstraint')
    rem = ck.fn(V + 'Feature::removeConstraintNonPreserve')
    tab = {}
    for what, fn in (('+', add), ('-', rem)):
        c = ('param', 0, fn['params'][0]['n'])
        for p in ck.paths(fn, join=False):
            if p.kind != 'ret':
                continue
            es = effects(ck, p)
            kinds = tuple(sorted(short(a[1]).rsplit('::', 1)[-1] for a, v in p.facts.items()
                                 if a[0] == 'isa' and v))
            neg = tuple(sorted(short(a[1]).rsplit('::', 1)[-1] for a, v in p.facts.items()
                               if a[0] == 'isa' and not v))
            got = tuple(sorted(e.kind[:-1] for e in es if e.kind.endswith(what)))
            tab.setdefault(kinds, {}).setdefault(what, set()).add(got)
            for e in es:
                if e.kind[:-1] == 'fcons' and e.val != c:
                    ck.bad('lists', '%s instead of the constraint is listed/dropped' % show(e.val), e.ev)
                if e.kind[-1] not in '+-' or e.kind[-1] != what:
                    ck.bad('lists', 'unexpected effect %r' % e, e.ev)
                if isinstance(e.val, tuple) and e.val[0] == 'partial':
                    ck.bad('lists', 'only part of the list is erased', e.ev)
    for kinds, m in sorted(tab.items()):
        name = '/'.join(kinds) or 'other constraints'
        exp = {'ImpliesConstraint': ('fcons', 'fimpl'), 'ExcludesConstraint': ('fcons', 'fexcl'),
               '': ('fcons',)}.get(kinds[0] if kinds else '')
        for what in '+-':
            for g in m.get(what, ()):
                if exp is None:
                    ck.undec(name, 'unknown kind')
                else:
                    ck.req(tuple(sorted(g)) == exp, '%s (%s)' % (
                        name, 'listed' if what == '+' else 'dropped'),
                        'the lists %s are updated instead of %s' % (list(g), list(exp)),
                        add if what == '+' else rem)
