"""Cloning of models (P08)."""
import os
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V, MODIFY, COPY
from .tx import MODEL, is_err

BUILD = V + 'FeatureModelBuilder::buildFeatureModel'
COMMIT = MODIFY + '::commit'

KINDS = {'FK_BINARY': V + 'BinaryFeature', 'FK_NUMERIC': V + 'NumericFeature',
         'FK_ROOT': V + 'RootFeature', 'FK_UNKNOWN': V + 'Feature'}
BY_KIND = {'FK_UNKNOWN': ['fname'], 'FK_ROOT': ['fname'],
           'FK_BINARY': ['fname', 'fopt', 'flocs', 'fout'],
           'FK_NUMERIC': ['fname', 'fopt', 'flocs', 'fout', 'values']}
WHAT = {'fname': 'name', 'fopt': 'optionality', 'flocs': 'locations',
        'fout': 'output string', 'values': 'values'}


def kinds_left(facts, el, kf):
    """kinds the generic feature el can have on a path"""
    c = set(KINDS)
    for a, v in facts.items():
        if a[0] == 'eq':
            x, y = a[1], a[2]
            if y == ('fld', el, kf):
                x, y = y, x
            if x == ('fld', el, kf) and y[0] == 'enum':
                k = last(y[1])
                c = (c & {k}) if v else (c - {k})
        elif a[0] == 'isa' and a[2] == el:
            cl = [k for k, q in KINDS.items() if last(q) == last(a[1])]
            if cl == ['FK_UNKNOWN']:
                if not v:
                    c = set()
            elif cl:
                c = (c & set(cl)) if v else (c - set(cl))
        elif a == ('nn', el) and v is False:
            c = set()
    return c


def kind_field(ck):
    for p in ck.paths(ck.fn(V + 'Feature::getKind')):
        if p.ret[0] == 'fld' and p.ret[1] == THIS:
            return p.ret[2]
    raise Undecided('kind of features not stored in a field')


class Requests:
    """effects of recorded modifications (class with exec)"""

    def __init__(self, ck):
        self.ck, self.memo, self.raw = ck, {}, {}

    def of(self, new):
        if new not in self.memo:
            out = []
            fx = self.ck.fx.by_q.get(new[1] + '::exec')
            if fx:
                en = Engine(self.ck.fx, join=False, opaque=(
                    V + 'FeatureModel::removeFeature', V + 'FeatureModel::removeRelationship'))
                for q in self.ck.paths(fx[0], this=new, args=[MODEL], eng=en):
                    if q.kind == 'ret' and not is_err(q.ret):
                        es = effects(self.ck, q)
                        for e in es:
                            v = unk(canon(self.ck, e.val))
                            self.raw[v] = e.val
                            e.obj, e.val = unk(canon(self.ck, e.obj)), v
                        out.append((q, es))
                self.eng = en
            self.memo[new] = out
        return self.memo[new]

    def on(self, p):
        """[(event, modification)] requested on path p"""
        for e in p.events:
            if e.kind == 'call' and last(e.q) in ADD:
                for a in e.args:
                    if a[0] == 'new' and self.ck.fx.by_q.get(a[1] + '::exec'):
                        yield e, a


def unvar(t):
    while t and t[0] == 'var':
        t = t[2]
    return t


def name_of(ck, t):
    """node whose name the term is"""
    t = canon(ck, unvar(t))
    if t[0] == 'name':
        return t[1]
    return None


def strip_copy(t):
    """the container a freshly constructed container is a copy of"""
    while t and t[0] == 'new' and len(t[2]) in (1, 2) and short(t[1]).startswith('std::'):
        a = t[2][0]
        t = a[1] if a[0] == 'iter' else a
    return t


@rule('P08', 'clone-complete', 'Cloning requests, for every feature, '
      'relationship and constraint of the model, its counterpart of the same '
      'kind with every attribute, and the name, path, commit, tree and groups; '
      'a failing step yields no model.')
def clone_complete(ck):
    R = roles(ck)
    R.need('features', 'fname', 'fopt', 'flocs', 'fout', 'values', 'step', 'parent',
           'root', 'rels', 'relkind', 'bcons', 'ncons', 'mcons', 'mname', 'mpath', 'mcommit')
    fn = ck.fn(V + 'FeatureModel::clone')
    en = Engine(ck.fx, join=False, max_paths=60000, opaque=[BUILD, COMMIT], mark_loops='ret')
    ps = ck.paths(fn, eng=en)
    for c, e in cut_short([p for p in ps if p.kind == 'ret' and p.ret != NULL]):
        ck.bad('everything', 'not all elements of %s are cloned' % show(c), e)
    kf = kind_field(ck)
    rq = Requests(ck)
    raw = rq.raw
    F = ('fld', THIS, R.of['features'])
    el = ('elem', F)
    seen = {}      # site -> violated detail or None

    def say(site, ok, detail='', where=fn):
        if not ok and os.environ.get('VA_DEBUG') == '2':
            print(site, [('' if v else '!') + show(a) for a, v in fs.items()])
        if ok:
            ck.good(site)
        else:
            ck.bad(site, detail, where)

    def fld(new, role):
        r = en.field_of_new(raw.get(new, new), R.of[role])
        return unk(r) if r else r

    ret = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        fs = ufacts(p)
        if fs is None:
            continue
        for e in p.events:
            if e.kind in ('write', 'call') and e.obj is not None and e.obj[0] == 'fld' and \
                    e.obj[2] in R.by and (last(e.q) in ADD | DEL or e.kind == 'write') and \
                    not mentions(e.obj, lambda t: t[0] in ('new', 'call')):
                ck.bad('original', 'cloning changes the original model', e)
        built = [a[1] for a in fs if a[0] == 'nn' and a[1][0] == 'call' and
                 short(a[1][1]) == BUILD]
        if p.ret == NULL:
            continue
        if any(v is False and a[0] == "nn" and mentions(a[1], lambda t: t[0] == "call" and
               short(t[1]) == BUILD) and a[1][0] != "ok" for a, v in fs.items()):
            continue
        ret += 1
        if fs.get(('empty', F)) is not False:
            rel = None
        reqs = list(rq.on(p))
        effs = [(ev, new, q, es) for ev, new in reqs for q, es in rq.of(new)]
        # model attributes
        for role, what in (('mname', 'model name'), ('mcommit', 'commit'), ('mpath', 'path')):
            v = [e.val for _, _, _, es in effs for e in es if e.kind == role + '=']
            direct = [e.val for e in effects(ck, p) if e.kind == role + '=' and e.obj != THIS]
            src = {strip_copy(unvar(x)) for x in v + direct}
            say(what, ('fld', THIS, R.of[role]) in src,
                'the clone gets %s' % (', '.join(show(x) for x in src) or 'no ' + what))
        # features
        if fs.get(('empty', F)) is False:
            ks = kinds_left(fs, el, kf)
            for k in sorted(ks):
                site = 'feature (%s)' % k
                mk = []
                for ev, new, q, es in effs:
                    for e in es:
                        if e.kind == 'feat+' and e.val[0] == 'new' and \
                                name_of(ck, fld(e.val, 'fname') or VOID) == el and \
                                e.val not in [m[1] for m in mk]:
                            mk.append((ev, e.val))
                if not mk:
                    say(site, False, 'features of this kind are not cloned')
                    continue
                if len(mk) > 1:
                    say(site, False, 'features of this kind are cloned %d times' % len(mk), mk[1][0])
                ev, new = mk[0]
                if new[1] != KINDS[k]:
                    say(site, False, 'cloned as %s' % new[1], ev)
                    continue
                if not ev.loops or unk(ev.loops[0]) != F:
                    say(site, False, 'not cloned for every feature', ev)
                    continue
                for role in BY_KIND[k]:
                    got = fld(new, role)
                    g = strip_copy(unvar(got)) if got else None
                    say('%s %s' % (site, WHAT[role]), g == ('fld', el, R.of[role]),
                        'the %s of the clone is %s' % (WHAT[role], show(g) if g else 'not set'), ev)
                if k == 'FK_NUMERIC':
                    st = ('fld', el, R.of['step'])
                    g = fld(new, 'step')
                    has = fs.get(('nn', st))
                    if has is False:
                        say(site + ' step', g in (NULL, None), 'step function invented', ev)
                    elif g in (NULL, None):
                        say(site + ' step', False, 'the step function is dropped', ev)
                    elif g == st:
                        say(site + ' step', False, 'the step function is shared', ev)
                    elif g[0] == 'new' and g[2] == (st,) or \
                            g[0] == 'call' and last(g[1]) == 'clone' and unk(g[2]) == st:
                        say(site + ' step', has is True or g[0] == 'new', '', ev)
                        if has is not True:
                            say(site + ' step', False, 'a missing step function is dereferenced', ev)
                    else:
                        ck.undec(site + ' step', 'step function %s' % show(g))
            # tree
            if not ks:
                continue
            par = ('fld', el, R.of['parent'])
            links = [(ev, q, e) for ev, new, q, es in effs for e in es if e.kind == 'parent=' and
                     e.obj == ('feat', MODEL, ('fld', el, R.of['fname'])) or
                     e.kind == 'parent=' and e.obj[0] == 'feat' and e.obj[1] == MODEL and
                     name_of(ck, e.obj[2]) == el]
            links = [l for l in links if l[2].val != NULL]
            if os.environ.get('VA_DEBUG') == '3': print([show(l[2].val) for l in links], [(show(a),v) for a,v in fs.items() if 'Parent' in show(a)])
            direct = [l for l in links if l[2].val[0] == 'feat' and
                      name_of(ck, l[2].val[2]) == par]
            ispar = [v for a, v in fs.items() if a[0] == 'isa' and a[2] == par and
                     last(a[1]) == 'Feature']
            noparent = fs.get(('nn', par)) is False
            if links and len(direct) < len(links):
                o = [l for l in links if l not in direct and name_of(ck, l[2].val[2]) is None
                     or l not in direct and not mentions(
                         name_of(ck, l[2].val[2]), lambda t: t == par)] if all(
                             l[2].val[0] == 'feat' for l in links) else links
                if o:
                    say('tree', False, 'the clone of a feature is put below %s' %
                        show(o[0][2].val), o[0][0])
            if ispar and any(ispar) and not noparent:
                say('tree', bool(links), 'a feature below a feature is not put below '
                    'the clone of its parent')
            elif not noparent and not ispar and fs.get(('nn', par)) is True and not links:
                ck.undec('tree', 'parent feature not determined')
            # children directly below a feature that also has groups
            grp = [(a, v) for a, v in fs.items() if a[0] == 'empty' and a[1][0] == 'kids' and
                   a[1][1] == 'Relationship' and a[1][2] == par]
            norel = fs.get(('empty', ('fld', THIS, R.of['rels']))) is True
            if (not grp and not norel or grp and grp[0][1] is False) and any(ispar):
                # after the groups were built
                bi = [i for i, e in enumerate(p.events) if e.kind == 'call' and short(e.q) == BUILD]
                later = [ev for ev, q, e in direct if bi and p.events.index(ev) > bi[-1]]
                say('children next to groups', bool(later),
                    'direct children of a feature with groups end up in a group')
        # relationships
        RL = ('fld', THIS, R.of['rels'])
        rel = ('elem', RL)
        if fs.get(('empty', RL)) is False:
            rp = ('fld', rel, R.of['parent'])
            isf = [v for a, v in fs.items() if a[0] == 'isa' and a[2] == rp]
            mk = [(ev, q, es) for ev, new, q, es in effs if any(e.kind == 'rel+' for e in es)]
            if fs.get(('nn', rp)) is False or (isf and not any(isf)):
                pass
            elif not mk:
                say('groups', False, 'groups are not cloned')
            else:
                for ev, q, es in mk:
                    r = [e.val for e in es if e.kind == 'rel+'][0]
                    k = fld(r, 'relkind') if r[0] == 'new' else None
                    say('groups: kind', k == ('fld', rel, R.of['relkind']),
                        'the kind of the group is %s' % (show(k) if k else '?'), ev)
                    o = [e.val for e in es if e.kind == 'parent=' and e.obj == r]
                    say('groups: owner', bool(o) and o[0][0] == 'feat' and
                        name_of(ck, o[0][2]) == rp,
                        'the group is put below %s' % [show(x) for x in o], ev)
                    say('groups', ev.loops and unk(ev.loops[0]) == RL, 'not cloned for every group', ev)
        # constraints
        for role in ('bcons', 'ncons', 'mcons'):
            C = ('fld', THIS, R.of[role])
            if fs.get(('empty', C)) is not False:
                if ('empty', C) not in fs:
                    say('constraints (%s)' % last(R.of[role]), False, 'never cloned')
                continue
            ce = ('elem', C)
            mk = [(ev, e) for ev, new, q, es in effs for e in es
                  if e.kind in ('bcons+', 'ncons+', 'mcons+') and
                  mentions(e.val, lambda t: t == ce)]
            site = 'constraints (%s)' % last(R.of[role])
            if not mk:
                say(site, False, 'constraints of this kind are not cloned')
                continue
            ev, e = mk[0]
            say(site, e.kind == role + '+' and len({x.val for _, x in mk}) == 1,
                'cloned into the wrong collection or repeatedly', ev)
            nv = e.val
            cl = [t for t in walk(nv) if t and t[0] == 'call' and last(t[1]) == 'clone']
            src = [t for t in walk(nv) if t and t[0] == 'fld' and t[1] == ce]
            say(site + ' independent', bool(cl) and mentions(cl[0][2], lambda t: t == ce),
                'the constraint itself is shared with the clone', ev)
            if role == 'mcons':
                want = {}
                for m in ('req', 'exprKind'):
                    q0 = ck.fn(V + 'FeatureModel::MixedConstraint::' + m)
                    for pp in ck.paths(q0):
                        if pp.ret[0] == 'fld':
                            want[m] = pp.ret[2]
                for m, f in want.items():
                    g = unk(en.field_of_new(raw[nv], f)) if nv[0] == 'new' else None
                    say('%s %s' % (site, m), g == ('fld', ce, f),
                        'the %s of the clone is %s' % (m, show(g) if g else '?'), ev)
        # root locations
        rt = ('fld', THIS, R.of['root'])
        rl = ('fld', rt, R.of['flocs'])
        if fs.get(('nn', rt)) is not False and fs.get(('empty', rl)) is False:
            a = [e for e in effects(ck, p) if e.kind == 'flocs+' and unk(e.val) == ('elem', rl)]
            say('root locations', bool(a) and a[0].obj[0] == 'fld' and a[0].obj[2] == R.of['root']
                and a[0].obj[1] != THIS, 'the locations of the root are not copied')
        elif fs.get(('nn', rt)) is True and ('empty', rl) not in fs and built:
            say('root locations', any(e.kind == 'flocs=' for e in effects(ck, p)),
                'the locations of the root are not copied')
        elif ('nn', rt) not in fs and ('empty', rl) not in fs:
            say('root locations', any(mentions(unk(e.val), lambda t: t == rl) for e in effects(ck, p)),
                'the locations of the root are not copied')
        # failures
        for i, e in enumerate(p.events):
            if e.kind == 'call' and short(e.q) in (short(COMMIT), short(BUILD)):
                t = [a for a in fs if a[0] == 'nn' and mentions(
                    a[1], lambda t: t[0] == 'call' and t[1] == e.q)]
                say('failure', bool(t), 'the result of %s is not checked' % last(e.q), e)
        for a, v in fs.items():
            if not v and a[0] == 'nn' and a[1][0] in ('ok', 'call') and \
                    mentions(a[1], lambda t: t[0] == 'call' and short(t[1]) == short(COMMIT)):
                say('failure', False, 'a failing step is ignored')
    if not ret:
        say('clone', False, 'cloning never yields a model')
    else:
        ck.good('clone', '%d paths' % ret)
