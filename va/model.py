"""Roles of the data model: which field stores what (derived from the public
accessors, so that private members can be renamed), and the classification of
path events into model effects."""
from .core import Undecided
from .engine import *
from .engine import last, short

V = 'vara::feature::'
MODIFY = V + 'FeatureModelTransaction<vara::feature::detail::ModifyTransactionMode>'
COPY = V + 'FeatureModelTransaction<vara::feature::detail::CopyTransactionMode>'

_ROLES = {
    'parent': V + 'FeatureTreeNode::getParent',
    'fname': V + 'Feature::getName',
    'fopt': V + 'Feature::isOptional',
    'fout': V + 'Feature::getOutputString',
    'flocs': V + 'Feature::getLocations',
    'fcons': V + 'Feature::constraints',
    'fimpl': V + 'Feature::implications',
    'fexcl': V + 'Feature::excludes',
    'root': V + 'FeatureModel::getRoot',
    'mname': V + 'FeatureModel::getName',
    'mpath': V + 'FeatureModel::getPath',
    'mcommit': V + 'FeatureModel::getCommit',
    'features': V + 'FeatureModel::size',
    'rels': V + 'FeatureModel::relationships',
    'bcons': V + 'FeatureModel::booleanConstraints',
    'ncons': V + 'FeatureModel::nonBooleanConstraints',
    'mcons': V + 'FeatureModel::mixedConstraints',
    'cparent': V + 'Constraint::getParent',
    'cfeature': V + 'PrimaryFeatureConstraint::getFeature',
    'relkind': V + 'Relationship::getKind',
    'values': V + 'NumericFeature::getValues',
    'step': V + 'NumericFeature::getStepFunction',
}


class Roles:
    """field name per role, via the public accessor"""

    def __init__(self, fx):
        self.fx = fx
        self.of = {}
        self.by = {}
        for r, q in _ROLES.items():
            f = self._field(q)
            if f:
                self.of[r] = f
                self.by[f] = r

    def _field(self, q):
        flds = set()
        for fn in self.fx.by_q.get(q, ()):
            try:
                ps = Engine(self.fx, max_paths=50).paths(fn)
            except (TooComplex, RecursionError):
                continue
            for p in ps:
                for t in walk(p.ret):
                    if t and t[0] == 'fld' and t[1] == THIS:
                        flds.add(t[2])
        return flds.pop() if len(flds) == 1 else None

    def need(self, *rs):
        for r in rs:
            if r not in self.of:
                raise Undecided('accessor of role %s not resolved' % r)

    def f(self, role, obj):
        self.need(role)
        return ('fld', obj, self.of[role])


_R = {}


def roles(ck):
    k = id(ck.fx)
    if k not in _R:
        _R[k] = Roles(ck.fx)
    return _R[k]


ADD = {'push_back', 'emplace_back', 'insert', 'emplace', 'try_emplace',
       'insert_or_assign', 'append', 'emplace_hint', 'push_front'}
DEL = {'erase', 'remove', 'clear', 'pop_back', 'erase_if', 'remove_if', 'resize'}


class Eff:
    __slots__ = ('kind', 'obj', 'val', 'loops', 'ev', 'args', 'i')

    def __init__(self, kind, obj, val, ev, i):
        self.kind, self.obj, self.val = kind, obj, val
        self.loops, self.ev, self.i = ev.loops, ev, i
        self.args = ev.args

    def __repr__(self):
        return '%s(%s, %s)%s' % (self.kind, show(self.obj), show(self.val),
                                 ' in %s' % [show(l) for l in self.loops]
                                 if self.loops else '')


def effects(ck, path):
    """ordered model effects of a path"""
    R = roles(ck)
    out = []
    for i, e in enumerate(path.events):
        k = None
        if e.kind == 'call':
            q = short(e.q)
            nm = last(q)
            if q.endswith('DGNode::addEdge'):
                k = ('edge+', e.obj, e.args[0])
            elif q.endswith('DGNode::removeEdge'):
                k = ('edge-', e.obj, e.args[0])
            elif q == V + 'FeatureModel::removeFeature':
                k = ('feat-', e.obj, e.args[0])
            elif q == V + 'FeatureModel::removeRelationship':
                k = ('rel-', e.obj, e.args[0])
            elif e.obj is not None and e.obj[0] == 'edges' and nm in ADD | DEL:
                k = ('edge' + ('+' if nm in ADD else '-'), e.obj[1],
                     e.args[0] if e.args else VOID)
            elif e.obj is not None and e.obj[0] == 'fld' and e.obj[2] in R.by:
                r = R.by[e.obj[2]]
                kn = {'features': 'feat', 'rels': 'rel'}.get(r, r)
                if nm in ADD:
                    k = (kn + '+', e.obj[1], e.args[-1] if e.args else VOID)
                elif nm in DEL:
                    v = e.args[0] if e.args else VOID
                    if v[0] == 'call' and last(v[1]) in ('remove', 'remove_if') and \
                            len(v[3]) == 3 and v[3][0] in (('iter', e.obj), e.obj):
                        # erase-remove idiom
                        full = len(e.args) == 2 and e.args[1] == ('end', e.obj) and \
                            v[3][1] == ('end', e.obj)
                        v = v[3][2] if full else ('partial', v[3][2])
                    k = (kn + '-', e.obj[1], v)
        elif e.kind == 'write' and e.obj is not None and e.obj[0] == 'fld' \
                and e.obj[2] in R.by:
            k = (R.by[e.obj[2]] + '=', e.obj[1], e.args[0] if e.args else VOID)
        if k:
            if k[2] and k[2][0] == 'var':
                k = (k[0], k[1], k[2][2])
            out.append(Eff(k[0], k[1], k[2], e, i))
    return out


def canon(ck, t):
    """canonical form of looked-up features: ('feat', model, key), names:
    ('name', node)"""
    R = roles(ck)
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'found':
        return canon(ck, t[2])
    t = tuple(canon(ck, x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'mapent' and t[1][0] == 'fld' and t[1][2] == R.of.get('features'):
        m, k = t[1][1], t[2]
        if k[0] == 'name' and k[1][0] == 'feat' and k[1][1] == m:
            return k[1]
        return ('feat', m, k)
    if t[0] == 'fld' and t[2] == R.of.get('fname'):
        return ('name', t[1])
    if t[0] == 'call' and short(t[1]) == V + 'FeatureModel::getFeature' and len(t[3]) == 1:
        m, k = t[2], t[3][0]
        if k[0] == 'name' and k[1][0] == 'feat' and k[1][1] == m:
            return k[1]
        return ('feat', m, k)
    if t[0] == 'call' and short(t[1]) == V + 'Feature::getName':
        return ('name', t[2])
    return t


def loop_tag(e):
    return unk(e.args[0]), e.file, e.line


def once_only(ps):
    """[(loop, event)]: loops (marked with 'iter' and 'brk') left by 'break' that
    never go on to a second element"""
    goes = {loop_tag(e) for p in ps for e in p.events if e.kind == 'iter' and e.args}
    out = {}
    for p in ps:
        for e in p.events:
            if e.kind == 'brk' and e.args and loop_tag(e) not in goes:
                out.setdefault(unk(e.args[0]), e)
    return sorted(out.items(), key=lambda x: show(x[0]))


def cut_short(ps):
    """as once_only, and loops that some path leaves after an element was treated,
    though nothing was found out about this element"""
    out = dict(once_only(ps))
    for p in ps:
        for e in p.events:
            if e.kind == 'brk' and e.args and unk(e.args[0])[0] != 'while':
                el = ('elem', unk(e.args[0]))
                if not any(a[0] not in ('nn', 'empty') and mentions(unk(a), lambda t: t == el)
                           for a in p.facts):
                    out.setdefault(unk(e.args[0]), e)
    return sorted(out.items(), key=lambda x: show(x[0]))


def ufacts(p):
    """facts without occurrence counters; None if two generic elements of one
    container are assumed to differ (such a path is covered by the one on which
    the same element passes both loops)"""
    out = {}
    for a, v in p.facts.items():
        k = unk(a)
        if out.setdefault(k, v) != v:
            return None
    return out
