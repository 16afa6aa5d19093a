"""The Python bindings (P31)."""
import re
from ..core import rule, Undecided
from ..engine import *
from ..engine import last
from ..model import V

DIR = 'bindings/'
POLICIES = ('reference', 'reference_internal')


def bare(q):
    """last component of a qualified name without template arguments"""
    out, d = '', 0
    q = q.replace('operator<', 'operator lt').replace('operator>', 'operator gt')
    for c in q:
        d += c == '<'
        if not d:
            out += c
        d -= c == '>'
    return out.split('::')[-1].strip()


def canon(t):
    """terms of bindings without sites, casts and wrappers"""
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k == 'var':
        return canon(t[2])
    if k in ('some', 'addr', 'deref'):
        return canon(t[1])
    if k == 'v' and len(t) == 2:
        return t
    if k == 'call':
        n = bare(t[1])
        a = tuple(canon(x) for x in t[3])
        if n == 'optional' and len(a) == 1:
            return a[0]
        return (n,) + ((canon(t[2]),) if t[2] is not None else ()) + a
    if k in ('iter', 'begin'):
        return ('begin', canon(t[1]))
    if k == 'new':
        return ('new', bare(t[1])) + tuple(canon(x) for x in t[2])
    if k == 'isa':
        return ('isa', last(t[1]), canon(t[2]))
    if k == 'enum':
        return ('enum', last(t[1]))
    if k == 'op' and t[1] in ('==', '!=') and len(t) == 4:
        return ('operator' + t[1], canon(t[2]), canon(t[3]))
    return tuple(canon(x) if isinstance(x, tuple) else x for x in t)


def ast(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from ast(v)
    elif isinstance(n, list):
        for v in n:
            yield from ast(v)


class Binding:
    """one name of a class of the module"""

    def __init__(self, f, n):
        self.f, self.n = f, n
        self.kind = last(n['fn']['q'])
        m = re.match(r'pybind11::(class_|enum_|module_)(?:<(.*)>)?$', n['fn'].get('cls') or '')
        self.of = m and m.group(1)
        t = (m and m.group(2)) or ''
        self.base = re.split(r',\s*', t)[1:]
        self.cls = re.split(r',', t)[0].replace(V, '')
        a = list(n.get('a', ()))
        self.name = None
        if a and a[0].get('k') == 'str':
            self.name = a.pop(0)['v']
        self.targets, self.extra = [], []
        for x in a:
            x = unwrap(x)
            if x.get('k') == 'lambda' or x.get('k') == 'un' and x.get('op') == '&' and \
                    (x.get('e') or {}).get('fn') or x.get('k') == 'call' and \
                    last(x['fn']['q']) == 'init':
                self.targets.append(x)
            else:
                self.extra.append(x)

    @property
    def where(self):
        return '%s:%s' % (self.f['file'], self.n.get('l'))

    @property
    def site(self):
        return '%s.%s' % (self.cls or 'module', self.name or '__init__')


def unwrap(x):
    while x.get('k') in ('cast', 'paren', 'icast') and isinstance(x.get('e'), dict):
        x = x['e']
    if x.get('k') == 'ctor' and len(x.get('a', ())) == 1 and 'cpp_function' in (x.get('cls') or ''):
        return unwrap(x['a'][0])
    return x


def bindings(ck):
    out = []
    for f in ck.fx.fns.values():
        if f.get('body') is None or DIR not in f['file']:
            continue
        ck.analysed.add(f['key'])
        for n in ast(f['body']):
            if n.get('k') == 'call' and 'pybind11::' in ((n.get('fn') or {}).get('cls') or '') and \
                    last(n['fn']['q']) in ('def', 'def_property', 'def_property_readonly',
                                           'def_property_static', 'def_static', 'value'):
                out.append(Binding(f, n))
    return out


def behaviour(ck, b, x):
    """[(facts, value, [library calls])] of the bound operation; the object and
    the arguments are 0, 1, …"""
    if x['k'] == 'un':
        q = x['e']['fn']['q']
        t = x['e'].get('t') or ''
        inner = t[t.index('(') + 1:t.rindex(')')] if '(' in t else ''
        n = 0 if not inner.strip() else len(split_args(inner))
        n += bool(x['e']['fn'].get('cls'))
        return [({}, (bare(q),) + tuple(range(n)), [], n)]
    if x['k'] == 'call':                               # init(lambda)
        lam = [unwrap(y) for y in x.get('a', ()) if unwrap(y).get('k') == 'lambda']
        if not lam:
            return None
        x = lam[0]
    n = len(x['bodies'][0]['params'])
    en = Engine(ck.fx, join=False, inline=lambda fn: DIR in fn['file'])
    out = []
    for p in en.lambda_paths(x, [('v', i) for i in range(n)]):
        ck.npaths += 1
        if p.kind != 'ret':
            out.append((p.facts, ('ends', p.kind), [], n))
            continue
        calls = [num(canon(('call', e.q, e.obj, e.args))) for e in p.events if e.kind == 'call'
                 and e.q.startswith(V)]
        out.append((p.facts, num(canon(p.ret)), calls, n))
    return out


def num(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'v' and isinstance(t[1], int):
            return t[1]
        return tuple(num(x) for x in t)
    return t


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        d += c in '<([{'
        d -= c in '>)]}'
        if c == ',' and not d:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur]


def rng(*names):
    b, e = (names * 2)[:2]
    return [('make_iterator', (b, 0), (e, 0))]


def over(of):
    return [('make_iterator', ('begin', (of, 0)), ('end', (of, 0)))]


def me(name, *args):
    """the operation of the object with all arguments in order"""
    return lambda n: [(name,) + tuple(range(n))]


def isroot(n):
    return [('isa', 'RootFeature', 0)]


def added(cls):
    return lambda n: [('addFeature', 0, ('new', cls) + tuple(range(2, n)), 1)]


def wrapped(cls):
    return lambda n: [('addConstraint', 0, ('new', cls, ('clone', 1)))]


CB = {n: me(n) for n in (
    'build', 'openPar', 'closePar', 'constant', 'feature', 'lNot', 'lOr', 'lXor', 'lAnd',
    'implies', 'excludes', 'equivalent', 'equal', 'notEqual', 'less', 'greater', 'lessEqual',
    'greaterEqual', 'neg', 'add', 'subtract', 'multiply', 'divide')}
CB['__call__'] = me('operator()')

CONS = {'__str__': me('toString'), 'constraint': me('constraint')}
RANGE = lambda n: [('make_iterator', ('begin', 0), ('end', 0))]

# what each name of the module stands for; several functions of a name are its
# overloads, two entries are reading and writing of a property
TABLE = {
    'Constraint': {'__str__': me('toString'), 'clone': me('clone')},
    'ConstraintBuilder': CB,
    'FeatureTreeNode': {
        'children': RANGE, '__iter__': RANGE, 'is_child': me('hasEdgeTo'),
        'parent': me('getParent'), 'is_parent': me('hasEdgeFrom')},
    'Feature': {
        '__hash__': me('hash'), 'name': me('getName'), 'output_string': me('getOutputString'),
        'is_root': isroot, 'is_optional': me('isOptional'),
        'locations': lambda n: rng('getLocationsBegin', 'getLocationsEnd'),
        'hasLocations': me('hasLocations'), 'addLocation': me('addLocation'),
        'updateLocation': me('updateLocation'), 'removeLocation': me('removeLocation'),
        '__str__': me('toString'), '__eq__': me('operator=='), '__lt__': me('operator lt')},
    'BinaryFeature': {'to_string': me('toString')},
    'NumericFeature': {'to_string': me('toString')},
    'RootFeature': {'to_string': me('toString')},
    'FeatureModel::BooleanConstraint': CONS,
    'FeatureModel::NonBooleanConstraint': CONS,
    'FeatureModel::MixedConstraint': dict(CONS, req=me('req'), exprKind=me('exprKind')),
    'FeatureModel': {
        'name': me('getName'), 'path': me('getPath'),
        'commit': (me('getCommit'), me('setCommit')), 'get_root': me('getRoot'),
        'get_feature': me('getFeature'), 'add_binary_feature': added('BinaryFeature'),
        'add_numeric_feature': added('NumericFeature'), 'remove_feature': me('removeFeature'),
        'merge_with': me('mergeFeatureModels'), 'size': me('size'), 'view': me('view'),
        '__len__': me('size'), '__iter__': RANGE,
        'booleanConstraints': lambda n: over('booleanConstraints'),
        'nonBooleanConstraints': lambda n: over('nonBooleanConstraints'),
        'mixedConstraints': lambda n: over('mixedConstraints')},
    '': {'loadFeatureModel': me('loadFeatureModel'),
         'verifyFeatureModel': me('verifyFeatureModel')},
    'FeatureModelBuilder': {
        'make_binary_feature': me('makeFeature'), 'add_an_edge': me('addEdge'),
        'emplace_relationship': None,
        'add_boolean_constraint': wrapped('BooleanConstraint'),
        'add_non_boolean_constraint': wrapped('NonBooleanConstraint'),
        'set_vm_name': me('setVmName'), 'set_path': me('setPath'),
        'set_commit': me('setCommit'), 'make_root': me('makeRoot'),
        'build_feature_model': me('buildFeatureModel')},
    'FeatureModelXmlWriter': {
        'get_feature_model_as_string': me('writeFeatureModel'),
        'write_feature_model_to_file': me('writeFeatureModel')},
    'FeatureSourceRange': {
        'path': (me('getPath'), me('setPath')), 'start': me('getStart'), 'end': me('getEnd'),
        'category': (me('getCategory'), me('setCategory')), '__str__': me('toString'),
        '__eq__': me('operator==')},
    'FeatureSourceRange::FeatureSourceLocation': {
        'line_number': (me('getLineNumber'), me('setLineNumber')),
        'column_offset': (me('getColumnOffset'), me('setColumnOffset')),
        '__str__': me('toString'), '__eq__': me('operator==')},
}
# C++ name of the operation a makeFeature call creates
CREATES = {'make_binary_feature': 'BinaryFeature'}
SETTERS = ('set_',)


def text(t):
    if isinstance(t, tuple):
        return '%s(%s)' % (t[0], ', '.join(text(x) for x in t[1:]))
    return str(t)


def same_optional(facts, val, want):
    """a missing optional argument is passed as a missing value"""
    if isinstance(val, tuple) and isinstance(want, tuple) and len(val) == len(want):
        return all(same_optional(facts, a, b) for a, b in zip(val, want))
    if val == want:
        return True
    if isinstance(want, int) and val == ('null',):
        return facts.get(('nn', ('v', want))) is False
    if isinstance(want, int) and val == ('val', want):
        return facts.get(('nn', ('v', want))) is True
    return False


def judge(ck, b, x, want):
    beh = behaviour(ck, b, x)
    if beh is None:
        raise Undecided('%s: operation not recognised' % b.site)
    n = beh[0][3]
    exp = want(n)
    for facts, val, calls, _ in beh:
        if val in exp or any(same_optional(facts, val, w) for w in exp):
            continue
        if val == ('void',):
            ops = [c for c in calls if c in exp]
            other = [c for c in calls if c not in exp and not reads(ck, c)]
            ck.req(len(ops) == 1 and not other, b.site + ' does ' + text(exp[0]),
                   'does %s' % ('; '.join(text(c) for c in calls) or 'nothing'), b.where)
            continue
        if val[0] == 'bool' and any(
                v is val[1] and any(num(canon(x)) in exp for x in (a,) + a[1:]
                                    if isinstance(x, tuple)) for a, v in facts.items()):
            continue
        # comparing with None, or without any text
        none = val == ('bool', False) and b.name == '__eq__' and \
            facts.get(('nn', ('v', 1))) is False
        notext = val == ('str', '') and any(
            a[0] == 'nn' and v is False and num(canon(a[1])) in exp for a, v in facts.items())
        if none or notext:
            continue
        ck.bad(b.site + ' does ' + text(exp[0]), 'yields %s' % text(val), b.where)
        return
    ck.good(b.site + ' does ' + text(exp[0]))


def reads(ck, c):
    return isinstance(c, tuple) and c and c[0].startswith(('get', 'is', 'has', 'clone', 'make_'))


@rule('P31', 'operations', 'Each name of the module stands for the library operation it is '
      'named after, with the object and all arguments in order, and yields its result.')
def operations(ck):
    bs = bindings(ck)
    ck.need(bs, 'no bindings found')
    seen = set()
    for b in bs:
        if b.kind == 'value' or b.name is None:
            continue
        want = TABLE.get(b.cls, {}).get(b.name)
        seen.add((b.cls, b.name))
        if want is None:
            continue
        wants = want if isinstance(want, tuple) else (want,)
        if isinstance(want, tuple) and b.kind == 'def':
            raise Undecided(b.site)
        for x, w in zip(b.targets, wants):
            try:
                judge(ck, b, x, w)
            except Undecided as e:
                ck.undec(b.site, str(e), b.where)
        if isinstance(want, tuple) and len(b.targets) != len(wants):
            ck.bad(b.site + ' can be read and written', '%d operations' % len(b.targets), b.where)
        if b.name in CREATES:
            made = [n['fn'] for n in ast(b.targets[0]) if n.get('k') == 'call' and
                    bare((n.get('fn') or {}).get('q', '')) == 'makeFeature']
            ok = made and all(last((f.get('targs') or ['?'])[0]) == CREATES[b.name] for f in made)
            ck.req(ok, b.site + ' makes a ' + CREATES[b.name], 'another kind', b.where)
    strs = {n['v'] for f in ck.fx.fns.values() if f.get('body') is not None and DIR in f['file']
            for n in ast(f['body']) if n.get('k') == 'str'}
    for cls, names in TABLE.items():
        for n in names:
            if (cls, n) in seen:
                continue
            if n not in strs:
                ck.bad('%s.%s exists' % (cls or 'module', n), 'the name is not in the module',
                       DIR)
            else:
                ck.undec('%s.%s' % (cls, n), 'binding not recognised')


@rule('P31', 'groups', 'A relationship that is requested as OR becomes an or-group, one '
      'requested as XOR an alternative group, for the named parent.')
def groups(ck):
    for b in bindings(ck):
        if b.name != 'emplace_relationship':
            continue
        for facts, val, calls, n in behaviour(ck, b, b.targets[0]):
            is_or = is_xor = None
            for a, v in facts.items():
                if a[0] == 'eq' and ('v', 2) in a[1:3]:
                    s = a[1] if a[2] == ('v', 2) else a[2]
                    if s == ('str', 'OR'):
                        is_or = v
                    elif s == ('str', 'XOR'):
                        is_xor = v
            kind = 'RK_OR' if is_or or is_xor is False and is_or is None else 'RK_ALTERNATIVE' \
                if is_xor or is_or is False else None
            if kind is None:
                raise Undecided('kind of relationship not decided by the argument')
            want = ('emplaceRelationship', 0, ('enum', kind), 1)
            if is_or is False and is_xor is False or val[0] == 'ends':
                continue                  # neither: not a kind
            ck.req(val == want, 'a relationship requested as %s becomes %s' % (
                'OR' if kind == 'RK_OR' else 'XOR', kind), 'yields %s' % text(val), b.where)


@rule('P31', 'creation', 'An object created from Python is created from all arguments, in '
      'order; constraints of a model from a clone of the given one.')
def creation(ck):
    for b in bindings(ck):
        if b.kind != 'def' or b.name is not None:
            continue
        for x in b.targets:
            beh = behaviour(ck, b, x)
            if beh is None:
                ck.good(b.site + ' passes its arguments by type')
                continue
            for facts, val, calls, n in beh:
                cls = last(b.cls)
                site = '%s(%d arguments)' % (b.site, n)
                if val[:2] != ('new', cls):
                    ck.bad(site + ' yields a new ' + cls, 'yields %s' % text(val), b.where)
                    continue
                args = val[2:]
                if cls.endswith('Constraint'):
                    want = (('clone', 0),) + tuple(range(1, n))
                else:
                    want = tuple(range(n))
                ok = len(args) >= n and all(same_optional(facts, a, w) for a, w in
                                            zip(args, want))
                rest = args[len(want):]
                # further arguments have their defaults
                dflt = all(not isinstance(a, int) and not has_int(a) for a in rest)
                ck.req(ok and dflt, site + ' passes all arguments in order',
                       'passes %s' % ', '.join(map(text, args)), b.where)
                if cls == 'FeatureSourceRange' and n < 4 and len(args) > 3:
                    ck.req(args[3] == ('enum', 'necessary'), site + ' is necessary unless asked',
                           'is %s' % text(args[3]), b.where)


def has_int(t):
    return isinstance(t, tuple) and any(isinstance(x, int) and not isinstance(x, bool) or
                                        has_int(x) for x in t[1:])


@rule('P31', 'enumerators', 'Each enumerator of the module has the value of the enumerator '
      'with its name.')
def enumerators(ck):
    seen = {}
    for b in bindings(ck):
        if b.kind != 'value' or b.of != 'enum_':
            continue
        v = unwrap(b.extra[0]) if b.extra else {}
        if v.get('k') != 'ref' or b.name is None:
            ck.undec(b.site, 'value not recognised', b.where)
            continue
        ck.req(v.get('n') == b.name, b.site + ' is ' + b.name, 'is %s' % v.get('n'), b.where)
        seen.setdefault(b.cls, set()).add(b.name)
    for cls, names in seen.items():
        vals = {x['n'] for x in ck.fx.enums.get(V + cls, {}).get('vals', ())}
        if vals:
            ck.req(vals <= names, 'all enumerators of %s exist' % cls,
                   'missing: %s' % ', '.join(sorted(vals - names)), DIR)


@rule('P31', 'ownership', 'Objects that belong to a model are handed out without passing on '
      'their ownership, and iterators keep the iterated object alive.')
def ownership(ck):
    for b in bindings(ck):
        if b.kind != 'def' or b.name is None or b.cls not in TABLE or \
                b.name not in TABLE[b.cls]:
            continue
        for x in b.targets[:1]:
            if x['k'] == 'un':
                t = x['e']['fn'].get('rt') or ''
            elif x['k'] == 'lambda':
                t = x['bodies'][0].get('rt') or ''
            else:
                continue
            pol = [e.get('n') for e in b.extra if e.get('k') == 'ref' and
                   'return_value_policy' in (e.get('t') or '')]
            if last(b.cls).endswith('Builder'):
                continue                  # yields itself
            if t.rstrip().endswith('*') and V in t:
                ck.req(pol and pol[0] in POLICIES, b.site + ' stays property of the model',
                       'policy %s' % (pol or 'take_ownership (default)'), b.where)
            if t.split('<')[0].strip().endswith('iterator') and t.startswith('pybind11'):
                ka = [e for e in b.extra if 'keep_alive<0, 1>' in (
                    (e.get('cls') or '') + (e.get('t') or ''))]
                ck.req(ka, b.site + ' keeps the iterated object alive',
                       'the iterator may outlive it', b.where)


DEFAULTS = {('FeatureModel', 'remove_feature'): {'recursive': False},
            ('FeatureModel', 'merge_with'): {'strict': True}}


@rule('P31', 'defaults', 'Arguments that may be omitted have the defaults of the library.')
def defaults(ck):
    for b in bindings(ck):
        want = DEFAULTS.get((b.cls, b.name))
        if want is None:
            continue
        for e in b.extra:
            if e.get('k') == 'call' and 'pybind11::arg' in (e.get('fn') or {}).get('q', ''):
                names = [n['v'] for n in ast(e.get('obj')) if n.get('k') == 'str'] or \
                    [n['v'] for n in ast(e) if n.get('k') == 'str']
                vals = [n['v'] for n in ast(e.get('a')) if n.get('k') == 'bool']
                if len(names) == 1 and len(vals) == 1 and names[0] in want:
                    ck.req(bool(vals[0]) == want[names[0]], '%s: %s' % (b.site, names[0]),
                           'default %s' % vals[0], b.where)


@rule('P31', 'registered', 'Every part of the module is registered when it is loaded.')
def registered(ck):
    roots = [f for f in ck.fx.fns.values() if f.get('body') is not None and DIR in f['file'] and
             bare(f['q']).startswith(('PyInit_', 'pybind11_init_'))]
    ck.need(roots, 'no module')
    todo, seen = list(roots), set()
    while todo:
        f = todo.pop()
        if f['key'] in seen:
            continue
        seen.add(f['key'])
        for n in ast(f['body']):
            q = (n.get('fn') or {}).get('q')
            if q:
                todo += [g for g in ck.fns(q) if DIR in g['file']]
    for f in {b.f['key']: b.f for b in bindings(ck)}.values():
        ck.req(f['key'] in seen, bare(f['q']) + ' is part of the module',
               'never called', f)
