"""Check framework: rules produce obligations, obligations become evidence."""
import json
import os
import time
import traceback
from . import facts as F
from .engine import *
from .engine import last, short

VERIF = F.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')

RULES = {}       # property -> [(rule id, text, fn)]


def rule(props, rid, text):
    """register a rule for one or several properties"""
    def deco(f):
        for p in props.split():
            RULES.setdefault(p, []).append((rid, text, f))
        return f
    return deco


class Undecided(Exception):
    pass


class Obligation:
    __slots__ = ('rule', 'site', 'verdict', 'detail', 'where')

    def __init__(self, rule, site, verdict, detail='', where=''):
        self.rule, self.site, self.verdict = rule, site, verdict
        self.detail, self.where = detail, where

    def js(self):
        return {'rule': self.rule, 'site': self.site, 'verdict': self.verdict,
                'detail': self.detail, 'where': self.where}


class Check:
    def __init__(self, prop, tier='quick', seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.fx = F.load()
        self.obl = []
        self._seen = set()
        self.merged = 0
        self.rid = '?'
        self.analysed = set()
        self.npaths = 0

    # --------------------------------------------------------- reporting
    def _add(self, o):
        k = (o.rule, o.site, o.verdict, o.detail if o.verdict != 'holds' else '')
        if k in self._seen:
            self.merged += 1
            return
        self._seen.add(k)
        self.obl.append(o)

    def good(self, site, detail='', where=''):
        self._add(Obligation(self.rid, site, 'holds', detail, where))

    def bad(self, site, detail, where=''):
        if hasattr(where, 'file'):
            where = '%s:%s' % (where.file, where.line)
        elif isinstance(where, dict):
            where = '%s:%s' % (where.get('file', '?'), where.get('l', '?'))
        self._add(Obligation(self.rid, site, 'violated', detail, where))

    def undec(self, site, why, where=''):
        self._add(Obligation(self.rid, site, 'undecided', why, where))

    def req(self, cond, site, detail, where=''):
        if cond:
            self.good(site)
        else:
            self.bad(site, detail, where)
        return cond

    def need(self, x, what):
        if not x:
            raise Undecided(what)
        return x

    # --------------------------------------------------------- program access
    def fn(self, q, pred=None, n=None):
        """the function(s) with a qualified name; Undecided if absent"""
        c = [f for f in self.fx.by_q.get(q, ()) if f.get('body') is not None
             and (pred is None or pred(f))]
        if n is not None and len(c) > 1:
            c = [f for f in c if len(f['params']) == n]
        if not c:
            raise Undecided('no definition of %s' % q)
        return c[0]

    def fns(self, q):
        return [f for f in self.fx.by_q.get(q, ()) if f.get('body') is not None]

    def paths(self, fn, this=THIS, args=None, eng=None, **kw):
        if isinstance(fn, str):
            fn = self.fn(fn)
        en = eng or Engine(self.fx, **kw)
        try:
            ps = en.paths(fn, this=this, args=args)
        except TooComplex as e:
            raise Undecided('too many paths in %s: %s' % (fn['q'], str(e)[:120]))
        except RecursionError:
            raise Undecided('too deep: %s' % fn['q'])
        self.analysed |= {k for k in en.analysed if k in self.fx.fns}
        self.npaths += len(ps)
        self.last_engine = en
        return ps

    # --------------------------------------------------------- running
    def run(self):
        t0 = time.time()
        for rid, text, f in RULES.get(self.prop, []):
            self.rid = rid
            n0 = len(self.obl)
            try:
                f(self)
            except Undecided as e:
                self.undec('-', str(e))
            except TooComplex as e:
                self.undec('-', 'too complex: ' + str(e)[:200])
            except F.AnalysisBroken:
                raise
            except Exception as e:          # the idiom is not recognised
                self.undec('-', 'not recognised: %s' % ''.join(
                    traceback.format_exception_only(type(e), e)).strip() +
                    ' at ' + traceback.format_tb(e.__traceback__)[-1].strip().replace('\n', ' '))
            if os.environ.get('VA_DEBUG'):
                print('%-10s %-28s %d obligations' % (self.prop, rid, len(self.obl) - n0))
        self.wall = time.time() - t0


def known():
    """property -> [signature] of open findings"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=<id> <rule>|<site>|<text>
                rest = l[len('finding: '):]
                p, sig = rest.split(' ', 1)
                out.setdefault(p.split('=')[1], []).append(sig)
    return out


def load_rules():
    import importlib
    import pkgutil
    from . import rules
    for m in pkgutil.iter_modules(rules.__path__):
        importlib.import_module('va.rules.' + m.name)
