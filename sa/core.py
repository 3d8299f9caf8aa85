"""Obligations, rule registry, run driver, evidence and known findings."""
import json, os, sys, time, traceback
from . import terms as T
from . import cfront
from .cfront import AnalysisBroken, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = {}          # property -> [(rule id, fn, minimum decided obligations on the base tree, tier)]


def rule(prop, rid, need=1, tier='quick'):
    def deco(f):
        RULES.setdefault(prop, []).append((rid, f, need, tier))
        return f
    return deco


class Ob:
    """One obligation: rule applied at one subject."""
    __slots__ = ('rule', 'subject', 'loc', 'status', 'msg')

    def __init__(self, rule, subject, loc, status, msg=''):
        self.rule, self.subject, self.loc, self.status, self.msg = rule, subject, loc, status, msg

    @property
    def key(self):
        return '%s:%s' % (self.rule, self.subject)


class Sink:
    """Collects the obligations of one rule."""

    def __init__(self, rid):
        self.rid = rid
        self.obs = []

    def ok(self, subject, loc='', msg=''):
        self.obs.append(Ob(self.rid, subject, loc, 'ok', msg))

    def bad(self, subject, loc='', msg=''):
        self.obs.append(Ob(self.rid, subject, loc, 'violation', msg))

    def und(self, subject, loc='', msg=''):
        self.obs.append(Ob(self.rid, subject, loc, 'undecided', msg))

    def check(self, cond, subject, loc='', msg=''):
        (self.ok if cond else self.bad)(subject, loc, '' if cond else msg)

    def same(self, subject, loc, got, want, assume=None, leafcmp=None, second=None):
        """got == want on every gate (under the assumption)."""
        if got is None or want is None:
            self.und(subject, loc, 'no value computed')
            return
        if assume is not None:
            got, want = T.ite(assume, got, False), T.ite(assume, want, False)
        m = T.compare(got, want, (), leafcmp)
        if m is not None and second is not None:
            m2 = second(got, want)
            if m2 is None:
                m = None
        if m is None:
            self.ok(subject, loc)
        elif m.undecided:
            self.und(subject, loc, m.text())
        else:
            self.bad(subject, loc, m.text())

    def holds(self, subject, loc, cond, msg=''):
        """The gated boolean is True on every feasible path."""
        cond = T.truthv(cond)
        bad = None
        for path, l in T.leaves(cond):
            if l is not True:
                und = any('unk' in T._FLAGS[x] for c, _ in path for x in T.deep_atoms(c))
                bad = (path, und)
                if not und:
                    break
        if bad is None:
            self.ok(subject, loc)
        elif bad[1]:
            self.und(subject, loc, 'depends on a value the domain does not track')
        else:
            cond = ' and '.join(('' if b else 'not ') + T.show(T.V(c, True, False)) for c, b in bad[0]) or 'always'
            self.bad(subject, loc, msg + ' (fails when ' + T.clip(cond, 400) + ')')


class Ctx:
    def __init__(self, tier='quick', seed=1):
        self.tier, self.seed = tier, seed
        self.cache = {}
        self.analysed = set()
        self.failures = []

    def memo(self, key, f):
        if key not in self.cache:
            self.cache[key] = f()
        return self.cache[key]

    @property
    def src(self):
        return self.memo('src', lambda: cfront.Program(cfront.src_units()))

    @property
    def gpu(self):
        return self.memo('gpu', lambda: cfront.Program(cfront.src_units(), gpu=True))

    @property
    def py(self):
        from .pyfront import PyProgram
        return self.memo('py', PyProgram)

    @property
    def bindings(self):
        return self.memo('bind', lambda: cfront.Program(cfront.binding_units(), bindings=True))


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                parts = line[7:].split(' ', 2)
                d = dict(x.split('=', 1) for x in parts[:2])
                out.append((d['property'], d['key'], parts[2] if len(parts) > 2 else ''))
    return out


def run(prop, tier, seed):
    from . import allrules  # noqa: F401  (registers the rules)
    t0 = time.time()
    T.SEED = 0
    if tier == 'thorough':
        T.NPT, T.FULL = 60, (1 << 60) - 1
    ctx = Ctx(tier, seed)
    obs = []
    broken = []
    per = {}
    for rid, f, need, rt in RULES.get(prop, []):
        if rt == 'thorough' and tier != 'thorough':
            continue
        s = Sink(prop + '/' + rid)
        try:
            f(ctx, s)
        except AnalysisBroken as e:
            broken.append('%s: %s' % (rid, e))
        except RecursionError as e:
            s.und('<analysis>', '', 'recursion bound')
        except Exception:
            # the rule met a construct it cannot interpret: no verdict from it
            s.und('<analysis>', '', traceback.format_exc()[-600:])
            ctx.failures.append((rid, traceback.format_exc()))
        n = {k: sum(1 for o in s.obs if o.status == k) for k in ('ok', 'violation', 'undecided')}
        n['expected_on_base'] = need
        per[rid] = n
        obs += s.obs
    viol = [o for o in obs if o.status == 'violation']
    known = {(p, k): t for p, k, t in load_known()}
    new, old = [], []
    for o in viol:
        (old if (prop, o.key) in known else new).append(o)
    shown = {}
    for o in old:
        shown.setdefault(o.key, o)
    for k, o in shown.items():
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[(prop, k)] or o.msg, k))
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'static analysis of the current source tree: each obligation is one rule applied to one '
                           'construct; "ok" = decided to hold, "undecided" = the abstract domain gives no verdict',
            'obligations': len(obs), 'discharged': sum(1 for o in obs if o.status == 'ok'),
            'undecided': sum(1 for o in obs if o.status == 'undecided'),
            'rules': per,
            'analysed_functions': sorted(ctx.analysed),
            'samples': [dict(rule=o.rule, subject=o.subject, at=o.loc, status=o.status) for o in obs[:400]],
            'undecided_list': [dict(rule=o.rule, subject=o.subject, at=o.loc, why=T.clip(o.msg, 600))
                               for o in obs if o.status == 'undecided'],
            'errors': broken,
        },
        'assumptions': ['real-number semantics for floating point', 'the front ends (clang AST, Python ast) are correct',
                        'distinct buffers do not alias'],
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if new:
        rp = os.path.join('evidence', prop + '.replay.json')
        with open(os.path.join(VERIF, rp), 'w') as fh:
            json.dump([dict(rule=o.rule, subject=o.subject, at=o.loc, message=o.msg, key=o.key) for o in new], fh, indent=1)
        for o in new[:12]:
            print('  %s at %s: %s' % (o.key, o.loc, T.clip(o.msg, 700)))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if broken:
        print('ANALYSIS-ERROR property=%s %s' % (prop, '; '.join(broken)))
        return 2
    print('OK property=%s obligations=%d discharged=%d undecided=%d known=%d wall=%.1fs' % (
        prop, len(obs), ev['coverage']['discharged'], ev['coverage']['undecided'], len(shown), wall))
    return 0
