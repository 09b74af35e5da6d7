"""Obligations and the driver that runs the scenarios of one property and writes the evidence."""
import importlib, json, os, sys, time, traceback
from multiprocessing import Pool
from .drive import Session, Missing
from .terms import show

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVED, VIOLATED, UNDECIDED = 'PROVED', 'VIOLATED', 'UNDECIDED'


class Ob(object):
    """one obligation: a rule applied to one construct"""
    __slots__ = ('rule', 'verdict', 'where', 'detail', 'sc')

    def __init__(self, rule, verdict, where, detail='', sc=''):
        self.rule, self.verdict, self.where, self.detail, self.sc = rule, verdict, where, detail, sc

    def d(self):
        return dict(rule=self.rule, verdict=self.verdict, where=self.where, detail=self.detail, scenario=self.sc)


def ok(rule, where, detail=''):
    return Ob(rule, PROVED, where, detail)


def bad(rule, where, detail=''):
    return Ob(rule, VIOLATED, where, detail)


def unk(rule, where, detail=''):
    return Ob(rule, UNDECIDED, where, detail)


_R = None
_S = None
_SC = None
_LIMIT = None


def _init(mod, tier, limit):
    global _R, _S, _SC, _LIMIT, _TIER
    _TIER = tier
    _R = importlib.import_module('sa.rules.' + mod)
    _S = Session()
    _SC = _R.scenarios(tier)
    _LIMIT = limit


def _one(i):
    sc = _SC[i]
    t0 = time.time()
    res = dict(name=sc.name, obs=[], lossy=None, stats={}, missing=None, events=0, wall=0.0)
    try:
        if hasattr(sc, 'static'):
            obs = sc.static(_S)
        else:
            run = sc.run(_S, limit=min(_LIMIT, 20) if sc.tag('slow') and _TIER != 'thorough' else _LIMIT)
            res['lossy'] = run.lossy
            res['events'] = len(run.log)
            res['stats'] = dict(run.stats)
            res['functions'] = sorted(getattr(run, 'functions', ()))
            obs = _R.judge(sc, run, _S)
        for o in obs:
            o.sc = sc.name
            res['obs'].append(o.d())
    except Missing as e:
        res['missing'] = str(e)
    except Exception as e:
        if os.environ.get('SA_DEBUG'):
            raise
        res['lossy'] = 'rule: %s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-1500:]
    res['wall'] = time.time() - t0
    return res


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line.split(' ', 2)[2])
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    verbose = '-v' in argv
    only = [a[1:] for a in argv if a.startswith('@')]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    R = importlib.import_module('sa.rules.' + prop.lower())
    scs = R.scenarios(tier)
    idx = [i for i, s in enumerate(scs) if not only or any(o in s.name for o in only)]
    idx.sort(key=lambda i: -scs[i].tags.get('cost', 0) if hasattr(scs[i], 'tags') else 0)
    limit = getattr(R, 'LIMIT', 120) * (3 if tier == 'thorough' else 1)
    results = []
    if os.environ.get('SA_DEBUG'):
        _init(prop.lower(), tier, limit)
        results = [_one(i) for i in idx]
    else:
        with Pool(min(8, os.cpu_count() or 1), _init, (prop.lower(), tier, limit)) as pool:
            for r in pool.imap_unordered(_one, idx, chunksize=1):
                results.append(r)
    results.sort(key=lambda r: r['name'])
    post = getattr(R, 'post', None)
    extra = []
    if post and not only:
        extra = post(results)
    obs = [o for r in results for o in r['obs']] + [o.d() for o in extra]
    missing = sorted(set(r['missing'] for r in results if r['missing']))
    viol = [o for o in obs if o['verdict'] == VIOLATED]
    known = known_findings(prop)
    seen = {}
    for v in viol:
        k = (v['rule'], v['where'], v['detail'])
        seen.setdefault(k, v)
    viol = list(seen.values())
    new, old = [], []
    for v in viol:
        line = '%s at %s' % (v['rule'], v['where'])
        if any(k in line + ' ' + v['detail'] for k in known):
            old.append(v)
        else:
            new.append(v)
    undec = [o for o in obs if o['verdict'] == UNDECIDED]
    proved = [o for o in obs if o['verdict'] == PROVED]
    lossy = [(r['name'], r['lossy'] or 'not found: ' + r['missing']) for r in results if r['lossy'] or r['missing']]
    if verbose:
        for r in results:
            print('%-50s %-12s obs=%d bad=%d unk=%d ev=%d %.1fs' % (r['name'], str(r['lossy'])[:60], len(r['obs']),
                  sum(o['verdict'] == VIOLATED for o in r['obs']), sum(o['verdict'] == UNDECIDED for o in r['obs']), r['events'], r['wall']))
            if r.get('trace'):
                print(r['trace'])
        for o in undec:
            print('UNDECIDED', o)
    for v in old:
        print('KNOWN-FINDING: property=%s %s at %s %s' % (prop, v['rule'], v['where'], v['detail']))
    ev = os.environ.get('SA_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rules = {}
    for o in obs:
        d = rules.setdefault(o['rule'], dict(obligations=0, proved=0, undecided=0, violated=0))
        d['obligations'] += 1
        d[{'PROVED': 'proved', 'VIOLATED': 'violated', 'UNDECIDED': 'undecided'}[o['verdict']]] += 1
    distinct = len(set((o['rule'], o['where'], o['detail'], o['scenario']) for o in proved))
    doc = dict(property=prop, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=len(new),
               coverage=dict(
                   explanation=R.EXPLAIN,
                   scenarios=len(results), scenarios_fully_analysed=len(results) - len(lossy),
                   not_fully_analysed=['%s: %s' % x for x in lossy][:40],
                   abstract_events=sum(r['events'] for r in results),
                   engine_totals={k: sum(r['stats'].get(k, 0) for r in results if isinstance(r['stats'].get(k, 0), (int, float))) for k in sorted(set(k for r in results for k in r['stats']))},
                   obligations=len(obs), discharged=len(proved), distinct_discharged=distinct, undecided=len(undec),
                   rules=rules,
                   samples=proved[:3] + proved[len(proved) // 2:len(proved) // 2 + 3] + undec[:3]),
               assumptions=getattr(R, 'ASSUME', []))
    if new:
        rp = os.path.join(ev, prop + '.violations.json')
        json.dump(new, open(rp, 'w'), indent=1)
        for v in new[:12]:
            print('%s: %s -- %s [%s]' % (v['where'], v['rule'], v['detail'], v['scenario']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    json.dump(doc, open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    print('%s: %d scenarios, %d obligations, %d discharged, %d undecided, %d violations, %.1fs' % (
        prop, len(results), len(obs), len(proved), len(undec), len(new), time.time() - t0))
    return 1 if new else 0


class Static(object):
    """a task that inspects the sources without the interpreter"""
    def __init__(self, name, fn, **tags):
        self.name = name
        self.static = fn
        self.tags = tags
