"""C09: links do not depend on the number of processes."""
from .. import scen
from . import c07, c08
from . import links as K
from .cover import Cover, CRIT
from .c08 import crit, ASSUME, LIMIT
from ..verdict import unk

EXPLAIN = ("Same analysis as C08 on the configurations that send work to other processes: the worker function is analysed on the payloads built for it, so that the "
           "positions it compares are expressed in terms of the chunk numbers and the chunk size. (1) For every small size and chunk size, the comparisons made by the "
           "workers must decide every pair of positions; (2) an accepted pair must be handed on with the positions of the compared items in the dataset; (3) every "
           "pair a worker returns becomes a link, as on a single process; (4) the acceptance is the one of the single process (same criterion, same radius).")
ASSUME = ASSUME + ["multiprocessing.Pool.imap and imap_unordered apply the function to every payload and deliver every result once",
                   "dill.loads(dill.dumps(f)) behaves like f"]


def scenarios(tier):
    return [s for s in scen.clustering('list', True) if s.tag('fam') in ('pairwise', 'blocking') and s.tag('par') or s.name == 'quickjoin/processes']


def judge(sc, run, S):
    if run.lossy:
        return [unk(c08.R1, sc.fn, 'not fully analysed: %s' % run.lossy)]
    if sc.name.startswith('quickjoin'):
        return blocks(sc, run, S)
    return crit(sc, run, S) + c07.crit(sc, run, S)


def blocks(sc, run, S):
    """the blocks are made in the calling process; the workers' comparisons are handed on"""
    put = c08.Out()
    R = K.Records(run, S.I)
    acc = K.Acc(sc, S, R)
    cov = Cover(run, S, c08.crits, lambda p, e: False)
    sites = {}
    for lk, inv in cov.loops.items():
        for entry, paths in inv.values():
            for p in paths:
                if any(x.kind == 'app' and x.fn in CRIT for x in p.trace) and not cov.ends.get(lk):
                    continue
                for a, b in p.decided:
                    if a.C.op == 'obj' and not any(x.kind == 'ran' for x in p.trace) and linking(inv):
                        c08.handed(acc, p, a, b, sc, put, sites)
    c08.carriers(sc, run, S, R, cov, put, sites)
    return put.l + c07.crit(sc, run, S)


def linking(inv):
    """loops that hand accepted pairs on, rather than measure distances to a pivot"""
    return any(e.kind in ('ins', 'union') and (e.kind == 'union' or e.val is not None and e.val.op == 'tuple' or K.ismem(e.target)) for _, ps in inv.values() for p in ps for e in p.trace)
