"""Entry points and option scenarios of the public API (the configurations the checks quantify over).

Every scenario calls one public function with symbolic arguments; option values that select code
(mode, process count, presence of a key or radius...) are enumerated, everything else is symbolic.
"""
from .drive import sym, ilist, mk, const
from .terms import cmp_lit, ONE
NONE = const(None)

CL = 'fog.clustering.'


class Sc(object):
    def __init__(self, name, fn, args=(), kw=None, inst=None, method=None, facts=(), **tags):
        self.name = name
        self.fn = fn
        self.args = list(args)
        self.kw = kw or {}
        self.inst = inst
        self.method = method
        self.facts = list(facts)
        self.tags = tags

    def tag(self, n, d=None):
        return self.tags.get(n, d)

    def run(self, S, limit=None):
        return S.run(self.fn, self.args, self.kw, facts=self.facts, inst=self.inst, method=self.method, limit=limit, consume=self.tags.get('consume', True), opaque=self.tags.get('opaque'))


SIM = sym('similarity', 'fn', 'num')
DIST = sym('distance', 'fn', 'num')
SIMP = sym('similarity', 'fn', 'any')
DISTP = sym('distance', 'fn', 'any')
RAD = sym('radius', 'num')
MN = sym('min_size', 'int')
MX = sym('max_size', 'num')
KEY = sym('key', 'fn')
KEYS = sym('keys', 'fn', 'iter')
BLOCK = sym('block', 'fn')
BLOCKS = sym('blocks', 'fn', 'iter')
WIN = sym('window', 'int')
CHUNK = sym('chunk_size', 'int')
SEED = sym('seed', 'int')
LIM = {'min_size': MN, 'max_size': MX}
WFACT = [cmp_lit('>=', WIN, ONE)]
CFACT = [cmp_lit('>=', CHUNK, ONE)]


def data(k='list', elem=None):
    return sym('data', k, None, elem)


CRIT = {
    'sim+r': dict(similarity=SIM, radius=RAD),
    'dist+r': dict(distance=DIST, radius=RAD),
    'sim': dict(similarity=SIMP),
    'dist': dict(distance=DISTP),
}
MODES = ('connected_components', 'fuzzy_clusters')


def clustering(dk='list', full=True):
    """clustering routines and record joins; dk: kind of the dataset"""
    out = []

    def add(name, fn, args=(), kw=None, facts=(), **tags):
        kw = dict(kw or {})
        tags.setdefault('data', args[0] if args else None)
        tags.setdefault('opts', kw)
        out.append(Sc(name, CL + fn, args, kw, facts=facts, **tags))
    D = data(dk)
    crits = CRIT if full else {'sim+r': CRIT['sim+r']}
    for c, ck in crits.items():
        add('pairwise_leader/' + c, 'pairwise_leader', [D], dict(ck, **LIM), crit=c, fam='pairwise', leader=True)
        for f in ('pairwise_fuzzy_clusters', 'pairwise_connected_components'):
            add(f + '/' + c, f, [D], dict(ck, **LIM), crit=c, fam='pairwise')
            add(f + '/key/' + c, f, [D], dict(ck, key=KEY, **LIM), crit=c, fam='pairwise', key=True)
        add('blocking/block/' + c, 'blocking', [D], dict(ck, block=BLOCK, **LIM), crit=c, fam='blocking')
        add('sorted_neighborhood/' + c, 'sorted_neighborhood', [D], dict(ck, key=KEY, window=WIN, **LIM), facts=WFACT, crit=c, fam='snm')
        add('adaptive_sorted_neighborhood/' + c, 'adaptive_sorted_neighborhood', [D], dict(ck, key=KEY, window=WIN, **LIM), facts=WFACT, crit=c, fam='asnm')
    R = CRIT['sim+r']
    for f in ('pairwise_fuzzy_clusters', 'pairwise_connected_components'):
        for c in (('sim+r', 'dist') if full else ('sim+r',)):
            add(f + '/processes/' + c, f, [D], dict(CRIT[c], processes=const(8), chunk_size=CHUNK, **LIM), facts=CFACT, crit=c, fam='pairwise', par=True)
        add(f + '/processes/key', f, [D], dict(R, key=KEY, processes=const(8), chunk_size=CHUNK, **LIM), facts=CFACT, crit='sim+r', fam='pairwise', par=True, key=True)
    add('pairwise/default', 'pairwise', [D], dict(R, **LIM), crit='sim+r', fam='pairwise')
    for m in ('connected_components', 'fuzzy_clusters', 'leader'):
        add('pairwise/' + m, 'pairwise', [D], dict(R, mode=const(m), **LIM), crit='sim+r', fam='pairwise', leader=m == 'leader')
    add('blocking/blocks', 'blocking', [D], dict(R, blocks=BLOCKS, **LIM), crit='sim+r', fam='blocking', multi=True)
    add('blocking/fuzzy', 'blocking', [D], dict(R, block=BLOCK, mode=const('fuzzy_clusters'), **LIM), crit='sim+r', fam='blocking')
    for c in (('sim+r', 'dist+r') if full else ('sim+r',)):
        add('blocking/processes/' + c, 'blocking', [D], dict(CRIT[c], block=BLOCK, processes=const(8), **LIM), crit=c, fam='blocking', par=True)
    if full:
        add('blocking/processes/blocks', 'blocking', [D], dict(R, blocks=BLOCKS, processes=const(8), **LIM), crit='sim+r', fam='blocking', par=True, multi=True)
        add('pairwise/processes', 'pairwise', [D], dict(R, processes=const(8), chunk_size=CHUNK, **LIM), facts=CFACT, crit='sim+r', fam='pairwise', par=True)
    add('key_collision/key', 'key_collision', [D], dict(key=KEY, **LIM), fam='keycol')
    add('key_collision/nokey', 'key_collision', [D], dict(LIM), fam='keycol', nokey=True)
    add('key_collision/keys+merge', 'key_collision', [D], dict(keys=KEYS, merge=const(True), **LIM), fam='keycol', multi=True)
    add('key_collision/keys', 'key_collision', [D], dict(keys=KEYS, merge=const(False), **LIM), fam='keycol', multi=True)
    KL = sym('keys', 'list', None, 'fn')
    add('sorted_neighborhood/keys', 'sorted_neighborhood', [D], dict(R, keys=KL, window=WIN, **LIM), facts=WFACT, crit='sim+r', fam='snm', multi=True)
    add('sorted_neighborhood/fuzzy', 'sorted_neighborhood', [D], dict(R, key=KEY, window=WIN, mode=const('fuzzy_clusters'), **LIM), facts=WFACT, crit='sim+r', fam='snm')
    add('adaptive_sorted_neighborhood/keys', 'adaptive_sorted_neighborhood', [D], dict(R, keys=KL, window=WIN, **LIM), facts=WFACT, crit='sim+r', fam='asnm', multi=True)
    add('adaptive_sorted_neighborhood/fuzzy', 'adaptive_sorted_neighborhood', [D], dict(R, key=KEY, window=WIN, mode=const('fuzzy_clusters'), **LIM), facts=WFACT, crit='sim+r', fam='asnm')
    TK = sym('key', 'fn', 'iter')
    mets = ('jaccard', 'dice', 'overlap', 'binary_cosine') if full else ('jaccard',)
    for m in INDEX_METRICS:
        add('intersection_index/' + m, 'intersection_index', [D], dict(metric=const(m), radius=RAD, key=TK, **LIM), fam='ii', metric=m)
    add('intersection_index/nokey', 'intersection_index', [D], dict(radius=RAD, **LIM), fam='ii', metric='jaccard', nokey=True)
    add('intersection_index/fuzzy', 'intersection_index', [D], dict(radius=RAD, key=TK, mode=const('fuzzy_clusters'), **LIM), fam='ii', metric='jaccard')
    H, B = sym('h', 'int'), sym('bands', 'int')
    HF = [cmp_lit('>=', H, ONE), cmp_lit('>=', B, ONE), cmp_lit('<=', B, H)]
    add('minhash', 'minhash', [D], dict(h=H, key=TK, radius=RAD, bands=B, seed=SEED), facts=HF, fam='minhash')
    add('minhash/numpy', 'minhash', [D], dict(h=H, key=TK, radius=RAD, bands=B, seed=SEED, use_numpy=const(True)), facts=HF, fam='minhash')
    if full:
        add('minhash/anykey', 'minhash', [D], dict(h=H, key=KEY, radius=RAD, bands=B, seed=SEED), facts=HF, fam='minhash')
        add('intersection_index/anykey', 'intersection_index', [D], dict(radius=RAD, key=KEY, **LIM), fam='ii', metric='jaccard')
    add('minhash/nokey', 'minhash', [D], dict(h=H, radius=RAD, bands=B, seed=SEED), facts=HF, fam='minhash', nokey=True)
    add('vp_tree', 'vp_tree', [D], dict(distance=DIST, radius=RAD, **LIM), crit='dist+r', fam='vptree')
    for m in MODES:
        s = '' if m == 'connected_components' else '/fuzzy'
        add('laesa' + s, 'laesa', [D], dict(distance=DIST, radius=RAD, seed=SEED, mode=const(m), **LIM), crit='dist+r', fam='laesa')
    add('laesa/pivots', 'laesa', [D], dict(distance=DIST, radius=RAD, seed=SEED, pivots=sym('pivots', 'int'), **LIM), facts=[cmp_lit('>=', sym('pivots', 'int'), ONE)], crit='dist+r', fam='laesa')
    K = sym('k', 'int')
    for c in ('sim+r', 'dist+r'):
        add('nn_descent/' + c, 'nn_descent', [D], dict(CRIT[c], k=K, seed=SEED, **LIM), facts=[cmp_lit('>=', K, ONE)], crit=c, fam='nnd')
    add('nn_descent/k=None', 'nn_descent', [D], dict(CRIT['sim+r'], seed=SEED, **LIM), crit='sim+r', fam='nnd')
    add('nn_descent/fuzzy', 'nn_descent', [D], dict(CRIT['sim+r'], k=K, seed=SEED, mode=const('fuzzy_clusters'), **LIM), facts=[cmp_lit('>=', K, ONE)], crit='sim+r', fam='nnd')
    for c in (('sim+r', 'dist+r') if full else ('sim+r',)):
        add('nn_descent_full/' + c, 'nn_descent_full', [D], dict(CRIT[c], k=K, seed=SEED, **LIM), facts=[cmp_lit('>=', K, ONE)], crit=c, fam='nnd', slow=True)
    SD = data(dk, 'str')
    T = sym('k', 'int')
    TF = [cmp_lit('>=', T, ONE)]
    for m in MODES:
        s = '' if m == 'connected_components' else '/fuzzy'
        add('passjoin' + s, 'passjoin', [SD, T, DIST], dict(mode=const(m), **LIM), facts=TF, crit='dist+k', fam='passjoin')
    add('passjoin/unsorted', 'passjoin', [SD, T, DIST], dict(sort=const(False), **LIM), facts=TF, crit='dist+k', fam='passjoin')
    for c in ('sim+r', 'dist+r'):
        add('quickjoin/' + c, 'quickjoin', [D], dict(CRIT[c], seed=SEED, block_size=sym('block_size', 'int'), **LIM), crit=c, fam='quickjoin')
    add('quickjoin/fuzzy', 'quickjoin', [D], dict(CRIT['dist+r'], seed=SEED, block_size=sym('block_size', 'int'), mode=const('fuzzy_clusters'), **LIM), crit='dist+r', fam='quickjoin')
    add('quickjoin/vp_tree', 'quickjoin', [D], dict(CRIT['dist+r'], seed=SEED, block_size=sym('block_size', 'int'), vp_tree=const(True), **LIM), crit='dist+r', fam='quickjoin')
    add('quickjoin/processes', 'quickjoin', [D], dict(CRIT['dist+r'], seed=SEED, block_size=sym('block_size', 'int'), processes=const(8), **LIM), crit='dist+r', fam='quickjoin', par=True)
    return out


INDEX_METRICS = ('jaccard', 'overlap')


def joins(dk='list', dk2=None):
    out = []
    D = sym('records', dk)
    TKZ = sym('tokenizer', 'fn', 'list')
    TH = sym('threshold', 'num')
    for f in ('ppjoin', 'all_pairs', 'ppjoin_plus'):
        for m in ('jaccard', 'dice', 'binary_cosine'):
            if f != 'ppjoin' and m != 'jaccard':
                continue
            out.append(Sc('%s/%s' % (f, m), CL + f, [D, TH], dict(metric=const(m), tokenizer=TKZ), data=D, fam='ppjoin', metric=m))
        out.append(Sc('%s/notok' % f, CL + f, [D, TH], dict(), data=D, fam='ppjoin', metric='jaccard', notok=True))
        out.append(Sc('%s/noorder' % f, CL + f, [D, TH], dict(tokenizer=TKZ, token_ordering=NONE), data=D, fam='ppjoin', metric='jaccard'))
    L, R = sym('left', dk), sym('right', dk2 or dk)
    out.append(Sc('hashjoin/key', 'fog.join.hashjoin', [L, R], dict(key=KEY), data=(L, R), fam='hashjoin'))
    out.append(Sc('hashjoin/keys', 'fog.join.hashjoin', [L, R], dict(keys=KEYS), data=(L, R), fam='hashjoin', multi=True))
    return out


def metrics(dk='list'):
    out = []
    A, B = sym('A', dk), sym('B', dk)
    for f in ('jaccard_similarity', 'dice_coefficient', 'overlap_coefficient', 'binary_cosine_similarity', 'cosine_similarity'):
        out.append(Sc(f, 'fog.metrics.' + f, [A, B], {}, fam='metric', measure=f))
    out.append(Sc('intersection_size', 'fog.metrics.utils.intersection_size', [A, B], {}, fam='metric', measure='intersection_size'))
    return out


def wmetrics():
    out = []
    A, B = sym('A', 'dict', None, 'num'), sym('B', 'dict', None, 'num')
    for f in ('sparse_cosine_similarity', 'sparse_dot_product', 'weighted_jaccard_similarity', 'cosine_similarity'):
        n = 'fog.metrics.' + f
        out.append(Sc(f + '/dict', n, [A, B], {}, fam='wmetric', measure=f))
    for f in ('sparse_norm', 'sparse_normalize'):
        out.append(Sc(f, 'fog.metrics.' + f, [A], {}, fam='wmetric', measure=f))
    SA, SB = sym('A', 'set'), sym('B', 'set')
    out.append(Sc('sparse_binary_cosine_similarity', 'fog.metrics.sparse_binary_cosine_similarity', [SA, SB], {}, fam='wmetric', measure='binary'))
    return out


def lsh(dk='list'):
    out = []
    Q = sym('sequence', dk, None, 'str')
    H, P = sym('h', 'int'), sym('precision', 'int')
    hf = [cmp_lit('>=', H, ONE)]
    pf = [cmp_lit('>=', P, ONE)]
    out.append(Sc('MinHash', 'fog.lsh.MinHash', [Q], {}, inst=([], dict(h=H, seed=SEED)), method='create_signature', facts=hf, fam='lsh', length=H))
    out.append(Sc('MinHash/numpy', 'fog.lsh.MinHash', [Q], {}, inst=([], dict(h=H, seed=SEED, use_numpy=const(True))), method='create_signature', facts=hf, fam='lsh', length=H, numpy=True))
    out.append(Sc('LSBMinHash', 'fog.lsh.LSBMinHash', [Q], {}, inst=([], dict(precision=P, seed=SEED)), method='create_signature', facts=pf, fam='lsh', length=P))
    out.append(Sc('SuperMinHash', 'fog.lsh.SuperMinHash', [Q], {}, inst=([], dict(h=H)), method='create_signature', facts=hf, fam='lsh', length=H))
    out.append(Sc('simhash', 'fog.lsh.simhash.simhash', [Q], {'f': const(128)}, fam='simhash'))
    A, B = sym('A', 'list', None, 'int'), sym('B', 'list', None, 'int')
    out.append(Sc('minhash_similarity', 'fog.lsh.minhash_similarity', [A, B], {}, fam='lshsim'))
    out.append(Sc('lsb_minhash_similarity', 'fog.lsh.lsb_minhash_similarity', [A, B], {}, fam='lshsim'))
    return out


def evaluation(dk='list'):
    out = []
    for k in ('dict', 'list', 'tuple', 'iter'):
        if dk == 'iter' and k != 'iter':
            continue
        L = sym('labels', k, None, 'tuple2' if k == 'iter' else None)
        out.append(Sc('labels_to_clusters/' + k, 'fog.evaluation.labels_to_clusters', [L], {}, fam='labels', form=k))
    C = sym('clusters', dk, None, 'list')
    out.append(Sc('clusters_to_labels', 'fog.evaluation.clusters_to_labels', [C], {}, fam='labels'))
    out.append(Sc('clusters_to_labels/key', 'fog.evaluation.clusters_to_labels', [C], dict(key=KEY), fam='labels', key=True))
    out.append(Sc('clusters_to_labels/flat', 'fog.evaluation.clusters_to_labels', [C], dict(flat=const(True)), fam='labels', flat=True))
    T, P = sym('truth', 'list', None, 'list'), sym('predicted', 'list', None, 'list')
    if dk == 'list':
        for add in (False, True):
            out.append(Sc('best_matching%s' % ('/additional' if add else ''), 'fog.evaluation.best_matching_macro_average', [T, P],
                          dict(allow_additional_items=const(add)), fam='bm', add=add))
    return out


def keyers():
    out = []
    X = sym('string', 'str')
    N = sym('n', 'int')
    nf = [cmp_lit('>=', N, ONE)]
    for f in ('omission_key', 'skeleton_key'):
        out.append(Sc(f, 'fog.key.' + f, [X], {}, fam='key'))
    for f in ('cologne', 'rusalka'):
        out.append(Sc(f, 'fog.phonetics.' + f, [X], {}, fam='phon'))
    for f in ('levenshtein_1d_keys', 'levenshtein_1d_blocks', 'levenshtein_2d_blocks', 'damerau_levenshtein_1d_keys', 'damerau_levenshtein_1d_blocks', 'damerau_levenshtein_2d_blocks'):
        out.append(Sc(f, 'fog.key.' + f, [X], {}, fam='levkey'))
    out.append(Sc('ngram_keys', 'fog.key.misc.ngram_keys', [N, X], {}, facts=nf, fam='key'))
    out.append(Sc('squeeze', 'fog.utils.squeeze', [X], {}, fam='key'))
    out.append(Sc('ngrams', 'fog.tokenizers.ngrams', [N, sym('tokens', 'list')], {}, facts=nf, fam='ngrams'))
    out.append(Sc('ngrams/str', 'fog.tokenizers.ngrams', [N, X], {}, facts=nf, fam='ngrams'))
    return out


def graphs():
    out = []
    G = sym('bipartite', 'graph')
    PR = sym('project', 'any')
    TH = sym('threshold', 'num')
    for m in (None, 'cosine', 'jaccard', 'overlap', 'dice', 'binary_cosine'):
        for topo in (True, False):
            for th in (True, False):
                n = 'projection/%s/%s%s' % (m, 'topology' if topo else 'quadratic', '/threshold' if th else '')
                kw = dict(metric=const(m), use_topology=const(topo), bipartition_check=const(False))
                if th:
                    kw['threshold'] = TH
                out.append(Sc(n, 'fog.graph.monopartite_projection', [G, PR], kw, fam='projection', metric=m, topo=topo, th=th))
    out.append(Sc('projection/check', 'fog.graph.monopartite_projection', [G, PR], dict(metric=const('jaccard')), fam='projcheck', metric='jaccard', topo=True, th=False))
    H = sym('graph', 'graph')
    for rm in (False, True):
        out.append(Sc('floatsam' + ('/remove' if rm else ''), 'fog.graph.floatsam_sparsification', [H], dict(remove_edges=const(rm)), fam='floatsam', remove=rm))
    return out


def fingerprints():
    out = []
    X = sym('string', 'str')
    N = sym('n', 'int')
    nf = [cmp_lit('>=', N, ONE)]
    SW = sym('stopwords', 'iter', None, 'str')
    SP = sym('split', 'list', None, 'str')
    MT = sym('min_token_size', 'int')
    T = const(True)
    opts = [
        ('default', {}, []),
        ('nodigits', dict(keep_digits=const(False)), []),
        ('squeeze', dict(squeeze=T), []),
        ('stopwords', dict(stopwords=SW), []),
        ('split', dict(split=SP), []),
        ('mintoken', dict(min_token_size=const(3)), []),
        ('all', dict(keep_digits=const(False), squeeze=T, stopwords=SW, split=SP, min_token_size=const(3)), []),
    ]
    for cls, base, ng in (('FingerprintTokenizer', 'fog.tokenizers.', False), ('NgramsFingerprintTokenizer', 'fog.tokenizers.', True),
                          ('FingerprintingKeyer', 'fog.key.', False), ('NgramsFingerprintKeyer', 'fog.key.', True)):
        for o, kw, f in opts:
            for meth in (('tokenize', 'key', '__call__') if o in ('default', 'all') else ('tokenize',)):
                out.append(Sc('%s.%s/%s' % (cls, meth, o), base + cls, [N, X] if ng else [X], {}, inst=([], kw), method=meth,
                              facts=f + (nf if ng else []), fam='fp', cls=cls, opt=o, meth=meth, ng=ng))
    return out


WORD_BOOL = ('lower', 'unidecode', 'reduce_words', 'decode_html_entities', 'normalize_mentions', 'normalize_hashtags',
             'mentions_as_words', 'hashtags_as_words', 'split_hashtags')


def words():
    out = []
    X = sym('string', 'str')
    T = const(True)
    SL = sym('stoplist', 'iter', None, 'str')
    KP = sym('keep', 'iter', None, 'str')
    DP = sym('drop', 'iter', None, 'str')
    MN_, MX_ = sym('min_word_length', 'int'), sym('max_word_length', 'int')
    opts = [('default', {})] + [(b, {b: T}) for b in WORD_BOOL]
    opts += [('min', dict(min_word_length=MN_)), ('max', dict(max_word_length=MX_)), ('stoplist', dict(stoplist=SL)),
             ('keep', dict(keep=KP)), ('drop', dict(drop=DP))]
    allo = dict((b, T) for b in WORD_BOOL)
    allo.update(min_word_length=MN_, max_word_length=MX_, stoplist=SL)
    opts.append(('all+keep', dict(allo, keep=KP)))
    opts.append(('all+drop', dict(allo, drop=DP)))
    for o, kw in opts:
        out.append(Sc('WordTokenizer/' + o, 'fog.tokenizers.WordTokenizer', [X], {}, inst=([], kw), method='tokenize', fam='words', opt=o))
    return out


SCAN = sym('scan', 'fn', 'iter')


def opaque_scanner(I, node, cls, args, kw):
    """the low-level scanner (a generator method with a while loop) is replaced by an unknown token stream"""
    import ast
    from .interp import is_generator
    if cls is not None and is_generator(node) and any(isinstance(x, ast.While) for x in ast.walk(node)):
        return mk('app', SCAN, *args[1:])
    if cls is None and args and is_generator(node) and any(isinstance(x, ast.While) for x in ast.walk(node)):
        return mk('app', SCAN, *args[:1])
    return None


def words_opaque():
    out = []
    for s in words():
        s.name = 'pipeline:' + s.name
        s.tags['fam'] = 'wordpipe'
        s.tags['opaque'] = opaque_scanner
        out.append(s)
    return out


def misc():
    out = []
    A, B = sym('A', 'int'), sym('B', 'int')
    out.append(Sc('simhash_distance', 'fog.lsh.simhash_distance', [A, B], {}, fam='lshsim'))
    out.append(Sc('simhash_similarity', 'fog.lsh.simhash_similarity', [A, B], {}, fam='lshsim'))
    X = sym('x', 'num')
    for m, a in (('add', [X]), ('subtract', [X]), ('peek', []), ('__len__', []), ('__float__', [])):
        out.append(Sc('OnlineMean.' + m, 'fog.utils.OnlineMean', a, {}, inst=([], {}), method=m, fam='mean', meth=m))
    out.append(Sc('squeeze/roman', 'fog.utils.squeeze', [sym('string', 'str')], dict(keep_roman_numerals=const(True)), fam='key'))
    G = sym('graph', 'graph')
    out.append(Sc('component_sizes', 'fog.graph.utils.component_sizes', [G], {}, fam='graphutil'))
    return out


def cli():
    out = []
    NS = sym('namespace', 'ns')
    for f in ('split', 'transform', 'cluster'):
        out.append(Sc('cli/' + f, 'fog.cli.%s.%s_action' % (f, f), [NS], {}, fam='cli', cmd=f))
    F, M = sym('file', 'any'), sym('meta', 'dict')
    V, C = sym('values', 'dict', None, 'int'), sym('clusters', 'list', None, 'list')
    for f in ('html', 'toml'):
        out.append(Sc('report/' + f, 'fog.cli.reporting.%s.print_%s_report' % (f, f), [F, M, V, C], {}, fam='report', fmt=f))
    return out


def library(dk='list', full=True):
    return (clustering(dk, full) + joins(dk) + metrics(dk) + wmetrics() + lsh(dk) + evaluation(dk) + keyers() + graphs()
            + fingerprints() + words() + misc())
