"""Writes /verif/properties.jsonl (the single place where property texts are kept)."""
import json, os
CL = 'fog/clustering/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

prop('C01', "Caller's data is never modified",
 "No public library function or method modifies an object handed to it by its caller (dataset, record, token collection, vector, cluster list, label mapping, graph, option collection), nor an item inside such an object. The only exception is graph sparsification called with edge removal explicitly enabled, which may remove edges of the given graph and nothing else.",
 ['inputs', 'configurations'], 'every public function and method, every argument value and option combination',
 'Tests look at return values only; no test compares its inputs before and after a call, and most call functions with throw-away literals.',
 ['fog/clustering', 'fog/metrics', 'fog/graph', 'fog/evaluation', 'fog/join', 'fog/key', 'fog/lsh', 'fog/tokenizers', 'fog/utils.py'],
 [('copy before in-place work (list(), sorted(), set(), fresh accumulators)', 'every public function'), ('guarded edge removal', 'fog/graph/sparsification.py floatsam_sparsification')])

prop('C02', 'Calls leave no trace in shared state',
 "A call to a public library function or to a method of a tokenizer, keyer or hasher leaves no trace outside its own result: it changes no module-level object, class attribute, default-argument object or attribute of the instance it is called on after construction (running means excepted, whose purpose is to accumulate), and it prints nothing. So the result of a call never depends on which calls were made before it.",
 ['histories', 'inputs'], 'every sequence of public calls in one process',
 'Each test makes one or two calls with its own arguments; state leaking from one call into a later, different call is never exercised.',
 ['fog/clustering', 'fog/metrics', 'fog/graph', 'fog/evaluation', 'fog/join', 'fog/key', 'fog/lsh', 'fog/phonetics', 'fog/tokenizers', 'fog/utils.py'],
 [('module tables are only read; accumulators are locals', 'all modules'), ('per-token reseeding of the instance generator', 'fog/lsh/minhash.py SuperMinHash.create_signature')])

prop('C03', 'One-shot iterables give the same result as lists',
 "Every function documented to take an arbitrary iterable (the dataset of every clustering routine and record join, both sides of the hash join, the token sequences given to the set/vector metrics and to the signature functions, the clusters and labels given to the conversion helpers, option word lists, and the iterables returned by key functions that give several keys) reads that iterable at most once, and never measures or indexes it before having copied it. Passing a generator therefore gives the same result as passing the equivalent list.",
 ['inputs', 'configurations'], 'every routine that accepts an iterable, every mode/key/process option, with a one-shot iterator as input',
 'Tests pass lists or sets nearly everywhere, so a second pass over an exhausted iterator is invisible.',
 ['fog/clustering', 'fog/join/hashjoin.py', 'fog/metrics', 'fog/lsh', 'fog/evaluation/utils.py', 'fog/tokenizers'],
 [('materialise-then-index ("if type(data) is not list: data = list(data)")', 'clustering routines'), ('single traversal of data', 'blocking, key_collision, minhash')])

prop('C04', 'Randomised routines are functions of their seed',
 "When a seed is given, every random draw made by a clustering routine or signature scheme comes from a generator created from exactly that seed for that call or object (a seed of 0 included), and nothing else that varies between runs (the process-wide generators, the clock, object addresses, built-in hash values) influences the result, up to the order of the members of a set. No public call draws from, reseeds or otherwise disturbs the process-wide random generators of the standard library or numpy.",
 ['inputs', 'histories', 'configurations'], 'every seeded routine, every seed value, every interleaving with other users of the global generators',
 'Randomised clusterers are tested, if at all, for plausible output on one dataset; two runs are never compared and the global generators are never observed.',
 [CL+'nn_descent.py', CL+'laesa.py', CL+'quickjoin.py', CL+'minhash.py', 'fog/lsh/minhash.py', 'fog/lsh/simhash.py', 'fog/lsh/utils.py'],
 [('random.Random(seed) local generators', 'nn_descent, nn_descent_full, laesa, quickjoin, MinHash, LSBMinHash'), ('token-seeded generator', 'SuperMinHash')])

prop('C05', 'Cluster size limits are honoured exactly',
 "Every cluster produced by a clustering routine that takes minimum and maximum cluster sizes has at least the minimum and at most the maximum number of members, both limits inclusive, in every mode and with every way of keying or merging. Conversely, no group is withheld because of its size when its size lies within the limits.",
 ['inputs', 'configurations'], 'every dataset, every min_size/max_size, every mode, key/keys/blocks option and process count',
 'Tests use the default limits almost everywhere and never set max_size.',
 [CL+'utils.py', CL+'pairwise.py', CL+'blocking.py', CL+'key_collision.py', CL+'sorted_neighborhood.py', CL+'vp_tree.py', CL+'intersection_index.py', CL+'laesa.py', CL+'nn_descent.py', CL+'passjoin.py', CL+'quickjoin.py'],
 [('size tests in front of each yield', 'clusters_from_pairs, pairwise_leader, pairwise_fuzzy_clusters, key_collision, vp_tree'), ('forwarding of min_size/max_size', 'callers of clusters_from_pairs / clusters_from_buckets / UnionFind.components')])

prop('C06', "Results are made of the caller's own items",
 "Clusters contain the items of the dataset themselves, never their keys, positions, signatures or tokenised forms. Pairs produced by the record joins contain the original records, and the hash join always puts the item of the first collection first and that of the second collection second, whichever of the two is larger.",
 ['inputs', 'configurations'], 'every dataset and option combination (key functions, modes, process counts, argument sizes)',
 'Tests cluster plain strings without key functions, where an item and its key coincide, or small collections where the sides are never swapped.',
 ['fog/clustering', 'fog/join/hashjoin.py'],
 [('index-to-item translation at the yield', 'pairwise, intersection_index, nn_descent, ppjoin'), ('invert flag', 'hashjoin')])

prop('C07', 'Only items accepted by the similarity criterion are linked',
 "A clustering routine driven by a similarity or distance function links two items directly only if that function, applied to these two items (or to their keys when a key function is given), accepts them: similarity at or above the radius, distance at or below the radius, or, without a radius, a true similarity or a null distance. The routines with a built-in criterion likewise link two items only if they share a usable key, or if the documented token-set measure of their keys reaches the radius; the distance-threshold string join may skip the call only when both strings are no longer than the threshold.",
 ['inputs', 'configurations'], 'every dataset, similarity/distance function, radius, key, mode and process count',
 'Tests use one distance with one radius per routine; pairs exactly at the radius, similarity functions (as opposed to distances) and key functions are rarely exercised together.',
 [CL+'utils.py', CL+'pairwise.py', CL+'blocking.py', CL+'sorted_neighborhood.py', CL+'vp_tree.py', CL+'laesa.py', CL+'nn_descent.py', CL+'passjoin.py', CL+'quickjoin.py', CL+'minhash.py', CL+'intersection_index.py', CL+'key_collision.py'],
 [('predicate construction', 'clustering/utils.py make_similarity_function'), ('guarded link insertion', 'every routine')])

prop('C08', 'Exhaustive routines compare every pair they promise to compare',
 "Run on a single process, the pairwise routines decide every unordered pair of dataset positions, blocking decides every pair inside each block, the sorted neighborhood method decides every pair closer than the window in each sorted order, key collision groups every item having a usable key, the intersection index considers every pair sharing a token, and the hash join every left/right combination. A pair is skipped only when it is already known to be linked, and every accepted pair contributes to the result, boundary values of the radius included.",
 ['inputs', 'configurations'], 'every dataset size and content, every mode, key and radius',
 'Tests use a few dozen short strings for which a dropped last row, a skipped boundary pair or an early loop exit often leaves the expected clusters unchanged.',
 [CL+'pairwise.py', CL+'blocking.py', CL+'sorted_neighborhood.py', CL+'key_collision.py', CL+'intersection_index.py', CL+'utils.py', 'fog/join/hashjoin.py'],
 [('triangular index loops', 'pairwise, block_worker, sorted_neighborhood'), ('bucket dispatch', 'blocking, key_collision, intersection_index'), ('graph traversal', 'clusters_from_pairs')])

prop('C09', 'The number of processes and the chunk size never change the links',
 "For the routines that can run on several processes, the set of pairs that are compared, the predicate applied to them and the links obtained are the same for any number of processes, and for the pairwise routines for any chunk size, as on a single process. In particular the chunks sent to the workers cover every unordered pair of positions, with positions in the worker's chunk translated back to positions in the dataset.",
 ['schedules', 'configurations', 'inputs'], 'every process count, chunk size, dataset size and completion order of the workers',
 'Parallel runs are tested with one dataset smaller than the default chunk, i.e. with a single chunk.',
 [CL+'utils.py', CL+'pairwise.py', CL+'blocking.py', CL+'quickjoin.py'],
 [('chunk iterator', 'upper_triangular_matrix_chunk_iter'), ('workers', 'pairwise_worker, block_worker, quickjoin worker')])

prop('C10', 'Similarity metrics compute their definition',
 "For any two token collections, whichever is larger and whatever container each comes in, the Jaccard, Dice, overlap and binary cosine functions return the textbook ratio of the size of the intersection of the two sets, and the cosine, sparse dot product, norm, normalisation and weighted Jaccard functions the textbook formula over the weights. When exactly one collection is empty the set and cosine similarities are 0, and a non-empty object compared with itself scores 1.",
 ['inputs'], 'every pair of collections of every accepted type, in either argument order',
 'Tests check a handful of literal pairs; asymmetries between argument orders, container types and sizes are not covered.',
 ['fog/metrics/cosine.py', 'fog/metrics/dice.py', 'fog/metrics/jaccard.py', 'fog/metrics/overlap.py', 'fog/metrics/utils.py'],
 [('conversion to sets/counters, swap, accumulation loops', 'fog/metrics')])

prop('C11', 'Both projection strategies build the same correctly weighted graph',
 "A monopartite projection contains exactly the nodes of the requested part with their attributes, and an edge weighted by the requested metric (number of shared neighbours when none is given, otherwise the cosine, Jaccard, Dice, overlap or binary cosine value of the two neighbourhoods) between two of them exactly when that weight is non-zero and, if a threshold is given, at least the threshold. The topology-based and the quadratic strategies agree on this for every metric and threshold.",
 ['inputs', 'configurations'], 'every bipartite graph whose nodes can be ordered, every part, metric, threshold and strategy',
 'Tests project one small graph with few metric/threshold combinations.',
 ['fog/graph/projection.py', 'fog/metrics/utils.py', 'fog/metrics/cosine.py'],
 [('metric dispatch', 'compute_metric'), ('two edge loops', 'monopartite_projection')])

prop('C12', 'Unknown option values are refused and documented ones accepted',
 "A clustering mode, metric, token ordering or token type outside the documented ones, a missing similarity criterion, and contradictory tokenizer options raise an error before any result is produced, instead of being treated as some other value (on a collection with fewer than two items, which leaves nothing to compare, simply ending without a result is also fine). Every documented value of these options is accepted, and every choice offered by the command line has an implementation.",
 ['configurations'], 'every option value, documented or not, of every routine having such an option',
 'Only a few rejections are tested, on one routine each.',
 ['fog/clustering', 'fog/graph/projection.py', 'fog/tokenizers/words.py', 'fog/cli'],
 [('mode/metric validation and dispatch', 'clusters_from_pairs, pairwise, intersection_index, ppjoin, monopartite_projection'), ('token type validation', 'WordTokenizer'), ('registries', 'fog/cli')])

prop('C13', 'Keys and phonetic codes stay within their alphabet for any text',
 "For every Unicode string, omission and skeleton keys are made of the distinct letters A to Z of the text, each exactly once, the Cologne code of the digits 0 to 8 with no 0 after the first position, the fingerprint key of lowercase ASCII letters, digits and single spaces, the n-gram fingerprint key of lowercase ASCII letters and digits, and the Rusalka code of lowercase letters. A name made of one letter gives the Cologne digit of its table (0 for vowels, J and Y, 1 for B and P, 2 for D and T, 3 for F, V and W, 4 for G, K and Q, 48 for X, 5 for L, 6 for M and N, 7 for R, 8 for C, S and Z), only names without a letter other than H are encoded as nothing, and no string makes these functions fail.",
 ['inputs'], 'every Unicode string',
 'Tests encode a few dozen names; arbitrary Unicode, digits, and strings emptied by the rules are not covered.',
 ['fog/key', 'fog/phonetics', 'fog/tokenizers/fingerprint.py', 'fog/utils.py'],
 [('deburr, case, character filter', 'omission_key, skeleton_key, cologne, rusalka, FingerprintTokenizer.tokenize')])

prop('C14', 'Fingerprints ignore case, accents, punctuation, order and repetition',
 "A fingerprint depends on its input only through the set of its normalised tokens: it comes out sorted and without duplicates, blanks, order and repetition of words are irrelevant to the plain variant, letter case is irrelevant whatever the options, and accents and punctuation are removed before tokens are cut. Digits are kept unless told otherwise, stop words are dropped in any case but only as whole words, separators given as options (characters other than letters) act as blanks, and words shorter than the minimum size are dropped. The plain and n-gram variants apply the same option-driven normalisation in the same order, a key is its tokens joined (with a space, or with nothing for n-grams), and calling the object does the same as its method. Omission and skeleton keys likewise depend on the text only through its case-folded, deburred letters.",
 ['inputs', 'configurations'], 'every string and every combination of tokenizer options',
 'Tests check a fixed list of strings with mostly default options.',
 ['fog/tokenizers/fingerprint.py', 'fog/key/fingerprint.py', 'fog/key/omission.py', 'fog/key/skeleton.py'],
 [('normalisation pipeline', 'FingerprintTokenizer.tokenize, NgramsFingerprintTokenizer.tokenize')])

prop('C15', 'Command-line CSV output stays rectangular',
 "Every row written by the split and transform commands has exactly as many cells as the header row written before it, for every input row, target-column and placement option, every input row is represented in the output, and the cells that are not targeted are copied unchanged and in order. The new value (the cell passed through the listed operations in order, or one piece of it after a split) always appears under the header announced for it, and every piece of a split cell gets a row.",
 ['inputs', 'configurations'], 'every rectangular CSV input and option combination of the split and transform commands',
 'The command line has no tests.',
 ['fog/cli/split.py', 'fog/cli/transform.py', 'fog/cli/utils.py'],
 [('header and row construction', 'split_action, transform_action')])

prop('C16', 'Cluster reports are well formed whatever the values contain',
 "Every value coming from the clustered CSV is escaped for the format of the report before being written: in the HTML report markup characters cannot open or close tags, and in the TOML report quotes, backslashes, line breaks and other control characters cannot end or corrupt the string they appear in. Every value of every cluster is reported, and the numbers of affected rows reported (per cluster, and per value in the TOML report) are the numbers of rows holding those values.",
 ['inputs'], 'every cell content, for both report types',
 'The command line has no tests.',
 ['fog/cli/reporting/html.py', 'fog/cli/reporting/toml.py', 'fog/cli/cluster.py'],
 [('escape_string', 'fog/cli/reporting/toml.py'), ('html escaping', 'fog/cli/reporting/html.py')])

prop('C17', 'Compiled distances are memory safe for every pair of strings',
 "The compiled edit-distance functions release every buffer they allocate exactly once on every way out, read and write those buffers and the two strings only within their bounds, and compare characters at full Unicode width so that two different characters are never taken for equal nor equal ones for different.",
 ['inputs'], 'every pair of strings and every maximum distance',
 'Leaks and out-of-bounds accesses are invisible to result-based tests, and the tests contain no character beyond the basic plane.',
 ['cfog/metrics/levenshtein.pyx'],
 [('malloc/free pairing, index loops', 'levenshtein_distance, limited_levenshtein_distance, *_lte1')])

prop('C18', 'The word tokenizer terminates and applies every option to every token',
 "On any text the word tokenizer always advances, so it terminates, never reads outside the text, and emits only tokens of the documented types. Every filtering and rewriting option is effective whatever the other options are: entity decoding, transliteration and the reduction of lengthened words apply to the text before it is cut; types are kept or dropped according to the type found in the text; mentions and hashtags are normalised, then retyped as words without their sign; lowercasing and the limits on length apply to all words, including retyped ones; a token whose final value is a stop word (stop words are lowercased when words are) is left out, however the stop words are given.",
 ['inputs', 'configurations'], 'every string and every option combination',
 'Tests use a fixed list of sentences and one option at a time.',
 ['fog/tokenizers/words.py'],
 [('scanner loop', 'WordTokenizer.__tokenize'), ('option pipeline and its fast path', 'WordTokenizer.tokenize'), ('hashtag splitter', 'split_hashtag')])

prop('C19', 'Best-matching scores follow their definition',
 "For any admissible truth and predicted clusterings, precision, recall and F1 are the averages over all truth clusters of the scores of the predicted cluster maximising F1 among those sharing an item, where precision divides the number of shared items by the size of the predicted cluster (counting only items known to the truth) and recall by the size of the truth cluster. Empty clusterings, empty clusters, items found in several predicted clusters, missing items and, unless allowed, additional items are refused.",
 ['inputs', 'configurations'], 'every pair of clusterings, with and without additional items',
 'Tests check a few literal clusterings, mostly without additional items.',
 ['fog/evaluation/best_matching.py', 'fog/utils.py'],
 [('index, candidate counting, maximisation', 'best_matching_macro_average')])

prop('C20', 'Signatures depend only on the set of tokens',
 "MinHash, LSB MinHash and SuperMinHash signatures depend on a sequence only through its set of tokens, whatever the order or repetition of tokens and whatever was hashed before with the same object, and have the announced fixed length, also for an empty sequence. Signature similarities compare every position of the two signatures and are symmetric.",
 ['inputs', 'histories'], 'every token sequence, signature size and call history of the hasher',
 'Tests hash a few sequences once each.',
 ['fog/lsh/minhash.py', 'fog/lsh/simhash.py', 'fog/lsh/utils.py'],
 [('token set, min over tokens', 'create_signature'), ('position-wise comparison', 'minhash_similarity, lsb_minhash_similarity')])

prop('C21', 'Empty and single-item inputs are handled',
 "Every clustering routine, record join and hash join given an empty dataset or a single item finishes normally without producing any cluster or pair (at default size limits), and every key, block, n-gram, metric and signature function accepts the empty string or empty collection without failing.",
 ['inputs', 'configurations'], 'empty and singleton inputs of every routine, in every mode',
 'Almost no test passes an empty or single-item input.',
 ['fog/clustering', 'fog/join', 'fog/key', 'fog/metrics', 'fog/lsh', 'fog/tokenizers', 'fog/phonetics'],
 [('emptiness guards', 'public functions')])

prop('C22', 'Windows and segments cover their sequence',
 "The n-gram functions produce exactly the contiguous windows of the requested size at every position, in order, or the whole sequence when it is shorter. The segments indexed by the partition-based string join are contiguous, non-overlapping and cover the whole string, one more than the distance threshold in number, and each complete set of Levenshtein blocks cuts the string at common positions so that no character is lost.",
 ['inputs'], 'every sequence, window size and threshold',
 'Tests check a few lengths.',
 ['fog/tokenizers/ngrams.py', 'fog/clustering/passjoin.py', 'fog/key/levenshtein.py'],
 [('slicing loops', 'ngrams, partition, segments, levenshtein_1d_blocks, levenshtein_2d_blocks')])

prop('C23', 'Labels and clusters convert into each other without loss',
 "Converting labels to clusters puts every labelled item in exactly the cluster of its label, in order of first appearance, and converting clusters to labels gives every item (or its key, when a key function is given) the number of the cluster it is in, also in flat form.",
 ['inputs', 'configurations'], 'every labelling (mapping, sequence or stream of pairs) and every clustering',
 'Tests check one literal example per form.',
 ['fog/evaluation/utils.py'],
 [('index loops', 'labels_to_clusters, clusters_to_labels')])

prop('C24', 'A running mean equals the mean of the values it holds',
 "After any sequence of additions, removals and merges, a running mean reports the number of values it holds and their sum divided by that number, refuses to report a mean when it holds none, and combining two running means with + gives the mean of both without altering either.",
 ['histories', 'inputs'], 'every sequence of operations on running means',
 'Tests exercise one short history.',
 ['fog/utils.py'],
 [('paired sum/count updates', 'OnlineMean')])

# ---- properties this family cannot decide here (listed under not_applicable) -------------
prop('C30', 'Compiled edit distances equal the true edit distance',
 "The compiled Levenshtein functions return the true Levenshtein distance of any two strings (or the announced upper bound when it exceeds the given maximum), and the distance-at-most-one predicates agree with it.",
 ['inputs'], 'every pair of strings',
 'Tests sample a few dozen pairs.', ['cfog/metrics/levenshtein.pyx'],
 [('dynamic programming over one row', 'levenshtein_distance, limited_levenshtein_distance')])
prop('C31', 'Filtered joins find the same pairs as brute force',
 "The partition-based string join, the prefix-filtered set joins, the metric-space quick join, LAESA and vantage-point tree clustering find every pair a brute-force comparison would find.",
 ['inputs', 'configurations'], 'every dataset and threshold',
 'Tests compare on one dataset, and the dataset of most of them is missing.',
 [CL+'passjoin.py', CL+'ppjoin.py', CL+'quickjoin.py', CL+'laesa.py', CL+'vp_tree.py'],
 [('filters derived from combinatorial or metric lemmas', 'passjoin, ppjoin, quickjoin')])
prop('C32', 'Levenshtein keys and blocks collide exactly when promised',
 "Two strings share a 1-edit key only if their (Damerau-)Levenshtein distance is at most 1, always share one in that case, and strings within 1 (2) edits always share a 1d (2d) block.",
 ['inputs'], 'every pair of strings', 'Tests sample pairs.', ['fog/key/levenshtein.py'],
 [('wildcard neighbourhood, pigeonhole blocks', 'fog/key/levenshtein.py')])
prop('C33', 'Approximate methods reach their expected accuracy',
 "MinHash, LSB MinHash, SuperMinHash and SimHash similarities estimate the underlying set similarity within their statistical error, and NN-descent reaches its expected recall.",
 ['inputs'], 'every dataset, statistically', 'Tests check plausibility on one input.', ['fog/lsh', CL+'nn_descent.py', CL+'minhash.py'],
 [('universal hashing', 'fog/lsh/minhash.py')])
prop('C34', 'Phonetic codes follow their published tables',
 "The Cologne code of any German name is the one given by the published rules, and Rusalka maps transliteration variants of one Russian name to one code.",
 ['inputs'], 'every name', 'Tests sample names.', ['fog/phonetics'], [('rule tables', 'cologne, rusalka')])
prop('C35', 'Sparsification terminates at the best threshold',
 "Floatsam sparsification terminates on every weighted graph and returns the last threshold before a significant component drifts away.",
 ['inputs'], 'every weighted graph', 'Tests run one graph.', ['fog/graph/sparsification.py'], [('threshold loop', 'floatsam_sparsification')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
