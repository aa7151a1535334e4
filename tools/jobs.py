"""The harness runs that decide each property."""

BASE = [
    'rustc and LLVM compile the source to the IR that is executed (release profile: wrapping arithmetic; '
    'runs marked irc: development profile, overflow and debug assertions on)',
    'the symbolic engine in /verif/engine and z3 are correct (sampled paths are rerun natively and compared)',
    'memory allocation never fails',
]


def J(entry, params=(), tier='quick', cost=1, covers=(1,), profile='ir', time=400, finals=3, **opts):
    return dict(entry=entry, params=list(params), tier=tier, cost=cost, covers=list(covers), profile=profile,
                time=time if tier == 'quick' else max(time, 3000), finals=finals,
                opts={k.replace('_', '-'): v for k, v in opts.items()})


PROPS = {}


def prop(pid, feature, jobs, bounds, outside='', assumptions=()):
    PROPS[pid] = dict(feature=feature, jobs=jobs, bounds=bounds, outside=outside,
                      assumptions=BASE + list(assumptions))


prop('C10', 'fmt',
     [J('c10_word'), J('c10_word', profile='irc')]
     + [J('c10_bytes', [9]), J('c10_bytes', [40], tier='thorough')]
     + [J('c10_bits', [40], cost=3), J('c10_bits', [70], tier='thorough')]
     + [J('c10_sized')]
     + [J('c10_pack', [e, min(e + 3, 32), 3], cost=2) for e in range(1, 33, 4)]
     + [J('c10_pack', a) for a in ([5, 8, 12, 11], [9, 10, 20, 19], [31, 32, 12, 11], [1, 4, 70, 69], [10, 10, 300, 300])]
     + [J('c10_pack', [e, e, 6], tier='thorough') for e in range(1, 33)]
     + [J('c10_bits', [300], tier='thorough')],
     'words: all 2^32 values, all widths 0..=32; byte strings up to 9 (thorough 40) bytes; bit strings up to 40 '
     '(70) bits; packing: entry widths 1..=32, up to 3 (6) words, and some of 12, 20, 70 and 300 words, every total bit length that uses all words',
     'longer strings and more words')

prop('C11', 'fmt',
     [J('c11_hash', [0, 40]), J('c11_hash', [41, 80]), J('c11_hash', [81, 130], cost=2), J('c11_vectors')]
     + [J('c11_hash', a, cost=2) for a in ([131, 140], [189, 195], [253, 258], [319, 321], [510, 514], [1022, 1026], [2047, 2049])]
     + [J('c11_kv', [n]) for n in (0, 1, 3, 8, 31, 64, 300, 1030)]
     + [J('c11_hash', [131, 260], tier='thorough'), J('c11_hash', [500, 520], tier='thorough'),
        J('c11_kv', [130], tier='thorough')],
     'all byte strings of 0..=140 (thorough: 0..=260, 500..=520) bytes and around 192, 256, 320, 512, 1024, 2048 bytes; key strings of 0, 1, 3, 8, 31, 64, 300, 1030 ASCII characters',
     'longer inputs; key strings that are not ASCII',
     ['the sha2 crate computes SHA-256 (it is the oracle; its portable implementation is compiled in, and two '
      'published test vectors are checked)'])

OS = ['the operating system gives arbitrary words below 2^32 - 16 (larger ones make the ternary sampler draw again: C22)',
      'a seed expands to an arbitrary stream of words (ChaCha is an uninterpreted function of seed and position; '
      'equal seeds, equal streams)']
KEYS = ['the hash map of the keyword database iterates in insertion order',
        'the keys of the keyword runs are a concrete choice (their placement is C12, C13), values are arbitrary']


def mix(*lists):
    return [j for l in lists for j in l]


prop('C01', 'pir',
     [J('c01_e2e', a, cost=c) for a, c in (
         ([1, 1, 1, 1, 0], 1), ([1, 8, 8, 1, 0], 1), ([2, 1, 1, 2, 2], 1), ([2, 8, 8, 2, 2], 1), ([3, 8, 8, 2, 3], 2),
         ([2, 7, 3, 2, 2], 1), ([2, 12, 5, 1, 0], 1), ([3, 9, 9, 1, 3], 2), ([2, 32, 8, 1, 1], 2), ([2, 20, 10, 2, 2], 3),
         ([2, 64, 10, 16, 1], 3), ([4, 16, 4, 2, 2], 2), ([2, 13, 12, 1, 2], 2), ([1, 14, 14, 1, 0], 2),
         ([8, 16, 8, 4, 7], 12), ([16, 8, 2, 2, 9], 6), ([9, 3, 3, 2, 9], 10))]
     + [J('c01_e2e', a, cost=c) for a, c in (
         ([300, 4, 4, 1, 299, 1], 3), ([2, 1100, 4, 2, 1, 1], 3), ([8, 14, 14, 1, 7, 0], 2), ([2, 15, 15, 1, 2, 0], 1),
         ([40, 400, 10, 64, 39, 1], 10))]
     + [J('c01_e2e', a, tier='thorough', cost=c) for a, c in (
         ([32, 13, 13, 1, 9, 0], 20), ([2000, 10, 10, 3, 1999, 1], 35), ([128, 12, 12, 1, 100, 0], 60))]
     + [J('c01_e2e', [2, 12, 5, 1, 2], profile='irc'), J('c01_e2e', [3, 8, 8, 2, 1], profile='irc')]
     + [J('c01_e2e', a, tier='thorough', cost=30) for a in (
         [4, 64, 10, 2, 4], [16, 16, 8, 4, 5], [8, 24, 7, 8, 8], [32, 8, 8, 2, 31], [4, 128, 9, 4, 2], [12, 4, 4, 4, 12],
         [5, 40, 11, 3, 5], [2, 15, 15, 1, 2], [3, 30, 14, 2, 3])]
     + [J('c01_e2e', [m, e, p, 2, m], tier='thorough', cost=5) for p in range(1, 13) for m in (2, 3)
        for e in sorted({1, p - 1, p, p + 1, 2 * p + 1}) if e > 0],
     'every content of the database, every seed expansion, every randomness of the client, every queried row for the '
     'configurations listed under params: up to 16 (thorough 128) records, elements of up to 64 (128) bits, plaintext '
     'sizes 1..15, LWE dimension up to 16; with one concrete (pseudo-random) choice of the randomness and every content, up to 300 (2000) '
     'records, 1100 bits, dimension 64',
     'more records, larger elements and dimensions; configurations whose noise bound m(2^p-1) < 2^(31-p) does not hold '
     '(there retrieval can fail by design)', OS)

prop('C02', 'pir',
     [J('c02_e2e', a, cost=20) for a in ([1, 8, 8, 1, 1, 0], [2, 10, 10, 1, 2, 0], [3, 4, 4, 1, 1, 0], [2, 12, 5, 2, 1, 7])]
     + [J('c02_e2e', a, cost=c) for a, c in (
         ([1, 300, 1, 1, 1, 0, 1], 2), ([2, 1100, 4, 2, 1, 0, 1], 6), ([5, 40, 10, 8, 5, 3, 1], 4), ([20, 10, 10, 1, 3, 3, 1], 1))]
     + [J('c02_e2e', [4, 8, 8, 4, 4, 2, 0], tier='thorough', cost=24)]
     + [J('c02_strings', a, cost=20) for a in ([1, 8, 8, 0], [2, 16, 9, 1])]
     + [J('c02_e2e', a, tier='thorough', cost=60) for a in (
         [3, 8, 8, 2, 3, 0], [4, 8, 4, 1, 4, 0], [2, 20, 10, 2, 2, 3], [2, 7, 3, 1, 2, 5], [3, 9, 8, 1, 0, 9], [1, 32, 10, 2, 1, 1],
         [5, 6, 6, 1, 2, 2], [2, 1, 1, 1, 2, 4])]
     + [J('c02_strings', [3, 24, 10, 2], tier='thorough', cost=60)],
     'every content of the values, every filter content left by construction, every randomness of the client and every '
     'seed expansion; 1..3 (thorough 1..5) keys, elements of up to 16 (32) bits; with one concrete choice of the randomness, up to 20 keys and 1100 bits',
     'more keys; key sets other than those chosen (VERIF_SEED chooses them)', OS + KEYS)

prop('C03', 'pir',
     [J('c03_index', a, cost=c) for a, c in (([1, 1, 1], 1), ([2, 8, 8], 1), ([3, 20, 7], 1), ([5, 31, 31], 1), ([4, 33, 31], 1),
                                             ([7, 9, 2], 1), ([16, 64, 10], 2), ([16, 256, 10], 6))]
     + [J('c03_index', a, cost=2) for a in ([300, 4, 4], [2, 1100, 4])] + [J('c03_kv', a, cost=2) for a in ([100, 10, 10], [2, 1100, 4])]
     + [J('c03_index', [3, 20, 7], profile='irc')]
     + [J('c03_kv', a, cost=2) for a in ([1, 8, 8], [2, 10, 10], [3, 20, 7], [2, 256, 10], [2, 1, 1])]
     + [J('c03_kv', [2, 20, 9], profile='irc', cost=2)]
     + [J('c03_index', [2, 8192, 10], tier='thorough', cost=60), J('c03_index', [64, 64, 10], tier='thorough', cost=20)]
     + [J('c03_kv', [n, 24, 9], tier='thorough', cost=9) for n in (4, 6, 8)],
     'every database content and every query vector (all 2^32 words in each position, well-formed or not); up to 300 '
     'records, up to 1100 (8192) bits; up to 100 keys; every query length from 0 to the height + 2',
     'larger databases', OS + KEYS)

prop('C04', 'pir',
     [J('c04_index', a, cost=c) for a, c in (([1, 1, 1, 1], 1), ([2, 16, 8, 3], 1), ([3, 9, 4, 2], 1), ([8, 64, 8, 8], 2),
                                             ([16, 10, 10, 16], 2), ([5, 31, 31, 4], 1))]
     + [J('c04_index', a, cost=2) for a in ([300, 4, 4, 1], [1, 1, 1, 1100], [2, 1100, 4, 2])]
     + [J('c04_kv', a, cost=2) for a in ([1, 8, 8, 1030], [100, 8, 8, 2], [1, 1100, 4, 1])]
     + [J('c04_index', [2, 16, 8, 3], profile='irc')]
     + [J('c04_kv', a, cost=2) for a in ([1, 8, 8, 2], [2, 20, 10, 3], [3, 5, 5, 1], [2, 31, 16, 4])]
     + [J('c04_kv', [1, 8, 8, 2], profile='irc')]
     + [J('c04_index', [2, 2048, 10, 2], tier='thorough', cost=9), J('c04_index', [32, 32, 8, 32], tier='thorough', cost=20)]
     + [J('c04_kv', [n, 12, 8, 6], tier='thorough', cost=9) for n in (4, 6)],
     'every database content and every seed expansion; up to 300 records or 100 keys, elements up to 1100 (2048) bits, dimension up to 1100',
     'larger matrices; statistical quality of the seeds: freshness means that the seed is 32 bytes drawn for this '
     'database and by no other call', OS + KEYS)

prop('C05', 'pir',
     [J('c05_index', a, cost=c) for a, c in (([1, 8, 8, 1], 1), ([3, 8, 8, 2], 1), ([2, 3, 5, 4], 1), ([16, 8, 8, 16], 1), ([4, 12, 31, 3], 1))]
     + [J('c05_index', [3, 8, p, 2]) for p in (1, 2, 4, 9, 10, 16, 30)]
     + [J('c05_index', [3, 8, 8, 2], profile='irc'), J('c05_mask', [3], profile='irc')]
     + [J('c05_index', a, cost=2) for a in ([300, 4, 4, 1], [2, 4, 4, 300], [70, 4, 4, 2])]
     + [J('c05_kv', a, cost=2) for a in ([100, 8, 8, 1], [1, 8, 8, 100])]
     + [J('c05_mask', [n], cost=n) for n in (1, 2, 5, 36)] + [J('c05_mask', [100], tier='thorough', cost=100)]
     + [J('c05_kv', a) for a in ([1, 8, 8, 2], [2, 8, 8, 1], [2, 64, 8, 4], [3, 4, 5, 2], [2, 10, 10, 1], [1, 16, 16, 3])]
     + [J('c05_index', [64, 8, 8, 64], tier='thorough', cost=9), J('c05_mask', [9], tier='thorough', cost=5),
        J('c05_kv', [6, 8, 9, 8], tier='thorough', cost=9)],
     'every seed expansion, every randomness, every row; up to 300 rows or 100 keys, dimension up to 300',
     'hiding as a computational claim (LWE) is not a property of the code; larger shapes', OS + KEYS)

prop('C06', 'pir',
     [J('c06_index', a, cost=2) for a in ([1, 3], [2, 3], [3, 4], [2, 5])] + [J('c06_kv', a, cost=2) for a in ([1, 3], [2, 3])]
     + [J('c06_index', [2, 3], profile='irc'), J('c06_kv', [2, 2], profile='irc')]
     + [J('c06_index', [4, 5], tier='thorough', cost=5), J('c06_kv', [3, 4], tier='thorough', cost=5)],
     'every sequence of up to 5 calls with every choice of rows (inside and outside) or keys on one query-parameter object',
     'longer sequences: the state is one flag and the vectors, both compared after every call', OS + KEYS)
for e in ('c06_index', 'c06_kv'):
    for j in PROPS['C06']['jobs']:
        j['covers'] = [1, 2]

prop('C07', 'pir',
     [J('c07_index', [1, 31, 2], cost=2), J('c07_index', [8, 10, 8]), J('c07_kv', [1, 16, 2], cost=2), J('c07_kv', [17, 31, 2], cost=2),
      J('c07_index', [1, 31, 1], profile='irc'), J('c07_kv', [8, 31, 1], profile='irc')]
     + [J('c07_index', [1, 31, 8], tier='thorough', cost=3), J('c07_kv', [1, 31, 5], tier='thorough', cost=3)],
     'every response word, every noise within the bound, plaintext sizes 1..31, up to 8 columns', 'wider rows', OS + KEYS)

prop('C08', 'pir',
     [J('c08_index', a, cost=c) for a, c in (([1, 1, 1, 0], 1), ([2, 8, 8, 0], 1), ([2, 20, 6, 1], 1), ([2, 33, 31, 2], 1),
                                             ([3, 24, 10, 0], 1), ([8, 64, 10, 0], 2), ([2, 256, 9, 1], 4), ([2, 31, 31, 0], 1),
                                             ([1, 62, 31, 0], 1), ([2, 5, 7, 1], 1))]
     + [J('c08_index', a, cost=2) for a in ([2, 1100, 4, 0], [300, 8, 4, 0])] + [J('c08_kvdb', [100, 8, 8], cost=14), J('c08_kv', [70000, 10, 0], cost=12)]
     + [J('c08_index', [2, e, 5, 0]) for e in range(1, 17, 3)]
     + [J('c08_kv', a, cost=c) for a, c in (([8, 8, 0], 1), ([20, 6, 1], 1), ([1, 1, 0], 1), ([33, 31, 0], 1), ([256, 10, 2], 2))]
     + [J('c08_kvdb', a, cost=2) for a in ([1, 8, 8], [2, 20, 6], [2, 33, 31])]
     + [J('c08_index', [2, 20, 6, 1], profile='irc'), J('c08_kv', [20, 6, 1], profile='irc'), J('c08_kvdb', [1, 20, 9], profile='irc')]
     + [J('c08_index', [2, e, p, 0], tier='thorough') for p in range(1, 32) for e in sorted({p - 1, p, p + 1, 2 * p, 3 * p + 2}) if e > 0]
     + [J('c08_kv', [8192, 10, 0], tier='thorough', cost=15), J('c08_index', [2, 2048, 10, 0], tier='thorough', cost=20)],
     'every element content; element sizes 1..1100 bits, one of 70000 bits, plaintext sizes 1..31, elements with up to 2 surplus bytes',
     'larger elements', OS + KEYS)

prop('C09', 'pir',
     [J('c09_base64', [4, 16, 8], covers=(1, 2, 3)), J('c09_base64', [4, 24, 8], covers=(1, 2, 3)), J('c09_base64', [2, 8, 8], covers=(1, 2, 3)),
      J('c09_base64', [4, 20, 6], covers=(1, 2, 3)), J('c09_base64', [8, 40, 10], covers=(1, 2, 3), cost=8), J('c09_base64', [0, 8, 8], covers=(1,)),
      J('c09_base64', [4, 16, 8], covers=(1, 2, 3), profile='irc')]
     + [J('c09_base64', a, covers=B if a[0] in (1, 5) else (1, 2, 3)) for B in ((1, 2),) for a in ([1, 8, 8], [3, 16, 8], [5, 24, 8], [6, 24, 8], [7, 40, 10])]
     + [J('c09_shape', a, cost=3) for a in ([2, 12, 5], [2, 8, 8], [1, 33, 31], [3, 20, 10])]
     + [J('c09_shape', [2, 12, 8], profile='irc', cost=3)]
     + [J('c09_ops', a) for a in ([2, 8, 8], [1, 12, 5], [4, 20, 10])] + [J('c09_ops', [2, 8, 8], profile='irc')]
     + [J('c09_files')] + [J('c09_json', [k], cost=2) for k in range(0, 31, 3)]
     + [J('c09_json', [k], cost=2, tier='thorough') for k in range(0, 31) if k % 3]
     + [J('c09_base64', [12, 64, 9], covers=(1, 2, 3), tier='thorough', cost=30)],
     'every ASCII string of 0..8 (12) characters as an element; every element length around the size; announced '
     'record counts 0..n+2, 2^40, 2^64-1; files: every byte value at sampled (thorough: all) positions of a well-formed '
     'file, and missing, empty and ill-typed files',
     'files with several wrong bytes; duplicate keys (no statement); panics for lack of memory', OS + KEYS)

prop('C19', 'pir',
     [J('c19_index', a) for a in ([1, 1, 1, 1], [1, 8, 8, 1], [3, 32, 9, 4], [2, 12, 5, 2], [4, 31, 31, 3], [8, 16, 8, 8])]
     + [J('c19_index', a, cost=2) for a in ([300, 4, 4, 2], [2, 1100, 4, 2])] + [J('c19_kv', [2, 8, 8, 300], cost=2)]
     + [J('c19_kv', a, cost=2) for a in ([1, 8, 8, 1], [2, 20, 9, 3], [3, 12, 5, 2])]
     + [J('c19_index', [2, 12, 5, 2], profile='irc'), J('c19_kv', [1, 8, 8, 1], profile='irc')]
     + [J('c19_index', [16, 64, 10, 16], tier='thorough', cost=5), J('c19_kv', [6, 32, 10, 6], tier='thorough', cost=5)],
     'every content of the messages; up to 300 records, 1100 bits, dimension up to 300', 'larger shapes', OS + KEYS
     + ['bincode encodes and decodes the structures it is given (it is executed, not modelled)'])

prop('C20', 'pir',
     [J('c20_file', a) for a in ([1, 1, 1, 1, 0], [1, 8, 8, 8, 0], [2, 3, 8, 2, 0], [2, 12, 5, 3, 0], [4, 33, 10, 4, 0])]
     + [J('c20_file', [2, 12, 5, 3, how]) for how in range(1, 8)]
     + [J('c20_file', [2, 12, 5, 3, 0], profile='irc'), J('c20_file', [2, 12, 5, 3, 2], profile='irc')]
     + [J('c20_bad', [k]) for k in (0, 2, 7, 8, 13, 17, 31, 60, 110, 121, 128, 140, 147, 169)]
     + [J('c20_bad', [2 ** 64 - 1 - k]) for k in (0, 1, 8, 50, 120, 160)]
     + [J('c20_bad', [k], tier='thorough') for k in range(0, 170)],
     'parameters with concrete content, and with any byte in a published word, the seed or each of the four sizes; the '
     'parameter file with any byte value at sampled (thorough: all) positions, and truncated',
     'several arbitrary fields at once', OS + ['serde_json and the number formatting crates are executed, not modelled; '
                                               'the file system is a map from path to bytes, without directories'])

prop('C22', 'pir',
     [J('c22_words'), J('c22_redraw', covers=(1, 2, 3)), J('c22_words', profile='irc'), J('c22_redraw', covers=(1, 2, 3), profile='irc'),
      J('c05_mask', [4])],
     'every word the operating system can return, up to two draws that are sampled again; masks of 4 entries',
     'a bias of one value in 2^32 is accepted; longer runs of words that are sampled again', OS)

B = (1, 2)
prop('C21', 'cli',
     [J('c21_exp', [n], covers=(2,) if n == 0 else B) for n in range(0, 6)]
     + [J('c21_bool', [n], covers=B if n in (4, 5) else (2,)) for n in range(0, 7)]
     + [J('c21_env', [6, 0, 0])] + [J('c21_env', [k, 99, 0], covers=(2,)) for k in range(6)]
     + [J('c21_env', [k, n, 0], covers=B) for k in range(4) for n in (1, 2, 4)]
     + [J('c21_env', [k, n, 0], covers=B if n in (4, 5) else (2,)) for k in (4, 5) for n in (0, 1, 4, 5)]
     + [J('c21_env', [k, 2, 18], covers=B) for k in range(3)] + [J('c21_env', [k, 1, 20], covers=(2,)) for k in range(3)]
     + [J('c21_flags', [4, 0, form, given]) for form in range(3) for given in (0, 1, 2, 4, 8, 6, 15)]
     + [J('c21_flags', [k, n, form, 5 * n % 16], covers=B) for k in range(4) for form, n in ((0, 1), (1, 2), (2, 3))]
     + [J('c21_exp', [3], covers=B, profile='irc'), J('c21_env', [3, 2, 0], covers=B, profile='irc'),
        J('c21_env', [0, 2, 18], covers=B, profile='irc'), J('c21_flags', [3, 2, 1, 15], covers=B, profile='irc')]
     + [J('c21_exp', [n], covers=B, tier='thorough') for n in (6, 8, 10)]
     + [J('c21_env', [k, n, 0], covers=B, tier='thorough') for k in range(4) for n in (3, 6, 8)]
     + [J('c21_flags', [k, n, form, g], covers=B, tier='thorough') for k in range(4) for form in range(3) for n in (1, 2, 4) for g in (0, 15)],
     'every ASCII text of up to 5 (thorough 10) characters, numbers next to 2^64; each variable missing; the flags in '
     'their three forms, alone and together, with one arbitrary value',
     'texts that are not ASCII; values of flags that begin with a dash or an equals sign or are empty (the command line parser decides)',
     ['the command line parser (clap) is executed, not modelled'])

ANY = ()
SLOTS = ['the initial content of the slots is arbitrary, or (in runs with many positions) one concrete choice']
HASHES = SLOTS + ['arbitrary keys are given by their first hash, through the inverse of the 64-bit finalizer: a bijection, '
                  'so every key is covered; if the code hashed differently the runs would still be about all keys, but slow']


def filters(entry, deg):
    """no false negatives, lookups, degenerate sets"""
    b = entry == 'c14_bfuse'
    x = entry == 'c15_xor'
    l = [J(entry, [ty, 0, 0, 1, 0, how]) for ty in range(3) for how in range(3)]
    l += [J(entry, [ty, 1, 0, 1 if b else 0, 0, ty], cost=3 if x else 1) for ty in range(3)]
    if b:
        l += [J(entry, [0, 2, 7, 1, 0, 0], cost=8)]
        # the first attempt fails, the second succeeds
        l += [J(entry, [ty, 2, 9, 0, 0, ty], cost=6) for ty in range(3)]
        l += [J(entry, [ty, 3, 9, 0, pat, ty], cost=30) for ty, pat in ((1, 3),)]
        l += [J(entry, [ty, 4, 9, 0, top << 56 | pat, ty], cost=20) for ty, top, pat in
              ((2, 4, 0x3501), (1, 5, 0x6504))]
        l += [J(entry, [ty, 4, 9, 0, pat, ty], cost=60, tier='thorough') for ty, pat in ((0, 0x3501), (1, 0x5301), (2, 0x6302), (0, 3 << 56 | 0x3501), (1, 8 << 56 | 0x5301), (2, 7 << 56 | 0x6302))]
        l += [J(entry, [ty, 3, 9, 0, pat, ty], cost=60, tier='thorough') for ty, pat in ((2, 5), (0, 6))]
        l += [J(entry, [ty, 2, 0, 1, pat, 2 - ty]) for ty in (1, 2) for pat in (0, 1, 6)]
        l += [J(entry, [ty, 3, 0, 0, pat, ty], cost=4) for ty, pat in ((0, 0), (1, 1), (2, 3), (0, 5), (1, 6))]
        l += [J(entry, [2, 4, 0, 0, pat, 1], cost=5) for pat in (9, 0o14)]
        l += [J(entry, [0, 5, 0, 0, pat, 0], tier='thorough', cost=20) for pat in (0, 0o124, 0o111)]
        l += [J(entry, [ty, 3, 0, 0, pat, ty], tier='thorough', cost=5) for ty in range(3) for pat in range(7)]
        l += [J(entry, [ty, 2, 7, 1, 0, ty], tier='thorough', cost=15) for ty in (1, 2)]
    elif x:
        l += [J(entry, [ty, 2, 0, 0, pat, ty], cost=6) for ty, pat in ((0, 0), (1, 1), (2, 6))]
        l += [J(entry, [ty, 2, 9, 0, 0, ty], cost=15) for ty in range(3)]
        l += [J(entry, [ty, 2, 0, 0, pat, ty], cost=10, tier='thorough') for ty in range(3) for pat in range(7)]
        l += [J(entry, [0, 3, 0, 0, pat, 0], cost=20, tier='thorough') for pat in (0, 1, 6, 3)]
    else:
        l += [J(entry, [ty, 2, 0, 0, 0, ty], cost=2) for ty in range(3)]
        l += [J(entry, [ty, n, 9, 0, pat, ty], cost=2) for ty in range(3) for n, pat in ((2, 0), (3, 0))]
        l += [J(entry, [ty, 3, 0, 0, pat, ty], cost=2) for ty, pat in ((0, 0), (1, 1), (2, 2))]
        l += [J(entry, [ty, n, 0, 0, pat, ty], cost=4, tier='thorough') for ty in range(3) for n, pat in ((3, 0), (4, 0), (4, 0o12), (5, 1))]
    # keys that share positions in the first attempt
    l += [J(entry, [i % 3, n, 4, 0, pat, i % 3], covers=ANY)
          for i, (n, pat) in enumerate(((2, 7), (3, 0o77), (3, 0o70), (4, 0o777), (3, 0o66), (4, 0o653), (5, 0o7777)))]
    # many keys: every content of the unused slots, every looked-up key
    for i, n in enumerate((1, 2, 3, 4, 5, 6, 8, 9, 10, 17, 33, 64, 100, 256)):
        l.append(J(entry, [i % 3, n, 2, 0 if x else 1, i, i % 3], covers=ANY if not (b or x) else (1,)))
    if b or x:
        l += [J(entry, [i % 3, n, 2, 0 if x else 1, i, i % 3], tier='quick' if n <= 1000 else 'thorough', cost=2) for i, n in enumerate((500, 1000, 3000))]
        l += [J(entry, [i % 3, n, 3, 0 if x else 1, f, 0]) for i, (n, f) in enumerate(((40, 0), (40, 2 ** 64 - 20), (200, 2 ** 32 - 100)))]
    l += [J(entry, [0, 1, 0, 0, 0, 0], profile='irc', cost=2), J(entry, [1, 0, 0, 0, 0, 0], profile='irc'),
          J(entry, [2, 60, 2, 0, 3, 1], profile='irc', covers=ANY if not (b or x) else (1,))]
    return l


prop('C14', 'bff', filters('c14_bfuse', True),
     'sets of 1 and 2 arbitrary keys (every pair that the first attempt places); the third, fourth (fifth) key arbitrary next to keys in given '
     'positions; picked sets of up to 1000 (3000) keys with every initial content of the slots; lookups of arbitrary keys; the empty set',
     'larger sets of arbitrary keys', HASHES)
prop('C15', 'bff', filters('c15_xor', True),
     'sets of one arbitrary key; the second (third) key arbitrary next to keys in given positions; picked sets of up to 1000 (3000) keys; lookups of '
     'arbitrary keys; the empty set',
     'larger sets of arbitrary keys', HASHES)
prop('C16', 'bff', filters('c16_fuse', True),
     'sets of one arbitrary key; the second (third to fifth) key arbitrary next to keys in given positions; picked sets of up to 256 keys; lookups of '
     'arbitrary keys; the empty set',
     'larger sets of arbitrary keys', HASHES)

prop('C12', 'bff',
     [J('c12_kv', [0, 2, 0, 1, k]) for k in (0, 1)]
     + [J('c12_kv', [1, 1, 0, 0, 0], abs_mul=1, cost=20), J('c12_kv', [1, 1, 1024, 1, 1], abs_mul=1, cost=20)]
     + [J('c12_kv', [n, 2, 0, 1, k], covers=ANY) for k, n in enumerate((1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 20, 33, 64, 65, 100, 200))]
     + [J('c12_kv', [20, 2, 0, 1, k]) for k in (0, 1)] + [J('c12_kv', [100, 2, 0, 1, 1]), J('c12_kv', [500, 2, 0, 1, 4])]
     + [J('c12_kv', [n, 2, m, 1, k], covers=ANY) for k, (n, m) in enumerate(((4, 1), (5, 2), (6, 3), (20, 97), (20, 255), (20, 256), (30, 1000),
                                                                (30, 1024), (40, 65537), (40, 2 ** 31), (40, 2 ** 31 + 1), (50, 2 ** 32 - 5), (50, 2 ** 32)))]
     + [J('c12_kv', [n, 3, 0, 1, k]) for n, k in ((5, 1), (5, 0), (40, 1))]
     + [J('c12_kv', [2, 4, 0, 1, k]) for k in (0, 1)] + [J('c12_kv', [20, 4, 0, 1, 0], covers=ANY)] + [J('c12_kv', [n, 5, 0, 0, 1], covers=(2,)) for n in (2, 20)]
     + [J('c12_kv', [2, 6, 0, 1, p], covers=(2,) if p == 7 else (1,)) for p in range(8)]
     + [J('c12_kv', [3, 6, 0, 1, p], covers=ANY) for p in (0o11, 0o21, 0o14, 0o33, 0o36, 0o65, 0o17, 0o66)]
     + [J('c12_args', a, covers=(1, 2) if a[0] == a[1] else (1,)) for a in ([0, 0], [1, 1], [2, 2], [2, 1], [1, 2], [0, 1], [3, 0])]
     + [J('c12_kv', [20, 2, 0, 1, 0], profile='irc'), J('c12_kv', [20, 2, 1000, 1, 0], profile='irc'), J('c12_args', [2, 1], profile='irc'),
        J('c12_kv', [2, 4, 0, 0, 1], profile='irc')]
     + [J('c12_kv', [n, 2, 0, 1, k], covers=ANY, tier='thorough', cost=4) for n in (1000, 2000) for k in range(3)]
     + [J('c12_kv', [n, 2, 0, 1, k], covers=ANY, tier='thorough') for n in range(1, 130) for k in (10, 11)],
     'every modulus from 1 to 2^32, every data word, label and initial slot content; one arbitrary key (four arbitrary words); picked sets of up to 500 (2000) keys, '
     'sets with equal hashes and with shared positions',
     'sets of several arbitrary keys', SLOTS + ['in runs with an arbitrary key, products by hash constants are arbitrary functions of their argument'])

prop('C13', 'bff',
     [J('c13_positions', [s, c], abs_mul=1) for s, c in ((2, 1), (3, 1), (4, 1), (4, 3), (5, 2), (6, 5), (8, 7), (10, 9), (12, 3), (15, 20), (18, 1), (18, 4000))]
     + [J('c13_positions', [s, c], abs_mul=1, profile='irc') for s, c in ((2, 1), (6, 5), (18, 100))]
     + [J('c13_shape', [n, k], covers=ANY) for k, n in enumerate((0, 1, 2, 3, 4, 5, 8, 9, 16, 33, 64, 100, 300, 700))] + [J('c13_shape', [20, 0]), J('c13_shape', [300, 12])]
     + [J('c13_depends', [0, 0, 256], cost=2), J('c13_depends', [1, 0, 256], cost=2), J('c13_depends', [2, 0, 64])]
     + [J('c12_kv', [n, 2, 0, 1, k], covers=ANY) for k, n in enumerate((3, 10, 40, 120))]
     + [J('c13_positions', [s, c], abs_mul=1, tier='thorough') for s in range(2, 19) for c in (1, 2, 3, 17, 1000)]
     + [J('c13_shape', [n, 3], covers=ANY, tier='thorough') for n in range(1, 120, 2)],
     'every key and seed (all 512 bits), every label; every segment length 4..2^18 with up to 4000 segments; the filters of picked sets of up to 700 keys',
     'more segments', SLOTS + ['products by hash constants are arbitrary functions of their argument where positions are bounded'])

prop('C17', 'bff',
     [J('c17_exact', [n, ty, how], cost=2 if ty in (0, 1, 2) else 1) for n, ty, how in
      ((0, 0, 0), (1, 0, 0), (2, 0, 1), (2, 1, 0), (2, 2, 1), (3, 3, 0), (4, 4, 1), (3, 5, 0), (5, 5, 1), (3, 6, 0))]
     + [J('c17_filter', [1, ty, how, 0], cost=4) for ty, how in ((0, 0), (1, 1), (2, 0))]
     + [J('c17_filter', [n, ty, how, 1]) for n, ty, how in ((0, 0, 0), (3, 1, 0), (20, 0, 1), (20, 1, 1), (40, 2, 0))]
     + [J('c17_filter', [10, 0, 1, 1], profile='irc'), J('c17_exact', [3, 5, 0], profile='irc')]
     + [J('c17_exact', [n, ty, how], tier='thorough', cost=5) for n in (3, 4) for ty in (0, 1, 2, 3) for how in (0, 1)],
     'up to 5 arbitrary keys (integers, tuples, byte strings) over a filter that keeps the hashes, with SipHash and with a plain hasher; one arbitrary key and picked sets of up to 40 strings '
     'over the xor filters',
     'larger sets; other types', HASHES)


def degenerate(profile='ir', tier='quick'):
    l = []
    for e in ('c14_bfuse', 'c15_xor', 'c16_fuse'):
        f = e == 'c16_fuse'
        # all positions shared: the first attempt fails
        l += [J(e, [ty, n, 4, 0, pat, 0], covers=ANY, profile=profile, tier=tier) for ty in (0, 2)
              for n, pat in ((2, 7), (3, 0o77), (3, 0o70), (4, 0o777), (3, 0o66), (4, 0o653), (5, 0o7777))]
        if not f:
            l += [J(e, [i % 3, n, 5, 1, bits, 0], covers=ANY, profile=profile, tier=tier, cost=2)
                  for i, (n, bits) in enumerate(((10, 8), (64, 12), (70, 40), (100, 20), (130, 16), (300, 24)))]
            l += [J(e, [i % 3, n, 6, 1, bits, 0], covers=ANY, profile=profile, tier=tier, cost=2)
                  for i, (n, bits) in enumerate(((10, 8), (64, 32), (70, 40), (100, 20), (130, 16), (300, 50)))]
        else:
            l += [J(e, [i % 3, n, m, 0, bits, 0], covers=ANY, profile=profile, tier=tier, cost=3)
                  for i, (n, m, bits) in enumerate(((10, 6, 8), (70, 6, 32), (100, 5, 20), (20, 2, 3)))]
    for n, m, pat in ((64, 7, 0), (65, 7, 1), (70, 7, 2), (130, 7, 3), (40, 3, 0), (2, 6, 7), (3, 6, 0o77), (3, 6, 0o70), (4, 6, 0o777), (2, 4, 1), (30, 5, 0)):
        l.append(J('c12_kv', [n, m, 0, 1, pat], covers=ANY, profile=profile, tier=tier))
    return l


prop('C18', 'bff',
     degenerate() + [j for j in degenerate('irc') if j['params'][1] not in (130, 300)]
     + [J('c14_bfuse', [ty, n, 2, 1, n, 0], cost=1, profile=p) for ty in (0, 1) for n in (0, 1, 2, 3, 7, 31) for p in ('ir', 'irc')]
     + [J('c15_xor', [ty, n, 2, 1, n, 0], cost=1, profile=p) for ty in (0, 1) for n in (0, 1, 2, 3, 7, 31) for p in ('ir', 'irc')]
     + [J('c16_fuse', [ty, n, 2, 1, n, 0], cost=1, covers=ANY, profile=p) for ty in (0, 1) for n in (0, 1, 2, 3) for p in ('ir', 'irc')]
     + [J('c14_bfuse', [0, 1, 0, 0, 0, 0], profile='irc'), J('c15_xor', [0, 1, 0, 0, 0, 0], profile='irc', cost=4), J('c16_fuse', [0, 1, 0, 0, 0, 0], profile='irc', cost=2),
        J('c12_kv', [1, 1, 0, 0, 0], abs_mul=1, cost=20)]
     + [J(e, [n % 3, n, 2, 0, n, 0], covers=ANY, profile='irc', tier='thorough') for e in ('c14_bfuse', 'c15_xor') for n in range(4, 140, 3)],
     'sets of one arbitrary key; picked sets in which 2 to 5 keys share some or all positions, in which up to 300 keys agree in up to 50 topmost or lowest hash bits, and in which '
     '64 to 130 keys of a key-value filter share a first position; release and development profile',
     'the number of attempts is bounded by the code (1000, or 1), except for the xor filters, whose loop is left when the keys are distinct and an attempt succeeds', HASHES)
