import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs:a["observe_at"]=obs
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
API="src/api.rs";DBI="src/db/index.rs";DBK="src/db/kv.rs";DBM="src/db/mod.rs";UT="src/utils.rs"
B="bff-modp/src/"
p("C01","Index PIR retrieves exactly the queried element",
"For every database, every row index below the number of records, every public seed and every client randomness, generating query parameters, querying that row, answering with the server and parsing the response yields exactly the element stored at that row, as a row of plaintext entries, as bytes and as base64. This holds whenever the scheme's parameters keep the accumulated LWE error below half of the scaling factor.",
["inputs","configurations"],"every database content, every queried row, every value of the secret, error and public randomness, every plaintext width and element size in the bounds",
"The one end-to-end test retrieves ten rows of one random database with one parameter set; it cannot see an error that depends on the value of the data or the randomness (a wrap of the query, an error term of the largest magnitude, an element size that is a multiple of the plaintext width).",
[API,DBI,DBM,UT],[("QueryParams::generate_query / parse_resp_as_*",API),("Shard::respond",API),("LWE utilities",UT)],["Shard::from_base64_strings, CommonParams::from, generate_index_query_params, generate_query, respond, parse_resp_as_row/bytes/base64"])
p("C02","Keyword PIR retrieves exactly the value of the queried key",
"For every set of key-value pairs with distinct keys, every key of that set, every public seed and every client randomness, whenever the keyword database is built, querying the key and parsing the response yields exactly the value that was stored for that key, as a row, as bytes and as base64. This holds whenever the parameters keep the accumulated LWE error below half of the scaling factor.",
["inputs","configurations"],"every value content, every key of the database, every filter seed, secret, error and public randomness in the bounds",
"One test retrieves ten keys of one random database with one parameter set; masks, fingerprints, filter positions and noise take a handful of the values they can take.",
[API,DBK,DBM,B+"prelude/bfusep.rs",B+"bfusep32.rs"],[("KVDatabase::new, FilterParams::get_hash_evals, unmask_value",DBK),("QueryParams<KVDatabase,FilterParams>",API)],["KVShard::new / from_base64_strings, generate_kv_query_params, generate_query, respond, parse_resp_as_*"])
p("C03","The server's answer is the query times the database",
"For every database and every query vector of the right length, honest or not, the response of an index or keyword server is, in every column, the inner product of the query with that column of the database modulo 2^32. A query of any other length is answered with an error, never a truncated product or a panic.",
["inputs"],"every query vector (each word arbitrary), every database content, every length in the bounds",
"Tests only send honest queries of the right length, and see the product only through rounding, which hides wrong low bits, wrong wraps and a dropped small term.",
[API,DBI,DBK,UT],[("Shard::respond, KVShard::respond",API),("vec_mult_u32_u32",UT)],["Shard::respond, KVShard::respond, DatabaseMatrix::vec_mult"])
p("C04","Public parameters are the database times the seeded LWE matrix",
"For every database and every public seed, the parameters that the server publishes are the product, modulo 2^32, of the database with the LWE matrix that is determined by the public seed, and the client derives that same matrix from the published parameters. Two servers with the same seed and dimension get the same matrix, and distinct calls draw fresh seeds.",
["inputs","configurations"],"every database content, every seed (the generator's output words are arbitrary), every dimension and number of records in the bounds",
"Tests compare one random instance; a wrong transpose, a dropped row or column or a stale seed on small or square shapes shows only for particular shapes and values.",
[DBI,DBK,DBM,UT],[("BaseParams::generate_params_rhs / IndexParams::new / KVParams::new",DBM),("generate_lwe_matrix_from_seed, swap_matrix_fmt",UT)],["IndexParams::new, KVParams::new, CommonParams::from, as_matrix, get_rhs, get_public_seed"])
p("C05","A query is a mask that is independent of the target plus the indicator",
"For every valid target, a query equals a mask that is determined by the query parameters alone, with the scaling factor added modulo 2^32 at exactly the target's positions; generating it never fails because of the mask's value. The mask is the public matrix times a ternary secret plus a ternary error, with a new secret and a new error for each set of query parameters.",
["inputs"],"every row or key, every mask value including those where the addition wraps, every randomness in the bounds",
"A failure on a wrap happens for a fraction 2^-p of the masks and depends on the target, so it leaks; tests draw ten queries. No test looks at the query at all.",
[API,DBM,UT],[("generate_query",API),("CommonParams::mult_left, random_ternary_vector",DBM)],["generate_query, Query::as_slice"])
p("C06","Query parameters make at most one query",
"In every history of calls on one set of query parameters, at most one query is ever produced: once a query was produced every later attempt, for the same or another target, valid or not, is an error and produces no query. A refused call with an invalid row does not consume the parameters, and parsing a response never resets them.",
["histories","inputs"],"every sequence of calls up to the bound with arbitrary targets, for index and keyword parameters, including after serialisation",
"The test makes one history of two calls with the same row.",
[API],[("QueryParams.used",API)],["generate_query, the used flag"],[("used","a query was produced",API)])
p("C07","Rounding removes every error below half the scaling factor",
"For every plaintext width from 1 to 31 bits, every plaintext value and every error strictly below half of the scaling factor in magnitude, decoding a scaled value plus the error gives the plaintext value back. The decoded value is always below the plaintext modulus, whatever the response.",
["inputs","configurations"],"every plaintext width 1..31, every plaintext value, every 32-bit error in range, every response word",
"Tests use plaintext widths 10 and 11 and the errors that occur by chance, which are far below the limit; boundary errors, wrap-around to 0 and the largest plaintext are not sampled.",
[API,UT],[("parse_resp_as_row",API),("get_rounding_factor, get_rounding_floor, get_plaintext_size",UT)],["parse_resp_as_row of index and keyword parameters"])
p("C08","Database encoding loses nothing",
"For every element content and every element size and plaintext width that the database accepts, every element that is put into an index or keyword database reads back unchanged: as base64 from the entry accessor and row iterator, and as plaintext entries that are all below the plaintext modulus. The first bits of the element are in the first entries, each element in the row of its index.",
["inputs","configurations"],"every element content, element sizes and plaintext widths in the bounds including sizes that are multiples of the width, every number of rows in the bounds",
"Tests use element size 256 (bits) with widths 10 and 11 and random data; the last partial entry, multiples and small widths are not reached.",
[DBI,DBK,DBM,UT],[("IndexDatabase::new, construct_rows",DBI),("KeyValue::from_base64_strings",DBK),("bytes_from_u32_slice",UT)],["get_row, get_db_entry, into_row_iter, KeyValue fields"])
p("C09","Malformed input is an error, not a panic or a wrong database",
"Every constructor and operation of the index and keyword API that returns a result answers malformed input with an error: base64 or JSON that does not decode, elements that end before their last entry begins, more records announced than given, no records, values of a wrong width, vectors of mismatched length, rows outside of the database. Key and value lists of different lengths are an error as well.",
["inputs","configurations"],"every byte content and the listed shapes of malformed input in the bounds",
"No test gives malformed input to the constructors; the error depends on the position and value of single bytes.",
[API,DBI,DBK,DBM,"src/errors.rs"],[("constructors",DBI),("constructors",DBK),("vec_mult_u32_u32",UT)],["Shard::from_base64_strings, from_json_file, KVShard::*, CommonParams::mult_left, mult_right"])
p("C10","Bit and byte conversions are inverse and little-endian",
"For every input in their domain the public conversion utilities agree with the little-endian definition: bit i of the result is bit i mod 8 of byte i div 8, converting to bits and back is the identity, the packing of words takes exactly the low bits of each word and only the remaining bits of the last, and base64 output is the encoding of the packed bytes. Bit strings of more than 32 bits and byte vectors of length other than 4 are errors for conversions to a word.",
["inputs"],"every word, every byte string and bit string in the length bound, every bit length",
"The conversions have no unit tests; end-to-end tests exercise one width.",
[UT],[("format module",UT)],["u32_to_bits_le, bits_to_bytes_le, bytes_to_bits_le, bits_to_u32_le, u32_sized_bytes_from_vec, bytes_from_u32_slice, base64_from_u32_slice"])
p("C11","Keys are the little-endian words of SHA-256",
"For every input byte string, the hashed key is the SHA-256 digest of the bytes read as four little-endian 64-bit words, deterministically; the key of a key-value pair is that hash of the key string that a client hashes when it queries.",
["inputs"],"every byte string of each length in the bounds",
"No test compares the key with a reference; a swap of words or bytes is invisible end to end as long as both sides share it, yet breaks stored databases and other clients.",
[UT,DBK],[("sha256_into_u64_sized",UT),("KeyValue::from_base64_strings",DBK)],["sha256_into_u64_sized, KeyValue::key"])
p("C12","A key-value filter returns exactly the data of each key",
"For every set of distinct keys, every data and label, every seed and every plaintext modulus from 1 to 2^32, whenever the modular binary fuse filter is built, retrieving a key of the set gives the key's data modulo the modulus. Every published fingerprint (what get_fingerprints_mod returns), initially random or not, is below the modulus; the sum of a key's three published fingerprints and its mask is its data modulo the modulus, so retrieval through the published fingerprints agrees; and every choice of the unused slots gives the same result.",
["inputs","configurations"],"every data word, label, modulus, seed randomness and initial fingerprint; key sets of the sizes in the bounds",
"Tests use random keys with two moduli, both powers of two, and random data; a non-power-of-two modulus, the carry of the three-term sum and collisions of key hashes are not reached.",
[B+"prelude/bfusep.rs",B+"bfusep32.rs",B+"lib.rs"],[("bfusep_from_impl!, bfusep_retrieve_impl!",B+"prelude/bfusep.rs"),("BinaryFuseP32",B+"bfusep32.rs")],["BinaryFuseP32::from_slice, from_vec, retrieve, fingerprints"])
p("C13","Filter positions and masks agree between server and client",
"For every key and every filter the three positions of a key lie inside the filter, in three consecutive segments, and the positions and the mask that a client computes from the published filter parameters are the ones with which the filter was built. The mask of a column is below the plaintext modulus after reduction and depends on the column's label.",
["inputs","configurations"],"every key (four arbitrary words), seed, label and plaintext modulus; every segment length that construction can choose",
"Tests check positions indirectly for the sampled keys of one filter size; an off-by-one at the last segment needs a hash at the very top of the range.",
[B+"prelude/bfusep.rs",B+"prelude/mod.rs",B+"bfusep32.rs",DBK],[("hash_of_hash!, mod3!, segment_length!",B+"prelude/bfusep.rs"),("FilterParams::get_hash_evals, unmask_value",DBK)],["BinaryFuseP32::hash_eval, get_fingerprints_mod, get_key_fingerprint, FilterParams::*"])
p("C14","Binary fuse filters have no false negatives",
"For every set of distinct keys, whenever an 8, 16 or 32-bit binary fuse filter is built from it the filter contains every key of the set, and its length is the number of its fingerprints. Looking up any key whatever, also for the empty set, does not panic.",
["inputs","configurations"],"every set of keys of the sizes in the bounds, every looked-up key",
"Tests build one filter of many random keys; tiny sets, keys that collide in their positions and boundary hashes are not reached.",
[B+"prelude/bfuse.rs",B+"bfuse8.rs",B+"bfuse16.rs",B+"bfuse32.rs"],[("bfuse_from_impl!, bfuse_contains_impl!",B+"prelude/bfuse.rs")],["BinaryFuse8/16/32::try_from, contains, len"])
p("C15","Xor filters have no false negatives",
"For every set of distinct keys, a built 8, 16 or 32-bit xor filter contains every key of the set, and looking up any key does not panic.",
["inputs","configurations"],"every set of keys of the sizes in the bounds, every looked-up key",
"Tests build one filter of many random keys; tiny sets and particular hash patterns are not reached.",
[B+"prelude/xor.rs",B+"xor8.rs",B+"xor16.rs",B+"xor32.rs"],[("xor_from_impl!, xor_contains_impl!",B+"prelude/xor.rs")],["Xor8/16/32::from, contains, len"])
p("C16","Fuse filters have no false negatives",
"For every set of distinct keys, an 8, 16 or 32-bit fuse filter that is built contains every key of the set; a set for which no filter can be built is a clean error. Looking up any key does not panic.",
["inputs","configurations"],"every set of keys of the sizes in the bounds, every looked-up key",
"Tests build one filter of many random keys; small sets, for which the filter has few slots, are not reached.",
[B+"prelude/fuse.rs",B+"fuse8.rs",B+"fuse16.rs",B+"fuse32.rs"],[("fuse_from_impl!, fuse_contains_impl!",B+"prelude/fuse.rs")],["Fuse8/16/32::try_from, contains, len"])
p("C17","The hash proxy is transparent",
"For every set of keys of any hashable type, a proxied filter contains every key of the set, its answer for any key is the underlying filter's answer for the key's hash, and its length is that of the underlying filter. The hash of a key does not depend on the proxy instance.",
["inputs"],"every set of keys of the sizes and types in the bounds",
"Tests use random integer keys only and one filter type each.",
[B+"hash_proxy.rs"],[("HashProxy",B+"hash_proxy.rs")],["HashProxy::from, try_from, contains, len"])
p("C18","Filter construction always terminates without a panic",
"For every set of distinct keys, empty, tiny or degenerate (many keys that share a position or a segment), construction of every filter type ends with a filter or with an error, without a panic, an out-of-bounds access or an arithmetic overflow. A failed attempt leaves no state behind that makes the next attempt wrong.",
["inputs","configurations"],"sets of distinct keys of the sizes in the bounds, arbitrary key words; degenerate position patterns by an arbitrary hash",
"Tests use large random key sets, for which the first or second attempt succeeds; 64 keys at one position never occur by chance.",
[B+"prelude/bfuse.rs",B+"prelude/bfusep.rs",B+"prelude/fuse.rs",B+"prelude/xor.rs",B+"prelude/mod.rs"],[("construction loops",B+"prelude/bfuse.rs")],["every from / try_from of the filters"])
p("C19","Serialisation is lossless",
"For every value of each serialisable message or state (shard, parameters, query, response, query parameters), deserialising its serialised bytes gives an equal value that behaves in the same way, and the serialised response of the server is what the client decodes. Truncated bytes never deserialise into a value.",
["inputs"],"every content of the words, flags and seeds of the messages in the shapes of the bounds",
"Tests round-trip only responses of honest queries.",
[API,DBI,DBK,DBM],[("Serialize/Deserialize derives",API)],["bincode::serialize / deserialize of Query, Response, QueryParams, CommonParams, IndexParams, KVParams, Shard"])
p("C20","Parameters that are written to a file are read back unchanged",
"For every database and parameters, the file that the server writes for its public parameters loads into parameters that are equal in every field, so that a client of the loaded parameters retrieves the same elements. A missing or malformed file is an error.",
["inputs","configurations"],"every content of the parameters in the shapes of the bounds",
"No test writes or loads a file.",
[DBI,DBK,API],[("write_to_file, IndexParams::load",DBI)],["Shard::write_to_file, IndexParams::load, Shard::from_json_file"])
p("C21","Benchmark configuration values are parsed faithfully",
"For every value of a flag or environment variable, a size given as an exponent e is 2^e or the program stops: it is never silently another size; a boolean is true for exactly the documented spelling, and numbers are the decimal value of their text. A malformed or missing value stops the program rather than becoming a default.",
["inputs","configurations"],"every text up to the length bound",
"The package has no tests of its own.",
["pi-rs-cli-utils/src/lib.rs"],[("parse_from_env, parse_exp_to_usize, parse_val_to_bool","pi-rs-cli-utils/src/lib.rs")],["parse_from_env, parse_exp_to_usize, parse_val_to_bool, parse_cli_flags"])
p("C22","Ternary sampling is uniform and fresh",
"Over all 32-bit words of system randomness, the ternary sampler gives each of 0, 1 and -1 for the same number of words (up to one), rejects and redraws only the words above the last whole interval, and never gives another value. Each coordinate of a vector uses fresh randomness, and every seed is taken whole from system randomness.",
["inputs"],"every sequence of random words up to the bound on redraws",
"A statistical test of a few thousand draws sees neither a bias at the interval bounds nor a value that occurs for one word in 2^32.",
[UT],[("random_ternary, random_ternary_vector, generate_seed",UT)],["observed through query parameters: masks and response keys"])
p("C23","Filters rarely accept keys that are not in the set",
"For keys outside of the set, an n-bit filter answers true with a probability of about 2^-n over the choice of the key.",
["inputs"],"the distribution of keys outside of the set",
"Tests estimate the rate on one random sample.",
[B+"prelude/mod.rs",B+"murmur3.rs",B+"splitmix64.rs"],[("fingerprint!, mix, murmur3",B+"prelude/mod.rs")],["contains on keys outside of the set"])
p("C24","Queries hide the target from the server",
"A server that sees a query gains no usable information about the target, under the hardness of LWE with the parameters in use.",
["inputs"],"every efficient adversary",
"It is a statement about computational indistinguishability.",
[API,UT],[("LWE encryption of the indicator",API)],["Query"])
for q in P:
    assert len(q["title"])<=80,q["title"]
    assert q["statement"].count('. ')<=2,(q["id"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
