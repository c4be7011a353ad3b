"""Which harness units decide which property, and within which bounds."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TEMPL = json.load(open(V + "/harness/json_templates.json"))
PROPS = {}
COMMON_ASSUMPTIONS = []
CORE = ["lib/**/*.cpp"]


def P(pid, units, assumptions=()):
    PROPS[pid] = {"units": units, "assumptions": list(assumptions)}


def T(*groups, **kw):
    return [dict(kw, T=t) for g in groups for t in TEMPL[g]]


def N(*ns, **kw):
    return [dict(kw, T=-1, N=n) for n in ns]


def unit(name, src, repo=CORE, **kw):
    return dict(kw, name=name, src=src, repo=repo)


P("J01", [unit("read", "json_read.cpp", quick=N(0, 1, 2, 3, CHECK=1, _nofast=True) + N(4, 5, CHECK=1) + T("verdict", CHECK=1) + T("cut", CHECK=1, CUT=1), reach=["rejected", "accepted"]),
  unit("exit", "json_exit.cpp", quick=N(0, 1, 2, 3) + T("verdict2"), reach=["exit87", "built"])])
P("J02", [unit("read", "json_read.cpp", quick=N(3, CHECK=2) + T("str", "key", CHECK=2), reach=["rejected", "accepted"])])
P("J03", [unit("read", "json_read.cpp", quick=N(3, CHECK=4) + T("int", CHECK=4), reach=["rejected", "accepted"]),
  unit("write", "json_write.cpp", reach=["int"], quick=[dict(S=7, POS=-1, B=10)] + [dict(S=7, POS=p, FILL=f, TOP=t) for p, f, t in [(0, 0, 0), (0, 255, 7), (7, 255, 7), (8, 0, 8), (8, 255, 15), (15, 256, 15), (16, 256, 20), (24, 0, 31), (31, 255, 31), (0, 0, 31), (23, 256, 31)]])])
P("J04", [unit("read", "json_read.cpp", quick=N(3, CHECK=8) + T("arr", "obj", CHECK=8), reach=["rejected", "accepted"])])
P("J07", [unit("safe", "json_safe.cpp", quick=N(0, 1, 2, 3, 4, 5) + N(2, _nofast=True) + T("verdict", CUT=1) + T("cut", CUT=1) + T("key", "int", "deep") , reach=["rejected", "accepted"])])
P("J05", [unit("write", "json_write.cpp", reach=["done"], quick=[dict(S=0, D=1, W=2, L=1, I=2), dict(S=0, D=3, W=1, L=0, I=1), dict(S=0, D=0, L=2, I=10), dict(S=1, L=3), dict(S=1, L=2, _nofast=True), dict(S=1, L=4), dict(S=2, L=0), dict(S=2, L=1), dict(S=3, M=40), dict(S=4, M=30), dict(S=5, M=14), dict(S=6, M=300, L=2), dict(S=6, M=70000, L=1, _steps=2000000000)])])
P("J06", [unit("history", "json_value.cpp", reach=["copied", "assigned", "moved", "changed", "done"], quick=[dict(K=2)] + [dict(K=3, KIND=k) for k in (2, 3, 4, 5)]),
  unit("index", "json_index.cpp", reach=["element", "outside", "value", "missing", "delegated", "refused", "done"], quick=[dict()])])
P("E01", [unit("base", "eni_base.cpp", reach=["null", "result", "gas", "done"], quick=[dict(S=0), dict(S=1), dict(S=2), dict(S=3, _steps=2000000000)])])

REV, SCR, JSO, CRY = [CORE + ["examples/eni/reverse/*.cpp"], CORE + ["tools/eni_scrypt/*.cpp"], CORE + ["examples/eni/json/*.cpp"], CORE + ["tools/eni_crypto/*.cpp"]]
P("O01", [unit("reverse", "op_reverse.cpp", repo=REV, reach=["done"], quick=[dict(L=n) for n in (0, 1, 2, 3)] + [dict(L=2, _nofast=True), dict(L=2, ESC=1), dict(L=2, M=15), dict(L=1, M=16, AT=-1), dict(L=2, M=300, AT=150), dict(L=1, M=70000, AT=3, _steps=4000000000)])])
def args(name, repo, op, need, **kw):
    return unit(name, kw.pop("src", "op_args.cpp"), repo=repo, reach=["refused"], defs=["OP_GAS=%s_gas" % op, "OP_RUN=%s_run" % op, 'OP_NEED="%s"' % need] + kw.pop("defs", []), **kw)
P("E02", [args("reverse", REV, "reverse", "s", quick=[dict(W=2)], defs=["OP_KNOWN"]), args("scrypt", SCR, "scrypt", "s", fdefs={"eni_scrypt.cpp": ["scrypt_1024_1_1_256=sx_scrypt"]}, src="args_sha.cpp", quick=[dict(W=2)]), args("json", JSO, "json", "ssii", quick=[dict(W=4, V=5)], defs=["OP_KNOWN"]),
  unit("known-reverse", "op_refuse.cpp", repo=REV, quick=[dict(CASE=c) for c in range(5)]), unit("known-json", "op_refuse.cpp", repo=JSO, defs=["OP_JSON"], quick=[dict(JSON=1, CASE=c) for c in range(8) if c != 2]),
  args("rsa_encrypt", CRY, "rsa_encrypt", "ss", quick=[dict(W=2)], src="args_ossl.cpp"), args("rsa_decrypt", CRY, "rsa_decrypt", "ss", quick=[dict(W=2)], src="args_ossl.cpp")])
P("O02", [unit("scrypt", "op_scrypt.cpp", repo=SCR, fdefs={"eni_scrypt.cpp": ["scrypt_1024_1_1_256=sx_scrypt"]}, reach=["refused", "hashed"],
  quick=[dict(LO=n, HI=n) for n in (0, 1, 2)] + [dict(LO=0, HI=40, M=1, P=2), dict(LO=41, HI=163, M=1, P=2), dict(LO=158, HI=162, M=1)])])
P("O04", [unit("hex", "crypto_hex.cpp", repo=CRY, reach=["refused", "decoded", "encoded"], quick=[dict(LO=0, HI=3), dict(LO=0, HI=3, DEC=1), dict(LO=4, HI=4, DEC=1), dict(LO=2, HI=2, DEC=1, _nofast=True), dict(LO=4, HI=40, M=2), dict(LO=4, HI=40, M=2, DEC=1), dict(LO=600, HI=601, M=1, DEC=1)])])
P("O05", [unit("direct", "crypto_rsa.cpp", repo=CRY, reach=["failed", "processed"], quick=[dict(LO=1, HI=6), dict(LO=64, HI=64, M=2, FULL=1), dict(LO=512, HI=512, M=1, FULL=1)]),
  unit("ops", "crypto_rsa.cpp", repo=CRY, reach=["refused", "null", "result", "back"], quick=[dict(OPS=1, LO=n, HI=n) for n in (1, 2, 3)] + [dict(OPS=1, LO=20, HI=20, M=1, FULL=1), dict(OPS=1, LO=256, HI=256, M=1, FULL=1)])])
P("O06", [unit("json", "op_json.cpp", repo=JSO, reach=["refused", "string", "array", "element", "member"], quick=T("slice")),
  unit("known", "op_refuse.cpp", repo=JSO, defs=["OP_JSON"], quick=[dict(JSON=1, CASE=c) for c in range(8, 24)])])
P("H01", [unit("es", "hash_es.cpp", reach=["filter", "features"], quick=[dict(L=0, P=1, Q=1), dict(L=1, P=1, Q=1), dict(L=2, P=1, Q=1), dict(L=1, P=0, Q=1, DOTS=17), dict(MODE=1, L=1, L2=1), dict(MODE=1, L=2, L2=1), dict(MODE=1, L=1, L2=1, DOTS=17), dict(L=1, P=1, Q=0, RUN=1), dict(L=1, P=0, Q=0, RUN=2), dict(MODE=1, L=0, L2=0, RUN=3), dict(MODE=1, L=1, L2=1, RUN=1)])])
P("H02", [unit("hash", "hash_str.cpp", reach=["hash"], quick=[dict(L=n) for n in (0, 1, 2, 3, 4)] + [dict(L=2, M=m) for m in (5, 14, 300, 70000)]), unit("compare", "hash_str.cpp", reach=["compare"], quick=[dict(MODE=1, L=3)])])
P("T01", [unit("to_string", "to_string.cpp", reach=["int", "small", "bool"], quick=[dict(POS=-1, B=10, BOOL=1)] + [dict(POS=p, FILL=f, TOP=t) for p, f, t in [(0, 0, 0), (0, 255, 7), (7, 255, 7), (8, 0, 8), (8, 255, 15), (15, 256, 15), (16, 256, 20), (24, 0, 31), (31, 255, 31), (0, 0, 31), (23, 256, 31)]])])
P("X01", [unit("errors", "exceptions.cpp", reach=["error"], quick=[dict()])])
P("C01", [unit("opt", "cli_opt.cpp", repo=["tools/eni_cli/optParser.cpp"], reach=["few", "many", "three"], quick=[dict(A=4, L=2), dict(A=3, L=5, FIX=1, EXACT=1), dict(A=6, L=1), dict(A=5, L=2, FIX=1, EXACT=1), dict(A=3, L=1, FIX=1, EXACT=1, LONG=70000, AT=3, _steps=1000000000)])])
DL = ["dlopen=sx_dlopen", "dlsym=sx_dlsym", "dlclose=sx_dlclose"]
P("C02", [unit("main", "cli_main.cpp", repo=["tools/eni_cli/*.cpp"], rdefs=DL, fdefs={"eni_run.cpp": ["main=run_main"], "eni_gas.cpp": ["main=gas_main"]}, reach=["usage", "load", "symbol", "null", "gas", "run"], quick=[dict()])])
DIAG = ["lib/diagnostic/*.cpp"]
GROW = [dict(PRE=12, K=14, M=2, SZ=0, HM=h, OLD=1) for h in (1, 2, 3)] + [dict(PRE=12, ER=8, K=15, M=3, SZ=0, OPS=11, H=3), dict(PRE=12, ER=12, K=15, M=4, SZ=0, OPS=11, HM=3, H=1), dict(PRE=27, K=29, M=2, SZ=0, OPS=11, H=2)]
CHURN = [dict(CHURN=40, K=3, P=3, F=3, SZ=1, HM=1, PRE=0, H=1, _steps=200000000), dict(CHURN=150, K=6, P=6, SZ=0, S=4, EVERY=3, F=2, H=1, _steps=200000000), dict(CHURN=60, K=4, P=4, SZ=0, S=17, EVERY=7, H=1, _steps=200000000), dict(CHURN=250, K=20, P=20, SZ=2, S=2, EVERY=9, H=1, _steps=200000000)]
P("A01", [unit("table", "hash_table.cpp", repo=DIAG, reach=["entries", "empty", "tombstones", "grown"], quick=[dict(M=2), dict(M=3, H=2), dict(M=5, K=3, H=2, OPS=3, SZ=1), dict(M=3, K=2, HM=0, SZ=1, OPS=3), dict(M=2, K=2, HM=0, SZ=1), dict(M=3, K=2, HM=0, SZ=2, OPS=3, HI=4294967040), dict(M=1, K=2, HM=0, SZ=1, _nofast=True)] + GROW + CHURN)])
P("A02", [unit("table", "hash_table.cpp", repo=DIAG, reach=["walked", "several"], quick=[dict(CHECK=2, M=2, H=3), dict(CHECK=2, M=3, K=2, H=2, SZ=1), dict(CHECK=2, M=4, K=3, H=2, OPS=3, SZ=1), dict(CHECK=2, M=2, K=2, HM=0, SZ=1, OPS=3), dict(CHECK=2, M=2, K=2, HM=0, SZ=2, OPS=3, HI=4294967040)] + [dict(g, CHECK=2, H=2, M=min(g["M"], 3), OPS=11) for g in GROW] + [dict(g, CHECK=3) for g in CHURN])])
P("A03", [unit("map", "string_map.cpp", repo=DIAG, reach=["present", "absent", "same"], quick=[dict(M=1), dict(M=3, K=1), dict(M=2, K=2, OPS=3), dict(M=2, SHAPE=0), dict(M=3, SHAPE=0, OPS=3), dict(M=2, SZ=0, SHAPE=3), dict(M=1, SZ=1, SHAPE=4), dict(M=1, PRE=12, SHAPE=1, OPS=3), dict(M=1, K=1, PRE=12, SHAPE=1, OPS=120), dict(M=1, K=1, LONG=65535, SHAPE=0, OPS=7, _steps=2000000000), dict(M=1, K=1, LONG=65536, SHAPE=2, OPS=7, _steps=2000000000)])])
P("A04", [unit("int", "vector.cpp", repo=DIAG, reach=["done", "too big"], quick=[dict(M=1, BAD=1), dict(M=2, N0=2, SPARE=0, CTOR=0, SYM=0), dict(M=2, N0=1, CTOR=2, SYM=0), dict(M=2, N0=0, SYM=0)]),
  unit("odd", "vector.cpp", repo=DIAG, defs=["ODD"], reach=["done"], quick=[dict(M=1, SYM=0), dict(M=2, N0=1, SPARE=0, CTOR=4, SYM=0)])])
P("A05", [unit("laws", "ptr_iter.cpp", repo=DIAG, reach=["dereferenced", "indexed", "written", "walked"], quick=[dict(TYPE=t, N=n) for t in range(4) for n in (1, 12)] + [dict(TYPE=t, FAR=1) for t in (0, 1, 3)])])
def same(name, repo, op, **kw):
    return unit(name, "op_same.cpp", repo=repo, defs=["OP=%d" % op], reach=["null", "result"], **kw)
def sq(op):
    return [dict(L=0 if op > 3 else 1, H=2), dict(L=1, H=1, REP=20), dict(L=1, H=1, EARLY=1, _layout="shg"), dict(L=2, H=1), dict(L=1, H=1, PAD=300) if op in (1, 5) else dict(L=1, H=1, PAD=14, SIZE=16)]
P("E03", [same("reverse", REV, 1, quick=sq(1)), same("scrypt", SCR, 2, fdefs={"eni_scrypt.cpp": ["scrypt_1024_1_1_256=sx_scrypt"]}, quick=sq(2)),
  same("rsa_encrypt", CRY, 3, quick=sq(3)), same("rsa_decrypt", CRY, 4, quick=sq(4)), same("json", JSO, 5, quick=sq(5))])
SCRYPT = ["tools/eni_scrypt/scrypt.cpp"]
P("O03", [unit("pbkdf2", "pbkdf2.cpp", repo=SCRYPT, reach=["key", "nothing"], quick=[dict(PLO=0, PHI=200, SLO=3, SHI=3), dict(PLO=80, PHI=80, SLO=80, SHI=80, DLO=0, DHI=300), dict(PLO=80, PHI=80, SLO=128, SHI=128, DLO=32, DHI=32), dict(PLO=2, PHI=2, SLO=0, SHI=200, CLO=2, CHI=2), dict(PLO=5, PHI=5, SLO=5, SHI=5, CLO=0, CHI=40, DLO=33, DHI=33), dict(PLO=3, PHI=3, SLO=3, SHI=3, CLO=254, CHI=258), dict(PLO=65, PHI=65, SLO=1, SHI=1, CLO=0, CHI=3, DLO=0, DHI=65),
   dict(PLO=127, PHI=130, SLO=63, SHI=65, CLO=1, CHI=2, DLO=63, DHI=65), dict(PLO=1, PHI=1, SLO=1, SHI=1, CLO=1, CHI=1, DLO=8190, DHI=8194), dict(PLO=1000, PHI=1000, SLO=1000, SHI=1000, CLO=2, CHI=2, DLO=40, DHI=40), dict(PLO=0, PHI=0, SLO=3000, SHI=3000), dict(PLO=3000, PHI=3000, SLO=0, SHI=0)]),
  unit("scrypt", "scrypt_mix.cpp", repo=SCRYPT, reach=["digest", "scratchpad"], quick=[dict(SEED=n, _steps=2000000000) for n in range(3)] + [dict(SAME=1, BY=16, _steps=2000000000), dict(SP=1, STEP=7, _steps=2000000000)])])

P("R01", [unit("vector", "vector.cpp", repo=DIAG, reach=["released"], quick=[dict(LEAK=1, M=1), dict(LEAK=1, M=2, N0=1, CTOR=2, SYM=0)]),
  unit("table", "hash_table.cpp", repo=DIAG, reach=["released"], quick=[dict(g, LEAK=1) for g in [dict(M=2), dict(M=3, K=2, HM=0, SZ=1, OPS=3)] + GROW[:2] + [dict(GROW[3], OPS=11)] + CHURN]),
  unit("map", "string_map.cpp", repo=DIAG, reach=["released"], quick=[dict(LEAK=1, M=1), dict(LEAK=1, M=2, SHAPE=0), dict(LEAK=1, M=2, K=1, PRE=12, SHAPE=1, OPS=127)]),
  unit("rsa", "crypto_leak.cpp", repo=CRY, reach=["fine", "fault", "released"], quick=[dict()]), unit("rsa-ops", "crypto_leak.cpp", repo=CRY, reach=["fine", "fault", "result", "no result"], quick=[dict(OPS=1)]),
  unit("json", "json_leak.cpp", reach=["released"], quick=[dict()]), unit("known", "json_leak.cpp", quick=[dict(CASE=c) for c in range(5)])])

# ---------------------------------------------------------------- what the bounds and assumptions say
COMMON_ASSUMPTIONS += [
    "clang -O0 IR of the repository's sources (x86-64, libstdc++ 13 headers, gnu++11) stands for them; the native replay uses g++",
    "libc and the out-of-line parts of libstdc++ are models in rt/rt.cpp, iostream and boost::lexical_cast are stand-ins in shim/; solver-made witnesses are re-run on the native build to validate them",
    "allocation never fails for sizes up to 2^28 bytes and fails above; stack depth is not bounded (recursion deeper than the harnesses' texts is outside)",
    "single thread; sources outside the program (environment, clock, random numbers) answer any value",
    "object addresses are those of one of two fixed layouts; comparisons of addresses of unrelated objects are symbolic",
]
_B = {
    "J01/read": "every text of at most 5 bytes; the templates of groups 'verdict' and 'cut' (up to ~60 bytes, up to 6 of them fully symbolic), the latter cut at every position",
    "J01/exit": "every text of at most 3 bytes and five templates with up to 3 symbolic bytes, as the argument of an operation",
    "J02/read": "every text of 3 bytes; templates of strings and keys with up to 8 symbolic bytes, lengths up to 2000",
    "J03/read": "integer literals of up to 77 digits of which up to 4 are symbolic, around powers of two and ten and the 2^255 bounds, both signs",
    "J03/write": "magnitudes below 2^10 entirely; one symbolic byte at chosen positions of a 256-bit magnitude over zero, all-one and mixed fillings, both signs",
    "J04/read": "every text of 3 bytes; arrays and objects up to 40 elements or members, nested up to 12 levels, with up to 4 symbolic bytes, keys that may coincide",
    "J05/write": "trees of depth at most 3 and width at most 2, strings of at most 4 symbolic bytes, inside texts up to 70000 bytes, chains 40 deep, objects of 30 members",
    "J06/history": "3 variables, two operations on values of any kind, three operations for integers, strings, arrays and objects",
    "J06/index": "single values of each kind, containers of at most 3 elements, any index in -2..5 or extreme, keys of at most 2 symbolic bytes",
    "J07/safe": "every text of at most 5 bytes; templates cut at every position; nesting of up to 1240 open brackets",
    "E01/base": "8 argument texts, symbolic verdicts and gas, up to 2 symbolic result values or 41 fixed ones or a result of 70 kB, three calls in any order on one instance or through the C entry points",
    "E02/reverse": "argument texts of every shape: not an array, up to 2 arguments of 10 kinds each (known findings excluded)",
    "E02/scrypt": "argument texts of every shape: not an array, up to 2 arguments of 10 kinds each",
    "E02/json": "argument texts of every shape: up to 4 arguments of 5 kinds each, one wrong argument of 10 kinds (known findings excluded)",
    "E02/known-reverse": "the five argument texts of the known findings", "E02/known-json": "the seven argument texts of the known findings",
    "E02/rsa_encrypt": "argument texts of every shape: not an array, up to 2 arguments of 10 kinds each", "E02/rsa_decrypt": "argument texts of every shape: not an array, up to 2 arguments of 10 kinds each",
    "O01/reverse": "every string of at most 3 bytes; 1 or 2 symbolic bytes in strings of 15, 16, 300 and 70000 bytes; the same bytes written as escapes",
    "O02/scrypt": "every string of at most 2 bytes; lengths 0..163 with one symbolic byte at two positions and every position class at 158..162; the 80-byte block and digest compared in full",
    "O03/pbkdf2": "all bytes of password and salt symbolic, SHA-256 any function: password 0..200, 1000 and 3000 bytes, salt 0..200, 1000 and 3000, iterations 0..40 and 254..258, output 0..300 and 8190..8194",
    "O03/scrypt": "the block fully symbolic around the derivations; the 1024-step mixing on 9 known 128-byte states (SHA-256 replaced by a fixed fresh digest per message); scratchpads at 10 addresses modulo 64",
    "O04/hex": "every string of at most 3 bytes (4 decoded); lengths up to 40, 600 and 601 with 1 or 2 symbolic bytes at four places",
    "O05/direct": "keys of 1..6 bytes with messages up to 2 longer fully symbolic; keys of 64 and 512 bytes with messages of size-1..size+1; both directions, library success or failure",
    "O05/ops": "keys of 1..3, 20 and 256 bytes, messages up to one longer, faults of key, library and buffer, hex of either case with one wrong character",
    "O06/json": "13 templates of data with up to 3 symbolic bytes, with and without surrounding text, all sub-operations, indices and keys present and absent (known findings excluded)",
    "O06/known": "the sixteen argument texts of the known findings",
    "H01/es": "strings of at most 2 symbolic bytes inside up to 1 more on either side; up to 17 dots; runs of 8 characters with 18 lengths around powers of two up to 70000",
    "H02/hash": "keys of at most 4 symbolic bytes, and 2 symbolic bytes in keys of 5, 14, 300 and 70000", "H02/compare": "two strings of at most 3 symbolic bytes",
    "T01/to_string": "magnitudes below 2^10 entirely; one symbolic byte at chosen positions over zero, all-one and mixed fillings, of each of the five types; both booleans",
    "X01/errors": "each identifier, each base type, copies, slices and assignments (finite and complete)",
    "C01/opt": "up to 6 arguments of 1 symbolic byte, 4 of at most 2, 3 of 5, one argument of 70 kB",
    "C02/main": "both tools, six argument vectors, each of loading, lookup and call succeeding or failing, results of up to 3 symbolic bytes or 3000 bytes, gas of any byte or the largest",
    "R01/vector": "one operation of 20 kinds with symbolic positions and sizes, two with concrete ones, after 5 constructors", "R01/table": "histories of 2 to 4 operations of 12 kinds as in A01, growth from 12 entries, churn of 40..250 insertions and erasures",
    "R01/map": "1 or 2 operations of 8 kinds on keys of 5 shapes, with up to 12 further entries", "R01/rsa": "keys of 4 bytes, messages of at most 6 symbolic bytes, both directions, one fault of key, library or stream", "R01/rsa-ops": "6 argument texts, 4 messages, both operations, one fault",
    "R01/json": "strings of at most 2 symbolic bytes, short and long, booleans, containers of at most 3 booleans, copied, moved, assigned to an undefined value, delegated", "R01/known": "the five histories of the known findings",
    "A01/table": "3 to 6 free keys with every hash assignment from a set of up to 4 values or one symbolic byte, 3 initial sizes, histories of 2 to 5 operations of 12 kinds; growth at 12..29 entries; churn of 40..250 insertions and erasures",
    "A02/table": "as A01, with the table and every chain walked in four ways after each history",
    "A03/map": "2 keys of 5 shapes with a symbolic byte (empty, NUL, shared prefix), 1 to 3 operations of 8 kinds; 12 further entries; keys of 65535 and 65536 bytes",
    "A04/int": "1 operation of 20 kinds with symbolic positions and sizes, 2 operations with positions 0..n+1 and the largest, after 5 constructors of up to 3 elements, with and without spare room",
    "A04/odd": "the same with a 3-byte class type as element",
    "A05/laws": "arrays of 1 and 12 elements of 4 element types, symbolic positions and offsets; walks of 3 steps; positions up to 2^44 without dereferencing",
    "E03/reverse": "two evaluations of one text around up to 2 others of 7, memory filled differently, 2 address layouts", "E03/scrypt": "as E03/reverse", "E03/rsa_encrypt": "as E03/reverse, the crypto library an uninterpreted function", "E03/rsa_decrypt": "as E03/rsa_encrypt", "E03/json": "as E03/reverse",
}
for _p, _e in PROPS.items():
    for _u in _e["units"]:
        _u.setdefault("bounds", _B["%s/%s" % (_p, _u["name"])])
PROPS["O03"]["note"] = "The mixing is decided on nine known states, not all: equality of two 1024-step mixings of an arbitrary state is out of reach of the solver. PBKDF2 and the data flow around the mixing are decided for all contents."
PROPS["O02"]["assumptions"] += ["the digest function is a stand-in returning any 32 bytes (O03 decides it)"]
PROPS["O05"]["assumptions"] += ["OpenSSL's RSA and BIO calls are stand-ins with the documented contracts, answering success or failure"]
PROPS["E03"]["assumptions"] += ["OpenSSL and the scrypt core are uninterpreted functions"]
PROPS["C02"]["assumptions"] += ["dlopen, dlsym and dlclose are stand-ins answering success or failure"]
