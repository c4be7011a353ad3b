#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Editing aid only; the jsonl is what counts.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

RD = ["include/eni/json/Parser.h", "include/eni/json/Callbacks.h"]
p("J01", "The JSON reader accepts exactly the supported dialect",
  "A text is accepted exactly when, after optional blanks, it starts with a value of the supported dialect: true, false, an integer without leading zeros and with optional minus, a double-quoted string with JSON escapes, an array, or an object with string keys (no null, fractions or exponents; text after the first value is ignored). Every other text is reported as a parse error, and building an operation on it ends the process with exit status 87. The verdict depends on the bytes of the text alone, not on where the text is stored.",
  ["inputs"], "every byte string given as the JSON text", "The tests try a few dozen texts; acceptance is a statement about all byte strings, including truncated literals, escapes cut at the end, control bytes and embedded NULs.",
  RD + ["lib/eni.cpp"], [("recursive-descent recognizer", "Parser::parse_value and the parse_* functions"), ("error exception turned into a flag", "Parser::Parser"), ("exit on a malformed argument text", "EniBase::EniBase")])
p("J02", "Parsed strings hold exactly the decoded bytes",
  "Every string value and object key obtained from an accepted text consists of exactly the bytes between its quotes with each escape replaced: \\\" \\\\ \\/ \\b \\f \\n \\r \\t by their JSON meaning and \\uXXXX (either hex case) by the one byte XXXX mod 256. No byte is added, lost or reordered, whatever the length, including bytes 0x80-0xFF and raw control bytes.",
  ["inputs"], "every accepted text containing strings, every escape, any length within the bound", "Tests check a few literal strings; the decoding must be right for every byte value, every escape and every position.",
  RD, [("escape decoding", "Parser::parse_escape / parse_codepoint"), ("string assembly", "Parser::parse_string, Callbacks::on_string")])
p("J03", "Integers are read and written exactly up to 256 bits",
  "An integer literal of absolute value below 2^255 in an accepted text yields exactly that number, with its sign, and writing the value gives back the canonical decimal literal; zero and minus zero are both zero.",
  ["inputs"], "every decimal literal of up to 77 digits below 2^255", "Tests use a handful of small numbers; carries between the limbs of the big integer only show on particular digit patterns.",
  RD + ["lib/json/Value.cpp", "include/eni/eni_types.h"], [("digit collection", "Parser::parse_number, parse_digits"), ("conversion", "Callbacks::on_number"), ("writing", "Value::print")])
p("J04", "Arrays and objects keep order, nesting and the last duplicate key",
  "The value obtained from an accepted text mirrors its structure: an array has exactly the elements of the text in order, an object maps each distinct key to the value of its last occurrence and contains nothing else, at every nesting depth and for any number of elements.",
  ["inputs"], "every accepted text within the bound on length, nesting depth and element count", "Tests check a few fixed documents; structure errors need particular mixes of nesting, repeated keys, hash collisions and table growth.",
  RD + ["include/eni/adt/Vector.h", "include/eni/adt/StringMap.h"], [("container stack", "Callbacks::begin_*/end_*/set_parent"), ("element storage", "Array (Vector), Object (StringMap)")])
p("J05", "Writing a value and reading it back gives an equal value",
  "For every value built from booleans, integers, strings, arrays and objects, the text produced by printing it is accepted by the reader and yields an equal value.",
  ["inputs"], "every value tree within the bound on size and depth, every string byte content", "The tests print a few values and compare with fixed texts; the round trip has to hold for every string byte, key and nesting.",
  ["lib/json/Value.cpp", "lib/json/Array.cpp", "lib/json/Object.cpp"] + RD, [("escaping on output", "Value::print"), ("container output", "Array::print, Object::print")])
p("J06", "Values copy deeply and are typed as built",
  "A copied or assigned value is equal to its source and independent of it: changing or destroying either leaves the other unchanged; constructing by move transfers the content and leaves the source undefined. Exactly one type test holds for a value and matches how it was made, indexing a value of the wrong kind yields an undefined value, an index outside an array or a missing key raises an out-of-range error, and delegating to a defined value raises a logic error and leaves it unchanged.",
  ["inputs", "histories"], "every value within the bound and every short sequence of copy, move, assign, modify and destroy", "Tests copy one or two values of a kind; aliasing needs a particular sequence of copies, changes and destructions of nested values.",
  ["lib/json/Value.cpp", "lib/json/Notation.cpp", "lib/json/Array.cpp", "lib/json/Object.cpp"], [("deep copies", "Value::Value(const Value&), Value::operator="), ("type tag", "Notation"), ("delegation guard", "Value::delegate")])
p("J07", "Reading any text is memory-safe and terminates",
  "Constructing a reader on any byte string terminates and touches only memory that belongs to the text or to the reader: no read beyond the text's terminator, no use of freed or uninitialised memory, no invalid release, no exception escaping.",
  ["inputs"], "every byte string within the length bound, plus template-shaped longer texts", "The tests do not run under a memory checker and use well-formed or trivially malformed texts; over-reads depend on where a text is cut.",
  RD + ["include/eni/adt/Vector.h", "include/eni/adt/bits/HashBase.tcc"], [("terminator checks", "Parser::have, Parser::valid_code, Parser::parse_string"), ("ownership", "Callbacks, Value")])
E1 = ["include/eni/eni.h", "lib/eni.cpp"]
p("E01", "An operation runs only on accepted arguments and reports its result",
  "For any operation built on the base class: the operation's argument check runs at most once per instance and always before its gas or run step; when the arguments are rejected, or the text is not an array, the gas is 1500 and the run result is null and neither step is executed; otherwise the gas is the operation's own, the run result is null if the run step fails, and else a NUL-terminated text, owned by the caller, that is the JSON array of exactly the values the run step returned, in order. Asking for the gas or running again on the same instance gives the same answer.",
  ["inputs", "histories"], "every argument text, every verdict of the operation's own steps, every sequence of gas and run calls within the bound", "Tests call one fixed sequence per operation; the contract is about every order of calls and every combination of verdicts.",
  E1, [("cached argument check", "EniBase::check"), ("fallback gas", "EniBase::getGas"), ("result rendering", "EniBase::start"), ("C entry points", "ENI_C_INTERFACE")])
p("E02", "Shipped operations refuse missing or ill-typed arguments",
  "For every well-formed argument text that does not supply the arguments an operation expects (not an array, too few arguments, or an argument of the wrong JSON type), each shipped operation reports gas 1500 and a null result; it never raises an exception through its C entry point and never reads an argument as a type it does not have.",
  ["inputs"], "every argument text whose argument count or types do not fit, for reverse, scrypt, rsa_encrypt, rsa_decrypt and json", "Tests pass the right number and types of arguments; a wrong type reinterprets a pointer, which only shows under a memory checker.",
  ["examples/eni/reverse/eni_reverse.cpp", "examples/eni/json/eni_json.cpp", "tools/eni_scrypt/eni_scrypt.cpp", "tools/eni_crypto/eni_crypto.cpp"] + E1, [("argument checks", "parse() of each operation"), ("array check", "EniBase::check")])
p("E03", "Results and gas are a function of the argument text alone",
  "Running an operation twice on the same argument text gives the same gas and the same result text, regardless of what ran before in the process, of memory contents and of where memory is placed; no result depends on uninitialised data.",
  ["inputs", "histories"], "every argument text within the bound, every earlier call, every memory placement order", "The consensus test repeats a run a few times on one machine and layout; it cannot see dependence on uninitialised memory, addresses or earlier calls.",
  E1 + ["tools/eni_scrypt/eni_scrypt.cpp", "tools/eni_crypto/eni_crypto.cpp", "examples/eni/reverse/eni_reverse.cpp", "examples/eni/json/eni_json.cpp"], [("no hidden state", "the operations and the JSON layer"), ("fully initialised buffers", "Scrypt::run, rsa::*")])
p("O01", "reverse returns the argument's bytes in reverse order",
  "For every string argument, reverse returns a one-element array whose string is the argument's bytes in reverse order, and its gas is ten times the number of bytes.",
  ["inputs"], "every string argument within the bound, including escapes and long strings", "One fixed string is tested.",
  ["examples/eni/reverse/eni_reverse.cpp"], [("reversal", "Reverse::run"), ("gas", "Reverse::gas")])
p("O02", "scrypt validates, prices and encodes its argument correctly",
  "scrypt accepts exactly the strings of at most 160 hexadecimal digits (either case), charges ten gas for each started byte (pair of digits), hashes the 80-byte block holding the decoded bytes (an odd digit count is completed with a leading 0) followed by zeros, and returns the 32-byte digest as 64 lower-case hex digits; any other string yields gas 1500 and a null result.",
  ["inputs"], "every string argument of 0 to 162 bytes", "Tests use a handful of arguments; case, odd lengths, the 160 limit and every digest byte value are a statement about all strings.",
  ["tools/eni_scrypt/eni_scrypt.cpp"], [("validation", "Scrypt::parse"), ("decoding and encoding", "Scrypt::run"), ("gas", "Scrypt::gas")])
p("O03", "The scrypt digest is scrypt(N=1024, r=1, p=1) of the block",
  "For every 80-byte block the digest is the 32-byte scrypt key derivation with N=1024, r=1, p=1, password and salt both equal to the block (PBKDF2-HMAC-SHA256, Salsa20/8, as in RFC 7914), and PBKDF2 is correct for every password length, salt length, iteration count and output length.",
  ["inputs"], "every 80-byte block; PBKDF2 parameters within the bound", "A few vectors are tested; the data-dependent memory access must be right for every index sequence.",
  ["tools/eni_scrypt/scrypt.cpp", "tools/eni_scrypt/scrypt.h"], [("PBKDF2", "PBKDF2_SHA256"), ("mixing", "xor_salsa8, scrypt_1024_1_1_256_sp_generic")])
p("O04", "Hex encoding and decoding are exact inverses",
  "Encoding bytes gives two lower-case hex digits per byte in order; decoding accepts exactly the even-length strings of hex digits, of either case, and gives the encoded bytes; decoding an encoding gives back the original. A refused string leaves nothing decoded that could be used.",
  ["inputs"], "every byte string and every candidate hex string within the bound", "A few strings are tested; digit values, case and non-digits need all byte pairs.",
  ["tools/eni_crypto/eni_crypto.cpp"], [("encoding", "str2hex"), ("decoding", "hex2str, hex2digit")])
p("O05", "RSA operations pass exact messages and results and stay in bounds",
  "rsa_encrypt refuses an unreadable key, charges ten gas per key byte, encrypts the message padded with zero bytes to the key size and returns the ciphertext as hex; rsa_decrypt refuses an unreadable key or malformed hex, charges ten gas per key byte and returns the plaintext up to its first zero byte. A message longer than the key, or a failure reported by the crypto library, gives a null result; no step reads or writes outside its buffers, and decrypting an encrypted zero-free message returns it.",
  ["inputs", "fault_sequences"], "every message and ciphertext within the bound, every key size within the bound, every outcome of the crypto library", "Tests use one key and three messages; buffer ends, full-size messages and library failures are never exercised.",
  ["tools/eni_crypto/eni_crypto.cpp", "tools/eni_crypto/eni_crypto.h"], [("padding and calls", "rsa::pub_encrypt, rsa::priv_decrypt and their counterparts"), ("operation glue", "RSAEncrypt, RSADecrypt")])
p("O06", "The json operation returns exact slices and refuses the rest",
  "On a slice that is one well-formed JSON value, blanks around it allowed, the json operation returns: parseString the decoded string, parseArray the begin and end offsets of each element in order as 16 hex digits each (quotes included for strings), arrayGet those of the element at the index, objectGet those of the value of the key; its gas is ten times the result's length. An out-of-range slice or index, a missing key, a slice whose value is of another kind or is cut off by the end of the slice, or an unknown sub-operation is refused (gas 1500, null result), and no offset outside the data is read.",
  ["inputs"], "every data string, slice, index and key within the bound", "Tests use well-formed documents and valid slices only.",
  ["examples/eni/json/eni_json.cpp"], [("tokenising", "internalParse, arrayTokens, objectTokens"), ("slice encoding", "encodeToken")])
HT = ["include/eni/adt/HashTable.h", "include/eni/adt/HashBase.h", "include/eni/adt/bits/HashTable.tcc", "include/eni/adt/bits/HashBase.tcc"]
p("A01", "The hash table behaves as a map under any history",
  "After any sequence of insert, erase, assign, clear, explicit or automatic rehash, copy, move and find, looking up a key finds it exactly when it is in the map those steps describe, with the value last stored; the entry count, emptiness and the insert and erase results agree with that map; a copy is independent of its source, and a cleared, emptied or moved-from table can be used again. This holds whatever the hash values, including all keys colliding.",
  ["histories", "inputs"], "every operation sequence within the bound, every assignment of hash values to keys", "Tests run a few fixed sequences with one hash function; tombstones, wrap-around probing and growth interact only under particular collisions and orders.",
  HT + ["include/eni/adt/StringHashTable.h"], [("probing", "TableImpl::lookupBucketFor, findKey"), ("tombstones", "HashTable::erase"), ("growth", "TableImpl::mayRehash, doRehash")],
  [("tombstones", "erased slots that keep probe sequences connected", "TableImpl::m_Buckets")])
p("A02", "Hash table iteration visits every live entry exactly once",
  "Iterating a table from begin to end visits each live entry exactly once and nothing else, after any history; iterating the chain of a key visits exactly the live entries whose hash equals the key's when the key is present and nothing when it is absent, the count of a key is the length of that chain, every iteration terminates, and two iterators of one table (or chain) are equal exactly when they stand at the same entry or both at the end.",
  ["histories", "inputs"], "every table reachable within the bound, every assignment of hash values", "Tests iterate two or three fixed tables without erased slots at the ends or full collisions.",
  HT + ["include/eni/adt/HashIterator.h", "include/eni/adt/bits/HashIterator.tcc"], [("slot walk", "EntryIterBase::advance"), ("chain walk", "ChainIterBase")])
p("A03", "The string map returns for each key the value last stored",
  "For any sequence of stores, lookups, erasures, copies, moves and assignments on a string map: a lookup of a stored key gives the value last stored under exactly that byte string, a lookup through at or the read-only index of an absent key raises an out-of-range error, the writable index adds the key exactly when absent, keys iterate unchanged, and the size is the number of distinct keys. Keys may be any byte strings: empty, with NUL bytes, sharing prefixes, or longer than 65535 bytes.",
  ["histories", "inputs"], "every operation sequence and key contents within the bound", "Tests use a few short distinct words as keys.",
  ["include/eni/adt/StringMap.h", "include/eni/adt/StringHashTable.h"] + HT, [("key storage", "Entry<std::string, V>"), ("lookup", "StringMap::at, operator[]")])
p("A04", "Vector behaves as a sequence under any history",
  "After any sequence of construction, push, pop, insert, erase, assign, resize, reserve, swap, clear and copy, a vector holds exactly the sequence those steps describe: size, element access by index, at, front, back, data and iterators agree with it; positions outside the sequence raise an out-of-range error and change nothing; a request beyond the maximum size raises a length error and changes nothing. Arguments that refer to the vector's own elements behave as if copied first, and copies are independent.",
  ["histories", "inputs"], "every operation sequence, position and element value within the bound", "Tests run each operation once on small vectors; aliasing, erasing at the end and growth boundaries need particular sequences.",
  ["include/eni/adt/Vector.h", "include/eni/adt/bits/Vector.tcc", "include/eni/adt/PointerIterator.h"], [("growth", "Vector::reserve"), ("shifting", "Vector::insert, Vector::erase"), ("range checks", "Vector::at, insert, erase")])
p("A05", "Pointer iterators follow random-access iterator laws",
  "An iterator over contiguous elements moves, compares and dereferences as its position does: pre and post increment and decrement, offset, difference, index and the six comparisons agree with arithmetic on positions, assignment and copying give an equal iterator, and modifying through it changes exactly the element it stands on.",
  ["inputs", "histories"], "every pair of positions and every offset within the bound, every sequence of moves", "Tests use one array and a few fixed offsets.",
  ["include/eni/adt/PointerIterator.h", "include/eni/adt/bits/PointerIterator.tcc"], [("arithmetic", "PointerIterator operators")])
p("R01", "What is allocated is released",
  "After any history, destroying a vector, hash table or string map of plain elements leaves none of the blocks it allocated, whatever it was copied, moved, assigned, cleared, grown or emptied before; destroying a JSON value releases the string, array or object it owns. Each RSA function and each call of an RSA operation releases every key and key stream it obtained and, for the functions, every buffer, exactly once, on success and on every failure.",
  ["histories", "inputs", "faults"], "every history within the bound, every outcome of the crypto library", "The tests never look at what stays allocated; leaks and double releases depend on the history (assigning over a filled table, a fault between two acquisitions).",
  HT + ["include/eni/adt/StringMap.h", "include/eni/adt/Vector.h", "include/eni/adt/bits/Vector.tcc", "lib/json/Value.cpp", "tools/eni_crypto/eni_crypto.cpp"], [("entry release", "HashTable::clear, erase, operator="), ("storage release", "TableImpl::clear, doRehash; Vector::clear, reallocation"), ("value release", "Value::~Value"), ("library handles", "eni_crypto::rsa::create_*, destroy, RSAEncrypt/RSADecrypt destructors")])
p("H01", "The substring filter never excludes a real substring",
  "For every pair of strings, if the first occurs in the second then the characteristic-hash filter answers that it may be included; the characteristic hash depends only on which letters (case-insensitively), digits and underscores occur and on the number of dots, up to 15, and the filter excludes a rule with such a feature, or more dots, that the string lacks.",
  ["inputs"], "every pair of strings within the bound", "No test covers the filter with many dots, digits or non-ASCII bytes.",
  ["include/eni/adt/StringHasher.h"], [("characteristic hash", "StringHasher<ES>::operator()"), ("filter", "StringHasher<ES>::may_include")])
p("H02", "String hashes are the published functions of the key bytes",
  "Each named string hash (RS, JS, PJW, ELF, BKDR, SDBM, DJB, DEK, BP, FNV, AP) computes its defining recurrence over the key's bytes (taken as signed chars, in 32-bit arithmetic), depends on nothing else and is equal for equal keys; hash and key comparison agree with byte equality of the strings.",
  ["inputs"], "every key within the length bound", "Tests compare a few constants at most; a wrong step on one byte class or length would go unnoticed.",
  ["include/eni/adt/StringHasher.h"], [("recurrences", "StringHasher<...>::operator()"), ("comparison", "StringCompare")])
p("T01", "to_string gives the exact decimal or boolean text",
  "For every value of every integer type of the library (64, 128, 160, 256 bits unsigned, 256 bits signed) to_string returns its canonical decimal representation, with a minus sign exactly for negative values, and for booleans true or false.",
  ["inputs"], "every value within the bound on symbolic bits, at every magnitude", "A handful of values are tested.",
  ["lib/eni_types.cpp", "include/eni/eni_types.h"], [("conversion", "to_string")])
p("C01", "Command-line arguments are split exactly as documented",
  "The command-line parser takes the first three positional arguments as library path, operation name and JSON text, byte for byte; it skips arguments starting with a dash until a lone double dash, after which every argument is positional; it fails exactly when there are fewer or more than three positional arguments.",
  ["inputs"], "every argument vector within the bound on count and length", "Only the plain three-argument form is tested.",
  ["tools/eni_cli/optParser.cpp", "tools/eni_cli/optParser.h"], [("scanning", "Opt::parse")])
p("C02", "The command-line tools report each outcome by its exit status",
  "eni_run and eni_gas look up the operation's run or gas entry point in the given library, call it once with the JSON text, and print its result and a newline with exit status 0; bad arguments, an unloadable library, a missing symbol and a null result end with a distinct documented nonzero status and print no result. The printed text is released with the allocator it came from.",
  ["inputs", "fault_sequences"], "every argument vector within the bound and every outcome of loading, symbol lookup and the call", "Tests cover the success path and one failure; the other outcomes and memory discipline are not exercised.",
  ["tools/eni_cli/eni_run.cpp", "tools/eni_cli/eni_gas.cpp", "tools/eni_cli/ceni.h"], [("sequence of steps and statuses", "main of both tools")])
p("X01", "Library errors carry their documented type and message",
  "Each library error is an exception of its documented standard base type whose message is the text listed for its identifier; a copy of it, catching it by any base, and copying it into a base that carries a message (logic, length or out-of-range error) give the same message.",
  ["inputs", "programs"], "every error identifier and base type", "A few identifiers are tested by type; messages and base types of the rest are not.",
  ["include/eni/diagnostic/Exception.h", "include/eni/diagnostic/DiagList.inc", "lib/diagnostic/Exception.cpp"], [("exception templates", "Exception<ID, Base>"), ("message table", "DiagList.inc")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), [x["id"] for x in P if len(x["title"]) > 80])
