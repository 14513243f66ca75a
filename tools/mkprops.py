import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)
p("C01","Every signature made with a valid key verifies",
 "For each of the 12 parameter sets, every valid key pair, every message of any length (including the empty one) and every signing randomness, signing succeeds, reports exactly the parameter set's signature size, and verification under the matching public key and the same message accepts the result. This holds for every value the scheme's internal random oracles can take (initialisation vector, commitment opening positions, challenges), not just the ones a few test vectors hit.",
 ["inputs"],"all 12 sets x keys x messages/lengths x randomness lengths and contents x random-oracle outputs",
 "Tests sign a handful of messages with one or two keys; opening positions, counter values and message lengths they never produce are unchecked.",
 ["faest.c","faest_aes.c","vole.c","vc.c","faest_param.c.in"],[("sign/verify symmetry","faest.c faest_sign / faest_verify"),("tree opening","vc.c vector_open / vector_reconstruction")],["return value and length of sign","return value of verify"])
p("C02","Signing computes exactly the FAEST v1 signature function",
 "Signing with explicit randomness is a deterministic function of key, message and randomness, and its output is byte for byte the signature the FAEST v1 specification defines for them, for every message length, every randomness length (including none) and every key.",
 ["inputs"],"all 12 sets x message lengths x randomness lengths x keys, compared with an independent executable specification",
 "One known-answer vector per set fixes one message length and one randomness length; dependence on every byte of message and randomness at other lengths is not tested.",
 ["faest.c","random_oracle.c","vole.c","universal_hashing.c","faest_aes.c","faest_param.c.in"],[("Fiat-Shamir transcript","faest.c hash_mu, hash_challenge_1..3"),("seed derivation","faest.c faest_sign step 3")],["signature bytes"])
p("C03","Any change to signature, message or public key is rejected",
 "If a single bit (or any component) of a valid signature, its message, the message's length, or the public key is altered, or the signature is presented with a different length, verification returns failure. In particular the whole recomputed challenge decides: no bit of any signature component, and no bit of any hash value computed from it, is ignored.",
 ["inputs","fault_sequences"],"all single-bit alterations of signature, message and key; all wrong lengths; component swaps and splices; all single-bit deviations of the internally recomputed hashes",
 "The test suite rejects one random string per set; it never tries near-valid signatures, so an ignored byte or bit would pass.",
 ["faest.c","vole.c","vc.c","faest_param.c.in","random_oracle.c"],[("final challenge comparison","faest.c faest_verify end"),("length check","faest_param.c.in verify")],["return value of verify"])
p("C04","Verification accepts exactly what the FAEST v1 verifier accepts",
 "On every signature string of the right size, verification's decision equals that of the FAEST v1 verification algorithm: signatures produced by a prover that deviates at any single step (wrong witness bit, unsatisfied S-box constraint, inconsistent commitment, wrong mask, wrong opening, wrong challenge) are rejected, and unusual but correctly constructed ones (any initialisation vector, any seeds, any opening positions) are accepted.",
 ["inputs","programs"],"all single deviations of a prover over all stages and positions, all structured random-oracle answers, both outcomes",
 "Needs an adversarial prover that recomputes every later step consistently; the tests have none.",
 ["faest.c","faest_aes.c","vole.c","vc.c","universal_hashing.c"],[("zero-knowledge constraint check","faest_aes.c aes_verify"),("VOLE consistency check","faest.c faest_verify")],["return value of verify"])
p("C05","Keys are valid by construction and invalid keys are refused",
 "Key generation only ever returns key pairs whose public key is the one-way function of the secret key and whose one-way-function evaluation has no zero S-box input at any position, drawing fresh randomness again until that holds. Key-pair validation accepts a pair exactly when both conditions hold and distinguishes the failure kinds, and signing refuses (without reporting success) any secret key that violates the S-box condition at any position.",
 ["inputs","histories"],"all S-box positions (key schedule, every round, every block) x all 12 sets; all corrupted public-key bits; all retry histories up to a depth",
 "Random keys in tests rarely have a zero S-box input and never at a chosen position; retry sequences are not exercised.",
 ["faest_param.c.in","owf.c","aes.c"],[("zero S-box detection","aes.c contains_zero / expand_key / sub_bytes; owf.c"),("rejection loop","faest_param.c.in keygen")],["keygen output","validate_keypair result","sign result"])
p("C06","Randomness comes whole from the system source or the call fails",
 "Key generation and randomized signing fill every random byte they use from the operating system's random source, whatever sequence of partial, interrupted or failing answers that source gives, and the key or signature is exactly the function of those bytes. If the source cannot deliver all bytes, the operation reports failure instead of returning a key or signature.",
 ["fault_sequences","histories"],"all sequences of environment answers (full, short by any count, EINTR, EAGAIN, errors) up to a depth, for every request size the library makes",
 "Tests use a working random source; short reads and failures never happen there.",
 ["randomness.c","faest_param.c.in"],[("system randomness loop","randomness.c rand_bytes"),("callers","faest_param.c.in keygen, sign")],["return values","bytes consumed from the source","output keys and signatures"])
p("C07","Bad arguments are refused and buffers are respected",
 "Every combination of null pointers, zero or wrong lengths and too-small capacities is refused with the failure code before anything is written through the output pointers; valid minimal combinations (null message or randomness with zero length, over-large capacity, equal input buffers) are accepted. (A null message together with a nonzero length is outside the contract.) Calls never modify their input buffers, write only the documented number of output bytes, and set the signature length only on success.",
 ["inputs"],"all combinations of null/non-null arguments and boundary lengths for every function of every parameter set",
 "The tests pass only well-formed arguments plus a couple of nulls.",
 ["faest_param.c.in","faest_param.h.in"],[("argument checks","faest_param.c.in")],["return values","guard bytes around every buffer"])
p("C08","No input makes the library touch memory it does not own",
 "For every byte string presented as signature, public key, secret key, message or randomness, at every alignment, no entry point reads outside its input buffers, writes outside its output buffers, uses freed or uninitialised memory to decide its result, or executes undefined behaviour. (The deliberate unaligned word loads of the vendored Keccak code in sha3/, which its platforms support, are not counted as undefined behaviour.)",
 ["inputs"],"structured hostile signatures (every opening position, constant and boundary patterns) x alignments x lengths with exact-extent guard pages, on instrumented builds of every backend",
 "Tests run without sanitizers on honest inputs in roomy heap buffers.",
 ["faest.c","vole.c","vc.c","aes.c","faest_aes.c","sha3/KeccakSponge.inc","crypto_sign.c.in"],[("fixed size arithmetic for all buffers","faest.c, vole.c, vc.c")],["sanitizer reports","guard pages"])
p("C09","Each call's result depends only on its arguments, not on history",
 "After any sequence of operations (key generation, validation, signing, verification, successful or failing, across parameter sets), every further operation returns exactly what it returns in a fresh process for the same arguments and randomness.",
 ["histories"],"all operation sequences up to a depth over an alphabet covering all entry points, success and failure, and several parameter sets",
 "Tests run each operation once or in one fixed order, each test case in its own process.",
 ["faest.c","faest_param.c.in","vole.c","vc.c","aes.c","random_oracle.c"],[("no mutable static state","all library files")],["return values and output bytes of every call"])
p("C10","Concurrent calls do not interfere",
 "Any number of threads may run library operations at the same time on their own output buffers, even sharing keys, messages and signatures as inputs: under every interleaving each call returns what it returns alone.",
 ["schedules"],"all interleavings up to a preemption bound of two threads over all pairs of operations, scheduled at accesses to writable memory that both threads can reach",
 "The tests are single-threaded.",
 ["faest.c","faest_param.c.in","aes.c","vole.c","vc.c","randomness.c","sha3/KeccakSponge.inc"],[("no shared mutable state","all library files")],["outputs of each thread","accesses to shared memory"])
p("C11","The NIST signed-message interface round-trips and fails closed",
 "Signing a message with the signed-message interface yields message followed by signature with the sum of the lengths; opening an honestly signed message returns exactly that message and length, for every message length and for overlapping as well as separate buffers. Opening anything too short, truncated, extended or altered returns failure and leaves the message output and its length untouched.",
 ["inputs"],"all 12 sets x message lengths x buffer overlap relations x all truncations and byte alterations",
 "The wrappers are exercised only by the known-answer generator with honest input.",
 ["crypto_sign.c.in","crypto_sign.h.in"],[("length split and copy order","crypto_sign.c.in crypto_sign / crypto_sign_open")],["return values, message bytes, lengths, guard bytes"])
p("C12","Vector commitments open every leaf but one, and only those",
 "For every tree depth in use and every hidden position, the opening produced for a commitment lets the receiver recompute exactly all other leaf seeds and commitments and the same commitment digest, and does not contain any ancestor of the hidden leaf. Changing any node, leaf commitment, position or vector value makes the recomputed digest differ.",
 ["inputs"],"all depths 1..12, all leaf positions, all three security levels, all single-byte alterations of an opening",
 "Tests open a few positions at one or two depths.",
 ["vc.c"],[("GGM tree","vc.c generate_seeds, vector_open, vector_reconstruction")],["recomputed seeds, commitments, digest"])
p("C13","VOLE commitment and reconstruction are correlated for every challenge",
 "For every challenge, the receiver's columns equal the sender's columns plus the challenge bit times the sender's mask (after applying the published corrections), and both sides compute the same commitment digest, for every tree and every position in it.",
 ["inputs"],"all positions of every tree for all 12 sets (exhaustively in the fast sets, all positions of one tree at a time), every initialisation-vector carry pattern",
 "Tests check one challenge per set.",
 ["vole.c"],[("conversion to VOLE","vole.c ConvertToVole"),("challenge decoding","vole.c ChalDec")],["columns u, v, q, corrections, digest"])
p("C14","Universal hashes equal their specified polynomial evaluations",
 "The consistency hash and the proof hash of every security level equal their specified definition for every seed and every input, are linear in the input, and depend on every input bit.",
 ["inputs"],"all input bit positions, all seed bit positions (and their pairs within a component), all lengths in use",
 "Tests compare a few fixed vectors.",
 ["universal_hashing.c"],[("polynomial hashing","universal_hashing.c vole_hash_*, zk_hash_*")],["hash output"])
p("C15","Field arithmetic is exact in all five binary fields",
 "Multiplication, squaring, doubling, inversion, scalar and 64-bit multiplication, byte embedding and polynomial summation compute the field operation defined by the specified modulus on every pair of operands, including structured and boundary ones, and loading and storing are inverse.",
 ["inputs"],"GF(2^8): all pairs; larger fields: all pairs of basis elements, all short-weight and run-structured operands; all byte values for embeddings",
 "Tests use a few random operands and compare against a library for some.",
 ["fields.c","fields.h","utils.h"],[("shift-and-reduce multiplication","fields.c")],["operation results"])
p("C16","Block ciphers, key schedules and seed expansion are exact",
 "AES-128/192/256 and Rijndael-192/256 encryption and key schedules equal their definitions for every key and block, report a zero S-box input exactly when one occurs, and seed expansion equals AES in counter mode with a 128-bit big-endian counter for every output length and every counter carry, with the OpenSSL and the built-in implementation giving identical bytes.",
 ["inputs","configurations"],"all S-box inputs at every position, all output lengths up to the largest in use and beyond, all carry lengths of the counter, both implementations",
 "Tests use a few vectors, short outputs and counters without carries.",
 ["aes.c","owf.c"],[("counter increment","aes.c aes_increment_iv"),("cipher rounds","aes.c aes_encrypt"),("OpenSSL path","aes.c prg")],["ciphertexts, round keys, stream bytes"])
p("C17","Hashing equals SHAKE for every length and chunking",
 "The four random oracles equal SHAKE128 or SHAKE256 with their domain separator for every input length (including more than 4 GiB), every way of splitting the input into updates and the output into squeezes, and every alignment; the four-way parallel version equals four single runs; all backends agree.",
 ["inputs","histories","configurations"],"all update/squeeze sequences up to a depth over boundary lengths, all lengths over several blocks, lengths around 2^32, all backends buildable here",
 "Tests hash short strings in one or two calls.",
 ["random_oracle.c","hash_shake.h","sha3/KeccakSponge.inc","sha3/KeccakSpongetimes4.inc","sha3/KeccakHash.c","sha3/KeccakHashtimes4.c"],[("sponge absorb/squeeze","sha3/KeccakSponge.inc")],["digest bytes"])
p("C18","Published parameters and sizes are mutually consistent",
 "For every parameter set the published sizes, names and identifiers equal the FAEST v1 values, satisfy the scheme's defining equations, and agree between the public headers, the parameter table and what the operations actually produce and accept; unknown identifiers are rejected.",
 ["inputs","configurations"],"all identifiers including all invalid ones, all headers, all equations",
 "Tests compare some table entries with the same generated constants.",
 ["instances.c","meson.build","faest_param.h.in","crypto_sign.h.in"],[("parameter table","instances.c, meson.build")],["table values, header constants, produced lengths"])
p("C19","All build configurations compute the same function",
 "Keys, signatures, verification decisions, key validation and seed expansion are identical for every supported build configuration (AES provider, hash backend, optimisation, assertions on or off, with or without vector types, static or shared, either compiler), and values produced by one configuration verify in every other.",
 ["configurations","inputs"],"all combinations of the buildable options pairwise against a reference, over an input space covering all sets and boundary lengths",
 "Tests build two configurations and never compare them with each other.",
 ["meson.build","aes.c","fields.h","compat.c","sha3/"],[("conditional compilation","aes.c, fields.h, hash_shake.h")],["digests of all outputs"])
p("C20","Every call releases what it allocates",
 "Every operation, successful or failing, leaves the number of outstanding heap allocations exactly as it found it, frees every block exactly once, and never frees caller memory.",
 ["histories","inputs"],"all operation sequences up to a depth over success and every failure path, all sets, every hidden position class",
 "Tests do not measure the heap.",
 ["faest.c","faest_aes.c","vole.c","vc.c","faest_param.c.in","aes.c","compat.c"],[("paired allocation and release","faest.c faest_sign / faest_verify; vc.c *_clear")],["allocation trace"])
p("C21","Secrets do not steer control flow or memory addresses",
 "While signing, generating and validating keys, the sequence of branches taken and of memory locations accessed depends only on public data (parameter set, lengths, public key, the signature that is output and what can be computed from it, such as challenges, initialisation vector and opened positions), not on the secret key or signing randomness. (Whether a candidate key is unsuitable and hence refused may be visible.)",
 ["inputs","histories"],"all pairs of runs over an enumerated set of secrets that share the public data, per operation; every secret byte position and value classes",
 "Functional tests cannot see timing; the optional memory-checker annotation is not part of them.",
 ["faest.c","faest_aes.c","aes.c","fields.c","owf.c","vole.c","vc.c","compat.c"],[("bit-sliced and mask-based code","fields.c, aes.c compute_sbox, owf.c")],["branch and address traces"])
p("C22","The known-answer tooling is a deterministic function of its seed",
 "The deterministic random generator used for known-answer files produces exactly the NIST AES-256 CTR-DRBG stream for every seed and every sequence of request sizes, and the known-answer generator produces files whose entries reproduce key, message and signature through the public interface.",
 ["histories","inputs"],"all request sequences up to a depth over boundary sizes, counter carries at every byte, all sets for generated files",
 "The tools are not covered by the test suite.",
 ["tools/rng.c","tools/PQCgenKAT_sign.cpp","crypto_sign.c.in"],[("CTR-DRBG","tools/rng.c randombytes, AES256_CTR_DRBG_Update")],["random bytes, .req/.rsp files"])
p("C23","Clearing a private key erases all of it and nothing else",
 "Clearing a private key overwrites every byte of the secret key buffer with zero at every alignment, in every build mode, touches no byte outside it, and afterwards the cleared key can no longer be used to produce a signature for the original public key.",
 ["inputs","configurations"],"all sets x alignments x build modes (optimising, link-time optimisation) x key contents",
 "Tests never call the clearing function and look.",
 ["faest_param.c.in","compat.c","compat.h"],[("explicit zeroing","compat.c faest_explicit_bzero")],["key buffer and surrounding bytes"])
p("C24","Memory exhaustion never yields a false success",
 "If any memory allocation fails during an operation, including those made inside the cryptographic backend, the operation never returns success with a key or signature different from the correct one, and never accepts a signature it would otherwise reject. (Dying is a permitted outcome: an operation that ends abnormally has not reported success.)",
 ["fault_sequences"],"every allocation index of every operation failing once, and failing from that point on",
 "Tests never fail an allocation.",
 ["faest.c","vole.c","vc.c","aes.c","compat.c","faest_param.c.in"],[("allocation call sites","faest.c, vole.c, vc.c, aes.c prg")],["return value and output bytes, or abnormal termination"])
p("C25","The extended witness and proof encode the one-way function exactly",
 "For every valid key, the extended witness consists of the key, the key-schedule S-box words and all intermediate states in the specified order; the proof for it satisfies the verifier's equation for every challenge, and any witness that differs in one bit, or any other public key, does not.",
 ["inputs"],"all witness bits, all public-key bits, challenge and mask basis vectors, all 12 sets",
 "Tests check one witness per set and one challenge.",
 ["aes.c","faest_aes.c"],[("witness extension","aes.c aes_extend_witness"),("constraint generation","faest_aes.c aes_prove / aes_verify")],["witness bytes, proof values"])
p("C26","Forging a signature or learning the key is infeasible",
 "Without the secret key, no efficient adversary can produce an accepting signature on a new message after seeing signatures of its choice, and signatures reveal nothing about the secret key beyond the public key.",
 ["programs"],"all efficient adversaries",
 "A computational claim over all adversaries; no test or finite enumeration settles it.",
 ["faest.c"],[("the scheme's security proof","FAEST specification")],["none"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
