import sys, threading
from concurrent.futures import ThreadPoolExecutor
from check import *
WR = ("H1_final", "H2_final", "H3_final")
def dispatch(pid, rep): return globals()[pid](rep)
def replay_args(rep, part):
    """Restrict a replay to the recorded cases of this part."""
    if not rep: return []
    for v in rep["violations"]:
        if v["part"] == part and v.get("cases"): return ["--cases", v["cases"]]
    return None
class Part:
    def __init__(self, name, hn, cfg, env=None, optional=False, **kw): self.name, self.hn, self.cfg, self.env, self.optional, self.kw = name, hn, cfg, env, optional, kw
def parts(R, rep, ps):
    """Build all parts in parallel, then explore them one after another on all cores."""
    todo = [(p, replay_args(rep, p.name)) for p in ps]; todo = [(p, a) for p, a in todo if a is not None]
    t0 = time.time()
    def mk(p):
        try: return harness(p.hn, p.cfg, **p.kw)
        except InfraError as e: return e
    with ThreadPoolExecutor(8) as ex: exes = list(ex.map(mk, [p for p, _ in todo]))
    log("%s built in %.1fs" % (R.pid, time.time() - t0))
    for (p, a), exe in zip(todo, exes):
        if isinstance(exe, Exception):
            if not p.optional: raise exe
            R.parts[p.name] = dict(cases=0, evaluations=0, distinct=0, counts={}, distinct_sets={}, wall_s=0, notes=["skipped: does not build against this tree: " + str(exe)[-300:]]); log("%s %s skipped: %s" % (R.pid, p.name, str(exe)[-1500:])); continue
        t = time.time(); r = run(exe, a, env=p.env); R.add(p.name, r); log("%s %s: %d cases %d evals %.1fs (%d violations, %d unconfirmed)" % (R.pid, p.name, r["cases"], r["evaluations"], time.time() - t, len(r["violations"]), len(r["unconfirmed"])))
        if r["violations"] and tier() == "quick": break
def expl(R, rule, **kw):
    return R.finish(dict(evaluations=R.total("evaluations"), distinct_nontrivial=R.total("distinct"), rule=rule, **kw))
def C01(rep):
    R = Result("C01", "exploration")
    parts(R, rep, [Part("api", "h_sign", "std", dict(PART="api"), wraps=WR), Part("oracle", "h_sign", "std", dict(PART="oracle"), wraps=WR)])
    return expl(R, "one evaluation = one sign call followed by verification of its result; distinct = distinct signature strings")
def C02(rep):
    R = Result("C02", "exploration")
    parts(R, rep, [Part("api", "h_sign", "std", dict(PART="api", CMPREF="1"), wraps=WR), Part("oracle", "h_sign", "std", dict(PART="oracle", CMPREF="1"), wraps=WR),
        Part("own-aes", "h_sign", "own", dict(PART="lite", CMPREF="1"), wraps=WR), Part("plain32", "h_sign", "p32ssl", dict(PART="api", CMPREF="1", SCALE="0.1"), wraps=WR)])
    return expl(R, "one evaluation = one signature compared byte for byte with the reference model's; distinct = distinct signature strings")
def C03(rep):
    R = Result("C03", "fault_enumeration")
    parts(R, rep, [Part("bits", "h_verify", "avx", dict(PART="bits"), wraps=WR), Part("hash", "h_verify", "avx", dict(PART="hash"), wraps=WR), Part("comparison", "h_verify", "avx", dict(PART="cmp"), wraps=WR), Part("bits-std", "h_verify", "std", dict(PART="bits", LITE="1"), wraps=WR)])
    return expl(R, "one evaluation = one verification of an honest signature with one deliberate change (signature/message/key bit, length, component exchange, or one bit of a recomputed hash value); distinct = distinct changed inputs")
def C04(rep):
    R = Result("C04", "model_checking")
    parts(R, rep, [Part("adv", "h_verify", "std", dict(PART="adv"), wraps=WR), Part("adv-plain32", "h_verify", "p32ssl", dict(PART="adv", LITE="1"), wraps=WR), Part("comparison", "h_verify", "std", dict(PART="cmp", ACC="1", LITE="1"), wraps=WR)])
    return R.finish(dict(states=sum(p["distinct_sets"].get("model_states", 0) for p in R.parts.values()), transitions=R.total("distinct"), traces_validated_against_impl=R.total("evaluations"), model_accepts=R.count("model_accepts"), model_rejects=R.count("model_rejects")))
def C12(rep):
    R = Result("C12", "exploration")
    parts(R, rep, [Part("vc", "h_vc", "std"), Part("vc-plain32", "h_vc", "p32ssl", dict(LITE="1"))])
    return expl(R, "one evaluation = one tree committed, or one hidden position opened and reconstructed (all leaves compared with the model), or one index conversion; distinct = distinct openings/digests", positions=R.count("positions_opened"), faults_rejected=R.count("faults"))
def C13(rep):
    R = Result("C13", "exploration")
    parts(R, rep, [Part("vole", "h_vole", "std"), Part("vole-own", "h_vole", "own", dict(LITE="1"))])
    return expl(R, "one evaluation = one commitment, one challenge answered by vole_reconstruct with every column compared, or one seed conversion; distinct = distinct outputs", challenges=R.count("challenges"))
def C15(rep):
    R = Result("C15", "exploration")
    ps = [Part("std", "h_field", "std"), Part("no-vector-types", "h_field", "novec"), Part("no-shuffles", "h_field", "noshuf"), Part("avx", "h_field", "avx"), Part("clang", "h_field", "clang"), Part("unoptimised", "h_field", "o0"), Part("extended", "h_field", "std", extra=("-DEXTOPS",), optional=True, out="h_field_ext")]
    parts(R, rep, ps)
    return expl(R, "one evaluation = one operand (or basis pair) driven through the field's operations and compared with the model; the products counted in parts are additional pairs inside an evaluation", products=R.count("products") + R.count("products_64"))
def C14(rep):
    R = Result("C14", "exploration")
    parts(R, rep, [Part("std", "h_uhash", "std"), Part("no-vector-types", "h_uhash", "novec"), Part("no-shuffles", "h_uhash", "noshuf"), Part("clang", "h_uhash", "clang"), Part("avx", "h_uhash", "avx")])
    return expl(R, "one evaluation = one input bit, run, seed bit, length or coefficient, driven through the hash under several seeds and compared with the polynomial definition", hashes=R.count("vole_hashes") + R.count("zk_hashes"))
def C16(rep):
    R = Result("C16", "exploration"); rk = dict(extra=("-DRK",), optional=True, out="h_aes_rk")
    parts(R, rep, [Part("std", "h_aes", "std"), Part("own", "h_aes", "own", dict(OWN="1")), Part("clang-own", "h_aes", "clangown", dict(OWN="1")), Part("schedule", "h_aes", "std", **rk)])
    return expl(R, "one evaluation = one block enciphered, counter incremented, seed expanded or one-way function computed and compared with the model; distinct = distinct outputs", single_zero_sbox_positions=R.count("single_zero_positions") + R.count("owf_single_zero_positions"))
def C17(rep):
    R = Result("C17", "exploration")
    parts(R, rep, [Part("opt64", "h_hash", "std"), Part("plain32", "h_hash", "p32ssl"), Part("avx2", "h_hash", "avx"), Part("clang", "h_hash", "clang"), Part("above-4GiB", "h_hash", "avx", dict(PART="big")), Part("above-4GiB-four-way", "h_hash", "avx", dict(PART="big4"))])
    return expl(R, "one evaluation = one input or output length driven through every alignment, chunking and oracle listed; the individual hash computations are counted in parts", hashes=R.count("hashes") + R.count("four_way"))
def mc(R, **kw):
    return R.finish(dict(states=sum(p["distinct_sets"].get("model_states", 0) for p in R.parts.values()), transitions=kw.pop("transitions", None) or R.total("distinct"), traces_validated_against_impl=R.total("evaluations"), **kw))
def C06(rep):
    R = Result("C06", "model_checking")
    parts(R, rep, [Part("api", "h_rand", "std", lib="libfaest.a"), Part("sources", "h_rand", "std", dict(PART="direct"), extra=("-DVARIANTS", "-fpermissive"), lib="libfaest.a", optional=True, out="h_randv")])
    return mc(R, transitions=R.count("answers"), keygen_success=R.count("keygen_success"), keygen_refused=R.count("keygen_refused"), sign_success=R.count("sign_success"), sign_refused=R.count("sign_refused"))
def C05(rep):
    R = Result("C05", "exploration")
    parts(R, rep, [Part("std", "h_keys", "std"), Part("ndebug", "h_keys", "ndebug", dict(LITE="1")), Part("clang-own", "h_keys", "clangown", dict(LITE="1"))])
    return expl(R, "one evaluation = one key (structured, with exactly one zero S-box input at a chosen position, or pseudo-random) driven through key generation, validation and signing; distinct = distinct keys", sbox_positions=max(p["distinct_sets"].get("positions", 0) for p in R.parts.values()), validations=R.count("validations"), signings_refused=R.count("signings_refused"))
def C07(rep):
    R = Result("C07", "exploration")
    parts(R, rep, [Part("std", "h_args", "std"), Part("ndebug", "h_args", "ndebug")])
    return expl(R, "one evaluation = one call with one combination of null pointers, lengths, capacities and buffer placements; distinct = distinct combinations", refused=R.count("refused"), accepted=R.count("accepted"))
SETS = ("128s", "128f", "192s", "192f", "256s", "256f", "em_128s", "em_128f", "em_192s", "em_192f", "em_256s", "em_256f")
NIST = tuple(("@D@/faest_%s/crypto_sign.c" % s, ("-Dcrypto_sign_keypair=csk_" + s, "-Dcrypto_sign=cs_" + s, "-Dcrypto_sign_open=cso_" + s, "-I@D@/faest_" + s)) for s in SETS)
def C11(rep):
    R = Result("C11", "exploration")
    parts(R, rep, [Part("nist", "h_nist", "avx", cobjs=NIST)])
    return expl(R, "one evaluation = one message signed and opened with one placement of the buffers, or one refused opening; distinct = distinct signed messages, placements and refusals", overlaps=R.count("overlaps"), refused=R.count("refused"))
def C18(rep):
    R = Result("C18", "exploration")
    parts(R, rep, [Part("std", "h_params", "std")])
    return expl(R, "one evaluation = one parameter set's header, table or operations, or one block of 2^26 identifiers", identifiers=R.count("identifiers"))
HEAP = ("!malloc", "!calloc", "!realloc", "!free", "!aligned_alloc", "!posix_memalign", "!memalign")
def C20(rep):
    R = Result("C20", "model_checking")
    parts(R, rep, [Part("std", "h_heap", "std", wraps=HEAP), Part("ndebug", "h_heap", "ndebug", dict(LITE="1"), wraps=HEAP), Part("own-aes", "h_heap", "own", dict(LITE="1"), wraps=HEAP), Part("internals", "h_heap", "std", wraps=HEAP, extra=("-DINTERNALS",), optional=True, out="h_heap_int")])
    return mc(R, transitions=R.count("events"), sequences=R.count("sequences"), allocations=R.count("allocations"))
def C24(rep):
    R = Result("C24", "fault_enumeration")
    parts(R, rep, [Part("ndebug", "h_alloc", "ndebug", wraps=HEAP), Part("std", "h_alloc", "std", dict(LITE="1", NOSITES="1"), wraps=HEAP), Part("own-aes", "h_alloc", "own", dict(LITE="1", NOSITES="1"), wraps=HEAP)])
    return expl(R, "one evaluation = one operation run with one of its allocations failing (alone; the runs with every later one failing too are additional)", failures_injected=R.count("failures_injected"), ended_without_result=R.count("no_result_returned"), refused=R.count("refused"), correct_result=R.count("correct_result"))
LTO = ("-flto", "-O3")
def C23(rep):
    R = Result("C23", "exploration")
    parts(R, rep, [Part("std", "h_clear", "std"), Part("ndebug", "h_clear", "ndebug"), Part("lto", "h_clear", "lto", extra=LTO), Part("fallback", "h_clear", "compat"), Part("fallback-lto", "h_clear", "compatlto", extra=LTO), Part("clang", "h_clear", "clangndebug"), Part("unoptimised", "h_clear", "o0"), Part("shared", "h_clear", "std", lib="libfaest.so", extra=("-DSHARED",), out="h_clear_so")])
    return expl(R, "one evaluation = one key buffer (alignment, contents, position in the page) cleared and inspected with its surroundings; distinct = distinct buffers", single_bytes=R.count("single_bytes"))
RNG = (("@R@/tools/rng.c", ("-I@R@/tools",)), ("@R@/randomness.c", ("-DHAVE_RANDOMBYTES",)))
def C22(rep):
    R = Result("C22", "exploration"); import tempfile
    kat = tempfile.mkdtemp(prefix="kat")
    try:
        def gen():
            d = build("avx", tuple("faest_%s/faest_%s_test_vectors" % (s, s) for s in SETS)); exe = {s: os.path.join(d, "faest_" + s, "faest_%s_test_vectors" % s) for s in SETS}; bad = []
            def one(job):
                s, w = job; wd = os.path.join(kat, w if w else "."); os.makedirs(wd, exist_ok=True)
                if w:
                    if w.endswith("stale"): # longer files of an earlier run
                        for x in (".req", ".rsp"): open(os.path.join(wd, "PQCsignKAT_faest_" + s + x), "w").write("count = 7\n" * 600000)
                    if w.endswith("blocked"): os.makedirs(os.path.join(wd, "PQCsignKAT_faest_%s.r%s" % (s, "eq" if "q" in w.split("-")[1] else "sp")))
                p = subprocess.run([exe[s]], cwd=wd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                want = 1 if w.endswith("blocked") else 0
                if (p.returncode != 0) != want: bad.append("%s: generator exits with %d (%s)" % (s, p.returncode, w or "normal run"))
            slow = [s for s in SETS if s.endswith("s")][::-1]; jobs = [(s, "") for s in slow] + [(s, "") for s in SETS if s.endswith("f")] + [("128f", "a-stale"), ("em_128f", "b-q-blocked"), ("em_128f", "c-p-blocked")]
            with ThreadPoolExecutor(NPROC) as ex: list(ex.map(one, jobs))
            for x in (".req", ".rsp"):
                if not bad and open(os.path.join(kat, "PQCsignKAT_faest_128f" + x), "rb").read() != open(os.path.join(kat, "a-stale", "PQCsignKAT_faest_128f" + x), "rb").read(): bad.append("128f: two runs of the generator differ in the %s file" % x)
            return bad
        t = time.time(); bad = gen(); log("C22 generators %.1fs" % (time.time() - t)); ncobjs = NIST + RNG
        for b in bad: R.violation("generator", b.split(":")[0], b)
        parts(R, rep, [Part("drbg", "h_drbg", "avx", cobjs=ncobjs), Part("files", "h_drbg", "avx", dict(KATDIR=kat, KATALL="1"), cobjs=ncobjs), Part("above-2GiB", "h_drbg", "o0", cobjs=ncobjs, extra=("-DSTUB",), wraps=("!EVP_CIPHER_CTX_new", "!EVP_CIPHER_CTX_free", "!EVP_EncryptInit_ex", "!EVP_EncryptUpdate"), out="h_drbg_stub")])
    finally: shutil.rmtree(kat, ignore_errors=True)
    return expl(R, "one evaluation = one seed with one sequence of requests compared with the CTR-DRBG model, or one known-answer entry replayed", requests=R.count("requests"), entries=R.count("entries"))
def C25(rep):
    R = Result("C25", "exploration"); pr = dict(extra=("-DPROVE",), optional=True, out="h_wit_p")
    parts(R, rep, [Part("witness", "h_wit", "avx"), Part("proof", "h_wit", "avx", **pr), Part("proof-no-vector-types", "h_wit", "novec", dict(LITE="1"), **pr), Part("proof-through-api", "h_verify", "std", dict(PART="adv", LITE="1"), wraps=WR)])
    return expl(R, "one evaluation = one witness compared with the specified one, or one (witness, masks, challenges, public key) proved and checked by the code and by the model; distinct = distinct outputs", witnesses=R.count("witnesses"), satisfied=R.count("satisfied"), unsatisfied=R.count("unsatisfied"))
def C09(rep):
    R = Result("C09", "model_checking")
    parts(R, rep, [Part("states", "h_hist", "std", dict(REACH="1", LD_BIND_NOW="1"), lib="libfaest.so", extra=("-DSHARED",), out="h_hist_so"), Part("histories", "h_hist", "avx"), Part("histories-plain32", "h_hist", "p32ssl", dict(LITE="1")), Part("histories-own-aes", "h_hist", "own", dict(OWN="1"))])
    return mc(R, transitions=R.count("transitions"), histories=R.count("histories"), library_states=R.count("states_visited"))
EVP = ("EVP_EncryptUpdate", "EVP_EncryptInit_ex", "EVP_EncryptFinal_ex", "EVP_CIPHER_CTX_set_padding", "EVP_CIPHER_CTX_free", "EVP_CIPHER_CTX_reset")
def C10(rep):
    R = Result("C10", "model_checking"); w = tuple("!" + x for x in ("memcmp", "explicit_bzero"))
    parts(R, rep, [Part("pairs", "h_conc", "sched", wraps=w + tuple("!" + x for x in EVP)), Part("pairs-own-aes", "h_conc", "schedown", dict(OWN="1"), wraps=w)])
    return mc(R, transitions=R.count("schedules") + R.count("pairs_independent"), schedules=R.count("schedules"), pairs_independent=R.count("pairs_independent"), pairs_dependent=R.count("pairs_dependent"), shared_locations_written=R.count("shared_locations_written"))
EXPORTS = tuple("%s_%s" % (p, f) for p in SETS for f in ("keygen", "validate_keypair", "sign", "sign_with_randomness", "verify", "clear_private_key"))
EVPM = ("!EVP_EncryptUpdate", "!EVP_EncryptInit_ex", "!EVP_EncryptFinal_ex")
def C08(rep):
    R = Result("C08", "exploration"); ign = "-fsanitize-ignorelist=" + os.path.join(SRC, "all.ignore")
    parts(R, rep, [Part("asan", "h_mem", "asan", wraps=EVPM), Part("asan-plain32", "h_mem", "asan32", dict(LITE="1", SETS=",128f,em_192f,em_128s,"), wraps=EVPM), Part("undefined-clang", "h_mem", "ubclang", dict(LITE="1"), wraps=EVPM, extra=(ign,)), Part("asan-native", "h_mem", "asanavx", dict(LITE="1", SETS=",em_128f,192f,256f,128s,"), wraps=EVPM), Part("asan-own-aes", "h_mem", "asanown", dict(LITE="1", OWN="1", SETS=",128f,")),
        Part("uninitialised", "h_mem", "msanssl", dict(LITE="1"), wraps=EVPM + ("!memcmp",), extra=(ign,)), Part("signed-messages", "h_mem", "asan", wraps=EVPM, extra=("-DNISTROWS",), cobjs=NIST, out="h_mem_n"), Part("guard-pages", "h_mem", "avx", dict(LITE="1"))])
    return expl(R, "one evaluation = one call on exact-extent buffers under instrumentation; distinct = distinct (inputs, alignments)", rejected=R.count("rejected"), accepted=R.count("accepted"))
OWF = ("owf_128", "owf_192", "owf_256", "owf_em_128", "owf_em_192", "owf_em_256")
def C21(rep):
    R = Result("C21", "exploration"); w = HEAP + ("!memcmp",); wa = w + WR + OWF; st = ("-DSTEP",)
    parts(R, rep, [Part("interface", "h_ct", "ct", dict(PART="api"), wraps=wa), Part("blocks", "h_ct", "ct", dict(PART="blocks"), wraps=w, out="h_ct_b"), Part("blocks-own-aes", "h_ct", "ctown", dict(PART="blocks", OWN="1"), wraps=w), Part("interface-unoptimised", "h_ct", "ct0", dict(PART="api", LITE="1"), wraps=wa), Part("blocks-unoptimised", "h_ct", "ct0own", dict(PART="blocks", OWN="1", LITE="1"), wraps=w),
        Part("proof", "h_ct", "ct", dict(PART="blocks"), wraps=w, extra=("-DPROVE",), optional=True, out="h_ct_p")] + [Part("machine-code-" + c, "h_ct", c, dict(PART="blocks", LITE="1"), wraps=w, extra=st, out="h_ct_s") for c in (("std", "clangndebug") if tier() == "thorough" else ("std",))])
    return expl(R, "one evaluation = one execution with one secret whose complete sequence of branches (basic-block edges or instruction addresses) and accessed locations is compared with that of another secret under the same public data; distinct = distinct (operation, secret) pairs", events=R.count("events"))
def C19(rep):
    R = Result("C19", "exploration"); import tempfile
    d = tempfile.mkdtemp(prefix="cfg"); tab = os.path.join(d, "table")
    try:
        if rep is None or any(v["part"] != "exports" for v in rep["violations"]):
            r = run(harness("h_cfg", "std"), env=dict(GEN=tab, WEIGHT="0" if tier() == "thorough" else "1")); R.add("reference", r)
        th = 0 if tier() == "thorough" else 1; e = dict(TABLE=tab); W = lambda n: dict(e, WEIGHT=str(n))
        parts(R, rep, [Part(c, "h_cfg", c, W(w)) for c, w in (("p32ssl", 1), ("avx", th), ("novec", 1), ("noshuf", 2), ("compat", 1), ("compat2", 2), ("lto", th), ("ndebug", 2 * th), ("clangndebug", th), ("own", 2), ("clangown", 3), ("ownndebug", 2), ("clangnative", 2), ("o0", 2), ("os", 2))]
            + [Part("nox4", "h_cfg", "nox4", W(1), optional=True), Part("shared", "h_cfg", "std", W(1), lib="libfaest.so", extra=("-DSHARED",), out="h_cfg_so")])
        if rep is None:
            b = build("std", ("libfaest.so",)); so = [f for f in os.listdir(b) if f.startswith("libfaest.so")]; syms = set(re.findall(r" T (\S+)", sh(["nm", "-D", os.path.join(b, so[0])])))
            miss = ["faest_" + x for x in EXPORTS if "faest_" + x not in syms]
            for m in miss: R.violation("exports", m, "the shared library does not export " + m)
    finally: shutil.rmtree(d, ignore_errors=True)
    return expl(R, "one evaluation = one call of one configuration whose result is compared with the reference configuration's; distinct = distinct (call, result) pairs", items=R.count("items"), configurations=len(R.parts))
