#!/usr/bin/env python3
"""check.py ID [--thorough] [--replay FILE]: decide one property on /repo's current working tree."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FAEST_REPO", "/repo")
SRC = os.path.join(HERE, "src")
WORK = os.path.join(HERE, ".work")
CPU = open("/proc/cpuinfo").read()
HW = " aes " in CPU and " pclmulqdq " in CPU and " sse4_1 " in CPU
AVX2 = " avx2 " in CPU
NPROC = min(8, os.cpu_count() or 8)
ENV = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "CC", "CXX", "MAKEFLAGS", "LD_PRELOAD")}
ENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
ENV["LC_ALL"] = "C.UTF-8"

class InfraError(Exception): pass

def log(*a): print(*a, file=sys.stderr, flush=True)

def sh(cmd, cwd=None, env=None, timeout=900, ok=(0,)):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode not in ok: raise InfraError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd) if isinstance(cmd, list) else cmd, p.stdout[-4000:]))
    return p.stdout

_h = None
def repo_hash():
    """Content hash of every source the build can read (mtimes are not trusted)."""
    global _h
    if _h: return _h
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "build", "__pycache__", "catch2"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.islink(p) or not os.path.isfile(p): continue
            if os.path.getsize(p) > 4 << 20: continue
            h.update(os.path.relpath(p, REPO).encode() + b"\0"); h.update(hashlib.sha256(open(p, "rb").read()).digest())
    _h = h.hexdigest()[:16]
    return _h

SAN = "-fno-sanitize=alignment -fno-sanitize-recover=all -fno-omit-frame-pointer"
FALLBACKS = ("HAVE_ALIGNED_ALLOC", "HAVE_POSIX_MEMALIGN", "HAVE_MEMALIGN", "HAVE_EXPLICIT_BZERO", "HAVE_CONSTTIME_MEMEQUAL", "HAVE_TIMINGSAFE_BCMP")
CONFIGS = {
    "std":   dict(ssl=1, sha3="opt64", args="-O2 -g"),
    "own":   dict(ssl=0, sha3="opt64", args="-O3 -march=native -g" if HW else "-O3 -g"),
    "p32":   dict(ssl=0, sha3="plain32", args="-O2 -g"),
    "p32ssl": dict(ssl=1, sha3="plain32", args="-O2 -g"),
    "avx":   dict(ssl=1, sha3="avx2" if AVX2 else "opt64", args="-O3 -march=native -g" if HW else "-O3 -g"),
    "asan":  dict(ssl=1, sha3="opt64", args="-O1 -g -fsanitize=address,undefined " + SAN, link="-fsanitize=address,undefined"),
    "asanown": dict(ssl=0, sha3="plain32", args="-O1 -g -fsanitize=address,undefined " + SAN, link="-fsanitize=address,undefined"),
    "msan":  dict(ssl=0, sha3="opt64", cc="clang", args="-O1 -g -fsanitize=memory -fno-omit-frame-pointer", link="-fsanitize=memory"),
    "ndebug": dict(ssl=1, sha3="opt64", args="-O3 -DNDEBUG -g"),
    "clang": dict(ssl=1, sha3="opt64", cc="clang", args="-O2 -g"),
    "clangown": dict(ssl=0, sha3="plain32", cc="clang", args="-O2 -g"),
    "o0":    dict(ssl=1, sha3="opt64", args="-O0 -g"),
    "lto":   dict(ssl=1, sha3="opt64", args="-O3 -DNDEBUG", lto=1),
    "novec": dict(ssl=1, sha3="opt64", args="-O2 -g -D_GNU_SOURCE", pre="#include <features.h>\n#include \"@R@/macros.h\"\n#undef HAVE_ATTR_VECTOR_SIZE\n"),  # compilers without vector types
    "noshuf": dict(ssl=1, sha3="opt64", args="-O2 -g -D_GNU_SOURCE", pre="#undef __has_builtin\n#define __has_builtin(x) 0\n"),  # compilers with vector types but without shuffling
    "compat": dict(ssl=1, sha3="opt64", args="-O3 -DNDEBUG -g", undef=FALLBACKS),  # C libraries without the optional functions
    "compatlto": dict(ssl=1, sha3="opt64", args="-O3 -DNDEBUG", lto=1, undef=FALLBACKS),
    "compat2": dict(ssl=1, sha3="opt64", args="-O2 -g", undef=FALLBACKS[:1] + FALLBACKS[3:]),
    "clangndebug": dict(ssl=1, sha3="opt64", cc="clang", args="-O3 -DNDEBUG -g"),
    "nox4": dict(ssl=1, sha3="opt64", args="-O2 -g -UWITH_KECCAK_X4"),  # no four-way hashing
    "os": dict(ssl=1, sha3="plain32", args="-Os -fsanitize=undefined -fsanitize-trap=undefined -fno-sanitize=alignment -g"),
    "ownndebug": dict(ssl=0, sha3="opt64", args="-O3 -DNDEBUG -funroll-loops -g"),
    "clangnative": dict(ssl=0, sha3="avx2" if AVX2 else "opt64", cc="clang", args="-O3 -march=native -g" if HW else "-O3 -g"),
    "ct": dict(ssl=1, sha3="opt64", cc="clang", args="-O1 -g -fsanitize=thread -fsanitize-coverage=edge,trace-pc,no-prune", stub="void __sanitizer_cov_trace_pc(void) {} void __sanitizer_cov_trace_pc_indir(void *p) {}"),
    "ctown": dict(ssl=0, sha3="plain32", cc="clang", args="-O1 -g -fsanitize=thread -fsanitize-coverage=edge,trace-pc,no-prune", stub="void __sanitizer_cov_trace_pc(void) {} void __sanitizer_cov_trace_pc_indir(void *p) {}"),
    "ct0": dict(ssl=1, sha3="opt64", cc="clang", args="-O0 -g -fsanitize=thread -fsanitize-coverage=edge,trace-pc,no-prune", stub="void __sanitizer_cov_trace_pc(void) {} void __sanitizer_cov_trace_pc_indir(void *p) {}"),
    "ct0own": dict(ssl=0, sha3="opt64", cc="clang", args="-O0 -g -fsanitize=thread -fsanitize-coverage=edge,trace-pc,no-prune", stub="void __sanitizer_cov_trace_pc(void) {} void __sanitizer_cov_trace_pc_indir(void *p) {}"),
    "msanssl": dict(ssl=1, sha3="opt64", cc="clang", args="-O1 -g -fsanitize=memory -fno-omit-frame-pointer", link="-fsanitize=memory"),
    "ubclang": dict(ssl=1, sha3="opt64", cc="clang", args="-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -fsanitize-ignorelist=" + os.path.join(SRC, "ubsan.ignore"), link="-fsanitize=address,undefined"),
    "asanavx": dict(ssl=1, sha3="avx2" if AVX2 else "opt64", args=("-march=native " if HW else "") + "-O1 -g -fsanitize=address,undefined " + SAN, link="-fsanitize=address,undefined"),
    "asan32": dict(ssl=1, sha3="plain32", args="-O1 -g -fsanitize=address,undefined " + SAN, link="-fsanitize=address,undefined"),
    "sched": dict(ssl=1, sha3="opt64", cc="clang", args="-O1 -g -fsanitize=thread"),
    "schedown": dict(ssl=0, sha3="opt64", cc="clang", args="-O1 -g -fsanitize=thread"),
}

def build(cfg, targets=("libfaest_no_random.a",)):
    c = CONFIGS[cfg]
    os.makedirs(os.path.join(WORK, "build"), exist_ok=True)
    if c.get("pre"): # forced include
        c = dict(c); p = os.path.join(WORK, "build", cfg + "-pre.h"); t = c["pre"].replace("@R@", REPO); c["args"] += " -include " + p
        if not os.path.exists(p) or open(p).read() != t:
            with open(p + ".%d" % os.getpid(), "w") as f: f.write(t)
            os.rename(p + ".%d" % os.getpid(), p)
    key = hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:6]
    d = os.path.join(WORK, "build", "%s-%s-%s" % (cfg, repo_hash(), key))
    with open(os.path.join(WORK, "build", cfg + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for o in os.listdir(os.path.join(WORK, "build")):
            if o.startswith(cfg + "-") and not o.startswith(cfg + "-pre.h") and os.path.join(WORK, "build", o) != d: shutil.rmtree(os.path.join(WORK, "build", o), ignore_errors=True) if os.path.isdir(os.path.join(WORK, "build", o)) else os.unlink(os.path.join(WORK, "build", o))
        env = dict(ENV); env["CC"] = c.get("cc", "gcc"); env["CXX"] = {"gcc": "g++", "clang": "clang++"}[env["CC"]]
        if not os.path.exists(os.path.join(d, "build.ninja")):
            shutil.rmtree(d, ignore_errors=True)
            cmd = ["meson", "setup", d, REPO, "--buildtype=plain", "--wrap-mode=nodownload", "-Dwerror=false", "-Db_lto=%s" % ("true" if c.get("lto") else "false"),
                   "-Dvalgrind=disabled", "-Dcatch2=disabled", "-Dbenchmarks=%s" % c.get("bench", "disabled"), "-Dopenssl=%s" % ("enabled" if c["ssl"] else "disabled"), "-DSHA3=" + c["sha3"], "-Dc_args=" + c["args"]]
            if c.get("link"): cmd.append("-Dc_link_args=" + c["link"]); cmd.append("-Dcpp_args=" + c["link"]); cmd.append("-Dcpp_link_args=" + c["link"])
            if c.get("stub"): # the compiler's callbacks, for meson's own test programs
                open(d + "-stub.c", "w").write(c["stub"]); sh([env["CC"], "-c", d + "-stub.c", "-o", d + "-stub.o"], env=env); cmd.append("-Dc_link_args=" + d + "-stub.o")
            sh(cmd, env=env)
            if c.get("undef"):
                p = os.path.join(d, "config.h"); t = open(p).read()
                for u in c["undef"]: t = re.sub(r"#(define|undef) %s\b.*" % u, "#undef " + u, t)
                open(p, "w").write(t)
        if "libfaest.so" in targets:
            so = re.search(r"^build (libfaest\.so[.\d]*): c_LINKER", open(os.path.join(d, "build.ninja")).read(), re.M)
            if not so: raise InfraError("no shared library target")
            targets = tuple(so.group(1) if t == "libfaest.so" else t for t in targets)
        sh(["ninja", "-C", d] + list(targets), env=env)
        if c.get("undef"):
            t = open(os.path.join(d, "config.h")).read()
            if any(re.search(r"#define %s\b" % u, t) for u in c["undef"]): raise InfraError("config.h was regenerated")
    return d

def harness(name, cfg, extra=(), libs=(), wraps=(), lib="libfaest_no_random.a", cxx=None, out=None, srcs=(), cobjs=()):
    """Compile src/<name>.cpp against configuration cfg; cobjs: C sources (@D@ = build directory, @R@ = repository) compiled with the configuration's own flags."""
    d = build(cfg, (lib, "libfaest_no_random.a") if lib == "libfaest.a" else (lib,) if lib else ()); c = CONFIGS[cfg]
    cxx = cxx or {"gcc": "g++", "clang": "clang++"}[c.get("cc", "gcc")]
    a = os.path.join(d, lib) if lib else None
    syms = set()
    w = []
    if wraps:
        syms = set(re.findall(r" [TW] (\S+)", sh(["nm", a])))
        for s in wraps:
            if s in syms or s.startswith("!"):
                s = s.lstrip("!"); w += ["-Wl,--wrap=" + s, "-DWRAP_" + s]
    opt = ["-O2"] + (["-march=native"] if "-march=native" in c["args"] else ["-msse4.1", "-maes", "-mpclmul"] if HW else [])  # same vector ABI as the library
    h = hashlib.sha256()
    for f in sorted(os.listdir(SRC)): h.update(open(os.path.join(SRC, f), "rb").read())
    h.update(repr((name, cfg, extra, libs, w, lib, cxx, srcs, cobjs)).encode())
    os.makedirs(os.path.join(WORK, "bin"), exist_ok=True)
    exe = os.path.join(WORK, "bin", "%s-%s-%s-%s" % (out or name, cfg, repo_hash(), h.hexdigest()[:10]))
    with open(os.path.join(WORK, "bin", (out or name) + cfg + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            for o in os.listdir(os.path.join(WORK, "bin")):
                if o.startswith("%s-%s-" % (out or name, cfg)): os.unlink(os.path.join(WORK, "bin", o))
            objs = []
            if cobjs:
                inc = ["-I" + d, "-I" + REPO, "-I" + REPO + "/sha3", "-I" + REPO + "/sha3/" + c["sha3"], "-DHAVE_CONFIG_H", "-D_GNU_SOURCE", "-DWITH_KECCAK_X4"] + (["-DHAVE_OPENSSL"] if c["ssl"] else [])
                def cc1(i):
                    f, fl = cobjs[i]; sub = lambda x: x.replace("@D@", d).replace("@R@", REPO); o = "%s.%d.o" % (exe, i)
                    sh([c.get("cc", "gcc")] + c["args"].split() + ["-w"] + [sub(x) for x in fl] + inc + ["-c", sub(f), "-o", o]); return o
                from concurrent.futures import ThreadPoolExecutor
                with ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc1, range(len(cobjs))))
            cmd = [cxx, "-std=c++17"] + opt + ["-g1", "-w", "-I" + SRC, "-I" + d, "-I" + REPO, "-I" + REPO + "/sha3", "-I" + REPO + "/sha3/" + c["sha3"], "-DFAEST_EXPORT=", "-DFAEST_TESTS", "-DHAVE_CONFIG_H", "-DWITH_KECCAK_X4", "-D_GNU_SOURCE"] + list(extra) + w + (["-include", os.path.join(WORK, "build", cfg + "-pre.h")] if c.get("pre") else []) + (c.get("link", "").split())
            cmd += [os.path.join(SRC, name + ".cpp")] + list(srcs) + ["-o", exe + ".tmp"] + objs + ([a] if a else []) + ([os.path.join(d, "libfaest_no_random.a")] if lib == "libfaest.a" else ["-Wl,-rpath," + d] if lib and ".so" in lib else []) + list(libs) + (["-lcrypto"] if c["ssl"] or "-lcrypto" in libs else []) + ["-lpthread"]
            sh(cmd)
            os.rename(exe + ".tmp", exe)
            for o in objs: os.unlink(o)
    return exe

def tier(): return "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"
def seed():
    try: return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: return 1

def run(exe, args=(), timeout=3000, env=None):
    os.makedirs(os.path.join(WORK, "out"), exist_ok=True)
    out = os.path.join(WORK, "out", "%s.%d.json" % (os.path.basename(exe), os.getpid()))
    if os.path.exists(out): os.unlink(out)
    e = dict(ENV); e.update(env or {}); e["VERIF_TIER"] = tier(); e["VERIF_SEED"] = str(seed())
    e.setdefault("ASAN_OPTIONS", "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=8192")
    e.setdefault("UBSAN_OPTIONS", "halt_on_error=1:exitcode=78:print_stacktrace=1")
    lim = 840 if tier() == "quick" else 6 * 3600
    p = subprocess.run([exe, "--out", out, "--workers", str(NPROC)] + list(args), env=e, timeout=min(lim, timeout) if tier() == "quick" else lim, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if not os.path.exists(out): raise InfraError("harness produced no result (%d): %s\n%s" % (p.returncode, exe, p.stdout[-3000:]))
    r = json.load(open(out)); os.unlink(out); r["log"] = p.stdout[-3000:]
    return r

def known_findings(pid):
    r = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3)))
    except FileNotFoundError: pass
    return r

class Result:
    """Accumulates the measured coverage of all parts of one check."""
    def __init__(self, pid, level): self.pid, self.level, self.parts, self.viol, self.t0, self.known_hit = pid, level, {}, [], time.time(), set(); self.assumptions = []; self.extra = {}; self.unconf = []
    def add(self, part, r, how=None):
        self.parts[part] = dict(cases=r.get("cases", 0), evaluations=r.get("evaluations", 0), distinct=r.get("distinct", 0), counts=r.get("counts", {}), distinct_sets=r.get("distinct_sets", {}), wall_s=r.get("wall", 0))
        if r.get("notes"): self.parts[part]["notes"] = r["notes"]
        self.extra.setdefault("samples", []).extend("%s: %s" % (part, s) for s in r.get("samples", [])[:4])
        for u in r.get("unconfirmed", []): self.unconf.append("%s: %s: %s" % (part, u["label"], u["msg"]))
        for v in r.get("violations", []):
            for k, d in known_findings(self.pid):
                if k == "%s:%s" % (part, v["label"].replace(" ", "_")): self.known_hit.add((k, d)); break
            else: self.viol.append(dict(part=part, **v))
    def violation(self, part, label, msg, **kw): self.add(part, dict(violations=[dict(label=label, msg=msg, **kw)])) if part not in self.parts else self.viol.append(dict(part=part, label=label, msg=msg, **kw))
    def total(self, k): return sum(p.get(k, 0) for p in self.parts.values())
    def count(self, k): return sum(p["counts"].get(k, 0) for p in self.parts.values())
    def finish(self, coverage, replay_cmd=None):
        cov = dict(coverage)
        s = self.extra.get("samples", []); cov.setdefault("samples", s[:12] if s else ["(no sample)"])
        cov["parts"] = self.parts
        if self.unconf: cov["not_reproduced_on_replay"] = self.unconf[:10]
        ev = dict(property=self.pid, tier=tier(), seed=seed(), level=self.level, coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.pid + ".json"), "w"), indent=1)
        for k, d in sorted(self.known_hit): print("KNOWN-FINDING: property=%s %s" % (self.pid, d))
        rc = 0
        if self.viol:
            os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
            path = os.path.join(HERE, "replay", self.pid + ".json")
            json.dump(dict(property=self.pid, tier=tier(), seed=seed(), violations=self.viol[:8], replay="cd %s && VERIF_TIER=%s VERIF_SEED=%d python3 check.py %s --replay %s" % (HERE, tier(), seed(), self.pid, path)), open(path, "w"), indent=1)
            for v in self.viol[:4]: print("  %s / %s: %s (%s)" % (v["part"], v["label"], v["msg"], v.get("how", "")))
            print("VIOLATION property=%s replay=%s" % (self.pid, path)); rc = 1
        else: print("%s: held on everything explored: %s" % (self.pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, bool))})))
        sys.stdout.flush()
        return rc

import importlib.util
def main():
    pid = sys.argv[1]
    if pid == "--setup":  # nothing is kept between runs: only make sure the tools are there
        for t in ("meson", "ninja", "gcc", "g++", "clang", "nm"):
            if not shutil.which(t, path=ENV["PATH"]): print("missing tool: " + t); return 1
        return 0
    spec = importlib.util.spec_from_file_location("checks", os.path.join(HERE, "checks.py")); m = importlib.util.module_from_spec(spec); sys.modules["checks"] = m
    sys.modules["check"] = sys.modules[__name__]
    spec.loader.exec_module(m)
    rep = None
    if "--replay" in sys.argv: rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
    try: return m.dispatch(pid, rep)
    except InfraError as e:
        print("check could not run: %s" % e); return 2
    except subprocess.TimeoutExpired as e:
        print("check timed out: %s" % e); return 2
if __name__ == "__main__": sys.exit(main())
