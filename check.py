#!/usr/bin/env python3
"""Driver: builds one property's harness from /repo's working tree, runs it sharded, judges, writes evidence.

  check.py Cnn [--tier quick|thorough]      exit 0 held / 1 VIOLATION / 2 no answer (harness or build error)
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DDV_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS

def sh_ok(cmd):
    try: return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode == 0
    except Exception: return False

NOASLR = ["setarch", "-R"] if sh_ok(["setarch", "-R", "true"]) else []
CXX = "clang++" if shutil.which("clang++") else "g++"
COMMON = ["-std=c++17", "-g1", "-w", "-isystem", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "harness")]
VARIANTS = {
    # assertions on, sanitizers on
    "san": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "san0": ["-O0", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"], # short build
    # as the library is shipped
    "vol": ["-O2", "-DNDEBUG"],
    # assertions on, no sanitizer (for large histories)
    "dbg": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-fsanitize=thread", "-DVH_TSAN", "-pthread"],
    # uses of uninitialised values (run under valgrind memcheck), assertions on
    "vg": ["-O0"],
    "thr": ["-O2", "-pthread", "-DNDEBUG"],
}
VALGRIND = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--leak-check=no", "--undef-value-errors=yes", "--max-stackframe=16000000", "--main-stacksize=16000000"]
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=98:detect_leaks=1:detect_stack_use_after_return=0:hard_rss_limit_mb=6000:allocator_may_return_null=0:max_allocation_size_mb=4000:handle_abort=1:strict_string_checks=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
ENV["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0"
ENV["LSAN_OPTIONS"] = "exitcode=98"

def load_known():
    known = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"finding: property=(C\d+) key=(\S+)\s+(.*)$", line)
            if m: known.append((m.group(1), m.group(2), m.group(3)))
    return known

def crash_key(err, rc):
    if "CASE-CPU-TIMEOUT" in err: return "hang"
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+(?: [\w-]+)?)[^\n]*", err)
    if m:
        f = re.search(r" in ([\w:~<>]+)", m.group(0))
        loc = re.search(r"([\w.]+\.hpp):(\d+)", m.group(0))
        return "sanitizer:%s:%s%s" % (m.group(1), m.group(2).replace(" ", "-"), (":" + (loc.group(1))) if loc else "")
    m = re.search(r"([\w./]+): ?(\d+): .*Assertion .(.*?)' failed", err)
    if m: return "assert:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"\s+", "_", m.group(3))[:80])
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid (?:read|write|free)|Syscall param|Mismatched free)", err)
    if m:
        loc = re.search(r"\(([\w.]+\.hpp):\d+\)", err[m.start():])
        return "memcheck:" + m.group(1).replace(" ", "-") + (":" + loc.group(1) if loc else "")
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m: return "ubsan:" + re.sub(r"\s+", "_", m.group(1))[:60]
    return "crash:rc%s" % rc

def run_proc(cmd, timeout, errpath):
    with open(errpath, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, cwd=os.path.dirname(errpath), start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, 9)
            except Exception: pass
            p.wait(); rc = "timeout"
    data = open(errpath, "rb").read()
    if len(data) > 60000: data = data[:30000] + b"\n...\n" + data[-30000:]
    return rc, data.decode("utf-8", "replace")

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true"); ap.add_argument("--scale", type=float, default=None)
    ap.add_argument("--variant", default=None)
    a = ap.parse_args()
    t0 = time.time()
    prop, spec = a.prop, PROPS[a.prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    scale = a.scale if a.scale is not None else (spec.get("thorough_factor", 25) if tier == "thorough" else 1)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="ddv-%s-" % prop)
    rcode = 2
    try:
        rcode = go(a, prop, spec, seed, tier, scale, tmp, t0)
    finally:
        if a.keep: print("kept", tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rcode)

def build(spec, variant, tmp):
    """one executable per build variant; a split harness has one translation unit per package configuration"""
    exe = os.path.join(tmp, "h_" + variant)
    src = os.path.join(HERE, "harness", spec["src"])
    flags = VARIANTS[variant] + spec.get("flags", [])
    text = open(src).read()
    units = (0, 1, 2) if "VH_SPLIT(" in text else (-1,)
    def comp(u):
        obj = "%s_%d.o" % (exe, u)
        r = subprocess.run([CXX] + COMMON + flags + (["-DVH_CFG=%d" % u] if u >= 0 else []) + ["-c", src, "-o", obj, "-pthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        return obj, r.returncode, r.stdout
    with cf.ThreadPoolExecutor(3) as ex: objs = list(ex.map(comp, units))
    for o, rc, out in objs:
        if rc != 0: return variant, exe, rc, out
    r = subprocess.run([CXX] + flags + [o for o, _, _ in objs] + ["-o", exe, "-pthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    return variant, exe, r.returncode, r.stdout

def go(a, prop, spec, seed, tier, scale, tmp, t0):
    variants = {v: n for v, n in spec["variants"].items() if a.variant in (None, v)}
    exes = {}
    with cf.ThreadPoolExecutor(4) as ex:
        for variant, exe, rc, out in ex.map(lambda v: build(spec, v, tmp), variants):
            if rc != 0:
                print("BUILD-ERROR property=%s variant=%s\n%s" % (prop, variant, out[-6000:])); return 2
            exes[variant] = exe
    tb = time.time() - t0
    ncpu = min(8, os.cpu_count() or 4)
    jobs = []
    cpu = {"san": 40, "san0": 60, "tsan": 60, "vg": 240}
    for v, n in variants.items():
        n = max(1, int(n * scale))
        nsh = spec.get("shards", ncpu)
        nsh = min(nsh, n)
        for s in range(nsh): jobs.append((v, s, nsh, n))
    ddl = 9000 if tier == "thorough" else 420
    def one(job, only=None, tag="", cpul=None):
        v, s, nsh, n = job
        base = os.path.join(tmp, "%s_%d%s" % (v, s, tag)); os.makedirs(base, exist_ok=True)
        cmd = (VALGRIND if v == "vg" else NOASLR) + [exes[v], "--seed", str(seed), "--shard", str(s), "--shards", str(nsh), "--cases", str(n),
               "--out", base + ".json", "--prog", base + ".prog", "--cpu", str(cpul or cpu.get(v, 30))]
        if only is not None: cmd += ["--only", str(only), "-v"]
        rc, err = run_proc(cmd, max(30, ddl - (time.time() - t0)) if only is None else 300, base + "/stderr")
        idx, note = None, ""
        try:
            raw = open(base + ".prog", "rb").read()
            idx, running = struct.unpack("QQ", raw[:16]); note = raw[16:].split(b"\0")[0].decode("utf-8", "replace")
            if not running: note = "(after the last case) " + note
        except Exception: pass
        res = None
        if rc == 0:
            try: res = json.load(open(base + ".json"))
            except Exception as e: err += "\nbad json: %s" % e
        return dict(job=job, rc=rc, err=err, idx=idx, note=note, res=res, base=base)
    workers = max(1, ncpu // spec.get("threads", 1))
    with cf.ThreadPoolExecutor(workers) as ex: results = list(ex.map(one, jobs))
    events, hashes, samples, required, evaluations, viols, errors, inconclusive = {}, set(), [], set(), 0, [], [], []
    pervar = {}
    for r in results:
        v, s, nsh, n = r["job"]
        if r["res"] is not None:
            evaluations += r["res"]["evaluations"]; pervar[v] = pervar.get(v, 0) + r["res"]["evaluations"]
            for k, c in r["res"]["events"].items(): events[k] = events.get(k, 0) + c
            required |= set(r["res"]["required"]); samples += r["res"]["samples"]
            try:
                raw = open(r["base"] + ".json.hash", "rb").read()
                hashes.update(struct.unpack("%dQ" % (len(raw) // 8), raw))
            except Exception: pass
            for x in r["res"]["violations"]: viols.append(dict(variant=v, idx=x["idx"], key=x["key"], msg=x["msg"], note=x["note"], n=n))
            continue
        if r["rc"] == "timeout": inconclusive.append("%s shard %d timed out" % (v, s)); continue
        if r["rc"] in (3, 126, 127): errors.append("%s shard %d: rc %s: %s" % (v, s, r["rc"], r["err"][-500:])); continue
        evaluations += (r["idx"] or 0) // max(1, nsh)
        # a crash, sanitizer report, failed assertion, abort or per-case CPU limit: confirm on the single case, else on the shard
        r["again"] = True
        viols.append(dict(variant=v, idx=r["idx"], key=crash_key(r["err"], r["rc"]), msg=r["err"][-8000:], note=r["note"], n=n, crash=r))
    out, confirmed_keys = [], {}
    for x in viols:
        c = x.pop("crash", None)
        if c is not None:
            if confirmed_keys.get(x["key"], 0) >= 1: continue
            again = one(c["job"], only=x["idx"], tag="_again", cpul=max(90, cpu.get(c["job"][0], 0))) if x["idx"] is not None else None
            how = "single case"
            if again is None or again["rc"] == 0:
                again = one(c["job"], tag="_again2"); how = "whole shard"
            if again["rc"] == 0 or again["rc"] == "timeout":
                if c["rc"] in (-9, 137) or x["key"] == "hang":
                    inconclusive.append("not reproduced: %s" % x["key"]); continue
                how = "not reproduced on a second run"
            else:
                x["msg"] = again["err"][-12000:] or x["msg"]; x["key"] = crash_key(again["err"], again["rc"])
            x["confirmed"] = how
            confirmed_keys[x["key"]] = 1
        out.append(x)
    known = load_known(); new, seen_known = [], {}
    for x in out:
        for kp, kk, kd in known:
            if kp == prop and re.fullmatch(kk, x["key"]): seen_known[kk] = kd; break
        else: new.append(x)
    missing = [k for k in required if not events.get(k)]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(hashes), "rule": spec["rule"], "samples": samples[:6] or ["(none)"],
                       "observed_events": events, "cases_per_build": pervar,
                       "builds": {v: " ".join(VARIANTS[v]) for v in variants}, "inconclusive": inconclusive, "known_findings_seen": seen_known},
          "assumptions": spec.get("assumptions", []) + ["the oracle and generators in /verif/harness", "compiler and sanitizer runtimes"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for kk, kd in seen_known.items(): print("KNOWN-FINDING: property=%s %s" % (prop, kd))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d comparisons, build %.1fs, total %.1fs" % (prop, tier, seed, evaluations, len(hashes), events.get("comparisons", 0), tb, time.time() - t0))
    if new:
        rep = os.path.join(HERE, "evidence", "replay", "%s-seed%d.txt" % (prop, seed))
        with open(rep, "w") as f:
            for x in new[:8]:
                f.write("property %s  variant %s  seed %d  case %s  key %s %s\n" % (prop, x["variant"], seed, x["idx"], x["key"], x.get("confirmed", "")))
                f.write("replay: cd /verif && VERIF_SEED=%d python3 replay.py %s %s %d %s\n" % (seed, prop, x["variant"], x["n"], x["idx"]))
                f.write("what:   %s\ncase:   %s\n\n" % (x["msg"], x["note"]))
        for x in new[:3]: print("  [%s] case %s %s: %s" % (x["variant"], x["idx"], x["key"], x["msg"][:300].replace("\n", " | ")))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    if errors or missing or (inconclusive and evaluations == 0) or len(inconclusive) > len(jobs) // 2:
        print("NO-ANSWER property=%s errors=%s missing=%s inconclusive=%s" % (prop, errors[:3], missing, inconclusive[:3])); return 2
    return 0

if __name__ == "__main__": main()
