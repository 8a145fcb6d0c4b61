#!/usr/bin/env python3
"""Decide one property of /repo:  check.py <property> [--tier quick|thorough]

The contracts of /verif/kani are compiled together with /repo's current source by Kani and every
obligation is discharged by CBMC. See DESIGN.md for the meaning of each outcome.
"""
import json, os, re, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from props import PROPS, TRUSTED, BOUNDS, STUBBED, SYMBOLIC_ONLY, LOOPS, STEPS  # noqa: E402

CRATE = os.path.join(HERE, "kani")
WORK = os.path.join(HERE, "work")
EVID = os.path.join(HERE, "evidence")
T0 = time.time()


def left(limit):
    """Seconds left of the check's own time limit"""
    return limit - (time.time() - T0)


def run(cmd, env=None, timeout=600, cwd=CRATE):
    """Output of a command run in its own process group; None as status when its time ran out"""
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(5, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


# ---------------------------------------------------------------- Kani

def kani_cmd(harnesses, features=(), extra=(), jobs=8, each=None):
    cmd = ["cargo", "kani", "--lib", "-Z", "stubbing", "-Z", "unstable-options",
           "--no-assertion-reach-checks", "--output-format", "terse", "-j", str(jobs)]
    if features:
        cmd += ["--features", ",".join(features)]
    if each:
        cmd += ["--harness-timeout", "%ds" % each]
    for h in harnesses:
        cmd += ["--exact", "--harness", h] if "::" in h else ["--harness", h]
    return cmd + list(extra)


def kani(harnesses, features=(), extra=(), jobs=8, timeout=400, target="kani"):
    """{harness: {status: held|failed|undecided|unwind, failed: [...], ...}}, compiled?"""
    loops = [h for h in harnesses if h in LOOPS]
    if loops and len(loops) < len(harnesses):
        a = kani(loops, features, extra, jobs, min(120, timeout), target)
        b = kani([h for h in harnesses if h not in LOOPS], features, extra, jobs, timeout, target)
        return {**b[0], **a[0]}, a[1] and b[1], b[2] + " ; " + a[2], b[3] + a[3]
    if loops:
        extra, target = list(extra) + ["-Z", "loop-contracts"], target + "-loop"
    env = {"CARGO_TARGET_DIR": os.path.join(WORK, target)}
    if loops:
        env["RUSTFLAGS"] = "--cfg dmi_verif_loops"
    cmd = kani_cmd(harnesses, features, extra, jobs, max(20, timeout - 25))
    rc, out = run(cmd, env, timeout)
    return parse(out, harnesses), "Checking harness" in out, " ".join(cmd), out


def parse(out, harnesses):
    res = {h: dict(status="undecided", failed=[], obligations=0, discharged=0, covers=[0, 0], time=0.0, why="no result")
           for h in harnesses}
    current, block = {}, None
    blocks = {}
    for line in out.splitlines():
        m = re.match(r"(?:Thread (\d+): ?)?(.*)", line)
        thread, text = m.group(1), m.group(2)
        c = re.match(r"Checking harness (\S+?)\.\.\.", text)
        if c:
            current[thread] = c.group(1).split("::")[-1]
            block = current[thread]
            blocks.setdefault(block, [])
            continue
        if thread is not None:
            block = current.get(thread)
        if re.match(r"(Manual Harness )?Summary:|Complete - ", text):
            block = None
        if block is not None:
            blocks[block].append(text)
    for h, lines in blocks.items():
        if h not in res:
            continue
        r = res[h]
        text = "\n".join(lines)
        m = re.search(r"\*\* (\d+) of (\d+) failed(?: \((.*?)\))?", text)
        if m:
            r["obligations"] = int(m.group(2))
            undetermined = re.search(r"(\d+) (?:undetermined|unreachable)", m.group(3) or "")
            r["discharged"] = int(m.group(2)) - int(m.group(1)) - (
                int(undetermined.group(1)) if undetermined and "undetermined" in m.group(3) else 0)
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", text)
        if m:
            r["covers"] = [int(m.group(1)), int(m.group(2))]
        m = re.search(r"Verification Time: ([\d.]+)s", text)
        if m:
            r["time"] = float(m.group(1))
        fails = re.findall(r"Failed Checks: (.*)\n(?: File: \"(.*?)\", line (\d+), in (.*))?", text)
        r["failed"] = [dict(what=f[0].strip(), file=f[1], line=f[2], fn=f[3].strip()) for f in fails]
        r["output"] = text.strip()
        if "VERIFICATION:- SUCCESSFUL" in text:
            r["status"], r["why"] = "held", ""
        elif "CBMC timed out" in text:
            r["why"] = "solver time limit"
        elif "VERIFICATION:- FAILED" in text and r["failed"]:
            what = [f["what"] for f in r["failed"]]
            real = [w for w in what if not is_limit(w)]
            if any("unwinding" in w for w in what):
                r["status"], r["why"] = "unwind", "a loop runs longer than the bound of the contract"
            elif not real:
                r["why"] = "construct not supported: " + "; ".join(what)[:200]
            else:
                r["status"], r["why"] = "failed", ""
        elif "VERIFICATION:- FAILED" in text:
            r["why"] = "verifier failed: " + text[-200:]
    return res


def is_limit(what):
    return bool(re.search(r"unwinding assertion|recursion unwinding|not currently supported|unsupported|"
                          r"is not supported|Kani does not|call to foreign", what, re.I))


def mine(prop, what):
    """Does this failed obligation belong to the property?"""
    m = re.match(r"ENSURES (C\d\d)\.", what)
    return m.group(1) == prop if m else True


# ---------------------------------------------------------------- native runs

def native_build(safety, nohooks=False, timeout=300):
    flags = "--cfg dmi_verif" + (" --cfg dmi_verif_nohooks" if nohooks else "")
    name = "native" + ("-safety" if safety else "") + ("-nohooks" if nohooks else "")
    cargo, sub, args = ["cargo"], "release", []
    if safety:
        flags += " -Zsanitizer=address"
        cargo = ["cargo", "+nightly"]
        args = ["--target", "x86_64-unknown-linux-gnu", "--features", "safety"]
        sub = "x86_64-unknown-linux-gnu/release"
    target = os.path.join(WORK, name)
    rc, out = run(cargo + ["build", "--release", "--offline", "--bin", "replay"] + args,
                  {"RUSTFLAGS": flags, "CARGO_TARGET_DIR": target}, timeout)
    return (os.path.join(target, sub, "replay") if rc == 0 else None), out


ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0", "RUST_BACKTRACE": "0"}


def native_search(binary, names, seed, millis, workers=8):
    """Failing inputs of the contracts among random ones: [(contract, seed, obligation)], statistics"""
    procs, found, stats = [], [], {}
    pending = list(names)
    running = []

    def collect(p):
        out, _ = p.communicate()
        for m in re.finditer(r"^FOUND (\S+) (\d+) (.*)$", out, re.M):
            found.append((m.group(1), m.group(2), m.group(3)))
        for m in re.finditer(r"^SEARCHED (\S+) held=(\d+) discarded=(\d+)", out, re.M):
            stats[m.group(1)] = dict(held=int(m.group(2)), discarded=int(m.group(3)))
        a = re.search(r"ERROR: AddressSanitizer: (.*)|SUMMARY: (.*)|stack overflow", out)
        if p.returncode not in (0, 1) or a:
            if p.args[5] not in stats:
                found.append((p.args[5], None, (a.group(0) if a else "killed by %s" % p.returncode) ))
    env = dict(os.environ, **ASAN)
    while pending or running:
        while pending and len(running) < workers:
            n = pending.pop(0)
            cmd = [binary, "search", str(seed), str(millis), "1000000000", n]
            running.append(subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                            text=True, errors="replace"))
        for p in running[:]:
            try:
                p.wait(timeout=0.05)
            except subprocess.TimeoutExpired:
                continue
            running.remove(p)
            collect(p)
    return found, stats


def native_replay(binary, name, data):
    try:
        p = subprocess.run([binary, "bytes", name, data.hex()], env=dict(os.environ, **ASAN), timeout=60,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return "the call did not return within 60 s", ""
    m = re.search(r"^FAILED \S+: (.*)$", p.stdout, re.M)
    if m:
        return m.group(1), p.stdout
    if re.search(r"AddressSanitizer|overflowed its stack", p.stdout) or p.returncode < 0:
        return "memory error: " + (re.search(r"ERROR: (.*)", p.stdout) or re.search("(.*)", "abort")).group(1), p.stdout
    return None, p.stdout


def playback(harness, features, timeout, target):
    """The verifier's counterexamples of one harness as byte strings"""
    env = {"CARGO_TARGET_DIR": os.path.join(WORK, target)}
    cmd = [c for c in kani_cmd([harness], list(features) + ["playback"],
                               ["-Z", "concrete-playback", "--concrete-playback=print"], each=max(20, timeout - 15))]
    at = cmd.index("-j")
    del cmd[at:at + 2]
    rc, out = run(cmd, env, timeout)
    res = []
    for part in re.split(r"Check for `", out)[1:]:
        what = re.search(r'": ?"(.*?)"|`: "(.*?)"', part)
        vals = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", part, re.S)
        if vals:
            data = bytearray()
            for v in re.findall(r"vec!\[([\d, ]*)\]", vals.group(1)):
                data += bytes(int(x) for x in v.split(",") if x.strip())
            name = (what.group(1) or what.group(2)) if what else "?"
            res.append((name, bytes(data)))
    return res, out


# ---------------------------------------------------------------- the check

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.p = PROPS[prop]
        self.limit = 840 if tier == "quick" else 6 * 3600
        self.safety = self.p.get("safety", False)
        self.features = ["safety"] if self.safety else []
        self.notes = []
        self.ev = {}

    def note(self, s):
        self.notes.append(s)
        print(s, flush=True)

    def violation(self, obligation, harness, how, output, failing_input):
        path = os.path.join(EVID, "%s.replay.json" % self.prop)
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, contract=harness, failed_obligation=obligation,
                           failing_input=failing_input, how=how, output=output[-6000:]), f, indent=1)
        self.evidence(1)
        print("failed obligation: %s (contract %s)" % (obligation, harness))
        print("VIOLATION property=%s replay=%s%s" % (self.prop, path, "" if failing_input else " no-failing-input-found"),
              flush=True)
        sys.exit(1)

    def evidence(self, violations):
        self.ev["violations"] = violations
        res = self.ev.get("results", {})
        held = [h for h, r in res.items() if r["status"] == "held"]
        extra = self.ev.get("extra", {})
        ob = sum(r["obligations"] for r in res.values()) + extra.get("obligations", 0)
        di = sum(r["discharged"] for r in res.values()) + extra.get("discharged", 0)
        cov = dict(
            obligations=ob, discharged=di,
            checker_cmd=self.ev.get("cmd", "cargo kani"),
            trusted_base=TRUSTED + self.p.get("trusted", []),
            explanation=self.p["how"],
            contracts={h: dict(status=r["status"], obligations=r["obligations"], discharged=r["discharged"],
                               reachability_covers="%d of %d satisfied" % tuple(r["covers"]), solver_s=r["time"],
                               bound=BOUNDS.get(h, "none: complete over the stated preconditions"),
                               back_end="Kani 0.68 / CBMC 6.11 (SAT)", note=r["why"]) for h, r in res.items()},
            functions_under_contract=self.p["functions"],
            bounded=[h for h in res if h in BOUNDS],
            undecided=[h for h in res if h not in held],
            counterexample_search=dict(what="the same contracts executed natively on random inputs (no part of the proof)",
                                       runs=self.ev.get("native", {})),
            evaluations=sum(s["held"] for s in self.ev.get("native", {}).values()),
            solver_s=round(sum(r["time"] for r in res.values()), 1),
            notes=self.notes)
        cov.update(extra.get("coverage", {}))
        with open(os.path.join(EVID, "%s.json" % self.prop), "w") as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.p["level"], coverage=cov,
                           assumptions=self.p.get("assumptions", []) + TRUSTED, wall_s=round(time.time() - T0, 1),
                           violations=violations), f, indent=1)

    def search(self, binary, names, millis):
        found, stats = native_search(binary, names, self.seed, millis)
        for n, s in stats.items():
            o = self.ev.setdefault("native", {}).setdefault(n, dict(held=0, discarded=0))
            o["held"] += s["held"]
            o["discarded"] += s["discarded"]
        return [f for f in found if mine(self.prop, f[2])]

    def main(self):
        os.makedirs(WORK, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        quick = self.tier == "quick"
        harnesses = self.p["harnesses"] + ([] if quick else self.p.get("thorough", []) + self.p.get("fallback", []))
        fallback = self.p.get("fallback", [])
        natives = [h for h in harnesses + fallback + self.p.get("native", []) if h not in STEPS]
        # 1. Build the contracts natively with the current tree, and look for failing inputs
        binary, out = native_build(self.safety)
        hooked = binary is not None
        if not hooked:
            self.note("contracts do not compile with the hooks on this tree: falling back to the public interface")
            binary, out = native_build(self.safety, nohooks=True)
            if binary is None:
                self.note("nor without them; nothing can be decided: " + out[-300:])
                self.evidence(0)
                sys.exit(0)
            known = subprocess.run([binary, "list"], stdout=subprocess.PIPE, text=True).stdout.split()
            natives = [n for n in natives if n in known]
        found = self.search(binary, natives, 2500 if quick and hooked else 20000)
        if found and not hooked:
            self.report_found(binary, found)
        # 2. The proof
        if hooked:
            only = sorted({f[0] for f in found} & set(harnesses))
            todo = only or harnesses
            if found:
                self.note("failing inputs found natively: " + "; ".join("%s %s" % (f[0], f[2]) for f in found[:5]))
            if not (found and not only):
                self.prove(binary, todo, found)
            if found:
                self.report_found(binary, found)
        for e in self.p.get("extras", []):
            e(self)
        if self.ev.get("fail"):
            self.violation(*self.ev["fail"])
        self.evidence(0)
        print("property %s held (%s)" % (self.prop, self.tier))
        sys.exit(0)

    def report_found(self, binary, found):
        name, seed, what = sorted(found, key=lambda f: not f[2].startswith("ENSURES"))[0]
        r = self.ev.get("results", {}).get(name)
        out = ""
        if seed is not None:
            p = subprocess.run([binary, "seed", name, seed], env=dict(os.environ, **ASAN), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace")
            out = p.stdout
        self.violation(what, name, "natively on the real code: %s seed %s %s; verifier: %s" % (
            binary, name, seed, r["status"] if r else "not run on this contract"),
            out + "\n" + (r.get("output", "") if r else ""), dict(seed=seed))

    def prove(self, binary, todo, found):
        quick = self.tier == "quick"
        limit = min(self.p.get("time", 480), left(self.limit) - 240) if quick else self.p.get("thorough_time", 5400)
        if found:
            limit = min(limit, 200)
        res, compiled, cmd, out = kani(todo, self.features, jobs=self.p.get("jobs", 8), timeout=limit)
        self.ev["cmd"], self.ev["results"] = cmd, res
        with open(os.path.join(WORK, "kani.log"), "w") as f:
            f.write(out)
        if not compiled:
            err = "\n".join(l for l in out.splitlines() if l.startswith("error"))[:400]
            self.note("the modular proof does not compile on this tree (%s); retrying without replaced callees" % err)
        for h, r in res.items():
            self.note("%-34s %-9s %4d/%-4d obligations, %.0f s %s" % (
                h, r["status"], r["discharged"], r["obligations"], r["time"], r["why"][:160]))
            if r["status"] == "held" and r["covers"][0] < r["covers"][1]:
                self.note("  reachability: only %d of %d covers" % tuple(r["covers"]))
        if found:
            return
        # 3. Obligations that are not discharged
        steps = [h for h in todo if h in STEPS and res[h]["status"] != "held"]
        if steps:
            self.steps(binary, steps, res)
        for h, r in res.items():
            if r["status"] == "failed" and h not in STEPS:
                bad = [f for f in r["failed"] if mine(self.prop, f["what"]) and not is_limit(f["what"])]
                if not bad:
                    r["status"] = "held"
                    r["why"] = "failed obligations belong to other properties: " + "; ".join(
                        f["what"] for f in r["failed"])[:300]
                    continue
                self.undischarged(binary, h, r, bad)
        again = [h for h, r in res.items() if r["status"] in ("unwind", "undecided") and h not in STEPS]
        if again and left(self.limit) > 150:
            self.bounded(binary, again, res)

    def steps(self, binary, steps, res):
        """An invariant over private state does not hold: the state may be another one now. Decide the
        property by contracts on what can be observed."""
        for h in steps:
            r = res[h]
            self.note("%s not discharged: %s %s" % (h, "; ".join(f["what"] for f in r["failed"])[:200], r["why"]))
            r["status"] = "undecided"
            r["why"] = "its invariant over private state is not discharged; bounded contracts decide instead"
        p = self.p
        found = self.search(binary, [n for n in p["harnesses"] + p.get("fallback", []) + p.get("native", [])
                                     if n not in STEPS], 15000)
        if found:
            self.report_found(binary, found)
        names = p.get("fallback", [])
        if not names:
            return
        more, compiled, cmd, out = kani(names, self.features, jobs=p.get("jobs", 8),
                                        timeout=min(300, left(self.limit) - 120))
        for h, r in more.items():
            self.note("%-34s %-9s %4d/%-4d obligations, %.0f s %s" % (
                h, r["status"], r["discharged"], r["obligations"], r["time"], r["why"][:160]))
        res.update(more)

    def undischarged(self, binary, h, r, bad):
        names = "; ".join(f["what"] for f in bad)
        self.note("not discharged in %s: %s" % (h, names))
        # the verifier's counterexample, replayed on the real code
        cex, out = playback(h, self.features, min(240, left(self.limit) - 60), "kani-playback")
        for what, data in cex:
            failed, log = native_replay(binary, h, data)
            if failed and mine(self.prop, failed):
                self.violation(names, h, "counterexample replayed natively: %s bytes %s %s" % (binary, h, data.hex()),
                               log + "\n" + r.get("output", ""), dict(bytes=data.hex(), fails=failed))
        # a longer search
        found = self.search(binary, [h], 15000)
        if found:
            self.report_found(binary, found)
        if h in STUBBED and not (h in SYMBOLIC_ONLY and not any("ghost" in f["what"] for f in bad)):
            # the failure may be due to a callee that is no longer the one replaced by its contract
            self.note("no failing input; deciding %s without replaced callees (bounded)" % h)
            res, compiled, cmd, out = kani([h], self.features + ["nostub"], timeout=min(200, left(self.limit) - 30),
                                           target="kani-nostub")
            s = res[h]
            bad2 = [f for f in s["failed"] if mine(self.prop, f["what"]) and not is_limit(f["what"])]
            if s["status"] != "failed" or not bad2:
                self.note("%s: %s without replaced callees; treated as not violated" % (h, s["status"]))
                r["status"], r["why"] = "undecided", "bounded stand-in: " + s["status"]
                return
            r = s
            names = "; ".join(f["what"] for f in bad2)
        self.violation(names, h, "cargo kani --harness " + h, r.get("output", ""), None)

    def bounded(self, binary, again, res):
        self.note("bounded stand-in for " + ", ".join(again))
        found = self.search(binary, again, 20000)
        if found:
            self.report_found(binary, found)
        names = [h for h in again if res[h]["status"] == "unwind" or h in STUBBED]
        if not names:
            return
        jobs = self.p.get("jobs", 8)
        s, compiled, cmd, out = kani(names, self.features + (["nostub"] if res[names[0]]["status"] != "unwind" else []),
                                     [], jobs,
                                     min(240, left(self.limit) - 60), "kani-nostub")
        for h, r in s.items():
            bad = [f for f in r["failed"] if mine(self.prop, f["what"]) and not is_limit(f["what"])]
            self.note("%s (bounded): %s" % (h, r["status"]))
            if r["status"] == "failed" and bad:
                self.undischarged(binary, h, r, bad)
            res[h]["why"] += "; bounded stand-in without replaced callees: " + r["status"]


if __name__ == "__main__":
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        Check(prop, "thorough" if tier == "thorough" else "quick", int(os.environ.get("VERIF_SEED", "1") or 1)).main()
    except subprocess.SubprocessError as e:
        print("check error: %r" % e)
        sys.exit(2)
