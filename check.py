#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property on the current working tree of /repo:
 1. extract the functions of /repo/src mechanically, splice in the contracts of /verif/contracts,
 2. let Verus discharge every obligation of every function under contract,
 3. run the bounded stand-in of the property on the real crate; it covers the functions that no contract
    reaches and looks for a failing input when an obligation fails.
Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: the check could not run at all.
"""
import hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(V, ".build")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
ENV["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/bin:/usr/bin:/bin:" + ENV.get("PATH", "")
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
T0 = time.time()


def run(cmd, timeout, cwd=None, env=None):
    """(exit status, stdout, stderr); status None when the time ran out"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


def cargo(dirname, *args):
    return run(["cargo", "build", "--release", "--offline", "--quiet", *args], 400, os.path.join(V, dirname))


def build(what):
    """builds one of the tools; an error text or None"""
    if what == "extract":
        r = cargo("extract")
    elif what == "replay":
        r = cargo("replay", "--bin", "replay")
    else:
        r = cargo("replay", "--bin", "replay-array")
    return None if r[0] == 0 else (r[2] or "time ran out")[-4000:]


def tool(n):
    return os.path.join(BUILD, "target", "release", n)


# ---------------------------------------------------------------- deductive part

LOC = re.compile(r"^\s*-->\s+\S*?out\.rs:(\d+)", re.M)
ANYLOC = re.compile(r"^\s*(?:-->|:::)\s+\S*?out\.rs:(\d+)", re.M)


class Proof:
    """one run of extractor and verifier over the whole code"""

    def __init__(self, work, env=None):
        self.work = work
        self.env = env or {}    # what the extraction of this property adds
        self.out = os.path.join(work, "out.rs")
        self.rep = os.path.join(work, "extract.json")
        self.skipfile = os.path.join(work, "skip.txt")
        self.skip = []          # the contract is only assumed in this run: tool limit
        self.failed = {}        # function -> [message]
        self.undecided = {}     # function or '*' -> reason
        self.report = {}
        self.break_down = []
        self.cmd = ""
        self.wall = 0.0
        self.version = ""

    def fn_at(self, line):
        best = None
        for l, n in self.marks:
            if l > line:
                break
            best = n
        return best

    def extract(self, extra=None):
        with open(self.skipfile, "w") as f:
            f.write("".join(s + "\n" for s in self.skip))
        env = dict(ENV, **self.env, **(extra or {}))
        rc, o, e = run([tool("extract"), os.path.join(REPO, "src"), os.path.join(V, "contracts"), self.out, self.rep, self.skipfile], 120, env=env)
        if rc != 0:
            return (o + e)[-3000:] or "extractor failed"
        self.report = json.load(open(self.rep))
        self.marks = []
        self.text = open(self.out).read().split("\n")
        # everything the verifier is told to believe
        flat = re.sub(r"\s+", " ", "\n".join(self.text))
        flat = re.sub(r"\s*::\s*", "::", flat)
        self.assumed = sorted(set(
            ["assumed body: " + m for m in re.findall(r"external_body\s*\](?: # \[[^\]]*\])*[^{;]*?\b((?:fn|struct|enum) \w+)", flat)]
            + ["assumed contract: " + m for m in re.findall(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]*?)\s*\]", flat)]
            + ["axiom: " + m for m in re.findall(r"axiom fn (\w+)", flat)]
            + ["assume or admit in the text" for _ in re.findall(r"\b(?:assume|admit)\s*\(", flat)]))
        for i, l in enumerate(self.text, 1):
            m = re.search(r"//@FN (.*)", l)
            if m:
                self.marks.append((i, m.group(1).strip()))
            elif re.match(r"\s*//@END", l):
                self.marks.append((i, None))
        # nothing may be assumed inside the verified text beyond what the contract files say
        return None

    def verus(self, args, timeout):
        cmd = ["verus", "--crate-type=lib", self.out, "--output-json", "--time-expanded", "--multiple-errors", "5", *args]
        self.cmd = " ".join(cmd)
        t = time.time()
        rc, o, e = run(cmd, timeout, self.work)
        self.wall += time.time() - t
        try:
            d = json.loads(o)
        except ValueError:
            d = None
        return rc, d, e

    def errors(self, text):
        """[(message, first line, all lines)] of the compiler style messages"""
        res = []
        for block in re.split(r"\n(?=(?:error|warning|note)(?:\[|:))", "\n" + text):
            block = block.strip("\n")
            if not block.startswith("error"):
                continue
            if re.match(r"error: aborting|error: could not", block):
                continue
            l = LOC.search(block)
            res.append((block, int(l.group(1)) if l else None, [int(x) for x in ANYLOC.findall(block)]))
        return res

    def solve(self, timeout=420):
        args, good, refused = [], set(), None
        tries = [["--rlimit", "60", "--smt-option", "smt.random_seed=%d" % k, "--smt-option", "sat.random_seed=%d" % k] for k in (7, 11)]
        for round_ in range(9):
            err = self.extract()
            if err:
                self.undecided["*"] = "extraction: " + err
                return
            for e in self.report.get("errors", []):
                self.undecided["*"] = "extraction: " + e
            for f in self.report.get("missing_functions", []):
                self.undecided[f] = "the function is not in the source any more"
            for f in self.report.get("lost_anchors", []):
                self.undecided[f.split(": ")[0]] = "an annotation found no place: " + f
            left = timeout - self.wall
            if left < 20:
                self.undecided["*"] = "verifier: time ran out"
                return
            rc, d, err = self.verus(args, left)
            if rc is None:
                self.undecided["*"] = "verifier: time ran out"
                return
            errs = self.errors(err)
            vr = (d or {}).get("verification-results", {})
            bd = [f for m in (d or {}).get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) for f in m.get("function-breakdown", [])]
            if not d or vr.get("encountered-vir-error") or "verified" not in vr or (not bd and errs):
                # the text is outside the verifier's language somewhere: assume the contract there
                bad = set()
                for _, l, ls in errs:
                    for x in ([l] if l else []) + ls:
                        n = self.fn_at(x)
                        if n and n not in self.skip:
                            bad.add(n)
                            break
                if not bad:
                    self.undecided["*"] = "verifier: " + (errs[0][0] if errs else err)[:1500]
                    return
                refused = None
                for n in bad:
                    self.skip.append(n)
                    self.undecided[n] = "outside the verifier's language: " + next((b for b, l, ls in errs if n in [self.fn_at(x) for x in ls]), "")[:600]
                continue
            self.version = (d.get("verus") or {}).get("version", "")
            failed = {}
            for b, l, ls in errs:
                n = next((m for m in (self.fn_at(x) for x in ([l] if l else []) + ls) if m), None)
                failed.setdefault(n or "*", []).append(b)
            # what was accepted once is proved
            for f in bd:
                if f.get("success"):
                    good.add(f["function"])
            self.break_down = [dict(f, success=True) if f["function"] in good else f for f in bd]
            # refused is what was refused every time; a limit says less than an obligation that does not hold
            limit = lambda bs: all("rlimit" in b.split("\n")[0] or "Resource limit" in b for b in bs)
            if refused is not None:
                failed = {n: refused[n] if limit(failed[n]) else failed[n] for n in failed if n in refused}
            refused = failed
            if failed and tries:
                # once more with a large budget, and with other seeds, so that a limit or a search that went astray
                # is not taken for a refutation
                args = tries.pop(0)
                continue
            for n, bs in failed.items():
                if n in self.undecided:
                    continue
                if limit(bs):
                    self.undecided[n] = "the solver's resource limit was reached"
                elif n == "*":
                    self.undecided[n] = bs[0][:1500]
                else:
                    self.failed[n] = bs
            return
        self.undecided["*"] = "verifier: no stable text after removing the functions it does not read"


def canaries(pr, under):
    """an unprovable assertion at the end of each function and in each loop: whatever the verifier proves there
    would come from a contradiction in what it is told"""
    res = {}
    for where in ("exit", "loop"):
        work = os.path.join(pr.work, "canary")
        os.makedirs(work, exist_ok=True)
        q = Proof(work, pr.env)
        q.skip = list(pr.skip)
        if q.extract({"EXTRACT_CANARY": where}):
            return None
        rc, d, err = q.verus([], 300)
        if rc is None or not d:
            return None
        bad = {q.fn_at(l) for b, l, ls in q.errors(err) if l}
        have = set()
        for i, l in enumerate(q.text, 1):
            if "assert (false)" in l:
                have.add(q.fn_at(i))
        have = {n for n in have if n in under}
        # a body that ends in a loop left by `return` only has no end that is reached
        res[where] = {"planted": len(have), "refuted": len(have & bad), "not_reached": sorted(have - bad)}
    return res


def key(path):
    p = re.sub(r"<.*?>", "", path).replace("#", "_").split("::")
    return p[0], p[-1]


def closure(report, direct):
    calls = report.get("calls", {})
    by = {}
    for n in calls:
        by.setdefault(key(n)[1], set()).add(n)
    # calls are recorded by name; a function only calls into its own layer and the ones below it
    layer = {"utils": 0, "Array": 0, "Drain": 0, "ArrayIntoIter": 0, "Offset": 1, "Address": 1, "Leaf": 2, "Internal": 2, "Children": 2, "ChildrenWithSeparators": 2,
             "Node": 3, "balancing": 4, "Storage": 4, "RawBTree": 5, "Item": -1,
             "BoxStorage": 7, "BoxDrop": 7, "BoxPtr": 7}
    at = lambda n: layer.get(key(n)[0], 6)
    seen, todo = set(), [d for d in direct if d in calls]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for c in calls[n]:
            todo += [x for x in by.get(c, ()) if x not in seen and at(x) <= at(n) and (at(x) >= 0 or at(n) < 0)]
    return seen


# ---------------------------------------------------------------- bounded part

def bounded(pid, tools, tier, seed, work):
    """[(report, failure text or None, path)]"""
    res = []
    for t in tools:
        err = build(t)
        if err:
            res.append((t, None, "cannot build: " + err, None))
            continue
        rep, fail = os.path.join(work, t + ".json"), os.path.join(work, t + "-failing.txt")
        for f in (rep, fail):
            if os.path.exists(f):
                os.remove(f)
        env = dict(ENV, RUST_BACKTRACE="0")
        rc, o, e = run([tool(t), pid, tier, str(seed), rep, fail], 400 if tier == "quick" else 800, env=env)
        d = json.load(open(rep)) if os.path.exists(rep) else None
        if rc == 0 and d:
            res.append((t, d, None, None))
            continue
        if rc == 10:
            res.append((t, d, "FAIL " + o.strip()[-2000:], fail))
            continue
        # a crash or an endless loop; the history it happened in is in the file
        if os.path.exists(fail) and open(fail).read().strip():
            why = "the process did not end" if rc is None else "the process ended with status %s" % rc
            again = 1
            if t == "replay":
                again = run([tool(t), "--rerun", pid, fail], 60, env=env)[0]
            if again != 0:
                open(fail, "a").write("\n# %s: %s\n" % (why, e.strip().replace("\n", " ")[-500:]))
                res.append((t, d, "FAIL " + why, fail))
                continue
        res.append((t, d, "no answer: status %s %s" % (rc, (o + e)[-800:]), None))
    return res


def known(pid):
    f = os.path.join(V, "known-findings.txt")
    return [l.split(None, 2)[2].strip() for l in open(f) if l.startswith("known: property=%s " % pid)] if os.path.exists(f) else []


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = json.load(open(os.path.join(V, "props.json")))["properties"][pid]
    work = os.path.join(BUILD, "work", pid)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
    notes, violations = [], []

    # deductive part
    pr = Proof(work, P.get("env"))
    direct = P.get("direct", [])
    own, discharged, smt = [], [], 0.0
    under, failed_direct, undecided = [], [], {}
    if direct:
        err = build("extract")
        if err:
            pr.undecided["*"] = "extractor does not build: " + err
        else:
            pr.solve()
        under = sorted(closure(pr.report, direct))
        missing = [d for d in direct if d not in pr.report.get("calls", {})]
        keys = {key(n) for n in under}
        refused = {key(n) for n in list(pr.failed) + list(pr.undecided)}
        # functions of a function body
        inner = {key(n)[1] for n in under if n.count("::") == 2}
        for f in pr.break_down:
            n = f["function"].split("::")
            k = (n[-2], n[-1]) if len(n) > 1 else ("", n[-1])
            if n[1:2] == ["vspec"] or k in keys or len(n) == 2 and n[1] in inner:
                own.append(f)
                smt += f.get("time-micros", 0) / 1e6
                # (the verifier's table leaves out that a loop's own condition failed)
                if f.get("success") and k not in refused:
                    discharged.append(f)
        undecided = {n: r for n, r in pr.undecided.items() if n == "*" or n in under or n in direct}
        for m in missing:
            undecided.setdefault(m, "not extracted")
        failed_direct = [n for n in pr.failed if n in direct]
        for n in pr.failed:
            if n in under and n not in direct:
                undecided[n] = "an obligation of a function this property uses is not discharged: " + pr.failed[n][0].split("\n")[0]
        if not own and "*" not in undecided:
            undecided["*"] = "no obligation was generated"

    canary = canaries(pr, set(under)) if tier == "thorough" and direct and "*" not in pr.undecided else None

    # bounded part
    B = bounded(pid, P.get("tools", ["replay"]), tier, seed, work)
    for t, d, msg, path in B:
        if msg and msg.startswith("FAIL "):
            dst = os.path.join(V, "evidence", "replay", "%s-%s.txt" % (pid, t))
            body = open(path).read()
            if any(k in body for k in known(pid)):
                notes.append("known finding reproduced")
                continue
            with open(dst, "w") as f:
                f.write("# property %s, %s\n# rerun: %s\n# %s\n" % (pid, t, "%s --rerun %s %s" % (tool(t), pid, dst) if t == "replay" else "%s %s %s %d r.json f.txt" % (tool(t), pid, tier, seed), msg[5:].replace("\n", " ")))
                for n in failed_direct:
                    f.write("# failed obligation of %s: %s\n" % (n, pr.failed[n][0].replace("\n", "\n#   ")))
                f.write(body)
            violations.append(("VIOLATION property=%s replay=%s" % (pid, dst)))
        elif msg:
            notes.append("%s: %s" % (t, msg))
    if not violations and failed_direct:
        dst = os.path.join(V, "evidence", "replay", "%s-obligation.txt" % pid)
        with open(dst, "w") as f:
            f.write("# property %s: the verifier does not accept these obligations\n# command: %s\n" % (pid, pr.cmd))
            for n in failed_direct:
                f.write("\n## %s\n%s\n" % (n, "\n\n".join(pr.failed[n])))
        violations.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, dst))
    for k in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))

    # evidence
    cov = {}
    reps = [d for _, d, _, _ in B if d]
    if P["level"] == "proof":
        cov["obligations"] = len(own)
        cov["discharged"] = len(discharged)
        cov["checker_cmd"] = pr.cmd
        cov["trusted_base"] = TRUSTED + P.get("trusted", [])
        cov["back_end"] = "Verus %s, Z3" % pr.version
        cov["solver_time_s"] = round(smt, 3)
        cov["verifier_wall_s"] = round(pr.wall, 2)
        cov["obligation_unit"] = "one verification condition of the solver per function or lemma; each covers all its postconditions, callee preconditions, loop invariants, termination measures, overflow and index checks"
    elif direct:
        cov["functions_discharged_for_all_inputs"] = len(discharged)
        cov["solver_time_s"] = round(smt, 3)
        cov["checker_cmd"] = pr.cmd
    if canary:
        cov["canaries"] = canary
    cov["assumed_items"] = getattr(pr, "assumed", [])
    cov["functions_under_contract"] = under
    cov["property_functions"] = direct
    cov["not_discharged"] = undecided
    cov["failed_obligations"] = {n: pr.failed[n][0][:1200] for n in failed_direct}
    cov["bounded_stand_in_for"] = P.get("bounded", [])
    cov["extraction"] = {
        "verified_functions": len(pr.report.get("verified_functions", [])),
        "without_contract": pr.report.get("uncontracted", []),
        "dropped": pr.report.get("dropped", []),
        "inlined_helpers": pr.report.get("inlined_helpers", []),
        "source_hashes": hashlib.sha256(json.dumps(pr.report.get("hashes", {}), sort_keys=True).encode()).hexdigest()[:16],
    }
    cov["evaluations"] = sum(d["evaluations"] for d in reps)
    cov["distinct_nontrivial"] = sum(d["distinct_nontrivial"] for d in reps)
    cov["rule"] = " | ".join(d["rule"] for d in reps)
    cov["samples"] = [s for d in reps for s in d["samples"]]
    cov["bounds_reached"] = [{k: d.get(k) for k in ("histories", "operations", "max_height", "max_len", "wall_s")} for d in reps]
    cov["notes"] = notes
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
        "assumptions": ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2), "violations": len(violations),
    }
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d of %d obligations discharged%s; bounded part: %d evaluations; %.1f s" % (
        pid, len(discharged), len(own), "" if not undecided else ", undecided: " + ", ".join(undecided), cov["evaluations"], time.time() - T0))
    for n, r in undecided.items():
        print("  undecided %s: %s" % (n, r.split("\n")[0][:300]))
    for n in notes:
        print("  note: " + n[:400])
    for v in violations:
        print(v)
    if violations:
        sys.exit(1)
    if not reps and (undecided or not direct):
        print("the check could not run")
        sys.exit(2)
    sys.exit(0)


TRUSTED = [
    "Verus, its encoding of Rust, vstd and Z3",
    "rustc accepts and compiles the same text as Verus reads",
    "the extractor /verif/extract: rewriting rules listed in DESIGN.md, everything else copied token for token",
    "the contracts of std::mem::MaybeUninit, of the cast of initialised cells to values, of std::mem::swap and std::mem::forget (contracts/02_cells.rs)",
    "the type invariant of utils::Array outside its module (its fields are private to it, every function in it is proved to establish it); the destructor of Drain runs at the end of the borrow (array::drain_then_drop proves what it then leaves)",
    "the storage contract, stated on the Storage trait and proved for BoxStorage, of any other storage; for BoxStorage: the contracts of Box::into_raw, Box::from_raw and of dereferencing a pointer so obtained (contracts/20_boxes.rs; nodes are not zero-sized)",
    "a value that goes out of scope is destroyed and its memory released (nothing is leaked by code the extractor does not show); mem::forget is allowed only where may_forget says so (contracts/19_drop.rs)",
]
ASSUMPTIONS = [
    "memory is not exhausted; machine integers are modelled exactly (usize arithmetic is checked for overflow)",
    "derived implementations (Clone, Copy, PartialEq of Offset and Address) behave as derived",
]

if __name__ == "__main__":
    main()
