#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current working tree:
 1. the functions of the property's groups are extracted from /repo's sources with their contracts spliced in
    (extract/), and Verus discharges every obligation, function by function;
 2. the real crate is driven by the bounded companion (harness/), which replays what fails, covers what the
    extraction drops, and stands in (bounded, never counted as proved) for functions out of Verus's reach.
Exit 0: held.  Exit 1 with `VIOLATION property=.. replay=..`: broken.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
CON = f"{VERIF}/contracts"

# ---------------------------------------------------------------- which contracts decide which property
EQ = r"::eq$"
ORD = r"::(partial_cmp|cmp|hash)$"
SERDE = r"::(serialize|deserialize|visit_\w+)$"
ITER = r"(^Iter|^RangeIter|::Iter|IterPtr::|IterStack|LazilyReversed|iter_utils|::(iter|iter_ptr|keys|values|into_iter|range|IterStackElement)$)"
PAR = r"(Producer|fold_|into_par)"
BULK = r"(::(from_iter|extend|new|new_\w+|default)|!)$"
RANGE = r"(RangeIter|IterStack|::range$|iter_utils)"
CLONE = r"::clone$"
ALG = r"::(is_subset|is_superset|is_disjoint|ptr_eq)$"
SPECIAL = "|".join([EQ, ORD, SERDE, ITER, PAR, ALG])


def content(k):
    return not re.search(SPECIAL, k) and not re.search(r"(::(from_iter|extend|drop)|!)$", k)


def has(*rs):
    return lambda k: any(re.search(r, k) for r in rs)


def either(*fs):
    return lambda k: any(f(k) for f in fs)


SEQS = ["list", "stack", "queue", "vector"]
RB = ["rbt", "rbset"]
HT = ["ht", "htset"]
ALL = SEQS + RB + HT
# property -> [(group, function filter)]
PLAN = {
    "C01": [("list", either(content, has(ITER)))],
    "C02": [("vector", either(content, has(ITER)))],
    "C03": [("queue", either(content, has(ITER)))],
    "C04": [("stack", either(content, has(ITER)))],
    "C05": [("ht", content)],
    "C06": [("rbt", content)],
    "C07": [("rbt", content), ("rbset", content)],
    "C08": [(g, either(has(ITER), has(BULK))) for g in RB],
    "C09": [(g, has(RANGE)) for g in RB],
    "C10": [(g, has(ITER, PAR)) for g in HT + ["htpar"]],
    "C11": [(g, has(ITER)) for g in SEQS],
    "C12": [(g, either(content, has(ALG))) for g in ["rbset", "htset"]],
    "C13": [(g, content) for g in ALL],
    "C14": [(g, has(EQ)) for g in ALL],
    "C15": [(g, has(ORD)) for g in SEQS + RB],
    "C16": [(g, lambda k: True) for g in ALL + ["htpar"]],
    "C17": [(g, has(BULK)) for g in ALL],
    "C18": [(g, has(SERDE)) for g in ALL],
    "C19": [("listdrop", has(r"^List::(drop|drop_first_mut|reverse_mut|push_front_ptr_mut|first_mut)$"))],
}
# properties to which a failed postcondition or invariant of the listed functions is only indirectly relevant:
# only the other kinds of obligations (preconditions, overflow, termination, ...) and these functions alarm alone
INDIRECT = {
    "C08": (lambda k, m, r: bool(re.search(r"^RangeIter|::range$", k))),
    "C13": (lambda k, m, r: not re.search(CLONE, k) and bool(re.search(FUNCTIONAL, m))),
    "C16": (lambda k, m, r: bool(re.search(FUNCTIONAL, m)) and not k.endswith("@twin")),
    "C19": (lambda k, m, r: "drop_ok" not in r),
}
FUNCTIONAL = r"postcondition|invariant|assertion"
BUDGET = {"quick": 14.0, "thorough": 240.0}
DEEPER = {"quick": 60.0, "thorough": 300.0}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout, cwd=VERIF, env=None, **kw):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace"), (x.stderr or b"").decode(errors="replace")


class Broken(Exception):
    pass


def build_extract():
    rc, o, e = run(["cargo", "build", "--offline", "--release", "--quiet"], 600, cwd=f"{VERIF}/extract")
    if rc != 0:
        raise Broken("the extractor does not build:\n" + e[-3000:])


def harness_dir():
    if REPO == "/repo":
        return f"{VERIF}/harness"
    d = f"{VERIF}/out/harness-{os.path.basename(REPO)}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(f"{VERIF}/harness", d, ignore=shutil.ignore_patterns("target"))
    p = f"{d}/Cargo.toml"
    s = open(p).read().replace('"/repo"', f'"{REPO}"')
    open(p, "w").write(s)
    return d


def build_harness():
    d = harness_dir()
    env = {"CARGO_TARGET_DIR": f"{d}/target"}
    # never trust file times for the code under test
    run(["cargo", "clean", "--offline", "-p", "rpds", "-p", "vh"], 60, cwd=d, env=env)
    rc, o, e = run(["cargo", "build", "--offline", "--quiet"], 600, cwd=d, env=env)
    if rc != 0:
        raise Broken("the crate or the companion does not build:\n" + e[-3000:])
    return f"{d}/target/debug/vh"


# ---------------------------------------------------------------- proof
def loop_shapes(info, text):
    """The kinds of the loops of every function under contract, in source order."""
    lines, out = text.splitlines(), {}
    for f in info["fns"]:
        if f["twin"] or f["external"] or not f["contracted"]:
            continue
        body = "\n".join(l.split("//")[0] for l in lines[f["lo"]:f["hi"]])
        kinds = []
        for m in re.finditer(r"Iterator :: next \(& mut vx_it|\bwhile\s+let\b|\bwhile\b|\bloop\b", body):
            t = m.group(0)
            if t.startswith("Iterator"):
                j = next((i for i in range(len(kinds) - 1, -1, -1) if kinds[i] == "loop"), None)
                if j is not None:
                    kinds[j] = "for"
            else:
                kinds.append(" ".join(t.split()))
        if kinds:
            out[f["key"].split("@")[0]] = ", ".join(kinds)
    return out


LOOPS = json.load(open(f"{CON}/loops.json")) if os.path.exists(f"{CON}/loops.json") else {}


class Group:
    def __init__(self, name, work, canary=None):
        self.name, self.work, self.canary = name, work, canary
        self.external = []
        self.omit = []
        self.errors = []      # (key, message, rendered)
        self.funcs = []       # verus function breakdown
        self.info = None
        self.note = None      # why nothing was decided
        self.wall = 0.0
        self.smt_ms = 0
        self.cmd = ""

    def extract(self):
        rs, js = f"{self.work}/{self.name}.rs", f"{self.work}/{self.name}.json"
        cmd = [f"{VERIF}/extract/target/release/vx-extract", REPO, CON, self.name, rs, js]
        for k in self.external:
            cmd += ["--external", k]
        for k in self.omit:
            cmd += ["--omit", k]
        if self.canary:
            cmd += ["--canary", self.canary]
        rc, o, e = run(cmd, 120)
        if rc != 0:
            return e[-1500:]
        self.info = json.load(open(js))
        self.text = open(rs).read()
        # loop invariants are written for loops of a certain form
        if not self.canary:
            want = LOOPS.get(self.name, {})
            for k, shape in loop_shapes(self.info, self.text).items():
                if k in want and want[k] != shape:
                    self.info["lost"].append([k, f"the loops have another form: {shape}, not {want[k]}"])
        return None

    def fn_at(self, line):
        for f in self.info["fns"]:
            if f["lo"] <= line <= f["hi"]:
                return f["key"]
        return None

    def go(self, rlimit=None, timeout=700):
        t = time.time()
        try:
            for _ in range(6):
                x = self.extract()
                if x is not None:
                    self.note = "extraction failed: " + x
                    return self
                if not self.verus(rlimit, timeout):
                    return self
            self.note = "too many functions out of reach"
            return self
        finally:
            self.wall = time.time() - t

    def verus(self, rlimit, timeout):
        """True: some functions were put out of reach, try again."""
        self.errors, self.funcs, self.note = [], [], None
        rs = f"{self.work}/{self.name}.rs"
        cmd = ["verus", rs, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "3"]
        if rlimit:
            cmd += ["--rlimit", str(rlimit)]
        self.cmd = " ".join(cmd)
        rc, o, e = run(cmd, timeout, cwd=self.work)
        if rc == 124:
            self.note = "verus ran out of time"
            return False
        diags = []
        for l in e.splitlines():
            if l.startswith("{"):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        errs = [d for d in diags if d.get("level") == "error" and d.get("spans")]
        out = {}
        i = o.find("{")
        if i >= 0:
            try:
                out = json.loads(o[i:])
            except ValueError:
                pass
        vr = out.get("verification-results", {})
        # errors of the Rust or Verus front end: nothing was verified
        coded = [d for d in errs if d.get("code")]
        if (coded or vr.get("verified") is None or vr.get("encountered-vir-error") or "smt" not in out.get("times-ms", {})
                or (vr.get("encountered-error") and not vr.get("errors"))):
            keys = set()
            for d in coded or errs:
                for s in d["spans"]:
                    if s.get("is_primary"):
                        k = self.fn_at(s["line_start"])
                        if k:
                            keys.add(k.split("@")[0])
            new = [k for k in keys if k not in self.external]
            msg = "; ".join(sorted({d["message"] for d in errs}))[:600] or e[-600:]
            if new:
                self.external += new
                self.front = getattr(self, "front", []) + [(k, msg) for k in new]
                return True
            # nothing to blame: functions without a contract go first
            bare = [f["key"] for f in self.info["fns"] if not f["contracted"]]
            if bare and not self.omit:
                self.omit += bare
                return True
            self.note = "front end: " + msg
            return False
        for m in out["times-ms"]["smt"].get("smt-run-module-times", []):
            self.funcs += m.get("function-breakdown", [])
        self.smt_ms = out["times-ms"]["smt"].get("smt-run", 0)
        for d in errs:
            keys = []
            for s in d["spans"]:
                if (s.get("label") or "").startswith("failed precondition") or not s["file_name"].endswith(f"{self.name}.rs"):
                    continue
                k = self.fn_at(s["line_start"])
                if k and k not in keys:
                    keys.append(k)
            prim = [self.fn_at(s["line_start"]) for s in d["spans"] if s.get("is_primary")]
            # the body that fails, not the declaration that is not met
            key = next((k for k in keys if k not in prim), keys[0] if keys else None)
            if d["message"].startswith("precondition") and prim and prim[0]:
                key = prim[0]
            rendered = d.get("rendered", "")
            self.errors.append((key, d["message"], rendered))
        n = vr.get("errors", 0)
        if n and not self.errors:
            self.errors.append((None, "verus reports errors", e[-2000:]))
        return False


def trusted_items(text):
    """Everything the generated file takes on trust."""
    r = []
    for m in re.finditer(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:/\*VXFN [^*]*\*/\s*)?((?:pub |broadcast |proof |open |closed )*(?:fn|struct|axiom fn)\s+\w+)", text):
        r.append("external_body " + " ".join(m.group(1).split()))
    for m in re.finditer(r"\b(axiom fn \w+)", text):
        r.append(m.group(1))
    for m in re.finditer(r"\b(uninterp spec fn \w+)", text):
        r.append(m.group(1))
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        r.append(m.group(1))
    for m in re.finditer(r"(assume_specification[^;{]*)", text):
        r.append(" ".join(m.group(1).split())[:80])
    out = {}
    for x in r:
        out[x] = out.get(x, 0) + 1
    return [f"{k} (x{n})" if n > 1 else k for k, n in sorted(out.items())]


# ---------------------------------------------------------------- bounded companion
def companion(vh, prop, out, secs, seed):
    """(stats or None, replay path or None, why)"""
    os.makedirs(out, exist_ok=True)
    for f in (f"{prop}.replay", f"{prop}.current"):
        if os.path.exists(f"{out}/{f}"):
            os.remove(f"{out}/{f}")

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    rc, o, e = run([vh, prop, out, str(secs), str(seed)], secs * 3 + 180, preexec_fn=lim)
    if rc == 0 and "STATS " in o:
        return json.loads(o.split("STATS ", 1)[1]), None, ""
    if rc == 1 and "FOUND " in o:
        path = o.split("FOUND ", 1)[1].splitlines()[0]
        why = o.split("WHY ", 1)[1].splitlines()[0] if "WHY " in o else ""
        return None, path, why
    # crash (stack overflow, abort, allocation failure) or no end
    cur = f"{out}/{prop}.current"
    text = open(cur, errors="replace").read() if os.path.exists(cur) else ""
    if "END\n" not in text:
        raise Broken(f"the companion ended with {rc}: {e[-1500:]}")
    text = text.split("END\n")[0]
    why = "no end" if rc == 124 else f"the process ended with status {rc}: {e.strip()[-300:]}"
    path = f"{out}/{prop}.replay"
    open(path, "w").write(text + "failure " + why.replace("\n", " ") + "\n")
    return None, path, why


def findings():
    known, p = [], f"{VERIF}/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) case=\[([^\]]*)\] (.*)", l)
            if m:
                known.append(m.groups())
    return known


def case_of(path):
    t = open(path).read()
    g = lambda k: (re.search(rf"^{k} ?(.*)$", t, re.M) or [None, ""])[1].strip()
    return f"{g('scenario')} {g('cfg')} {g('ops')}".strip()


SCAN = re.compile(r"\bunsafe\b|\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|Atomic\w+|Mutex|RwLock)\b|static\s+mut\b|thread_local!")


def scan_sources():
    """The frame conditions rest on shared data being immutable: no unsafe code, no interior mutability."""
    hits = []
    for d, _, fs in os.walk(f"{REPO}/src"):
        for f in sorted(fs):
            if f.endswith(".rs") and f != "test.rs":
                for n, l in enumerate(open(os.path.join(d, f), errors="replace"), 1):
                    c = l.split("//")[0]
                    if SCAN.search(c) and "forbid(unsafe" not in c and "deny(unsafe" not in c:
                        hits.append(f"{os.path.relpath(os.path.join(d, f), REPO)}:{n}: {c.strip()[:80]}")
    return hits


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = f"{VERIF}/out/{prop}"
    os.makedirs(work, exist_ok=True)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    plan = [(g, f) for g, f in PLAN[prop] if os.path.exists(f"{CON}/{g}.group")]
    pool = cf.ThreadPoolExecutor(8)
    fe, fh = pool.submit(build_extract), pool.submit(build_harness)
    fe.result()
    vh = None
    groups = [Group(g, work) for g, _ in plan]
    vpool = cf.ThreadPoolExecutor(3)
    jobs = [vpool.submit(g.go) for g in groups]
    vh = fh.result()
    stats, replay, why = companion(vh, prop, work, BUDGET[tier], seed)
    for j in jobs:
        j.result()

    # ---- judge
    failed, undecided, fns, names = [], [], [], {}
    obligations = discharged = 0
    for g, (_, flt) in zip(groups, plan):
        if g.note:
            undecided.append((g.name, g.note))
            log(f"group {g.name}: {g.note}")
            continue
        # retry once with more resources what only ran out of them
        if any("rlimit" in m or "Resource limit" in m for _, m, _ in g.errors):
            g.go(rlimit=60)
        lost = {}
        for k, why_l in g.info["lost"]:
            lost.setdefault(k.split("@")[0], []).append(why_l)
        front = dict(getattr(g, "front", []))
        # a caller of a function that has no contract (and could not be inlined) cannot be judged
        bare = {f["key"].split("::")[-1]: f["key"] for f in g.info["fns"] if not f["contracted"]}
        bare.update({f["key"].replace("::", "_"): f["key"] for f in g.info["fns"] if not f["contracted"] and f["key"].count("::") > 1})
        lines = g.text.splitlines()
        for f in g.info["fns"] if bare else []:
            body = "\n".join(lines[f["lo"]:f["hi"]])
            for n, b in bare.items():
                if b != f["key"] and re.search(rf"\b{n}\s*\(", body):
                    lost.setdefault(f["key"].split("@")[0], []).append(f"calls {b}, which has no contract")
        rel = [f for f in g.info["fns"] if flt(f["key"].split("@")[0])]
        errk = {}
        for k, m, r in g.errors:
            errk.setdefault(k or "?", []).append((m, r))
        modules = {f["module"].split("::")[0] for f in rel}
        for f in rel:
            k = f["key"].split("@")[0]
            obligations += 1
            name = f"{g.name}/{f['key']} (src line {f['src_line']})"
            if f["external"] or k in front:
                undecided.append((name, "out of the verifier's reach: " + front.get(k, "external")))
            elif f["trusted"]:
                undecided.append((name, "trusted contract"))
            elif f["key"] in errk:
                for m, r in errk[f["key"]][:3]:
                    if k in lost:
                        undecided.append((name, f"{m}; " + "; ".join(lost[k])))
                    elif any(s in m.lower() for s in ("rlimit", "resource limit", "timed out", "timeout")):
                        undecided.append((name, m))
                    elif prop in INDIRECT and INDIRECT[prop](f["key"], m, r):
                        undecided.append((name, f"{m} (the obligation belongs to another property)"))
                    else:
                        failed.append((name, m, r))
            elif not f["contracted"] and k in lost and "function without contract" in lost[k]:
                undecided.append((name, "no contract"))
            else:
                discharged += 1
                fns.append(name)
        # lemmas and other obligations outside extracted functions belong to every property of the group
        for m, r in errk.get("?", []):
            undecided.append((g.name, "obligation outside the extracted functions: " + m))
        for f in g.funcs:
            if f.get("mode:") == "proof":
                obligations += 1
                discharged += 1 if f.get("success") else 0
        for k, ws in lost.items():
            if k not in errk and flt(k):
                for w in ws:
                    if w.startswith("contracted function not found"):
                        undecided.append((f"{g.name}/{k}", w))

    scan = scan_sources()
    if scan and prop in ("C13", "C16"):
        undecided.append(("sources", "unsafe code or interior mutability, which the frame argument excludes: " + "; ".join(scan[:5])))
    if replay is None and (failed or undecided):
        # look longer for an input that shows it
        s2, replay, why = companion(vh, prop, work, DEEPER[tier] if failed or any("trusted" not in u[1] for u in undecided) else 1.0, seed + 1)
        if s2:
            stats = s2

    canaries = None
    if tier == "thorough" and not failed:
        canaries = []
        for mode in ("entry", "exit", "loop"):
            cw = f"{work}/{mode}"
            os.makedirs(cw, exist_ok=True)
            cg = [Group(g, cw, canary=mode) for g, _ in plan]
            for c in vpool.map(lambda x: x.go(), cg):
                if c.note:
                    canaries.append(f"{c.name} {mode}: {c.note}")
                    continue
                bad = {(k or "").split("@")[0] for k, _, _ in c.errors}
                lines = c.text.splitlines()
                for f in c.info["fns"]:
                    if f["trusted"] or f["external"] or f["nocanary"] or f["twin"]:
                        continue
                    if any("VXCANARY" in l for l in lines[f["lo"] - 1:f["hi"]]) and f["key"] not in bad:
                        canaries.append(f"{c.name} {mode}: {f['key']} accepts `assert(false)`: its contract is vacuous there")

    known = findings()
    hit = None
    if replay:
        c = case_of(replay)
        for p, kc, what in known:
            if p == prop and kc == c:
                print(f"KNOWN-FINDING: property={prop} {what}")
                hit = kc
        if hit:
            replay = None
    violations = 0
    line = None
    if replay:
        violations = 1
        with open(replay, "a") as f:
            for n, m, r in failed[:10]:
                f.write(f"\nfailed obligation: {n}: {m}\n{r}\n")
        line = f"VIOLATION property={prop} replay={replay}"
    elif failed:
        violations = len(failed)
        path = f"{work}/{prop}.replay"
        with open(path, "w") as f:
            f.write(f"property {prop}\nno failing input found; failed obligations and the verifier's output:\n")
            for n, m, r in failed:
                f.write(f"\nfailed obligation: {n}: {m}\n{r}\n")
        line = f"VIOLATION property={prop} replay={path} no-failing-input-found"

    trusted, dropped = [], {}
    for g in groups:
        if g.info:
            for x in trusted_items(g.text):
                if x not in trusted:
                    trusted.append(x)
            for a, n in g.info["dropped"]:
                dropped[a] = n
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "; ".join(g.cmd for g in groups) or "none",
            "trusted_base": ["Verus 0.2026.09.13 with Z3", "rustc, archery, alloc", "extract/ (vx-extract): the dropped parts listed under `dropped`"] + trusted,
            "back_end": "Verus (Z3)", "solver_ms": sum(g.smt_ms for g in groups),
            "functions_under_contract": fns,
            "not_proved": [f"{a}: {b}" for a, b in undecided],
            "failed": [f"{a}: {b}" for a, b, _ in failed],
            "dropped": [f"{a} (x{n})" for a, n in sorted(dropped.items())],
            "bounded_companion": {"label": "bounded, not counted as proved", "result": "found: " + why if replay else "no failing case", **(stats or {})},
            "canaries": canaries if canaries is not None else "run in the thorough tier",
        },
        "assumptions": [
            "the pointer kind is erased: archery's SharedPointer behaves as specified in contracts/prelude_core.vx for every kind",
            "element types obey their laws: Clone yields an indistinguishable value, Eq, Ord and Hash are lawful",
            "no collection exceeds 2^59-1 elements (64-bit address space); allocation succeeds for sizes that fit",
            "usize has 64 bits; machine arithmetic is checked for overflow, never treated as mathematical",
            "iterators handed to the crate are finite and report honest size hints",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    for n, m, _ in failed:
        log(f"FAILED {n}: {m}")
    for a, b in undecided:
        log(f"UNDECIDED {a}: {b}")
    for c in canaries or []:
        log(f"CANARY {c}")
    log(f"{prop}: {discharged}/{obligations} obligations, companion {'found a failing case: ' + why if replay else 'quiet'}, {time.time()-t0:.1f} s")
    if line:
        print(line, flush=True)
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except Broken as x:
        log(str(x))
        sys.exit(2)
