#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property of /repo's current sources by static analysis: type-checks
the roots in /verif/harness (which depend on /repo by path) with the analyzer in
/verif/analyzer as the compiler driver, and reads its report.

exit 0  no violation (obligations that could not be decided are listed)
exit 1  violation:  VIOLATION property=<id> replay=<path>
exit 2  the check itself could not do its work (build failure, a root that no
        longer exists, too few obligations): no verdict
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
TOTAL = {"quick": 500, "thorough": 6000}
EACH = {"quick": 240, "thorough": 3000}


def fail(pid, why, text=""):
    print(f"NO VERDICT property={pid}: {why}")
    if text:
        print(text[-4000:])
    sys.exit(2)


def env(extra):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(extra)
    return e


def build_analyzer():
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=f"{HERE}/analyzer",
                       env=env({}), capture_output=True, text=True)
    return r.returncode, r.stderr


def analyse(pid, tier, out, target):
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
    e = env({
        "LD_LIBRARY_PATH": f"{sysroot}/lib",
        "RUSTC_WORKSPACE_WRAPPER": f"{HERE}/analyzer/target/release/mbus-analyzer",
        "RUSTFLAGS": "-Zalways-encode-mir",
        "CARGO_TARGET_DIR": target,
        "MBA_STACK": "2000000000",
        "RUSTC_ICE": "0",
        "MBA_PROP": pid, "MBA_OUT": out, "MBA_TIER": tier,
        "MBA_TOTAL": str(TOTAL[tier]), "MBA_BUDGET": str(EACH[tier]),
    })
    cap = 28 << 30

    def limit():
        resource.setrlimit(resource.RLIMIT_AS, (cap, cap))

    return subprocess.run(["cargo", "+nightly", "check", "--offline"], cwd=f"{HERE}/harness", env=e,
                          capture_output=True, text=True, preexec_fn=limit, timeout=TOTAL[tier] + 200)


# what the type and borrow checker says when a witness does not hold; anything
# else (a name that is gone, another signature) is no verdict
BROKEN = {"E0277": "does not have the required property", "E0310": "may not live long enough",
          "E0597": "borrows from the buffer", "E0505": "borrows from the buffer", "E0515": "borrows from the buffer",
          "E0716": "borrows from the buffer", "E0521": "borrows from the buffer", "": "lifetime may not live long enough"}
NEEDS = {"can_be_sent": "Send", "can_be_shared": "Sync", "owns_its_data": "'static"}


def witnesses(pid, target):
    """P34: type-check the witness crate against the current sources"""
    src = open(f"{HERE}/witness/src/lib.rs").read().split("\n")
    sites = {i + 1: m for i, l in enumerate(src) for m in re.findall(r"^witness!\((\w+), (.*)\);$", l)}
    lock = open(f"{HERE}/witness/Cargo.lock").read()
    try:
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json"],
                           cwd=f"{HERE}/witness", env=env({"CARGO_TARGET_DIR": target, "RUSTFLAGS": "-Wunsafe-code"}),
                           capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        fail(pid, "the type check ran out of time")
    finally:
        with open(f"{HERE}/witness/Cargo.lock", "w") as f:
            f.write(lock)
    bad, other, ran, asserted = [], [], False, []
    for line in r.stdout.split("\n"):
        if not line.startswith("{"):
            continue
        j = json.loads(line)
        if j.get("reason") == "compiler-artifact" and "libmbus" in j["package_id"]:
            ran = True
        if j.get("reason") == "compiler-message" and "of an unsafe trait" in j["message"]["message"] \
                or j.get("reason") == "compiler-message" and "`unsafe impl`" in j["message"]["message"]:
            asserted += [f"{sp['file_name']}:{sp['line_start']} {t['text'].strip()} is asserted, not inferred"
                         for sp in j["message"]["spans"] for t in sp["text"][:1]
                         if re.search(r"\b(Send|Sync)\b", t["text"])]
        if j.get("reason") != "compiler-message" or j["message"]["level"] != "error":
            continue
        m = j["message"]
        if m["message"].startswith("aborting due to"):
            continue
        code = (m["code"] or {}).get("code", "")
        line, need = None, None
        for sp in m["spans"]:
            at = sp
            while at:
                if at["file_name"].endswith("src/lib.rs") and at["line_start"] in sites and line is None:
                    line = at["line_start"]
                for t in at["text"]:
                    for k, v in NEEDS.items():
                        if k in t["text"] and sp["is_primary"]:
                            need = v
                at = (at["expansion"] or {}).get("span")
        mine = "mbus_witness" in j["package_id"] and line is not None
        if not mine or code not in BROKEN or (code == "" and "lifetime" not in m["message"]):
            other.append(m["rendered"])
            continue
        name, expr = sites[line]
        why = [f"{c['message']}" for c in m["children"] if c["level"] in ("note", "help") and "required" in c["message"]]
        at = []
        for c in m["children"]:
            for sp in c["spans"]:
                if not sp["file_name"].startswith("src/"):
                    at.append(f"{sp['file_name']}:{sp['line_start']} {c['message']}")
        bad.append({"key": f"{name}: {need or BROKEN[code]}: {m['message'][:160]}",
                    "what": f"what {expr} returns {'must be ' + need if need else BROKEN[code]}: {m['message']}"
                            + (" (" + "; ".join(why[:6]) + ")" if why else ""),
                    "witness": "", "at": at[:8]})
    if other or (r.returncode and not bad):
        fail(pid, "the witnesses cannot be type-checked", "\n".join(other) or r.stderr)
    if not ran:
        fail(pid, "the crate was not type-checked")
    seen = {b["key"]: b for b in bad}
    return {
        "violations": list(seen.values()), "undecided": asserted, "missing": [],
        "obligations": 3 * len(sites), "functions": [f"{n}: {e}" for n, e in sites.values()],
        "blocks": 0, "sites": [f"witness/src/lib.rs:{l} {n}" for l, (n, _) in sites.items()],
        "counts": {"witnesses": len(sites), "requirements": list(NEEDS.values())}, "roots": [n for n, _ in sites.values()],
        "modelled": [], "notes": ["decided by rustc's type and borrow checker; nothing is run"],
        "steps": 0, "merges": 0, "nodes": 0,
    }


def known(pid):
    """exact violation keys recorded as genuine defects that are not repaired"""
    keys = set()
    with open(f"{HERE}/known-findings.txt") as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(.*)$", line.strip())
            if m and m.group(1) == pid:
                keys.add(m.group(2).strip())
    return keys


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in TOTAL:
        tier = "quick"
    floors = json.load(open(f"{HERE}/floors.json"))
    if pid not in floors:
        fail(pid, "unknown property")
    t0 = time.time()
    rc, err = (0, "") if pid == "P34" else build_analyzer()
    if rc:
        fail(pid, "the analyzer does not build", err)
    work = tempfile.mkdtemp(prefix="mbus-check-")
    try:
        out = os.path.join(work, "out")
        os.mkdir(out)
        if pid == "P34":
            rep = witnesses(pid, os.path.join(work, "target"))
        else:
            lock = open(f"{HERE}/harness/Cargo.lock").read()
            try:
                r = analyse(pid, tier, out, os.path.join(work, "target"))
            except subprocess.TimeoutExpired:
                fail(pid, "the analysis ran out of time")
            finally:
                with open(f"{HERE}/harness/Cargo.lock", "w") as f:
                    f.write(lock)
            path = os.path.join(out, f"{pid}.json")
            if r.returncode or not os.path.exists(path):
                fail(pid, "the analysis did not complete", r.stderr)
            rep = json.load(open(path))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    listed = known(pid)
    found = [v for v in rep["violations"] if v["key"] in listed]
    new = [v for v in rep["violations"] if v["key"] not in listed]
    undecided = rep["undecided"]
    floor = dict(floors[pid])
    if undecided:
        # what could not be decided is listed; the floor guards against deciding nothing
        floor["obligations"] = max(1, floor["obligations"] // 10)
    short = [f"{k}: {rep[k] if isinstance(rep[k], int) else len(rep[k])} < {n}" for k, n in floor.items()
             if (rep[k] if isinstance(rep[k], int) else len(rep[k])) < n]

    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "Every public parser is called in a crate that builds only if what it returns may be sent "
                           "to and shared with other threads and outlives the buffer it was decoded from; rustc's type "
                           "and borrow checker decides. An obligation is one requirement on one parser's result."
                           if pid == "P34" else
                           "Abstract interpretation of the compiler's MIR of /repo's current sources. "
                           "An obligation is one comparison of an inferred result, error, consumed length, "
                           "panic condition or call-graph fact with what the property requires, "
                           "over all inputs within the stated bounds at once.",
            "obligations": rep["obligations"],
            "discharged": rep["obligations"] - len(rep["violations"]),
            "undecided": undecided[:50],
            "undecided_count": len(undecided),
            "missing_anchors": rep["missing"],
            "counts": rep["counts"],
            "roots": rep["roots"],
            "functions_analysed": len(rep["functions"]),
            "functions": rep["functions"],
            "basic_blocks": rep["blocks"],
            "library_functions_modelled": rep["modelled"],
            "sites": rep["sites"][:400],
            "sites_count": len(rep["sites"]),
            "notes": rep["notes"],
            "statements_interpreted": rep["steps"],
            "state_merges": rep["merges"],
            "bdd_nodes": rep["nodes"],
            "violations_found": rep["violations"][:40],
        },
        "assumptions": ["the unsafe Send and Sync implementations of the standard library and winnow are right"]
        if pid == "P34" else [
            "rustc's MIR is what the program does; the standard library and winnow functions listed under "
            "library_functions_modelled behave as modelled in analyzer/src/models.rs",
            "inputs are at most as long as stated per root under roots",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(f"{HERE}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)

    print(f"{pid} [{tier}] {rep['obligations']} obligations, {len(rep['functions'])} functions, "
          f"{rep['blocks']} blocks, {len(rep['sites'])} sites, {ev['wall_s']} s")
    for u in undecided[:20]:
        print(f"UNDECIDED property={pid} {u[:400]}")
    for v in found:
        print(f"KNOWN-FINDING: property={pid} {v['key']}: {v['what']}")
    if new:
        rp = f"{HERE}/evidence/{pid}.violations.txt"
        with open(rp, "w") as f:
            f.write(f"property {pid}; reproduce with: python3 {HERE}/check.py {pid} {tier}\n")
            for v in new:
                f.write(f"\n{v['key']}\n  {v['what']}\n")
                if v["witness"]:
                    f.write(f"  for input: {v['witness']}\n")
                for a in v["at"]:
                    f.write(f"  at {a}\n")
        for v in new[:10]:
            print(f"  {v['key']}: {v['what']}"[:600])
            if v["witness"]:
                print(f"     input: {v['witness']}"[:400])
            for a in v["at"][:4]:
                print(f"     at {a}"[:300])
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    if rep["missing"]:
        fail(pid, "not found in the current sources: " + "; ".join(rep["missing"]))
    if short:
        fail(pid, "too little was analysed: " + "; ".join(short))
    print(f"OK property={pid}")
    sys.exit(0)


main()
