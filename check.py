#!/usr/bin/env python3
"""Decides one property: builds the library from /repo, searches generated cases, writes evidence.

check.py --prop C01 [--tier quick|thorough]     exit 0 held / exit 1 + VIOLATION line
check.py --replay FILE                          re-runs a replay file
check.py --setup                                builds everything"""
import argparse
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import vfbuild  # noqa: E402
from rules import RULES, ASSUMPTIONS, LEVEL  # noqa: E402

WORKERS = 8
SOFT_CAP = {"quick": 240, "thorough": 3000}
FUZZ_SECONDS = 240


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0"
    if any(k == "ann-int-scratch" for k, _ in known_sites("C29")):
        e["VF_KNOWN_ANN_SCRATCH"] = "1"
    else:
        e.pop("VF_KNOWN_ANN_SCRATCH", None)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    return e


def read_json(p):
    try:
        with open(p) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known_findings(prop):
    """Lines 'finding: property=<id> match=<regex> <text>' suppress exactly the failures whose message matches."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def known_sites(prop):
    """Lines 'finding: property=<id> site=<name> <text>' name a call site whose exact effect the harness sets aside."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) site=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def run_workers(prop, tier, seed, cases, tmp, exe, names):
    sos = ",".join(names[c] for c in vfbuild.CONFIGS)
    procs = []
    for w in range(WORKERS):
        out = os.path.join(tmp, "w%d" % w)
        cmd = [exe, "run", "--prop", prop, "--so", sos, "--seed", str(seed), "--start", str(w), "--step", str(WORKERS), "--cases", str(cases),
               "--tier", "1" if tier == "thorough" else "0", "--cap", str(SOFT_CAP[tier]), "--out", out, "--replay", out + ".replay", "--shrink", "40"]
        procs.append((out, subprocess.Popen(cmd, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    res = []
    for out, p in procs:
        _, err = p.communicate()
        r = read_json(out)
        if r is None:
            r = {"ok": False, "confirmed": False, "evaluations": 0, "nontrivial": 0, "kind": "worker gave no result: " + err.decode(errors="replace")[-300:], "message": "", "config": "", "replay": ""}
        r["stat"] = read_json(out + ".stat") or {"labels": {}, "samples": []}
        r["hash"] = out + ".hash"
        res.append(r)
    return res


def fuzz(prop, seed, tmp, exe_gcc, names_gcc, seconds):
    """Coverage-guided campaign over the same choice tapes; returns (info, failure or None)."""
    try:
        _, exe, names = vfbuild.build("fuzz")
    except vfbuild.BuildError as e:
        return {"error": str(e)[-300:]}, None
    sos = ",".join(names[c] for c in vfbuild.CONFIGS)
    sos_gcc = ",".join(names_gcc[c] for c in vfbuild.CONFIGS)
    procs = []
    for w in range(WORKERS):
        corp = os.path.join(tmp, "corpus%d" % w)
        os.makedirs(corp)
        e = env()
        e.update(VF_REC=os.path.join(tmp, "rec%d" % w), VF_PROP=prop, VF_SO=sos)
        log = open(os.path.join(tmp, "fuzz%d.log" % w), "w")
        procs.append((w, subprocess.Popen([exe, "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % seconds, "-max_len=%d" % (300 if w % 2 else 1500), "-rss_limit_mb=3500", "-timeout=120",
                                           "-artifact_prefix=" + os.path.join(tmp, "art%d_" % w), corp], env=e, stdout=log, stderr=log, cwd=tmp)))
    runs = 0
    feats = 0
    fail = None
    unrep = 0
    for w, p in procs:
        p.wait()
        txt = open(os.path.join(tmp, "fuzz%d.log" % w), errors="replace").read()
        m = re.findall(r"^#(\d+)", txt, re.M)
        if m:
            runs += int(m[-1])
        m = re.findall(r"cov: (\d+)", txt)
        if m:
            feats = max(feats, int(m[-1]))
        if p.returncode != 0 and fail is None:
            rp = os.path.join(tmp, "fuzz%d.replay" % w)
            q = subprocess.run([exe_gcc, "tape", "--prop", prop, "--so", sos_gcc, "--rec", os.path.join(tmp, "rec%d" % w), "--replay", rp, "--shrink", "60"], env=env(), stdout=subprocess.PIPE, text=True, errors="replace")
            if q.returncode == 1:
                fail = {"replay": rp, "message": q.stdout.strip(), "kind": "fuzz"}
            else:
                unrep += 1
    return {"fuzz_runs": runs, "fuzz_edges": feats, "fuzz_seconds": seconds, "unreproduced_stops": unrep}, fail


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    try:
        d, exe, names = vfbuild.build("gcc")
    except vfbuild.BuildError as e:
        print("ERROR: /repo does not build: %s" % e)
        return 2
    if a.setup:
        try:
            vfbuild.build("fuzz")
        except vfbuild.BuildError as e:
            print("note: fuzz build failed: %s" % e)
        return 0
    if a.replay:
        return subprocess.run([exe, "replay", "--so", ",".join(names[c] for c in vfbuild.CONFIGS), "--file", a.replay], env=env()).returncode
    prop, tier = a.prop, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    rule = RULES[prop]
    cases = a.cases or (rule["quick"] if tier == "quick" else rule["quick"] * rule.get("mult", 12))
    tmp = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir=vfbuild.BUILD)
    try:
        res = run_workers(prop, tier, seed, cases, tmp, exe, names)
        fz = {}
        fails = [r for r in res if not r["ok"] and r.get("confirmed")]
        soft = [r for r in res if not r["ok"] and not r.get("confirmed")]
        if tier == "thorough" and not fails:
            fz, ff = fuzz(prop, seed, tmp, exe, names, int(os.environ.get("VF_FUZZ_SECONDS", FUZZ_SECONDS)))
            if ff:
                fails.append(ff)
        labels = {}
        samples = []
        seen = set()
        for r in res:
            for k, v in r["stat"]["labels"].items():
                labels[k] = labels.get(k, 0) + v
            samples += r["stat"]["samples"]
            if os.path.exists(r["hash"]):
                b = open(r["hash"], "rb").read()
                seen.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        ev = sum(r["evaluations"] for r in res)
        nt = sum(r["nontrivial"] for r in res)
        kf = known_findings(prop)
        violations = []
        for r in fails:
            hit = next((t for rx, t in kf if rx.search(r["message"])), None)
            if hit:
                continue
            violations.append(r)
        for _, t in kf + known_sites(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, t))
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
            "coverage": dict({
                "evaluations": ev, "nontrivial": nt, "distinct_nontrivial": len(seen),
                "rule": rule["rule"], "samples": samples[:12] or ["(run ended at a violation before samples were kept)"],
                "classes": labels, "configurations": list(vfbuild.CONFIGS), "workers": WORKERS, "requested_cases": cases,
                "unconfirmed_failures": [r.get("kind", "") + " " + r.get("message", "") for r in soft]}, **fz),
            "assumptions": ASSUMPTIONS + rule.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        dst = os.path.join(VERIF, "evidence", prop + ".json")
        with open(dst + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.rename(dst + ".tmp", dst)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (prop, tier, seed, ev, len(seen), time.time() - t0))
        for r in soft:
            print("note: unconfirmed: %s %s" % (r.get("kind", ""), r.get("message", "")[:300]))
        if violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            r = min(violations, key=lambda x: os.path.getsize(x["replay"]))
            rp = os.path.join(VERIF, "replays", "%s_%s_seed%d.replay" % (prop, tier, seed))
            shutil.copy(r["replay"], rp)
            print("%s in %s: %s" % (r.get("kind", ""), r.get("config", ""), r["message"][:1500]))
            print("input: %s" % r.get("desc", "")[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        if ev == 0:
            print("ERROR: nothing was evaluated")
            return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
