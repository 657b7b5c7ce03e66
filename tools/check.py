#!/usr/bin/env python3
"""check.py <property> <quick|thorough>

Builds the engine from /repo's working tree, runs the explorations planned for the property, rewrites
evidence/<property>.json.  Exit 0: held everywhere; 1: VIOLATION line(s); anything else: error of the check."""
import json, os, re, signal, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import build  # noqa: E402
import plan   # noqa: E402

CAP = {"quick": 600.0, "thorough": 780.0}


def known():
    out = []
    for l in open(os.path.join(V, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l.strip())
        if m:
            out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def die(msg):
    print("check error: " + msg, flush=True)
    sys.exit(2)


def main():
    if len(sys.argv) < 3 or sys.argv[1] not in plan.PLAN or sys.argv[2] not in ("quick", "thorough"):
        die("usage: check.py <property> <quick|thorough>")
    pid, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    runs = plan.PLAN[pid](tier)
    level = plan.LEVEL.get(pid, "model_checking")
    exes = sorted({r.exe for r in runs})
    if build.main(exes) != 0:
        die("build failed")
    tb = time.time() - t0
    work = os.path.join(build.B, "run")
    os.makedirs(work, exist_ok=True)
    rep = os.path.join(V, "evidence", "replay")
    os.makedirs(rep, exist_ok=True)
    cap = CAP[tier] - tb
    total_w = sum(r.weight for r in runs)
    keys = ("executions", "transitions", "states", "distinct", "nontrivial", "committed", "aborted", "waited")
    sums = dict.fromkeys(keys, 0)
    extra, samples, detail, viol = {}, [], [], []
    complete = True
    left_w = total_w
    for n, r in enumerate(runs):
        out = os.path.join(work, f"{pid}.{n}.json")
        if os.path.exists(out):
            os.unlink(out)
        cmd = [os.path.join(build.B, r.exe), "--property", pid, "--out", out]
        nprog = None
        if r.lines is not None:
            suite = os.path.join(work, f"{pid}.{n}.txt")
            nprog = 0
            with open(suite, "w") as f:
                for l in r.lines():
                    f.write(l + "\n")
                    nprog += 1
            cmd += ["--suite", suite]
        remain = cap - (time.time() - t0 - tb)
        share = max(5.0, remain * r.weight / left_w)
        left_w -= r.weight
        cmd += ["--deadline", "%.0f" % share] + r.args
        env = dict(os.environ, **r.env)

        def go():
            try:
                return subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                                      timeout=share + 120)
            except subprocess.TimeoutExpired:
                return None
        p = go()
        if p is None:
            die(f"{r.exe} did not end in time")
        if p.returncode not in (0, 1):
            # the engine failed outside the explored part (start-up, preparation): must happen again
            p2 = go()
            if p2 is not None and p2.returncode == p.returncode and \
                    (p.returncode in (3, 96) or -p.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS)):
                msg = p.stderr[-1500:]
                viol.append((r, cmd, {"kind": "engine-failure", "program": "(start of the engine)", "schedule": "", "message": msg}))
                complete = False
                continue
            die(f"{' '.join(cmd)} ended with {p.returncode}: {p.stderr[-2000:]}")
        o = json.load(open(out))
        for k in keys:
            sums[k] += o[k]
        for k, v in o.get("extra", {}).items():
            extra[k] = extra.get(k, 0) + v
        # exploration of a known finding ends at its violations
        complete = complete and (o["complete"] or "(known finding)" in r.what)
        samples += o["samples"][:2]
        d = {"what": r.what, "executions": o["executions"], "distinct_outcomes": o["distinct"], "complete": o["complete"], "wall_s": o["wall"]}
        if nprog is not None:
            d["programs"] = nprog
        d.update(o.get("extra", {}))
        detail.append(d)
        viol += [(r, cmd, v) for v in o["violations"]]
        if len(viol) >= 20:
            break
    # ---- verdict
    kn = known()
    fresh, seen = [], set()
    for r, cmd, v in viol:
        ident = f"{v['kind']} {v['program']} @ {v['schedule']} {v['message']}"
        hit = next((k for k in kn if k[0] == pid and k[1].search(ident.replace(" ", "_"))), None)
        if hit:
            if hit[2] not in seen:
                seen.add(hit[2])
                print(f"KNOWN-FINDING: property={pid} {hit[2]}", flush=True)
        else:
            fresh.append((r, cmd, v))
    for i, (r, cmd, v) in enumerate(fresh[:5]):
        path = os.path.join(rep, f"{pid}-{i}.json")
        json.dump({"property": pid, "tier": tier, "explored_by": cmd, "environment": r.env, "what": r.what,
                   "replay_cmd": [cmd[0], "--replay", v["program"], v["schedule"]] + r.args, **v}, open(path, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {v['kind']}: {v['program']} @ {v['schedule']}")
        for l in v["message"].split("\n")[:12]:
            print("  " + l, flush=True)
    cov = {
        "states": sums["states"],
        "transitions": sums["transitions"],
        "traces_validated_against_impl": sums["executions"],
        "distinct_nontrivial": sums["nontrivial"],
        "distinct_outcomes": sums["distinct"],
        "transactions_committed": sums["committed"],
        "transactions_aborted": sums["aborted"],
        "commits_decided_later": sums["waited"],
        "rule": plan.RULE.get(pid, plan.RULE["*"]),
        "samples": samples[:8],
        "runs": detail,
        "exhaustive": complete,
    }
    if level in ("fault_enumeration", "exploration"):
        cov["evaluations"] = cov.pop("traces_validated_against_impl")
    for k in ("transactions_committed", "transactions_aborted", "commits_decided_later"):
        if not cov[k]:
            del cov[k]
    cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "assumptions": plan.ASSUME + plan.ASSUME_FOR.get(pid, []),
          "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    tmp = os.path.join(V, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(V, "evidence", pid + ".json"))
    print(f"{pid} {tier}: {sums['executions']} executions, {sums['states']} states, {sums['distinct']} outcomes, "
          f"complete={complete}, {ev['wall_s']} s, violations={len(fresh)}", flush=True)
    sys.exit(1 if fresh else 0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        die(str(e))
