#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] : decide one property from /repo's current source.

exit 0  every obligation that the analysis could decide holds
exit 1  a definite difference was found ("VIOLATION property=<id> replay=<file>")
exit 2  the analysis could not be set up (a public entry point is gone, a file does not parse, ...)
"""
import argparse
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def work(name, tier, conn):
    try:
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        import core
        import registry
        import terms as T
        if tier == "thorough":
            T.BUDGET *= 4
        ob = registry.OBS[name]
        vs = core.check(ob) if isinstance(ob, core.Ob) else ob.run(core.program())
        if not isinstance(vs, list):
            vs = [vs]
        conn.send([(v.status, v.detail, v.where, v.stats, v.secs, getattr(v, "key", "")) for v in vs])
    except MemoryError:
        conn.send([("undecided", "memory budget exhausted", "", {}, 0.0, "")])
    except SyntaxError as e:
        conn.send([("error", "cannot parse %s: %s" % (e.filename, e), "", {}, 0.0, "")])
    except BaseException as e:          # a failure of the analyser itself is not a verdict
        conn.send([("undecided", "analyser: %s: %s @ %s" % (type(e).__name__, e, traceback.format_exc()[-300:]), "", {}, 0.0, "")])
    finally:
        conn.close()


def run_all(names, tier, timeout, jobs=8):
    ctx = mp.get_context("fork")
    todo = list(names)
    live = {}
    out = {}
    while todo or live:
        while todo and len(live) < jobs:
            n = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(n, tier, b), daemon=True)
            p.start()
            b.close()
            live[n] = (p, a, time.time())
        for n, (p, a, t0) in list(live.items()):
            done = False
            if a.poll(0):
                try:
                    out[n] = a.recv()
                except EOFError:
                    out[n] = [("undecided", "analyser process ended", "", {}, time.time() - t0, "")]
                done = True
            elif time.time() - t0 > timeout:
                p.kill()
                out[n] = [("undecided", "time budget of %d s exhausted" % timeout, "", {}, time.time() - t0, "")]
                done = True
            if done:
                p.join(5)
                a.close()
                del live[n]
        if live:
            mp.connection.wait([a for _, a, _ in live.values()], timeout=0.2)
    return out


def known():
    """known_findings.txt: 'finding: property=<id> key=<obligation>|<signature> <text>'"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                w = line.split(None, 3)
                out[(w[1].split("=", 1)[1], w[2].split("=", 1)[1])] = w[3].strip() if len(w) > 3 else ""
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    try:
        import registry
        import core
        prog = core.program()
    except SyntaxError as e:
        print("cannot parse %s: %s" % (e.filename, e))
        return 2
    prop = registry.PROPS[a.prop]
    names = list(prop["obs"])
    res = run_all(names, a.tier, 240 if a.tier == "quick" else 700)
    kn = known()
    held, viol, und, miss, err, fnd = [], [], [], [], [], []
    rows = []
    for n in names:
        ob = registry.OBS[n]
        for st, detail, where, stats, secs, key in res[n]:
            row = {"obligation": n, "rule": ob.what, "status": st, "seconds": round(secs, 2)}
            if stats:
                row["analysed"] = stats
            if detail and st != "holds":
                row["detail"] = detail[:3000]
            if where:
                row["construct"] = where
            if st == "violated" and (a.prop, key or n) in kn:
                row["status"] = "known-finding"
                fnd.append((row, kn[(a.prop, key or n)]))
            elif st == "violated":
                viol.append(row)
            elif st == "holds":
                held.append(row)
            elif st == "missing" and getattr(ob, "public", False):
                miss.append(row)
            elif st == "error":
                err.append(row)
            else:
                und.append(row)
            rows.append(row)
            if a.v:
                print("  %-10s %-34s %6.2fs %s %s" % (st, n, secs, where, detail[:400] if st != "holds" else ""))
    funcs = sorted({f for r in rows for f in r.get("analysed", {}).get("functions_inlined", [])})
    files = sorted({prog_path(prog, f) for f in funcs} - {None})
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    level = prop["level"]
    summary = {"obligations": len(rows), "hold": len(held), "violated": len(viol), "undecided": len(und) + len(miss) + len(err), "known_findings": len(fnd),
               "functions_analysed": len(funcs), "branches": sum(r.get("analysed", {}).get("branches", 0) for r in rows),
               "loops": sum(r.get("analysed", {}).get("loops", 0) for r in rows), "call_sites": sum(r.get("analysed", {}).get("call_sites", 0) for r in rows)}
    cov = {"summary": summary, "functions": funcs, "files": files, "obligations": rows}
    if level == "translation_validation":
        cov["programs"] = len(rows)
        cov["disagreements_checked"] = sum(r.get("analysed", {}).get("value_graphs_compared", 1) for r in rows)
        cov["samples"] = [r["obligation"] + ": " + (r["rule"] or "") for r in rows[:5]]
    cov["explanation"] = prop["explain"]
    ev = {"property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol), "assumptions": prop["assume"]}
    with open(os.path.join(edir, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations over %d functions: %d hold, %d violated, %d undecided, %d known findings (%.1f s)" % (
        a.prop, len(rows), len(funcs), len(held), len(viol), summary["undecided"], len(fnd), time.time() - t0))
    for r, t in fnd:
        print("KNOWN-FINDING: property=%s %s (%s)" % (a.prop, t, r.get("construct", "")))
    for r in und:
        print("  undecided: %s: %s" % (r["obligation"], r.get("detail", "")[:160]))
    if viol:
        rp = os.path.join(edir, a.prop + ".violation.txt")
        with open(rp, "w") as f:
            for r in viol:
                f.write("property %s\nobligation %s: %s\nconstruct  %s\n%s\nre-run: python3 sa/check.py %s -v\n\n" % (
                    a.prop, r["obligation"], r["rule"], r.get("construct", ""), r.get("detail", ""), a.prop))
        for r in viol[:3]:
            print("  %s: %s\n    %s" % (r["obligation"], r.get("construct", ""), r.get("detail", "")[:500]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if miss or err:
        for r in miss + err:
            print("  cannot analyse: %s: %s" % (r["obligation"], r.get("detail", "")))
        return 2
    return 0


def prog_path(prog, qual):
    try:
        r = prog.func(qual)
        return os.path.relpath(r[1].path, prog.root) if r else None
    except Exception:
        return None


if __name__ == "__main__":
    sys.exit(main())
