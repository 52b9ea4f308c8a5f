"""Explores the paths of a property harness and decides its assertions."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

from . import core, evidence, shims
from .concrete import CCtx, Failed
from .core import AssumeFailed, Candidate, Ctx, Domain, Engine, Prune, Stats, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
SEEN_FUNCS = set()


def monitor():
    mon = sys.monitoring
    tid = 4
    mon.use_tool_id(tid, "symx")
    pre = os.path.join(REPO, "popsynth") + os.sep

    def start(code, off):
        if code.co_filename.startswith(pre):
            SEEN_FUNCS.add("%s:%s" % (code.co_filename[len(REPO) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def load(pid):
    return importlib.import_module("symx.props." + pid.lower())


def user_tb(e):
    """innermost frame of popsynth in a traceback"""
    out = ""
    for f in traceback.extract_tb(e.__traceback__):
        if "/popsynth/" in f.filename:
            out = "%s:%d in %s" % (f.filename.split("/popsynth/", 1)[1], f.lineno, f.name)
    return out


def run_concrete(mod, variant, values, seed=1):
    """('ok'|'fail'|'error'|'assume'|'engine', text)"""
    ctx = CCtx(values, seed=seed)
    if hasattr(mod, "setup_ctx"):
        mod.setup_ctx(ctx, **variant)
    shims.begin(ctx, False)
    try:
        mod.harness(ctx, **variant)
        return "ok", "", ctx
    except Failed as e:
        return "fail", "%s %s" % (e.label, e.detail), ctx
    except (AssumeFailed, Prune) as e:
        return "assume", str(e), ctx
    except Engine as e:
        return "engine", "%s: %s" % (type(e).__name__, e), ctx
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        where = user_tb(e)
        kind = "error" if where else "harness"
        return kind, "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:200], where or traceback.format_exc()[-600:]), ctx
    finally:
        if hasattr(mod, "teardown"):
            mod.teardown(ctx)


def explore(pid, variant, opts):
    """all paths of one variant"""
    mod = load(pid)
    t0 = time.time()
    stats = Stats()
    res = {"variant": variant, "paths": 0, "pruned": 0, "domain": 0, "undecided": [], "violations": [],
           "witness_ok": 0, "witness_skip": 0, "reached": [], "unsupported": 0, "errors": [], "left": 0, "decisions": 0, "samples": []}
    pending = [[]]
    reached = set()
    nwit = 0
    budget = variant_budget(mod, variant, opts)
    while pending:
        if time.time() - t0 > budget:
            res["left"] = len(pending)
            break
        prefix = pending.pop()
        ctx = Ctx(prefix, stats, feas_ms=opts.get("feas_ms", 400), oblig_ms=opts.get("oblig_ms", 8000), seed=opts["seed"])
        if hasattr(mod, "setup_ctx"):
            mod.setup_ctx(ctx, **variant)
        core.set_ctx(ctx)
        shims.begin(ctx, True)
        outcome, detail, cand = "ok", "", None
        try:
            mod.harness(ctx, **variant)
        except Candidate as e:
            outcome, detail, cand = "candidate", e.label, e
        except Prune as e:
            outcome, detail = "prune", str(e)
        except Domain as e:
            outcome, detail = "domain", str(e) + " " + user_tb(e)
        except (Unsupported, core.P.TooBig) as e:
            outcome, detail = "unsupported", "%s: %s [%s]" % (type(e).__name__, e, user_tb(e))
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            outcome, detail = "exception", "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:200], user_tb(e) or traceback.format_exc()[-700:])
        finally:
            if hasattr(mod, "teardown"):
                mod.teardown(ctx)
        pending.extend(ctx.pending)
        reached |= ctx.reached
        for w in ctx.assumed:
            w = 'assumed inside the real domain where the solver found nothing outside: ' + w
            if w not in res.setdefault('domain_notes', []):
                res['domain_notes'].append(w)
        if opts.get("verbose"):
            print("   path", len(prefix), outcome, detail, "%.1fs" % (time.time() - t0), "q", stats.queries, file=sys.stderr)
        if outcome == "prune":
            res["pruned"] += 1
            continue
        res["paths"] += 1
        if outcome == "ok":
            if nwit < opts.get("witnesses", 6):
                nwit += 1
                core.set_ctx(ctx)
                got = False
                for vals in ctx.models([], 2, patience=1500):
                    r, text, cc = run_concrete(mod, variant, vals)
                    if r == "ok":
                        res["witness_ok"] += 1
                        got = True
                        if len(res["samples"]) < 2:
                            res["samples"].append({"inputs": {k: vals[k] for k in list(vals)[:12]}, "variant": variant})
                        break
                    if r in ("fail", "error"):
                        if report(res, pid, variant, vals, text, opts, cc):
                            got = True
                            break
                    core.set_ctx(ctx)
                if not got:
                    res["witness_skip"] += 1
        else:
            core.set_ctx(ctx)
            extra, strong = [], None
            if outcome == "candidate":
                _, neg, _, strong = ctx.failed
                extra = [neg]
            hit = False
            tries = []
            if strong is not None:
                tries.append(([strong] + extra, 5))
            tries.append((extra, opts.get("replays", 10)))
            if outcome in ("unsupported", "exception", "domain"):
                # the same cut on many paths: look for inputs mostly on the first of them
                few = len(res["undecided"]) < 6
                same = res.setdefault("_cuts", {})
                same[detail] = same.get(detail, 0) + 1
                tries = [([], (10 if same[detail] < 2 else 4 if same[detail] < 4 else 1) if outcome == "domain" else 10 if few else 3)]
            seen_text = ""
            for ex, k in tries:
                core.set_ctx(ctx)
                for vals in ctx.models(ex, k, wide=outcome != "candidate"):
                    r, text, cc = run_concrete(mod, variant, vals)
                    if r in ("fail", "error"):
                        if report(res, pid, variant, vals, text, opts, cc):
                            hit = True
                            break
                    seen_text = "%s %s" % (r, text)
                    core.set_ctx(ctx)
                if hit:
                    break
            if not hit:
                if outcome == "domain":
                    res["domain"] += 1
                    res.setdefault("domain_notes", [])
                    if detail not in res["domain_notes"]:
                        res["domain_notes"].append(detail)
                else:
                    res["undecided"].append("%s: %s (%s)" % (outcome, detail, seen_text))
        if sum(not v["known"] for v in res["violations"]) >= opts.get("max_viol", 1):
            break
    res.pop("_cuts", None)
    res["reached"] = sorted(reached)
    res["stats"] = dict(stats.__dict__)
    res["wall"] = time.time() - t0
    res["functions"] = sorted(SEEN_FUNCS)
    shims.uninstall()
    return res


def variant_budget(mod, variant, opts):
    return variant.get("_budget", opts.get("budget", 100))


def report(res, pid, variant, vals, text, opts, cc):
    """confirm in a fresh process; record"""
    values = dict(vals)
    for k, v in cc.used.items():
        if k not in values and isinstance(v, (int, float, bool)):
            values[k] = v
    rec = {"property": pid, "variant": variant, "values": values, "what": text}
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, default=str)
    p = subprocess.run([sys.executable, "-m", "symx.main", "--replay", path], cwd=VERIF,
                       capture_output=True, text=True, timeout=300)
    if p.returncode == 1 and "REPRODUCED" in p.stdout:
        v = {"replay": path, "what": text, "variant": variant}
        v["known"] = evidence.is_known(pid, v)
        res["violations"].append(v)
        return True
    os.unlink(path)
    res["errors"].append("not confirmed in a fresh process: %s" % text)
    return False


def _child(conn, pid, variant, opts):
    import z3
    z3.set_param("memory_max_size", 3000)
    try:
        r = explore(pid, variant, opts)
    except BaseException as e:
        r = {"variant": variant, "crash": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2000:])}
    conn.send(json.dumps(r, default=str))
    conn.close()


def run(pid, tier, seed, opts=None):
    mod = load(pid)
    opts = dict(opts or {})
    opts["seed"] = seed
    if tier == "thorough":
        opts.setdefault("feas_ms", 2000)
        opts.setdefault("oblig_ms", 60000)
        opts.setdefault("witnesses", 40)
        opts.setdefault("budget", 3000)
        opts.setdefault("replays", 25)
    else:
        opts.setdefault("budget", getattr(mod, "BUDGET", 300))
    if hasattr(mod, "OPTS"):
        for k, v in mod.OPTS.items():
            opts.setdefault(k, v)
    variants = mod.variants(tier)
    only = opts.get("only")
    if only is not None:
        variants = [v for i, v in enumerate(variants) if i in only]
    t0 = time.time()
    results = [None] * len(variants)
    todo = list(enumerate(variants))
    running = {}
    ncpu = opts.get("jobs", 8)
    ctxm = mp.get_context("fork")
    hard = opts["budget"] * 1.6 + 120
    while todo or running:
        while todo and len(running) < ncpu:
            i, v = todo.pop(0)
            a, b = ctxm.Pipe()
            p = ctxm.Process(target=_child, args=(b, pid, v, opts))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        for i, (p, a, ts) in list(running.items()):
            done = False
            if a.poll(0.02):
                try:
                    results[i] = json.loads(a.recv())
                except EOFError:
                    results[i] = {"variant": variants[i], "crash": "child died"}
                done = True
            elif not p.is_alive():
                results[i] = {"variant": variants[i], "crash": "child died (exit %s)" % p.exitcode}
                done = True
            elif time.time() - ts > hard:
                p.kill()
                results[i] = {"variant": variants[i], "crash": "timeout"}
                done = True
            if done:
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                del running[i]
                if any(not v["known"] for v in results[i].get("violations", [])) and not opts.get("all"):
                    todo = []
                    for j, (q, b2, _) in list(running.items()):
                        q.kill()
                        q.join()
                        results[j] = {"variant": variants[j], "crash": "stopped after a violation"}
                        del running[j]
                    break
        time.sleep(0.01)
    return mod, variants, results, time.time() - t0
