"""Parallel checking: sequential verdict under every number of threads, and under the interleavings of specs/ParM.tla."""
from vlib.core import *
from vlib import proofm

DECL = "(declare-sort U 0)(declare-fun a () U)(declare-fun b () U)(declare-fun f (U) U)(declare-fun g (U U) U)"


def vd(o):
    return "noempty" if o.get("v") == "invalid" and o.get("msg") == "noempty" else o.get("v")


def compare(chk, rows, cases, res, unique):
    for r, c, o in zip(rows, cases, res):
        chk.replayed += 1
        for n, outs in o.get("par", {}).items():
            for x in outs:
                chk.count("parallel_runs", c.get("reps", 1))
                if vd(x) != r[1]:
                    chk.violation(c, "%s threads: %s, the specification (and sequential checking) says %s %s: %s" % (n, x, r[1], r[2], r[3]), ident=["par", n, vd(x), r[3]])
        if vd(o) != r[1]:
            chk.violation(c, "sequential: %s, the specification says %s %s: %s" % ({k: o[k] for k in ("v", "msg", "step") if k in o}, r[1], r[2], r[3]), ident=["seq", r[3]])
        if r[1] != "perr":
            chk.nontrivial.add(r[3])


def machine(chk, kw, threads, cap, reps=2):
    rows = [r for r in proofm.generate(chk, kw["consts"], kw["sim"], kw["ign"]) if r[1] != "perr"]
    if len(rows) > cap:
        rare = [r for r in rows if r[1] in ("valid", "holey")]
        rest = [r for r in rows if r[1] not in ("valid", "holey")]
        rare = rare[:: max(1, len(rare) * 2 // cap)]
        rows = rare + rest[SEED % 2::max(1, len(rest) * 2 // cap)]
    cases = [proofm.case(r, kw["ign"], threads=threads, reps=reps, stats=True) for r in rows]
    compare(chk, rows, cases, replay(cases), True)


def interleave(chk, consts, threads, sim, orders, cap, full):
    """Loads from the real scheduler; every interleaving of the model replayed with the workers held to it."""
    t = chk.tlc("ParP", dict(consts, Sim=bool(sim)), inv=() if sim else ("Emit",), simulate=sim, depth=consts["MaxN"] + 6)
    rows = [r for r in t.rows if r[0] == "proof" and "anchor" in r[3]]
    rows = rows[SEED % 2::max(1, len(rows) // cap)][:cap]
    cases = [dict(k="proof", problem=DECL, proof=r[3], threads=threads, reps=1) for r in rows]
    compare(chk, rows, cases, replay(cases), True)
    sc = replay([dict(k="sched", problem=DECL, proof=r[3], threads=threads) for r in rows])
    traces, meta = [], []
    for r, o in zip(rows, sc):
        if o.get("v") != "ok":
            continue            # C07
        for n in threads:
            x = o["n"][str(n)]
            loads = [[dict(kind=e[1], depth=e[2], ctx=e[4], bad=e[1] != "anchor" and e[0] == r[2]) for e in l] for l in x["loads"]]
            if sum(1 for l in loads if l) < 2:
                continue
            traces.append(dict(loads=loads, usage=x["usage"], verdict="ok" if r[1] == "holey" else "invalid", len=sum(len(l) for l in loads)))
            meta.append((r, n))
    fn = os.path.join(BUILD, "par-%d.ndjson" % os.getpid())
    with open(fn, "w") as f:
        for x in traces:
            f.write(json.dumps(x) + "\n")
    try:
        m = chk.tlc("ParM", dict(File=fn, MaxLen=full or 1000), inv=("Safe", "SameVerdict", "Emit"), **(dict() if full else dict(simulate=orders, depth=200)))
    except ToolError as e:
        # the model itself reaches a bad state with the loads the scheduler handed out
        if "is violated" not in str(e):
            raise
        k = re.findall(r"/\\ t = (\d+)", str(e))
        r, n = meta[int(k[-1]) - 1] if k else (rows[0], threads[0])
        chk.violation(dict(k="proof", problem=DECL, proof=r[3], threads=[n], reps=20), "the workers' protocol breaks with the loads of %d workers for %s" % (n, r[3]), ident=["model", n, r[3]])
        os.unlink(fn)
        return
    os.unlink(fn)
    by = {}
    for x in m.rows:
        by.setdefault(int(x[1]) - 1, []).append(json.loads(x[2].replace("<<", "[").replace(">>", "]")))
    ic, im = [], []
    for k, os_ in sorted(by.items()):
        for z in range(0, len(os_), 40):
            ic.append(dict(k="inter", problem=DECL, proof=meta[k][0][3], n=meta[k][1], orders=os_[z:z + 40]))
            im.append(meta[k])
    chk.count("interleavings", sum(len(c["orders"]) for c in ic))
    for (r, n), c, o in zip(im, ic, replay(ic, limit=200)):
        chk.replayed += len(c["orders"])
        chk.count("turns_missed", o.get("late", 0))
        for x in o.get("par", [o]):
            if vd(x) != r[1]:
                chk.violation(c, "%d workers, some interleaving: %s, expected %s: %s" % (n, x, r[1], r[3]), ident=["inter", n, vd(x), r[3]])
    if ic:
        chk.sample("%d workers, order %s: %s" % (im[0][1], ic[0]["orders"][0], im[0][0][3][:400]))


def run():
    chk = Check("C06")
    z = 4 if THOROUGH else 1
    for kw in proofm.general():
        machine(chk, kw, [1, 2, 3, 4] + ([6, 8] if THOROUGH else []), 4000 * z)
    interleave(chk, dict(MaxN=THOROUGH and 4 or 3, MaxDepth=2, MaxBad=1, Focus=False), [2, 3], None, 0, 200 * z, 8)
    interleave(chk, dict(MaxN=12, MaxDepth=3, MaxBad=1, Focus=False), [2, 3, 4], 600 * z, 4000 * z, 400 * z, None)
    interleave(chk, dict(MaxN=9, MaxDepth=3, MaxBad=0, Focus=True), [2], 400 * z, 6000 * z, 200 * z, None)
    interleave(chk, dict(MaxN=12, MaxDepth=3, MaxBad=1, Focus=True), [2, 3], 400 * z, 6000 * z, 200 * z, None)
    chk.finish()
