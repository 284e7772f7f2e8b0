"""The work distribution of the parallel checker: recorded loads are validated against specs/SchedT.tla."""
from vlib.core import *

PROBLEM = "(declare-fun p () Bool)(assert p)"


def parse(t):
    out = []
    for c in t.split(";"):
        i, kind, depth, end, ctx, chain, prem = c.split("|")
        out.append(dict(id=i, kind=kind, depth=int(depth), end=end == "1", ctx=int(ctx), chain=chain.split(",") if chain else [], prem=prem.split(",") if prem else []))
    return out


def go(chk, threads, consts, sim=None, cap=None):
    k = dict(consts, Sim=bool(sim))
    t = chk.tlc("SchedM", k, inv=(), simulate=sim, depth=consts["MaxN"] + 12) if sim else chk.tlc("SchedM", k)
    rows = [r for r in t.rows if r[0] == "tree"]
    if cap and len(rows) > cap:
        rows = rows[SEED % 3::max(1, len(rows) // cap)]
    cases = [dict(k="sched", problem=PROBLEM, proof=r[2], threads=threads) for r in rows]
    res = replay(cases)
    traces, meta = [], []
    for r, c, o in zip(rows, cases, res):
        if o.get("v") != "ok":
            chk.violation(c, "distributing %s failed: %s" % (r[2], o), ident=["fail", r[2]])
            continue
        cmds = parse(r[1])
        for n in threads:
            x = o["n"][str(n)]
            loads = [[dict(id=e[0], kind=e[1], depth=e[2], end=e[3], ctx=e[4], prem=e[5]) for e in l] for l in x["loads"]]
            traces.append(dict(cmds=cmds, loads=loads, usage=x["usage"]))
            meta.append((r, c, n))
    for m in range(0, len(traces), 12000):
        part = traces[m:m + 12000]
        fn = os.path.join(BUILD, "sched-%d.ndjson" % os.getpid())
        with open(fn, "w") as f:
            for x in part:
                f.write(json.dumps(x) + "\n")
        v = chk.tlc("SchedT", dict(File=fn), heap="12g")
        os.unlink(fn)
        for b in v.rows:
            r, c, n = meta[m + int(b[1]) - 1]
            where = "worker %s of %d, command %s" % (b[2], n, b[3]) if b[2] != "0" else "%d workers" % n
            chk.violation(c, "%s (%s): %s" % (b[4], where, r[2]), ident=[b[4], b[2], b[3], n, r[2]])
    chk.replayed += len(traces)
    chk.count("distributions", len(traces))
    chk.count("trees", len(rows))
    if traces:
        chk.sample("%s workers: %s" % (meta[-1][2], rows[-1][2][:300]))
        chk.nontrivial.update(r[2] for r in rows)


def run():
    chk = Check("C07")
    z = 4 if THOROUGH else 1
    th = [1, 2, 3, 4] + ([5, 8] if THOROUGH else [])
    go(chk, th, dict(MaxN=8 if THOROUGH else 7, MaxDepth=3, Rules='{"hole"}'))
    go(chk, th, dict(MaxN=4, MaxDepth=2, Rules='{"hole", "la_generic", "true"}'), cap=4000 * z)
    go(chk, [1, 2, 3, 5, 8], dict(MaxN=24, MaxDepth=4, Rules='{"hole", "la_generic", "true", "resolution", "and_pos"}'), sim=400 * z, cap=1500 * z)
    chk.finish()
