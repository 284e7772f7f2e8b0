"""Slicing: slices of the proofs written by specs/ProofM.tla and specs/ParP.tla, validated against specs/SliceT.tla and checked again."""
from vlib.core import *
from vlib import proofm, ptree

DECL = "(declare-sort U 0)(declare-fun a () U)(declare-fun b () U)(declare-fun f (U) U)(declare-fun g (U U) U)"


def vd(o):
    return "noempty" if o.get("v") == "invalid" and o.get("msg") == "noempty" else o.get("v")


def slices(chk, cases):
    """Every step of every proof as the target, at every distance up to 3 and a large one."""
    trees = replay([dict(c, k="ast") for c in cases])
    sc, orig, tg = [], [], []
    for n, (c, o) in enumerate(zip(cases, trees)):
        if "cmds" not in o:
            raise ToolError("not parsed: %s" % o)
        fl = ptree.flatten(o["cmds"])
        ids = [r["key"].split("/")[-1] for r in fl]
        for m, r in enumerate(fl):
            if r["kind"] == "s" and ids.count(ids[m]) == 1:
                for d in ([0, 1, 2, 3, 40] if THOROUGH else [(n + m) % 4, 40 if (n + m) % 7 == 0 else (n + m + 1) % 3]):
                    sc.append(dict(c, k="slice", id=ids[m], dist=d, sharing=(n + m) % 2 == 0))
                    orig.append(fl)
                    tg.append(r["key"])
            elif r["kind"] == "a" and n % 9 == 0 and ids.count(ids[m]) == 1:
                sc.append(dict(c, k="slice", id=ids[m], dist=1))
                orig.append(None)
                tg.append(None)
    res = replay(sc)
    recs, idx = [], []
    for n, (c, o, fl) in enumerate(zip(sc, res, orig)):
        chk.replayed += 1
        if fl is None:
            if o.get("v") != "none":
                chk.violation(c, "an assumption was sliced: %s" % str(o)[:300], ident=["assume", c["proof"], c["id"]])
            continue
        if o.get("v") != "ok":
            chk.violation(c, "slicing %s at distance %d: %s: %s" % (c["id"], c["dist"], o, c["proof"]), ident=["slice", o.get("v"), c["proof"], c["id"]])
            continue
        chk.nontrivial.add((c["proof"], c["id"], c["dist"]))
        for kind in ("direct", "re"):
            if vd(o[kind]) != "holey":
                chk.violation(c, "the slice at %s, distance %d, of a valid proof is %s (%s): %s => %s" % (c["id"], c["dist"], o[kind], kind, c["proof"], o["text"]), ident=["check", kind, c["proof"], c["id"], c["dist"]])
        recs.append(dict(orig=fl, slice=ptree.flatten(o["cmds"]), target=tg[n], dist=c["dist"]))
        idx.append(n)
    if recs:
        chk.sample("%s at %s: %s" % (sc[idx[-1]]["id"], sc[idx[-1]]["dist"], res[idx[-1]]["text"][:300]))
    W = 4000
    for z in range(0, len(recs), W):
        fn = os.path.join(BUILD, "slice-%d.ndjson" % os.getpid())
        with open(fn, "w") as f:
            for x in recs[z:z + W]:
                f.write(json.dumps(x) + "\n")
        t = chk.tlc("SliceT", dict(File=fn))
        os.unlink(fn)
        for r in t.rows:
            n = idx[z + int(r[1]) - 1]
            chk.violation(sc[n], "the slice of %s at distance %d: %s: %s => %s" % (sc[n]["id"], sc[n]["dist"], r[2], sc[n]["proof"], res[n]["text"]), ident=["shape", sc[n]["proof"], sc[n]["id"], sc[n]["dist"]])
    return sc, res


def cli(chk, sc, res, n):
    """The command line tool writes the problem and the proof of the slice to files that check."""
    exe = build_cli()
    cs = [c for c, o in zip(sc, res) if o.get("v") == "ok"]
    cs = cs[::max(1, len(cs) // n)][:n]
    d = tempfile.mkdtemp(prefix="c24-")
    try:
        def one(m):
            c = cs[m]
            e = os.path.join(d, str(m))
            os.mkdir(e)
            open(e + "/p.smt2", "w").write(c["problem"])
            open(e + "/p.alethe", "w").write(c["proof"])
            run = lambda *a: run_cmd([exe] + list(a), cwd=e, text=True)
            al = ["--allowed-rules", "mystery2", "symm"] if c.get("allowed") else []
            out = ["--sliced-output", "x.smt2", "x.alethe"] if m % 2 else []
            r = run("slice", "p.alethe", "p.smt2", "--from", c["id"], "-d", str(c["dist"]), *out)
            if r.returncode != 0:
                return "exit %d: %s" % (r.returncode, (r.stdout + r.stderr)[-300:])
            pb, pf = ("x.smt2", "x.alethe") if m % 2 else ("p-%s.smt2" % c["id"], "p-%s.alethe" % c["id"])
            if not os.path.exists(e + "/" + pb) or not os.path.exists(e + "/" + pf):
                return "files written: %s" % os.listdir(e)
            r = run("check", "-i", pf, pb, *al)
            if r.stdout.strip().split("\n")[-1] != "holey":
                return "the files written do not check: %s" % (r.stdout + r.stderr)[-300:]
            return None
        with ThreadPoolExecutor(NPROC) as ex:
            for c, r in zip(cs, ex.map(one, range(len(cs)))):
                chk.replayed += 1
                chk.count("cli_slices")
                if r:
                    chk.violation(c, "carcara slice --from %s -d %d: %s: %s" % (c["id"], c["dist"], r, c["proof"]), ident=["cli", c["proof"], c["id"], c["dist"]])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def thin(rows, cap):
    rows = [r for r in rows if r[1] in ("valid", "holey", "noempty")]
    good = [r for r in rows if r[1] != "noempty"]
    rest = [r for r in rows if r[1] == "noempty"]
    return good[::max(1, len(good) // cap)][:cap] + rest[::max(1, len(rest) // cap)][:cap]


def run():
    chk = Check("C24")
    z = 3 if THOROUGH else 1
    G, H = proofm.GOOD, proofm.HOLE
    rows = proofm.generate(chk, **pick(proofm.conf(G + H, 4, bad=0, holes=1)))
    cases = [proofm.case(r, True) for r in thin(rows, 700 * z)]
    rows = proofm.generate(chk, **pick(proofm.conf(G + H, 11, bad=0, depth=3, holes=2, sim=500 * z)))
    cases += [proofm.case(r, True) for r in thin(rows, 700 * z)]
    sc, res = slices(chk, cases)
    t = chk.tlc("ParP", dict(MaxN=10, MaxDepth=3, MaxBad=0, Sim=True, Focus=False), inv=(), simulate=150 * z, depth=16)
    rows = [r for r in t.rows if r[1] == "holey"]
    s2, r2 = slices(chk, [dict(problem=DECL, proof=r[3]) for r in rows[::max(1, len(rows) // (300 * z))]])
    cli(chk, sc[::3] + s2, res[::3] + r2, 200 * z)
    chk.finish()


def pick(c):
    return dict(consts=c["consts"], sim=c["sim"], ign=c["ign"])
