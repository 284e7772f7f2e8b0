"""The command-line program: runs described by specs/CliM.tla are carried out for real, each in a
directory of its own, and the exit status, verdict, output and written files are compared."""
import shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib.rules import *
from vlib.sexp import parse_all, show

PRE = ("(declare-sort U 0)\n(declare-fun p () Bool)(declare-fun q () Bool)(declare-fun a () U)(declare-fun b () U)(declare-fun i () Int)\n"
       "(assert p)(assert (not p))(assert (= a b))\n")
RARE = "(declare-rare-rule rr ((x Bool)) :args (x) :conclusion (= (or x x) x))\n"
OPTB = dict(ignore=["-i"], allowR=["--allowed-rules", "refl", "trans", "rare_rewrite", "reordering"], lets=["--expand-let-bindings"], csv=["--dump-to-csv"],
            elaborate=["--elaborate"], j3=["-j", "3"], n2=["-n", "2"], sorted=["-t"], n0=["-n", "0"], j0=["-j", "0"],
            elaborated=["--check-granularity", "elaborated"])
LIA = {"s15": ["(not (not (< i 0)))", "(not (< i 1))"], "s15b": ["(not (= (+ i (+ i i)) (+ (+ i i) i)))"]}


def expand(e, env):
    if isinstance(e, str):
        return env.get(e, e)
    if e and e[0] == "!":
        t = expand(e[1], env)
        if ":named" in e:
            env[e[e.index(":named") + 1]] = t
        return t
    return [expand(x, env) for x in e]


def commands(text):
    env, out = {}, []
    for c in parse_all(text):
        c = expand(c, env)
        out.append([x[:] if isinstance(x, list) else x for x in c])
    return [show(c) for c in out]


def bare(text):
    """Hole arguments are dropped when they are not parsed."""
    return [c for c in commands(text)]


def run():
    chk = Check("C28")
    th = THOROUGH
    exe = build_cli()
    base = tempfile.mkdtemp(prefix="c28-")
    pool = ThreadPoolExecutor(NPROC)
    serial = [0]

    def newdir():
        serial[0] += 1
        return os.path.join(base, str(serial[0]))

    def call(args, d, stdin=b""):
        p = run_cmd([exe] + args, timeout=120, cwd=d, input=stdin, env=dict(os.environ, RUST_BACKTRACE="0"))
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")

    def sample(rows, keep, n):
        if th:
            n *= 12
        a = [r for r in rows if keep(r)]
        b = sorted((r for r in rows if not keep(r)), key=lambda r: hashlib.sha1(("%d" % SEED + repr(r)).encode()).hexdigest())
        return a + b[:max(0, n - len(a))]

    try:
        def single(r):
            cmd, feats, pre, txt, opts, args, inp, sid, exit_, verdict, prints = r
            d = newdir_map[id(r)]
            os.mkdir(d)
            w = lambda n, s: open(os.path.join(d, n), "wb").write(s if isinstance(s, bytes) else s.encode())
            problem = (PRE + pre + "(check-sat)\n").encode()
            proof = ("(assume h1 p)\n(assume h2 (not p))\n" + txt.replace("\\n", "\n") + "\n").encode()
            if inp == "empty proof":
                proof = b"\n"
            if inp == "not text":
                proof = b"\xff\xfe\xc3(assume h1 p)\n"
            if inp == "swapped":
                problem, proof = proof, problem
            pbn, pfn = "x.smt2", "y.alethe"
            stdin, given, dopb, dopf = b"", None, True, True
            if inp == "infer":
                pfn = "x.smt2.alethe"; given = [pfn]
            elif inp == "infer far":
                pfn = "x.smt2.one.two.proof"; given = [pfn]
            elif inp == "infer smt_in":
                pbn, pfn = "x.y.smt_in", "x.y.smt_in.alethe"; given = [pfn]
            elif inp == "no inference":
                given = [pfn]
            elif inp == "proof from stdin":
                given = ["-", pbn]; stdin = proof; dopf = False
            elif inp == "problem from stdin":
                given = [pfn, "-"]; stdin = problem; dopb = False
            elif inp == "both from stdin":
                given = ["-", "-"]; stdin = problem
            elif inp == "stdin alone":
                given = ["-"]; stdin = proof
            elif inp == "no proof file":
                dopf = False
            elif inp == "no problem file":
                dopb = False
            elif inp == "proof is a directory":
                dopf = False
                os.mkdir(os.path.join(d, pfn))
            elif inp == "spaces in name":
                pbn, pfn = "a b.smt2", "c d.e.alethe"
            if dopb:
                w(pbn, problem)
            if dopf:
                w(pfn, proof)
            if inp != "no rare file":
                w("r.rare", RARE if inp != "bad rare file" else "(declare-rare-rule rr ((x Bool)) :args (x) :conclusion (= (or x x) y")
            given = given or [pfn, pbn]
            av = [x for part in args.split(" ; ") for x in part.split()] if args else []
            if "--allowed-rules" in av or "--pipeline" in av:
                given = given + av
            else:
                given = av + given
            if cmd == "slice":
                given += ["--from", sid]
                if serial[0] and len(feats) % 2:
                    given += ["--sliced-output", "op.smt2", "of.alethe"]
            before = set(os.listdir(d))
            rc, out, err = call([cmd] + given, d, stdin)
            res = dict(rc=rc, out=out, err=err, given=given, problem=problem.decode("utf8", "replace"), proof=proof.decode("utf8", "replace"))
            res["files"] = {n: open(os.path.join(d, n)).read() for n in os.listdir(d) if n not in before}
            bad = []
            if "panicked" in err or rc not in (0, 1, 2):
                bad.append("crash: rc %d %s" % (rc, err[-300:]))
            if rc != int(exit_):
                bad.append("exit status: %d instead of %s (%s)" % (rc, exit_, err[:200]))
            lines = out.rstrip("\n").split("\n") if out.strip() else []
            O = opts.split()
            body = out
            if cmd == "check":
                if verdict:
                    if not lines or lines[-1] != verdict or ("stats" not in O and len(lines) != 1) or any(l in ("valid", "holey", "invalid") for l in lines[:-1]):
                        bad.append("verdict: %s instead of %s" % (lines[-3:], verdict))
                elif out:
                    bad.append("output: something printed though nothing was checked")
            elif cmd == "elaborate":
                k = [n for n, l in enumerate(lines) if l in ("valid", "holey", "invalid")]
                if verdict:
                    if len(k) != 1 or lines[k[0]] != verdict or (k[0] != 0 and "stats" not in O):
                        bad.append("verdict: %s instead of %s" % (lines[:2], verdict))
                    else:
                        body = "\n".join(lines[k[0] + 1:])
                elif k or out:
                    bad.append("output: something printed for a proof that is not valid: %s" % out[:100])
            if prints == "0" and cmd in ("parse", "slice", "generate-lia-problems") and out:
                bad.append("output: unexpected %s" % out[:100])
            if "quiet" in O and rc != 2 and err.strip():
                bad.append("log: printed though it is off: %s" % err[:100])
            if "quiet" not in O and rc == 1 and "[ERROR]" not in err:
                bad.append("log: error not reported")
            if prints == "1" and not bad:
                if "unshared" in O and ":named" in body:
                    bad.append("sharing: terms are named though sharing is off")
                if cmd == "parse" and not ({"defs", "lets"} & set(O)):
                    want = commands(proof.decode())
                    if "holeargs" in feats and "holeargs" not in O:
                        want = [c.replace(" :args (zz)", "") for c in want]
                    if commands(body) != want:
                        bad.append("output: parsed proof printed differently: %s" % body)
                w("again.alethe", body + "\n")
                if cmd == "elaborate" or cmd == "parse":
                    keep, skip = [], False
                    for part in (args.split(" ; ") if args else []):
                        if part.split()[0] in ("-i", "--skip-unknown-rules", "--allowed-rules", "--allow-int-real-subtyping", "--strict-parsing",
                                               "--parse-hole-args", "--apply-function-defs", "--expand-let-bindings", "--rare-file"):
                            keep += part.split()
                    w("again.smt2", problem)
                    full = cmd == "elaborate" and not ({"local", "pipe"} & set(O))
                    c = call(["check", "again.alethe", "again.smt2"] + keep + (["--check-granularity", "elaborated"] if full else []), d)
                    if cmd == "elaborate" and c[1].strip() != verdict:
                        bad.append("output: elaborated proof checks as %s, not %s: %s" % (c[1].strip(), verdict, c[2][:200]))
                    if cmd == "parse" and "parser error" in c[2]:
                        bad.append("output: printed proof cannot be read back: %s" % c[2][:200])
                if cmd == "slice":
                    names = ("op.smt2", "of.alethe") if "--sliced-output" in given else None
                    if not names:
                        b = os.path.splitext(os.path.basename(given[0] if given[0].endswith((".alethe", ".proof")) or given[0] == "-" else pfn if dopf else "-"))[0]
                        names = ("%s-%s.smt2" % (b, sid), "%s-%s.alethe" % (b, sid))
                    if set(res["files"]) != set(names):
                        bad.append("files: wrote %s instead of %s" % (sorted(res["files"]), sorted(names)))
                    elif res["files"][names[1]].strip() != body.strip():
                        bad.append("files: sliced proof written and printed differ")
                    elif not any(c.startswith(("(step %s " % sid, "(assume %s " % sid)) for c in commands(body)):
                        bad.append("output: sliced proof without %s" % sid)
                    elif "(check-sat)" not in res["files"][names[0]]:
                        bad.append("files: sliced problem incomplete")
            elif cmd == "generate-lia-problems" and rc == 0 and not bad:
                pn = given[-1] if inp in ("infer", "infer far", "infer smt_in", "no inference", "stdin alone") else [g for g in given if g in (pfn, "-")][0]
                want = {}
                if "lia" in feats.split() and inp != "empty proof":
                    want = {"%s-%s.lia_smt2" % (pn, k): v for k, v in LIA.items()}
                if set(res["files"]) != set(want):
                    bad.append("files: wrote %s instead of %s" % (sorted(res["files"]), sorted(want)))
                else:
                    for n, v in want.items():
                        if "unshared" in O and ":named" in res["files"][n]:
                            bad.append("sharing: terms are named though sharing is off")
                        cs = commands(res["files"][n])
                        if sorted(c for c in cs if c.startswith("(assert")) != sorted("(assert %s)" % x for x in v):
                            bad.append("files: problem for the step asks something else: %s" % res["files"][n])
                        if not any("declare" in c and " i " in c for c in cs) or "(check-sat)" not in cs:
                            bad.append("files: problem for the step incomplete: %s" % res["files"][n])
            elif res["files"] and rc != 0:
                bad.append("files: written by a run that fails: %s" % sorted(res["files"]))
            res["bad"] = bad
            shutil.rmtree(d)
            return res

        rows = []
        t = chk.tlc("CliM", dict(Mode="options", MaxF=2, MaxO=2), inv=("Emit", "ExitRight"), timeout=3000)
        small = lambda r: len(r[1].split()) <= 1 and len(r[4].split()) <= 1
        rows += sample(t.rows, small, 4200)
        t = chk.tlc("CliM", dict(Mode="inputs", MaxF=1, MaxO=1), inv=("Emit", "ExitRight"), timeout=3000)
        # kept: nothing special, and options that change what becomes of the document
        plain = {(r[0], r[1], r[6], r[7]): (r[8], r[9]) for r in t.rows if not r[4]}
        rows += sample(t.rows, lambda r: not r[1] + r[4] or (r[8] != "2" and plain.get((r[0], r[1], r[6], r[7])) != (r[8], r[9])), 2000)
        if th:
            t = chk.tlc("CliM", dict(Mode="options", MaxF=1, MaxO=4), inv=("Emit", "ExitRight"), timeout=3000)
            rows += sample(t.rows, lambda r: False, 1000)
        newdir_map = {id(r): newdir() for r in rows}
        for r, o in zip(rows, pool.map(single, rows)):
            chk.replayed += 1
            chk.count("command: " + r[0])
            chk.count("outcome: exit %s %s" % (r[8], r[9]))
            chk.count("input: " + r[6])
            what = "carcara %s %s (%s; document with: %s)" % (r[0], " ".join(o["given"]), r[6], r[1] or "nothing")
            for b in o["bad"]:
                chk.violation(dict(k="cli", command=r[0], args=o["given"], problem=o["problem"], proof=o["proof"], out=o["out"], err=o["err"]),
                              "%s -- %s" % (b, what), ident=[r[0], r[1], r[4], r[6], r[7], b.split(":")[0]])
            if r[8] == "0" and (r[1] or r[4]):
                chk.nontrivial.add(what)
            if chk.replayed % 701 == 1:
                chk.sample(what)

        def bench(r):
            O = r[0].split()
            d = bench_map[id(r)]
            os.mkdir(d)
            docs, cur = [], None
            for x in r[6:]:
                if x.startswith(";"):
                    cur.append(x[1:])
                else:
                    cur = [x]
                    docs.append(cur)
            names = []
            for n, (_, pre, txt) in enumerate(docs):
                os.makedirs(os.path.join(d, "in", "k%d" % n))
                f = os.path.join("in", "k%d" % n, "x.smt2")
                open(os.path.join(d, f), "w").write(PRE + pre + "(check-sat)\n")
                open(os.path.join(d, f + ".alethe"), "w").write("(assume h1 p)\n(assume h2 (not p))\n" + txt.replace("\\n", "\n") + "\n")
                names.append(f + ".alethe")
            args = ["bench"]
            tail = []
            for o in O:
                if o == "allowR":
                    tail = OPTB[o]
                elif o in OPTB:
                    args += OPTB[o]
            if "dir" in O:
                os.makedirs(os.path.join(d, "in", "empty"))
                open(os.path.join(d, "in", "notes.txt"), "w").write("nothing")
                args += ["in"]
            else:
                args += names
            if "missing" in O:
                args.append("gone.smt2.alethe")
            rc, out, err = call(args + tail, d)
            bad = []
            if "panicked" in err or rc not in (0, 1):
                bad.append("crash: rc %d %s" % (rc, err[-300:]))
            if rc != int(r[1]):
                bad.append("exit status: %d instead of %s: %s" % (rc, r[1], err[:200]))
            vs = [l for l in out.split("\n") if l in ("valid", "holey", "invalid")]
            if vs != ([r[2]] if r[2] else []):
                bad.append("verdict: %s instead of %s" % (vs, r[2]))
            if rc == 0 and err.count("encountered error in file") != int(r[3]):
                bad.append("log: %d errors instead of %s: %s" % (err.count("encountered error in file"), r[3], err[:200]))
            if "csv" in O and docs and rc == 0 and not bad:
                if not out.startswith("%s errors" % r[3]):
                    bad.append("errors: %s instead of %s" % (out.split("\n")[0], r[3]))
                runs = open(os.path.join(d, "runs.csv")).read().strip().split("\n")
                if len(runs) - 1 != int(r[4]):
                    bad.append("results: %d runs recorded instead of %s" % (len(runs) - 1, r[4]))
                ids = [tuple(l.split(",")[:2]) for l in runs[1:]]
                if len(set(ids)) != len(ids):
                    bad.append("results: a run is recorded twice: %s" % ids)
            elif docs and rc == 0 and not bad and "csv" not in O:
                if ("no benchmark data collected" in out) != (int(r[4]) == 0):
                    bad.append("results: measurements lost or made up: %s" % out[:200])
            shutil.rmtree(d)
            return dict(args=args, bad=bad, docs=docs, out=out, err=err)

        t = chk.tlc("CliM", dict(Mode="bench", MaxF=3 if th else 2, MaxO=2), inv=("Emit",), tag="BENCH", timeout=3000)
        rows = sample(t.rows, lambda r: len(r[0].split()) <= 1 and len(r) <= 9, 1500)
        bench_map = {id(r): newdir() for r in rows}
        for r, o in zip(rows, pool.map(bench, rows)):
            chk.replayed += 1
            chk.count("command: bench")
            what = "carcara %s (documents with: %s)" % (" ".join(o["args"]), "; ".join(x[0] or "nothing" for x in o["docs"]))
            for b in o["bad"]:
                chk.violation(dict(k="cli", args=o["args"], docs=o["docs"], out=o["out"][:2000], err=o["err"][:2000]), "%s -- %s" % (b, what),
                              ident=["bench", r[0], [x[0] for x in o["docs"]], b.split(":")[0]])
            if len(o["docs"]) > 1:
                chk.nontrivial.add(what)
            if chk.replayed % 701 == 1:
                chk.sample(what)
    finally:
        shutil.rmtree(base)
    chk.finish()
