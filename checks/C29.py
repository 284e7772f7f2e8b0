"""The external solver interface: answers written by specs/LiaM.tla are given by a stand-in solver to
the real command line; what was sent to it and what became of the step is compared with the model."""
import shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib.rules import *
from vlib.sexp import parse_all, show

SOLVER = r'''#!/bin/sh
if [ "$4" = 1 ]; then cat > "$1"; fi
cat "$2"
case "$3" in
  timeout) echo "cvc5 interrupted by timeout." >&2; exit 1;;
  kill) kill -9 $$;;
  *) exit "$3";;
esac
'''
DECL = ("(declare-sort U 0)(declare-fun p () Bool)(declare-fun q () Bool)(declare-fun r () Bool)(declare-fun a () U)(declare-fun b () U)"
        "(declare-fun p_0 () U)(declare-fun |a b| () U)(declare-fun f (U) U)(declare-fun P (U) Bool)(declare-fun i () Int)(assert r)\n")


def expand(e, env):
    """Replace named terms by what they name."""
    if isinstance(e, str):
        return env.get(e, e)
    if e and e[0] == "!":
        t = expand(e[1], env)
        if ":named" in e:
            env[e[e.index(":named") + 1]] = t
        return t
    return [expand(x, env) for x in e]


def steps(text):
    out, env = [], {}
    for c in parse_all(text):
        c = expand(c, env)
        if c and c[0] == "step":
            out.append((c[1], c[2][1:], c[c.index(":rule") + 1]))
    return out


def run():
    chk = Check("C29")
    th = THOROUGH
    exe = build_cli()
    t = chk.tlc("LiaM", dict(MaxLits=3 if th else 2, Wide=th), timeout=3000)
    rows = []
    for r in t.rows:
        i = r.index("#")
        j = r.index("#", i + 1)
        lits = [r[3]] + [x[1:] for x in r[4:i]]
        sent = [r[i + 1]] + [x[1:] for x in r[i + 2:j]]
        first, out, rc, eat, name = r[j + 1:j + 6]
        rows.append(dict(expect=r[0], kind=r[1], sub=r[2] == "1", lits=lits, sent=sent, first=first, out=out, rc=rc, eat=eat, name=name))
    if not th:
        rows = [x for k, x in enumerate(sorted(rows, key=lambda x: json.dumps(x, sort_keys=True))) if len(x["lits"]) == 1 or k % 6 == SEED % 6]
    base = tempfile.mkdtemp(prefix="c29-")
    try:
        sh = os.path.join(base, "solver.sh")
        open(sh, "w").write(SOLVER)
        os.chmod(sh, 0o755)

        def one(k):
            x = rows[k]
            d = os.path.join(base, str(k))
            os.mkdir(d)
            f = lambda n: os.path.join(d, n)
            cl = "(cl " + " ".join(x["lits"]) + ")"
            pb = DECL
            if x["sub"]:
                pf = ("(anchor :step t2)\n(assume t2.a0 r)\n(step s1 %s :rule %s)\n(step t2.t2 (cl false) :rule hole :premises (s1))\n"
                      "(step t2 (cl (not r) false) :rule subproof :discharge (t2.a0))\n(step fin (cl) :rule hole :premises (t2))\n" % (cl, x["kind"]))
            else:
                pf = "(step s1 %s :rule %s)\n(step fin (cl) :rule hole :premises (s1))\n" % (cl, x["kind"])
            ans = (x["first"] + "\n" + x["out"] + "\n").encode() if x["first"] or x["out"] else b""
            ans = ans.replace(b"@bytes@", b"\xff\xfe(step \xc3")
            open(f("p.smt2"), "w").write(pb)
            open(f("p.alethe"), "w").write(pf)
            open(f("ans"), "wb").write(ans)
            which = "lia" if x["kind"] == "lia_generic" else "hole"
            stage = [] if k % 2 else ["--pipeline", "lia-generic" if which == "lia" else "hole"]
            solver = sh if x["rc"] != "absent" else f("nothere")
            cmd = [exe, "elaborate", f("p.alethe"), f("p.smt2"), "--allowed-rules", "all_simplify", "rare_rewrite", "--log", "off",
                   "--%s-solver" % which, solver, "--%s-solver-args" % which, "%s %s %s %s" % (f("sent"), f("ans"), x["rc"], x["eat"])] + stage
            p = run_cmd(cmd)
            res = dict(rc=p.returncode, out=p.stdout.decode("utf8", "replace"), err=p.stderr.decode("utf8", "replace")[:300], pf=pf, pb=pb)
            if os.path.exists(f("sent")):
                res["sent"] = open(f("sent")).read()
            if p.returncode == 0:
                body = res["out"].split("\n", 1)
                open(f("o.alethe"), "w").write(body[1] if len(body) > 1 else "")
                c = run_cmd([exe, "check", f("o.alethe"), f("p.smt2"), "--allowed-rules", "all_simplify", "rare_rewrite", "strange"])
                res["chk"] = (c.returncode, c.stdout.decode().strip(), c.stderr.decode()[:300])
            shutil.rmtree(d)
            return res

        with ThreadPoolExecutor(NPROC) as ex:
            results = list(ex.map(one, range(len(rows))))
    finally:
        shutil.rmtree(base)
    for x, o in zip(rows, results):
        chk.replayed += 1
        chk.count("answers: " + x["name"])
        chk.count("expected: " + x["expect"])
        what = "%s (cl %s)%s, solver answers %s: %s %s" % (x["kind"], " ".join(x["lits"]), " in a subproof" if x["sub"] else "", x["name"], x["first"], x["out"])
        case = dict(k="lia-cli", problem=o["pb"], proof=o["pf"], answer=x)
        ident = [x["kind"], x["lits"], x["name"], x["out"], x["rc"], x["sub"]]

        def bad(m):
            chk.violation(case, "%s -- %s" % (m, what), ident=ident + [m.split(":")[0]])
        if o["rc"] != 0:
            bad("elaboration fails: %s" % o["err"])
            continue
        lines = o["out"].split("\n", 1)
        if lines[0] != "holey":
            bad("verdict of a proof with holes: %s" % lines[0])
        try:
            st = steps(lines[1])
        except (IndexError, ValueError):
            bad("elaborated proof unreadable: %s" % lines[1][:200])
            continue
        if o["chk"][0] != 0:
            bad("elaborated proof does not check: %s" % o["chk"][2])
        lits = [parse_all(l)[0] for l in x["lits"]]
        kept = [s for s in st if s[2] == x["kind"]]
        allc = [(s[1], s[2]) for s in st]
        if x["expect"] == "keep" and (len(kept) != 1 or kept[0][0] != "s1" or len(st) != (4 if x["sub"] else 2)):
            bad("step replaced by an answer that proves nothing")
        if x["expect"] == "replace":
            if kept:
                bad("step not replaced by a correct answer")
            elif not any(set(map(show, c)) == set(map(show, lits)) for c, _ in allc):
                bad("the replacement does not conclude the clause")
            elif sum(1 for _, r in allc if r == "hole") != (2 if x["sub"] else 1):
                bad("holes left by a complete proof")
        if x["eat"] == "1" and x["rc"] != "absent":
            if "sent" not in o:
                bad("solver not asked")
                continue
            env = {}
            cmds = [expand(c, env) for c in parse_all(o["sent"])]
            asserts = set(show(c[1]) for c in cmds if c[0] == "assert")
            want = set("(not %s)" % show(parse_all(l)[0]) for l in x["sent"])
            if asserts != want:
                bad("wrong question asked: %s instead of %s" % (sorted(asserts), sorted(want)))
            decl = set(show(c) for c in cmds if c[0].startswith("declare"))
            used = set(re.findall(r"\|[^|]*\||[A-Za-z_0-9]+", " ".join(x["sent"]))) & {"p", "q", "r", "a", "b", "p_0", "|a b|", "f", "P", "i"}
            if [c for c in used if not any(c in d for d in decl)]:
                bad("symbol not declared in the question")
            tail = [c[0] for c in cmds if c[0] in ("check-sat", "get-proof")]
            if tail != ["check-sat", "get-proof"]:
                bad("question does not ask for a proof")
        if x["expect"] == "replace":
            chk.nontrivial.add(json.dumps(ident))
        if chk.replayed % 401 == 1:
            chk.sample(what)
    chk.finish()
