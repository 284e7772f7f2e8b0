"""S-expressions and the de Bruijn form used by specs/Subst.tla (Db)."""
import re
TOK = re.compile(r'\s+|;[^\n]*|(\(|\)|"(?:[^"]|"")*"|\|[^|]*\||[^\s()|"]+)')


def parse_all(text):
    stack, out = [], []
    cur = out
    for m in TOK.finditer(text):
        t = m.group(1)
        if t is None:
            continue
        if t == "(":
            stack.append(cur)
            cur = []
        elif t == ")":
            stack[-1].append(cur)
            cur = stack.pop()
        else:
            cur.append(t)
    return out


def show(e):
    return e if isinstance(e, str) else "(" + " ".join(show(x) for x in e) + ")"


def db(e, env=None, d=0):
    env = env or {}
    if isinstance(e, str):
        return env.get(e, e)
    if e and e[0] in ("forall", "exists", "choice", "lambda", "let") and len(e) == 3:
        n = len(e[1])
        if e[0] == "let":
            bs = [["#", db(v, env, d)] for _, v in e[1]]
        else:
            bs = [["#", s] for _, s in e[1]]
        env2 = dict(env)
        for k, (x, _) in enumerate(e[1]):
            env2[x] = "#%d" % (d + k + 1)
        return [e[0], bs, db(e[2], env2, d + n)]
    return [db(x, env, d) for x in e]


def dbs(text):
    return show(db(parse_all(text)[0]))
