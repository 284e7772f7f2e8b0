"""Flatten the commands of a proof, as the harness reports them, into records for trace validation."""


def flatten(cmds):
    """records with paths for keys; premises and discharges resolved to paths ("?" when they resolve to nothing)."""
    out = []
    frames = []         # per open frame: keys by index

    def key(prefix, i):
        return prefix + "/" + i

    def last_id(c):
        while "sub" in c:
            c = c["sub"][-1] if c["sub"] else {"s": "?"}
        return c.get("a") or c.get("s")

    def walk(cs, prefix, encl, anchor):
        keys = []
        frames.append(keys)
        for n, c in enumerate(cs):
            if "sub" in c:
                e = key(prefix, last_id(c))
                walk(c["sub"], e, encl + [e], c)
                keys.append(e)
                continue
            isend = anchor is not None and n == len(cs) - 1
            k = prefix if isend else key(prefix, c.get("a") or c.get("s"))
            ref = lambda d, i: frames[d][i] if d < len(frames) and i < len(frames[d]) else "?"
            r = dict(key=k, kind="a" if "a" in c else "s", cl=[c["t"]] if "a" in c else c["cl"], rule=c.get("r", ""), args=c.get("args", []),
                     prem=[ref(*p) for p in c.get("p", [])], dis=[ref(*p) for p in c.get("d", [])], prev=[], isend=isend,
                     encl=encl[:-1] if isend else encl, asm=[], ctx=[])
            if isend:
                r["prev"] = [keys[-1]] if keys else []
                r["asm"] = [x for x, y in zip(keys, cs) if "a" in y]
                r["ctx"] = [str(a) for a in anchor["args"]]
            keys.append(k)
            out.append(r)
        frames.pop()
    walk(cmds, "", [], None)
    return out
