"""One document under other names: an injective renaming of its symbols changes no verdict."""
import re


def rename(t, m, quote=True):
    return re.sub(r"[^\s();]+", lambda z: ("|%s|" if quote else "%s") % m[z.group(0)] if z.group(0) in m else z.group(0), t)
