"""structural rule of C17: the main loop of an iterative routine is bounded by
a counter that only moves one way and is compared with a loop invariant"""
LOOPS = ("for", "while", "do")
CMP = ("<", ">", "<=", ">=", "==", "!=")


def kids(x):
    if isinstance(x, dict):
        return [v for v in x.values() if isinstance(v, (dict, list))]
    return x if isinstance(x, list) else []


def walk(x):
    if isinstance(x, dict):
        yield x
    for y in kids(x):
        yield from walk(y)


def outer(x):
    if isinstance(x, dict) and x.get("k") in LOOPS:
        yield x
        return
    for y in kids(x):
        yield from outer(y)


def size(x):
    return sum(1 for _ in walk(x))


def var(x):
    """declaration id of a plain variable, through casts"""
    while isinstance(x, dict):
        if x.get("k") == "ref":
            return x.get("d")
        if x.get("k") in ("cast", "copy", "paren"):
            x = x.get("e")
        else:
            return None


def num(x):
    while isinstance(x, dict) and x.get("k") in ("cast", "copy", "paren"):
        x = x.get("e")
    if isinstance(x, dict) and x.get("k") == "c":
        try:
            return int(x.get("v"))
        except (TypeError, ValueError):
            return None


def plain(x):
    """v, v + const, v - const"""
    d = var(x)
    if d is not None:
        return d
    while isinstance(x, dict) and x.get("k") in ("cast", "copy", "paren"):
        x = x.get("e")
    if isinstance(x, dict) and x.get("k") == "bin" and x.get("op") in ("+", "-"):
        if num(x["b"]) is not None:
            return plain(x["a"])
        if num(x["a"]) is not None and x["op"] == "+":
            return plain(x["b"])
    if isinstance(x, dict) and x.get("k") == "un" and x.get("op") in ("++", "--"):
        return var(x["e"])


def step(x):
    """(variable, direction) of a modification, direction 0 for any other"""
    k = x.get("k")
    if k == "un" and x.get("op") in ("++", "--"):
        d = var(x["e"])
        return None if d is None else (d, 1 if x["op"] == "++" else -1)
    if k == "bin" and x.get("op", "").endswith("=") and x["op"] not in CMP:
        d = var(x["a"])
        if d is None:
            return None
        n = num(x["b"])
        if x["op"] in ("+=", "-="):
            if n is None or n == 0:
                return (d, 0)
            return (d, (1 if n > 0 else -1) * (1 if x["op"] == "+=" else -1))
        if x["op"] == "=":
            # v = v + const
            e = x["b"]
            while isinstance(e, dict) and e.get("k") in ("cast", "copy", "paren"):
                e = e.get("e")
            if isinstance(e, dict) and e.get("k") == "bin" and e.get("op") in ("+", "-"):
                a, n = var(e["a"]), num(e["b"])
                if a is None and e["op"] == "+":
                    a, n = var(e["b"]), num(e["a"])
                if a == d and n:
                    return (d, (1 if n > 0 else -1) * (1 if e["op"] == "+" else -1))
        return (d, 0)


def bounded(I, L):
    """does a counter bound the loop L?  I gives assigned() of a subtree"""
    mods = {}
    for x in walk(L):
        s = step(x)
        if s:
            mods.setdefault(s[0], set()).add(s[1])
    allmod = I(L)
    cnt = set()
    for d, ds in mods.items():
        if ds == {1} or ds == {-1}:
            cnt.add(d)
    # an unconditional step
    top = []
    for key, v in L.items():
        if key == "b":
            b = v
            while isinstance(b, dict) and b.get("k") == "block":
                b = b.get("b")
            for y in b if isinstance(b, list) else [b]:
                if isinstance(y, dict) and y.get("k") in ("expr", "if"):
                    top += list(walk(y if y["k"] == "expr" else y.get("c")))
        elif isinstance(v, (dict, list)) and key != "i":
            top += list(walk(v))
    moved = {step(x)[0] for x in top if step(x)}
    cnt &= moved
    if not cnt:
        return False
    cond = list(walk(L.get("c")))
    neg = any(x.get("k") == "un" and x.get("op") == "!" for x in cond)
    cond = {id(x) for x in cond}
    for x in walk(L):
        if x.get("k") == "bin" and x.get("op") in CMP:
            d = plain(x["a"])
            if id(x) in cond and not neg and x["op"] not in ("==", "!=") and d in cnt:
                # goes on while the counter is already past the limit: no bound
                if (x["op"][0] == "<") != (mods[d] == {1}):
                    continue
            for a, b in ((x["a"], x["b"]), (x["b"], x["a"])):
                if plain(a) in cnt and not any(y.get("k") == "ref" and y.get("d") in allmod for y in walk(b)):
                    return True
        elif x.get("k") == "call" and any(var(a) in cnt for a in x.get("a", []) if isinstance(a, dict)):
            return True
    return False
