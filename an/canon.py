"""Behaviour-preserving canonicalisation of loops, so that a rewritten loop is analysed like the original.

  while (i < n) { ...; i++; }            ->  for (; i < n; i++) { ... }
  for (...; c;) { ...; i++; }            ->  for (...; c; i++) { ... }
  i += 1 / i = i + 1 / i++               ->  ++i          (as loop increment)
"""
import copy


def walk(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(v for v in y.values() if isinstance(v, (dict, list)))
        elif isinstance(y, list):
            st.extend(y)


def strip(e):
    while e and e.get("k") == "cast":
        e = e["e"]
    return e or {}


def local(e):
    e = strip(e)
    return e.get("i") if e.get("k") == "ref" and e.get("d") in ("l", "p") else None


def incvar(e, o="+"):
    """Local incremented (o = "-": decremented) by one by this expression, or None."""
    e = strip(e)
    k = e.get("k")
    if k == "un" and e["op"] == o + o:
        return local(e["e"])
    if k == "call" and e.get("opc") == o + o:
        return local(e.get("o") or (e.get("a") or [None])[0])
    if k == "bin" and e["op"] == o + "=" and strip(e["y"]).get("v") == 1:
        return local(e["x"])
    if k == "bin" and e["op"] == "=":
        y = strip(e["y"])
        if y.get("k") == "bin" and y["op"] == o and local(y["x"]) == local(e["x"]) and strip(y["y"]).get("v") == 1:
            return local(e["x"])
        if y.get("k") == "bin" and y["op"] == o == "+" and local(y["y"]) == local(e["x"]) and strip(y["x"]).get("v") == 1:
            return local(e["x"])
    return None


def condvar(c):
    c = strip(c)
    if c.get("k") == "bin" and c["op"] in ("<", "<=", "!="):
        return local(c["x"])
    if c.get("k") == "bin" and c["op"] in (">", ">="):
        return local(c["y"])
    if c.get("k") == "call" and c.get("opc") in ("!=", "<"):
        xs = ([c["o"]] if "o" in c else []) + c["a"]
        return local(xs[0]) if xs else None
    return None


def has_continue(s):
    """continue that belongs to this loop body."""
    if isinstance(s, list):
        return any(has_continue(x) for x in s)
    if not isinstance(s, dict):
        return False
    if s.get("k") == "continue":
        return True
    if s.get("k") in ("for", "while", "do", "rfor", "lambda"):
        return False
    return any(has_continue(v) for v in s.values() if isinstance(v, (dict, list)))


def mentions(s, i):
    return any(y.get("k") == "ref" and y.get("i") == i and y.get("d") in ("l", "p") for y in walk(s))


def assigns(s, i):
    n = 0
    for y in walk(s):
        if y.get("k") == "un" and y.get("op") in ("++", "--") and local(y["e"]) == i:
            n += 1
        elif y.get("k") == "bin" and y["op"].endswith("=") and y["op"] not in ("==", "!=", "<=", ">=") and local(y["x"]) == i:
            n += 1
        elif y.get("k") == "call" and y.get("opc") in ("++", "--", "+=", "-=", "=") and local(y.get("o") or (y.get("a") or [None])[0]) == i:
            n += 1
        elif y.get("k") == "un" and y.get("op") == "&" and local(y["e"]) == i:
            n += 1
    return n


def canon_loop(s):
    body = s.get("b")
    if not body or body.get("k") != "blk" or s.get("c") is None:
        return
    for c in conjuncts(s["c"]):
        for i in [condvar(c)] + ([local(c["x"]), local(c["y"])] if c.get("k") == "bin" and c["op"] in NEG and c["op"] != "==" else []):
            if i is not None and assigns(body, i) == 1 and counted(s, body, i):
                return


def counted(s, body, i):
    st = body["b"]
    for n, x in enumerate(st):
        if x.get("k") == "expr" and (incvar(x["e"]) == i or incvar(x["e"], "-") == i):
            if has_continue(st[:n]) or mentions(st[n + 1:], i):
                return False
            s["k"] = "for"
            s.setdefault("in", None)
            s["inc"] = x["e"]
            s["b"] = dict(body, b=st[:n] + st[n + 1:])
            return True
    return False


def leading_break(s):
    """while (true) { if (c) break; B }  ->  while (!c) { B }"""
    b = s.get("b")
    c = strip(s.get("c") or {"k": "bool", "v": True})
    if c.get("k") not in ("bool", "int") or not c.get("v") or not b or b.get("k") != "blk" or not b["b"]:
        return
    x = b["b"][0]
    if x.get("k") != "if" or x.get("el") or x.get("in") or x.get("cvr"):
        return
    th = x["th"]
    while th and th.get("k") == "blk" and len(th["b"]) == 1:
        th = th["b"][0]
    if th and th.get("k") == "break":
        s["c"] = negate(x["c"])
        s["b"] = dict(b, b=b["b"][1:])


def only_break(st):
    """while (true) { ..; if (c) { S; break; } .. }  ->  while (true) { ..; if (c) break; .. } S   (the only way out of the loop)"""
    n = 0
    while n < len(st):
        s = st[n]
        n += 1
        if not isinstance(s, dict) or s.get("k") not in ("while", "for") or s.get("inc") or not s.get("b") or s.get("in"):
            continue
        c = strip(s.get("c") or {"k": "bool", "v": True})
        if c.get("k") not in ("bool", "int") or not c.get("v"):
            continue
        found = own_breaks(s["b"], [])
        if len(found) != 1:
            continue
        blk, m = found[0]
        tail = blk["b"][:m]
        inner = {v["i"] for y in walk(s["b"]) if y.get("k") == "decl" for v in y["v"] if v.get("i") is not None}
        if not tail or has_continue(tail) or any(x.get("k") in ("decl", "ret") for x in tail) or any(y.get("k") == "ret" for x in tail for y in walk(x)) \
                or any(mentions(x, i) for x in tail for i in inner):
            continue
        blk["b"] = blk["b"][m:]
        st[n:n] = tail


def own_breaks(s, out):
    """(block, position) of the breaks that belong to this loop body."""
    if isinstance(s, dict):
        if s.get("k") in ("for", "while", "do", "rfor", "lambda", "switch"):
            return out
        if s.get("k") == "break":
            out.append(({"b": [s]}, 0))
        for k, v in s.items():
            if isinstance(v, list) and s.get("k") == "blk" and k == "b":
                for m, x in enumerate(v):
                    if isinstance(x, dict) and x.get("k") == "break":
                        out.append((s, m))
                    else:
                        own_breaks(x, out)
            elif isinstance(v, (dict, list)):
                own_breaks(v, out)
    elif isinstance(s, list):
        for x in s:
            own_breaks(x, out)
    return out


POS = {"l", "c0", "col", "_alg", "_loopix"}


def alike(a, b):
    """The two syntax trees are the same up to position."""
    if isinstance(a, dict) and isinstance(b, dict):
        if a.get("k") == "cast" and a.get("ck") in ("NoOp", "LValueToRValue") and b.get("k") != "cast":
            return alike(a["e"], b)
        ka, kb = set(a) - POS, set(b) - POS
        return ka == kb and all(alike(a[k], b[k]) for k in ka)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return a == b


def unrotate(blk):
    """A; while (c) { B; A }  ->  while (true) { A; if (!c) break; B }  and  do { B } while (c)  ->  while (true) { B; if (!c) break; }"""
    st = blk["b"]
    out = []
    for s in st:
        b = s.get("b") if isinstance(s, dict) else None
        if s.get("k") == "while" and not s.get("cvr") and b and b.get("k") == "blk" and not has_continue(b):
            n = 0
            while n < len(b["b"]) and n < len(out) and out[-1 - n].get("k") == "expr" and alike(out[-1 - n], b["b"][-1 - n]):
                n += 1
            if n:
                a, body = b["b"][len(b["b"]) - n:], b["b"][:len(b["b"]) - n]
                del out[len(out) - n:]
                s["b"] = dict(b, b=a + [{"k": "if", "c": negate(s["c"]), "th": {"k": "break", "l": s.get("l")}, "el": None, "l": s.get("l")}] + body)
                s["c"] = {"k": "bool", "v": True, "l": s.get("l"), "t": "bool"}
        elif s.get("k") == "do" and b and not has_continue(b) and strip(s.get("c")).get("v") is not False:
            s["b"] = {"k": "blk", "b": (b["b"] if b.get("k") == "blk" else [b]) + [{"k": "if", "c": negate(s["c"]), "th": {"k": "break", "l": s.get("l")}, "el": None, "l": s.get("l")}], "l": s.get("l")}
            s["k"] = "while"
            s["c"] = {"k": "bool", "v": True, "l": s.get("l"), "t": "bool"}
        out.append(s)
    st[:] = out


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def negate(e):
    x = strip(e)
    if x.get("k") == "bin" and x["op"] in NEG:
        return dict(x, op=NEG[x["op"]])
    if x.get("k") == "un" and x["op"] == "!":
        return x["e"]
    return {"k": "un", "op": "!", "e": e, "l": e.get("l"), "t": "bool"}


def ends(s):
    """The statement always ends the iteration with continue."""
    if not s:
        return False
    if s.get("k") == "continue":
        return True
    if s.get("k") == "blk":
        return bool(s["b"]) and ends(s["b"][-1])
    return s.get("k") == "if" and ends(s.get("th")) and ends(s.get("el"))


def stmts(s):
    return [] if not s else s["b"] if s.get("k") == "blk" else [s]


def leaves_body(s):
    """The statement always ends with break or return."""
    if not s:
        return False
    if s.get("k") in ("break", "ret"):
        return True
    if s.get("k") == "blk":
        return bool(s["b"]) and leaves_body(s["b"][-1])
    return s.get("k") == "if" and leaves_body(s.get("th")) and leaves_body(s.get("el"))


def flatten(blk):
    """if (c) { ..; break; } else { S }  ->  if (c) { ..; break; } S"""
    out, todo = [], list(reversed(blk["b"]))
    while todo:
        s = todo.pop()
        if s.get("k") == "if" and s.get("el") and not s.get("in") and not s.get("cvr"):
            if leaves_body(s["th"]):
                el = s["el"]
                s["el"] = None
                todo.extend(reversed(stmts(el)))
            elif leaves_body(s["el"]):
                th = s["th"]
                s["c"], s["th"], s["el"] = negate(s["c"]), s["el"], None
                todo.extend(reversed(stmts(th)))
        out.append(s)
    blk["b"][:] = out


def last_step(s):
    """for (i = ..; ..) { ..; f(i++); break; }  ->  f(i): the loop's own variable ends with the loop"""
    d = s.get("in") or {}
    if d.get("k") != "decl":
        return
    own = {v["i"] for v in d["v"]}
    for y in walk(s["b"]):
        if y.get("k") != "blk":
            continue
        for n in range(len(y["b"]) - 1):
            if y["b"][n + 1].get("k") == "break" and y["b"][n].get("k") == "expr":
                todo = [y["b"][n]]
                while todo:
                    z = todo.pop()
                    for k, v in list(z.items()):
                        for m, w in enumerate(v) if isinstance(v, list) else [(None, v)]:
                            if not isinstance(w, dict) or k == "l":
                                continue
                            t = w.get("e") if w.get("k") == "un" and w.get("op") == "++" and w.get("post") else w.get("o") if w.get("k") == "call" and w.get("opc") == "++" and len(w.get("a", [])) == 1 and "o" in w else None
                            if t is not None and local(t) in own and sum(mentions(u, local(t)) for u in [y["b"][n]]) == 1:
                                if m is None:
                                    z[k] = t
                                else:
                                    v[m] = t
                            else:
                                todo.append(w)


def lower_bound(s):
    """for (i = 0; i < n; i++) if (i >= k) S  ->  for (i = k; i < n; i++) S   (k unsigned and fixed)"""
    d = s.get("in") or {}
    if d.get("k") != "decl" or len(d["v"]) != 1 or strip(d["v"][0].get("init")).get("v") != 0 or incvar(s["inc"]) != d["v"][0]["i"]:
        return
    i = d["v"][0]["i"]
    c, b = strip(s.get("c") or {}), stmts(s["b"])
    if c.get("k") != "bin" or c["op"] not in ("<", "<=") or local(c["x"]) != i or len(b) != 1 or b[0].get("k") != "if" or b[0].get("el") or b[0].get("in") or b[0].get("cvr"):
        return
    g = strip(b[0]["c"])
    if g.get("k") != "bin" or g["op"] not in NEG or assigns(b, i):
        return
    x, op, y = g["x"], g["op"], g["y"]
    if local(y) == i:
        x, y, op = y, x, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    k = strip(y)
    if local(x) != i or op != ">=" or k.get("k") != "ref" or k.get("d") not in ("l", "p") or not (k.get("t") or "").replace("const ", "").startswith(("unsigned", "size_t")) or assigns(b, k["i"]) or k["i"] == i:
        return
    d["v"][0]["init"] = y
    s["b"] = b[0]["th"]


def splitinc(blk):
    """S(i++);  ->  S(i); i++;   (a local that the statement mentions once, where it is always evaluated)"""
    out = []
    for s in blk["b"]:
        r = s if isinstance(s, dict) and (s.get("k") == "expr" or s.get("k") == "decl" and len(s["v"]) == 1) else None
        found = None
        if r is not None and not (r["k"] == "expr" and (incvar(r["e"]) is not None or incvar(r["e"], "-") is not None)):
            todo = [(r, k, v) for k, v in r.items()]
            while todo and found is None:
                z, k, v = todo.pop()
                if isinstance(v, list):
                    todo += [(v, m, w) for m, w in enumerate(v)]
                elif isinstance(v, dict):
                    o = v["op"] if v.get("k") == "un" else v.get("opc") if v.get("k") == "call" else None
                    if o in ("++", "--"):
                        t = v["e"] if v["k"] == "un" else v.get("o")
                        post = v.get("post") if v["k"] == "un" else len(v.get("a", [])) == 1
                        i = local(t)
                        if i is not None and sum(1 for y in walk(r) if y.get("k") == "ref" and y.get("i") == i and y.get("d") in ("l", "p")) == 1:
                            found = (z, k, v, t, post)
                            continue
                    if v.get("k") in ("cond", "lambda") or v.get("k") == "bin" and v["op"] in ("&&", "||"):
                        continue
                    todo += list((v, m, w) for m, w in v.items())
        if found is None:
            out.append(s)
            continue
        z, k, v, t, post = found
        z[k] = t
        e = {"k": "expr", "e": v, "l": s.get("l")}
        out += [s, e] if post else [e, s]
    blk["b"][:] = out


def flagged(blk):
    """bool f = false; for (..; c && !f; ..) { ..; f = true; }  ->  for (..; c; ..) { ..; f = true; break; }   (f assigned only where an iteration ends)"""
    st = blk["b"]
    for n, s in enumerate(st):
        if s.get("k") not in ("for", "while") or not s.get("c") or not s.get("b") or has_continue(s["b"]):
            continue
        cs = conjuncts(s["c"])
        for c in cs:
            i, stop = (local(c["e"]), True) if c.get("k") == "un" and c["op"] == "!" else (local(c), False)
            if i is None or (strip(c).get("t") or strip(c["e"]).get("t") if c.get("k") == "un" else c.get("t")) not in ("bool", "_Bool"):
                continue
            if not declared(st[:n], i, not stop):
                continue
            m = assigns(s["b"], i)
            if not m or s.get("inc") and mentions(s["inc"], i) or any(mentions(d, i) for d in cs if d is not c):
                continue
            b = {"k": "blk", "b": list(stmts(s["b"])), "l": s.get("l")}
            if settle(b["b"], i, stop) == m:
                s["b"] = b
                rest = [d for d in cs if d is not c]
                e = rest[0] if rest else {"k": "bool", "v": True, "l": s.get("l"), "t": "bool"}
                for d in rest[1:]:
                    e = {"k": "bin", "op": "&&", "x": e, "y": d, "l": s.get("l"), "t": "bool"}
                s["c"] = e
                break


def conjuncts(e):
    e = strip(e)
    if e.get("k") == "bin" and e["op"] == "&&":
        return conjuncts(e["x"]) + conjuncts(e["y"])
    if e.get("k") == "un" and e["op"] == "!":
        x = strip(e["e"])
        if x.get("k") == "bin" and x["op"] == "||":
            return conjuncts(negate(x["x"])) + conjuncts(negate(x["y"]))
        if x.get("k") == "un" and x["op"] == "!":
            return conjuncts(x["e"])
        if x.get("k") == "bin" and x["op"] in NEG:
            return [negate(x)]
    return [e]


def uses(s, i):
    return sum(1 for y in walk(s) if y.get("k") == "ref" and y.get("i") == i and y.get("d") in ("l", "p"))


def oneuse(node):
    """bool t = c; if (t) S  ->  if (c) S;   T t = e; return t;  ->  return e;   i = 0 declared in front of the only loop that uses it  ->  for (i = 0; ..)"""
    for blk in walk(node):
        if blk.get("k") != "blk":
            continue
        st = blk["b"]
        st[:] = [s for s in st if not (isinstance(s, dict) and s.get("k") == "if" and not s.get("el") and never(s["c"]))]
        n = 0
        while n + 1 < len(st):
            d, s = st[n], st[n + 1]
            n += 1
            if not isinstance(d, dict) or d.get("k") != "decl" or len(d["v"]) != 1 or not isinstance(s, dict):
                continue
            v = d["v"][0]
            t = (v.get("t") or "").replace("const ", "").strip()
            if not v.get("init") or v.get("i") is None or v.get("st") or v.get("static"):
                continue
            if s.get("k") == "ret" and s.get("e") and s["e"].get("k") in ("ref", "cast") and local(s["e"]) == v["i"] and (s["e"]["k"] == "ref" or s["e"].get("ck") in ("NoOp", "LValueToRValue")):
                if t in SCALAR:
                    s["e"] = v["init"]
                    del st[n - 1]
                    n = max(n - 2, 0)
            elif s.get("k") == "if" and t in ("bool", "_Bool") and not s.get("in") and not s.get("cvr") and uses(st[n:], v["i"]) == 1:
                if local(s["c"]) == v["i"]:
                    s["c"] = v["init"]
                elif strip(s["c"]).get("k") == "un" and strip(s["c"])["op"] == "!" and local(strip(s["c"])["e"]) == v["i"]:
                    s["c"] = negate(v["init"])
                else:
                    continue
                del st[n - 1]
                n = max(n - 2, 0)


def never(c, want=False):
    c = strip(c)
    if c.get("k") == "un" and c["op"] == "!":
        return never(c["e"], not want)
    return c.get("k") in ("bool", "int") and bool(c.get("v")) == want


SCALAR = {"bool", "_Bool", "double", "float", "int", "unsigned int", "unsigned long", "long", "size_t", "std::size_t", "char", "unsigned char", "short", "unsigned short"}


def hoist(node):
    """T i = e; for (; c; i++) B  ->  for (T i = e; c; i++) B   (i not used after the loop)"""
    for blk in list(walk(node)):
        if blk.get("k") != "blk":
            continue
        st = blk["b"]
        n = 0
        while n + 1 < len(st):
            d, s = st[n], st[n + 1]
            n += 1
            if isinstance(d, dict) and d.get("k") == "decl" and len(d["v"]) == 1 and isinstance(s, dict) and s.get("k") == "for" and not s.get("in") and s.get("inc") is not None and d["v"][0].get("i") is not None:
                i = d["v"][0]["i"]
                if d["v"][0].get("init") and (incvar(s["inc"]) == i or incvar(s["inc"], "-") == i) and not any(mentions(x, i) for x in st[n + 1:]):
                    s["in"] = d
                    del st[n - 1]
                    lower_bound(s)


def counter_only(s):
    """for (..; i < n && c; i++) B  ->  for (..; i < n; i++) { if (!c) break; B }"""
    cs = conjuncts(s["c"])
    v = incvar(s["inc"])
    v = v if v is not None else incvar(s["inc"], "-")
    if len(cs) < 2 or v is None or assigns(s["b"], v) or has_continue(s["b"]):
        return
    for c in cs:
        if c.get("k") == "bin" and c["op"] in ("<", "<=", "!=", ">", ">=") and v in (local(c["x"]), local(c["y"])) or c.get("k") == "call" and c.get("opc") == "!=" and condvar(c) == v:
            out = [{"k": "if", "c": negate(d), "th": {"k": "break", "l": s.get("l")}, "el": None, "l": s.get("l")} for d in cs if d is not c]
            s["c"] = c
            s["b"] = {"k": "blk", "b": out + stmts(s["b"]), "l": s.get("l")}
            return


def declared(st, i, v):
    """The last statement about the local i is its declaration (or an assignment) with the value v."""
    for s in reversed(st):
        if s.get("k") == "decl":
            for d in s["v"]:
                if d.get("i") == i:
                    x = strip(d.get("init"))
                    while x.get("k") in ("list", "stdinit") and len(x.get("a") or []) == 1:
                        x = strip(x["a"][0])
                    return x.get("k") == "bool" and bool(x.get("v")) == v
        if s.get("k") == "expr":
            e = strip(s["e"])
            if e.get("k") == "bin" and e["op"] == "=" and local(e["x"]) == i:
                x = strip(e["y"])
                return x.get("k") == "bool" and bool(x.get("v")) == v
        if mentions(s, i):
            return False
    return False


def settle(st, i, v):
    """Put 'break' behind the assignments 'i = v' that end an iteration; number of assignments dealt with."""
    if not st:
        return 0
    s = st[-1]
    if s.get("k") == "blk":
        return settle(s["b"], i, v)
    if s.get("k") == "if":
        if mentions(s.get("in") or {}, i):
            return 0
        n = 0
        for b in ("th", "el"):
            if s.get(b):
                s[b] = {"k": "blk", "b": list(stmts(s[b])), "l": s.get("l")}
                n += settle(s[b]["b"], i, v)
        return n
    if s.get("k") != "expr":
        return 0
    e = strip(s["e"])
    if e.get("k") != "bin" or e["op"] != "=" or local(e["x"]) != i:
        return 0
    x = strip(e["y"])
    br = {"k": "break", "l": s.get("l")}
    if x.get("k") == "bool":
        if bool(x.get("v")) != v:
            return 0
        st.append(br)
        return 1
    c = {"k": "ref", "d": "l", "i": i, "n": "", "l": s.get("l"), "t": "bool"}
    st.append({"k": "if", "c": c if v else negate(c), "th": br, "el": None, "l": s.get("l")})
    return 1


class Stuck(Exception):
    pass


def decontinue(st, l):
    """The statements of a loop body without continue: what follows goes into the other branch."""
    for n, s in enumerate(st):
        if s.get("k") == "continue":
            return st[:n]
        if s.get("k") == "blk" and has_continue(s):
            return decontinue(st[:n] + s["b"] + st[n + 1:], l)
        if s.get("k") == "if" and has_continue(s):
            rest, th, el = st[n + 1:], stmts(s.get("th")), stmts(s.get("el"))
            if ends(s.get("th")):
                el = el + rest
            elif ends(s.get("el")):
                th = th + rest
            elif rest:
                raise Stuck
            el = decontinue(el, l)
            return st[:n] + [dict(s, th={"k": "blk", "b": decontinue(th, l), "l": l}, el={"k": "blk", "b": el, "l": l} if el else None)]
        if has_continue(s):
            raise Stuck
    return st


def tailbreak(st, tail):
    """In a loop, 'return E' does the same as 'break' when 'return E' is all that follows the loop (E = None: falling off the end)."""
    for n, s in enumerate(st):
        if not isinstance(s, dict):
            continue
        rest = st[n + 1:]
        t = tail if not rest else rest[0] if rest[0].get("k") == "ret" else "?"
        if s.get("k") == "blk":
            tailbreak(s["b"], t)
        elif s.get("k") == "if":
            for b in ("th", "el"):
                if s.get(b):
                    tailbreak(stmts(s[b]), t)
        elif s.get("k") in ("while", "for", "do", "rfor") and t != "?" and s.get("b"):
            s["b"] = breaks(s["b"], t.get("e") if t else None)


def breaks(s, e):
    k = s.get("k")
    if k == "ret":
        same = s.get("e") is None if e is None else s.get("e") is not None and alike(s["e"], e)
        return {"k": "break", "l": s.get("l")} if same else s
    if k == "blk":
        return dict(s, b=[breaks(x, e) for x in s["b"]])
    if k == "if":
        return dict(s, th=s["th"] and breaks(s["th"], e), el=s["el"] and breaks(s["el"], e))
    return s


def elements(e):
    """Element expressions of a braced list."""
    e = strip(e)
    while e.get("k") in ("ctor", "stdinit", "cast") and "initializer_list" in (e.get("t") or e.get("c") or "") and (e.get("e") or len(e.get("a") or []) == 1):
        e = strip(e.get("e") or e["a"][0])
    return e.get("a") if e.get("k") == "list" else None


def has_break(s):
    """break that belongs to this loop body."""
    if isinstance(s, list):
        return any(has_break(x) for x in s)
    if not isinstance(s, dict):
        return False
    if s.get("k") == "break":
        return True
    if s.get("k") in ("for", "while", "do", "rfor", "lambda", "switch"):
        return False
    return any(has_break(v) for v in s.values() if isinstance(v, (dict, list)))


def arraysize(e):
    e = strip(e)
    t = e.get("t") or ""
    if e.get("k") in ("ref", "mem") and t.endswith("]") and t.count("[") == 1:
        n = t[t.index("[") + 1:-1]
        return int(n) if n.isdigit() else None
    return None


def rangefor(s):
    """for (x : {a, b}) B  ->  { x = a; B } { x = b; B };  over an array of n elements: a loop over the index."""
    v, b, l = s["v"], s["b"], s.get("l")
    if v.get("i") is None or not b:
        return
    xs = elements(s["r"])
    if xs is not None and 0 < len(xs) <= 32 and not has_break(b) and not has_continue(b):
        out = []
        for x in xs:
            out.append({"k": "blk", "l": l, "b": [{"k": "decl", "l": l, "v": [dict(v, init=x, rf=False)]}, copy.deepcopy(b)]})
        s.clear()
        s.update(k="blk", b=out, l=l)
        return
    n = arraysize(s["r"])
    if n:
        r = s["r"]
        j = {"k": "ref", "d": "l", "i": "rf%s" % v["i"], "n": "index", "l": l, "t": "unsigned long"}
        el = {"k": "idx", "b": r, "x": j, "l": l, "t": v.get("t", "")}
        inn = {"k": "decl", "l": l, "v": [{"i": j["i"], "n": "index", "init": {"k": "int", "v": 0, "l": l, "t": "int"}, "t": "unsigned long"}]}
        s.clear()
        s.update({"k": "for", "in": inn, "l": l, "c": {"k": "bin", "op": "<", "x": j, "y": {"k": "int", "v": n, "l": l, "t": "int"}, "l": l, "t": "bool"},
                  "inc": {"k": "un", "op": "++", "e": j, "l": l, "t": "unsigned long"},
                  "b": {"k": "blk", "l": l, "b": [{"k": "decl", "l": l, "v": [dict(v, init=el)]}] + stmts(b)}})


def canon(node):
    oneuse(node)
    for y in list(walk(node)):
        if y.get("k") == "rfor":
            rangefor(y)
    if node.get("k") == "blk":
        tailbreak(node["b"], None)
    for y in list(walk(node)):
        if y.get("k") == "lambda" and y.get("body"):
            tailbreak(stmts(y["body"]), None)
    for y in walk(node):
        if y.get("k") in ("while", "for", "do", "rfor") and y.get("b") and has_continue(y["b"]):
            try:
                y["b"] = {"k": "blk", "b": decontinue(stmts(y["b"]), y.get("l")), "l": y.get("l")}
            except Stuck:
                pass
    for y in walk(node):
        if y.get("k") in ("while", "for", "do") and y.get("b"):
            if y["b"].get("k") == "expr":
                y["b"] = {"k": "blk", "b": [y["b"]], "l": y.get("l")}
            for z in list(walk(y["b"])):
                if z.get("k") == "blk":
                    splitinc(z)
    for y in walk(node):
        if y.get("k") == "blk":
            flagged(y)
            unrotate(y)
            only_break(y["b"])
    for y in walk(node):
        if y.get("k") == "blk":
            flatten(y)
    for y in walk(node):
        if y.get("k") == "for" and y.get("b"):
            last_step(y)
    for y in walk(node):
        if y.get("k") in ("while", "for"):
            leading_break(y)
        if y.get("k") == "while":
            canon_loop(y)
        elif y.get("k") == "for" and y.get("inc") is None:
            canon_loop(y)
        if y.get("k") == "for" and y.get("inc") is not None:
            e = y["inc"]
            v = incvar(e)
            o = "++" if v is not None else "--"
            v = v if v is not None else incvar(e, "-")
            x = strip(e)
            if v is not None and x.get("k") == "bin":
                y["inc"] = {"k": "un", "op": o, "e": x["x"], "l": x.get("l"), "t": x.get("t")}
            c = strip(y.get("c") or {})
            if c.get("k") == "bin" and c["op"] in (">", ">=") and v is not None and local(c["y"]) == v and local(c["x"]) != v:
                y["c"] = dict(c, op={">": "<", ">=": "<="}[c["op"]], x=c["y"], y=c["x"])
            if y.get("c") and y.get("b"):
                counter_only(y)
            lower_bound(y)
    hoist(node)


def run(funcs):
    for f in funcs:
        if f.get("body") is not None and not f.get("_canon"):
            canon(f["body"])
            f["_canon"] = True
