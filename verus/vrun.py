#!/usr/bin/env python3
"""Contract verification of functions extracted from /repo on every run, with Verus.

A unit (units/NAME.vrs) is Verus text with directives. A directive block names one function of the
repository; its text is cut out of the source file as it stands now, and the contract and the loop
invariants of the block are inserted around it:

    //@ fn <file> [impl header] :: <name>
    //@ ret <binder>              name for the returned value (`-> T` becomes `-> (binder: T)`)
    //@ spec                      requires/ensures clauses (lines up to the next directive)
    //@ loop <n> [iter]           invariant/decreases of the n-th loop (in source order, from 0); with `iter`
                                  the ghost iterator of a `for` loop gets that name
    //@ loop-start <n> / loop-end <n> / loop-after <n>   proof text at those points
    //@ closure <n> <types> ; <return binder: type>      contract of the n-th closure (parameters a0, a1, ..)
    //@ start / end               proof text at the start of the body / before its last expression
    //@ tail <name>               the last expression gets a name, the text comes between it and the return
    //@ before <regex>            proof text before the first line of the body that matches
    //@ subst <old> => <new>      text of the function replaced (reported); white space in <old> is free
    //@ init <name> <expr>        the initialiser of `let <name>` replaced (reported)
    //@ instantiate               type parameters and where clause dropped: the unit declares a type of each name
    //@ generics <..>            with `instantiate`: the type parameters that are kept
    //@ rename <new name>         name of the extracted function in the unit
    //@ done

    //@ struct <file> <name>      the definition of a struct without its attributes
    //@ derive <text>

What extraction changes in the text of a function (nothing else): attributes and comments are dropped,
`pub`/`pub(crate)` is kept; reference patterns, which Verus does not accept, are written out
(`for &x in e {` becomes `for x__r in e { let x = *x__r;`, a closure `|&x| e` gets a parameter and a
`let`); `let P = E else { continue; }; R` in a `for` loop becomes `if let P = E { R }`, because Verus
has no `continue` there; `debug_assert!`s are dropped (they are not part of a release build; they are reported);
"::" paths listed in `//@ path old new` directives of the unit are replaced (reported).
"""
import concurrent.futures
import json, os, re, subprocess, sys, time

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


class Lost(Exception):
    pass


def blank(src):
    """The same text with comments, strings and character literals blanked out."""
    out = list(src)
    i, n = 0, len(src)

    def wipe(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "

    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            wipe(i, j)
            i = j
        elif src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            wipe(i, j)
            i = j
        elif c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            wipe(i + 1, j)
            i = j + 1
        elif c == "'":
            m = re.compile(r"'(\\.[^']*|[^'\\])'").match(src, i)
            if m:
                wipe(i + 1, m.end() - 1)
                i = m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


def close(b, i):
    """Index just after the bracket that closes the one at i (in blanked text)."""
    pairs = {"{": "}", "(": ")", "[": "]"}
    st = []
    while i < len(b):
        if b[i] in pairs:
            st.append(pairs[b[i]])
        elif b[i] in "})]":
            if st.pop() != b[i]:
                raise Lost("unbalanced brackets")
            if not st:
                return i + 1
        i += 1
    raise Lost("unbalanced brackets")


def strip_comments(src):
    """Removes comments but keeps strings."""
    b = blank(src)
    out = []
    i = 0
    while i < len(src):
        if src.startswith("//", i) and b[i:i + 2] == "  ":
            j = src.find("\n", i)
            i = len(src) if j < 0 else j
        elif src.startswith("/*", i) and b[i:i + 2] == "  ":
            depth, j = 1, i + 2
            while j < len(src) and depth:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            i = j
        else:
            out.append(src[i])
            i += 1
    return "".join(out)


def norm(s):
    return re.sub(r"\s+", "", s)


def read(file):
    p = f"{REPO}/{file}"
    if not os.path.exists(p):
        raise Lost(f"{file} is gone")
    return strip_comments(open(p).read())


def find_impl(src, header):
    b = blank(src)
    for m in re.finditer(r"\b(impl|trait|mod)\b", b):
        j = b.find("{", m.start())
        if j < 0:
            continue
        head = src[m.start():j]
        if not re.search(r"\bwhere\b", header):
            head = re.split(r"\bwhere\b", head)[0]
        if norm(head).rstrip(",") == norm(header).rstrip(","):
            yield j + 1, close(b, j) - 1


def find_fn(src, name, regions):
    b = blank(src)
    for lo, hi in regions:
        depth = 0
        i = lo
        for m in re.finditer(r"[{}]|\bfn\s+" + re.escape(name) + r"\b", b[lo:hi]):
            t = m.group()
            if t == "{":
                depth += 1
            elif t == "}":
                depth -= 1
            elif depth == 0:
                s = lo + m.start()
                # signature up to the body's opening brace
                k = s
                par = 0
                while k < hi:
                    if b[k] in "([":
                        par += 1
                    elif b[k] in ")]":
                        par -= 1
                    elif b[k] == "{" and par == 0:
                        break
                    elif b[k] == ";" and par == 0:
                        raise Lost(f"fn {name} has no body")
                    k += 1
                e = close(b, k)
                # qualifiers before `fn`
                q = re.search(r"((?:pub(?:\s*\([^)]*\))?\s+)?(?:const\s+)?(?:unsafe\s+)?)$", src[lo:s])
                qual = q.group(1) if q else ""
                return qual, src[s:k], src[k:e]
    return None


def loops_of(body):
    b = blank(body)
    res = []
    for m in re.finditer(r"\b(for|while|loop)\b", b):
        if m.group() == "for" and b[m.end():].lstrip().startswith("<"):
            continue  # for<'a>
        k = m.end()
        par = 0
        while k < len(b):
            if b[k] in "([":
                par += 1
            elif b[k] in ")]":
                par -= 1
            elif b[k] == "{":
                if par == 0:
                    break
                k = close(b, k) - 1
            k += 1
        res.append((m.group(), m.start(), m.end(), k, close(b, k)))
    return res


def closures_of(body):
    """(start of header, end of header, start of body, end of body) of the closures, in source order."""
    b = blank(body)
    res = []
    i = 0
    while i < len(b):
        if b[i] == "|":
            prev = b[:i].rstrip()
            starts = not prev or prev[-1] in "(,={;>[" or prev.endswith("return") or prev.endswith("move")
            if prev.endswith("=>") or prev.endswith("&&") or starts:
                if b.startswith("||", i):
                    he = i + 2
                else:
                    j, par = i + 1, 0
                    while not (b[j] == "|" and par == 0):
                        if b[j] in "([":
                            par += 1
                        elif b[j] in ")]":
                            par -= 1
                        j += 1
                    he = j + 1
                bs = he
                while b[bs].isspace():
                    bs += 1
                # body: up to an unbalanced bracket, or a comma or semicolon at depth 0
                j = bs
                while j < len(b):
                    if b[j] in "([{":
                        j = close(b, j)
                        continue
                    if b[j] in ")]},;":
                        break
                    j += 1
                res.append((i, he, bs, j))
                i = he
                continue
            elif b.startswith("||", i):
                i += 2
                continue
        i += 1
    return res


def split_top(s, sep=","):
    b = blank(s)
    parts, par, last = [], 0, 0
    for i, c in enumerate(b):
        if c in "([{<":
            par += 1
        elif c in ")]}>" and not (c == ">" and i and b[i - 1] in "-="):
            par -= 1
        elif c == sep and par == 0:
            parts.append(s[last:i])
            last = i + 1
    parts.append(s[last:])
    return [p.strip() for p in parts if p.strip()]


def let_pattern(pat, expr, by_ref=False):
    """`let pat = expr` with reference patterns written out (`by_ref`: a tuple pattern binds references)."""
    pat = pat.strip()
    if pat == expr:
        return ""
    if pat.startswith("&"):
        inner = pat[1:].strip()
        if inner.startswith("mut "):
            return f"let {inner} = *{expr}; "
        return let_pattern(inner, f"*{expr}") if not re.fullmatch(r"\w+", inner) else f"let {inner} = *{expr}; "
    if pat.startswith("(") and pat.endswith(")"):
        parts = split_top(pat[1:-1])
        return "".join(let_pattern(p, f"({expr}).{i}") if not re.fullmatch(r"\w+", p) else ("" if p == "_" else f"let {p} = {by_ref if isinstance(by_ref, str) else '&' if by_ref else ''}({expr}).{i}; ") for i, p in enumerate(parts))
    if pat == "_":
        return ""
    return f"let {pat} = {expr}; "


class Block:
    def __init__(self, head):
        self.head = head
        self.sections = []


def drop_macros(body, names, notes, fname):
    for nm in names:
        while True:
            b = blank(body)
            m = re.search(r"\b" + nm + r"!\s*\(", b)
            if not m:
                break
            e = close(b, m.end() - 1)
            while e < len(body) and body[e] in " \t\n":
                e += 1
            if e < len(body) and body[e] == ";":
                e += 1
            body = body[:m.start()] + body[e:]
            notes.append(f"{fname}: dropped {nm}!")
    return body


def asserts(body, fn):
    """assert!/assert_eq!/panic! written as calls of `must_not_panic` (requires false) or `may_panic`."""
    while True:
        b = blank(body)
        m = re.search(r"\b(assert|assert_eq|assert_ne|panic|unreachable|unimplemented|todo)!\s*([(\[{])", b)
        if not m:
            return body
        e = close(b, m.end() - 1)
        args = split_args(body[m.end():e - 1])
        k = m.group(1)
        if k == "assert":
            new = f"if !({args[0]}) {{ {fn}(); }}"
        elif k in ("assert_eq", "assert_ne"):
            op = "==" if k == "assert_eq" else "!="
            new = f"if !({args[0]} {op} {args[1]}) {{ {fn}(); }}"
        else:
            new = f"{fn}()"
        body = body[:m.start()] + new + body[e:]


def let_else_continue(body):
    """`let P = E else { continue; };` directly in the body of a `for` loop, with the rest R of the body, written as
    `if let P = E { R }` (Verus has no `continue` in `for` loops)."""
    while True:
        b = blank(body)
        for m in re.finditer(r"\belse\s*\{\s*continue\s*;?\s*\}\s*;", b):
            start = max((x.start() for x in re.finditer(r"\blet\b", b[:m.start()])), default=-1)
            if start < 0 or ";" in b[start:m.start()]:
                continue
            k, d = start, 0
            while k > 0 and d >= 0:
                k -= 1
                d += {"}": 1, "{": -1}.get(b[k], 0)
            if not re.search(r"\bfor\b[^{};]*$", b[:k]):
                continue
            e = close(b, k) - 1
            body = body[:start] + "if " + body[start:m.start()].rstrip() + " {" + body[m.end():e] + "}\n" + body[e:]
            break
        else:
            return body


def split_args(s):
    b = blank(s)
    parts, par, last = [], 0, 0
    for i, c in enumerate(b):
        if c in "([{":
            par += 1
        elif c in ")]}":
            par -= 1
        elif c == "," and par == 0:
            parts.append(s[last:i].strip())
            last = i + 1
    parts.append(s[last:].strip())
    return parts


def build_fn(block, drops):
    head = block.head
    m = re.match(r"(\S+)\s+(?:(.*?)\s*::\s*)?(\w+)$", head)
    file, impl, name = m.group(1), m.group(2), m.group(3)
    src = read(file)
    regions = list(find_impl(src, impl)) if impl else [(0, len(src))]
    if not regions:
        raise Lost(f"{file}: `{impl}` not found")
    got = find_fn(src, name, regions)
    if not got:
        raise Lost(f"{file}: fn {name} not found")
    qual, sig, body = got
    sec = block.sections
    get = lambda k: [(a, t) for kk, a, t in sec if kk == k]
    body = drop_macros(body, ["debug_assert", "debug_assert_eq", "debug_assert_ne"], drops, name)
    for a, t in get("drop-macro"):
        body = drop_macros(body, [a.strip()], drops, name)
    for a, t in get("subst"):
        old, new = [x.strip() for x in re.split(r" =>(?: |$)", a, 1)]
        pat = r"\s*".join(rf"\b{w}\b" if w[0].isalnum() or w[0] == "_" else re.escape(w) for w in re.findall(r"\w+|\S", old))
        body, k1 = re.subn(pat, lambda _: new, body)
        sig, k2 = re.subn(pat, lambda _: new, sig)
        if not k1 + k2:
            raise Lost(f"{name}: `{old}` not found")
        drops.append(f"{name}: `{old}` written as `{new}`")
    for a, t in get("init"):
        nm, new = a.split(None, 1)
        m = re.search(rf"\blet\s+(?:mut\s+)?{nm}\b[^=;]*=(?!=)", blank(body))
        if not m:
            raise Lost(f"{name}: `let {nm}` not found")
        b, k = blank(body), m.end()
        while b[k] != ";":
            k = close(b, k) if b[k] in "([{" else k + 1
        body = body[:m.end()] + " " + new + body[k:]
        drops.append(f"{name}: the value of `{nm}` written as `{new}`")
    for a, t in get("instantiate"):
        g = re.match(r"fn\s+\w+\s*<", sig)
        if g:
            k, d = g.end(), 1
            while d:
                d += {"<": 1, ">": -1}.get(sig[k], 0) if sig[k - 1:k + 1] != "->" else 0
                k += 1
            sig = sig[:g.end() - 1].rstrip() + sig[k:]
        sig = re.split(r"\bwhere\b", sig)[0]
        drops.append(f"{name}: type parameters instantiated" + (f" ({a.strip()})" if a.strip() else ""))
    for a, t in get("generics"):
        sig = re.sub(rf"\bfn\s+{name}\b", lambda m: m.group() + a.strip(), sig, count=1)
    body = let_else_continue(body)
    body = asserts(body, "may_panic" if get("may-panic") else "must_not_panic")
    # insertions (position, priority, text) into the body
    ins = []
    rep = []
    b = blank(body)
    ls = loops_of(body)
    for a, t in get("loops"):
        if len(ls) != int(a):
            raise Lost(f"{name}: {len(ls)} loops instead of {a}")
    for kind, a, t in sec:
        if kind.startswith("loop") and kind != "loops":
            w = a.split()
            n = int(w[0])
            if n >= len(ls):
                raise Lost(f"{name}: loop {n} not found")
            kw, s, e, ob, ce = ls[n]
            if kind == "loop":
                ins.append((ob, 0, "\n" + t + "\n"))
                if len(w) > 1:
                    if kw != "for":
                        raise Lost(f"{name}: loop {n} is no `for` loop")
                    k = re.search(r"\bin\b", b[e:ob])
                    ins.append((e + k.end(), 0, f" {w[1]}:"))
            elif kind == "loop-start":
                ins.append((ob + 1, 2, "\n" + t + "\n"))
            elif kind == "loop-end":
                ins.append((ce - 1, 0, "\n" + t + "\n"))
            elif kind == "loop-before":
                ins.append((s, 0, "\n" + t + "\n"))
            elif kind == "loop-after":
                ins.append((ce, 0, "\n" + t + "\n"))
    for k, (kw, s, e, ob, ce) in enumerate(ls):
        if kw == "for":
            q = re.search(r"\bin\b", b[e:ob])
            pat = body[e:e + q.start()].strip()
            if "&" in pat:
                rep.append((e, e + q.start(), f" r_{k} "))
                ins.append((ob + 1, 1, " " + let_pattern(pat, f"r_{k}")))
    cl = closures_of(body)
    for a, t in get("closures"):
        if len(cl) != int(a):
            raise Lost(f"{name}: {len(cl)} closures instead of {a}")
    spec_of = {}
    for a, t in get("closure"):
        n, types = a.split(None, 1)
        if int(n) >= len(cl):
            raise Lost(f"{name}: closure {n} not found")
        spec_of[int(n)] = (types, t)
    for k, (s, he, bs, be) in enumerate(cl):
        pats = split_top(body[s:he].strip("|")) if he - s > 2 else []
        if k in spec_of:
            types, t = spec_of[k]
            tys, ret = types.split(";")
            tys = split_top(tys)
            if len(tys) != len(pats):
                raise Lost(f"{name}: closure {k} takes {len(pats)} parameters")
            params = ", ".join(f"a{i}: {ty}" for i, ty in enumerate(tys))
            lets = "".join(let_pattern(re.sub(r":.*$", "", p) if not p.startswith("(") else p, f"a{i}", "&mut " if tys[i].lstrip().startswith("&mut") else tys[i].lstrip().startswith("&")) for i, p in enumerate(pats))
            rep.append((s, he, f"|{params}| -> ({ret.strip()})\n{t}\n"))
            ins.append((bs, 0, "{ " + lets))
            ins.append((be, 3, " }"))
        elif any(not re.fullmatch(r"(mut\s+)?\w+(\s*:.*)?", p) for p in pats):
            params = ", ".join(p if re.fullmatch(r"(mut\s+)?\w+(\s*:.*)?", p) else f"c_{k}_{i}" for i, p in enumerate(pats))
            lets = "".join(let_pattern(p, f"c_{k}_{i}") for i, p in enumerate(pats) if not re.fullmatch(r"(mut\s+)?\w+(\s*:.*)?", p))
            rep.append((s, he, f"|{params}|"))
            ins.append((bs, 0, "{ " + lets))
            ins.append((be, 3, " }"))
    for a, t in get("start"):
        ins.append((1, 1, "\n" + t + "\n"))
    for a, t in get("end"):
        # before the last expression of the body: after the last `;` or `}` at depth 1
        k, last = 1, 1
        while k < len(b) - 1:
            if b[k] in "([{":
                was = b[k]
                k = close(b, k)
                nxt = b[k:].lstrip()[:1]
                if was == "{" and nxt not in (".", "?", ")", "}", ""):
                    last = k
                continue
            if b[k] == ";":
                last = k + 1
            k += 1
        ins.append((last, 0, "\n" + t + "\n"))
    for a, t in get("tail"):
        k, last = 1, 1
        while k < len(b) - 1:
            if b[k] in "([{":
                was = b[k]
                k = close(b, k)
                nxt = b[k:].lstrip()[:1]
                if was == "{" and nxt not in (".", "?", ")", "}", "") and not re.match(r"\s*else\b", b[k:]):
                    last = k
                continue
            if b[k] == ";":
                last = k + 1
            k += 1
        ins.append((last, 1, f"\n let {a} ="))
        ins.append((len(b) - 1, 0, f";\n{t}\n{a.split(":")[0]}\n"))
    for a, t in get("before"):
        mm = re.search(a.strip(), b, re.M)
        if not mm:
            raise Lost(f"{name}: no statement matches {a.strip()}")
        ins.append((mm.start(), 0, "\n" + t + "\n"))
    for a, t in get("after"):
        mm = re.search(a.strip(), b, re.M)
        if not mm:
            raise Lost(f"{name}: no statement matches {a.strip()}")
        k = mm.end()
        while b[k] != ";":
            k = close(b, k) if b[k] in "([{" else k + 1
        ins.append((k + 1, 0, "\n" + t + "\n"))
    # reachability points for the vacuity run: the end of every loop body and the end of the function
    for kw, s, e, ob, ce in ls:
        if b[:ce - 1].rstrip()[-1] in ";}":
            ins.append((ce - 1, 9, "\n/*VAC*/\n"))
    if not get("tail"):
        k, last = 1, 1
        while k < len(b) - 1:
            if b[k] in "([{":
                was = b[k]
                k = close(b, k)
                if was == "{" and b[k:].lstrip()[:1] not in (".", "?", ")", "}", "") and not re.match(r"\s*else\b", b[k:]):
                    last = k
                continue
            if b[k] == ";":
                last = k + 1
            k += 1
        if last > 1:
            ins.append((last, 9, "\n/*VAC*/\n"))
    ev = [(p, 1, pr, t, p) for p, pr, t in ins] + [(s, 2, 0, t, e) for s, e, t in rep]
    # apply from the back; at equal positions the lower priority goes first in the text
    for p, kind, pr, t, e in sorted(ev, key=lambda x: (x[0], x[1], x[2]), reverse=True):
        body = body[:p] + t + body[e:]
    body = "{\n/*VAC*/" + body[1:]
    # signature
    for a, t in get("rename"):
        sig = re.sub(r"^fn\s+\w+", f"fn {a.strip()}", sig)
    where = ""
    mm = re.search(r"\bwhere\b", blank(sig))
    if mm:
        where = sig[mm.start():].rstrip()
        sig = sig[:mm.start()]
    for a, t in get("ret"):
        # the last `->` at depth 0
        bb = blank(sig)
        par, at = 0, -1
        for i, c in enumerate(bb):
            if c in "([{":
                par += 1
            elif c in ")]}":
                par -= 1
            elif c == "-" and bb[i:i + 2] == "->" and par == 0:
                at = i
        if at < 0:
            raise Lost(f"{name}: returns nothing")
        sig = sig[:at] + f"-> ({a.strip()}: {sig[at + 2:].strip()})"
    for a, t in get("qual"):
        qual = a.strip() + " "
    spec = "\n".join(t for a, t in get("spec"))
    attr = "\n".join(t for a, t in get("attr"))
    return name, file, f"{attr}\n{qual}{sig.rstrip()}\n{where}\n{spec}\n{body}\n"


def build_struct(head, drops):
    file, name = head.split()[:2]
    src = read(file)
    b = blank(src)
    m = re.search(r"((?:pub(?:\s*\([^)]*\))?\s+)?(?:struct|enum)\s+" + name + r"\b)", b)
    if not m:
        raise Lost(f"{file}: struct {name} not found")
    k = m.end()
    while b[k] not in "{;(":
        k += 1
    e = close(b, k) if b[k] != ";" else k + 1
    text = src[m.start():e]
    if b[k] == "(":
        text += ";"
    text = re.sub(r"#\[[^\]]*\]", "", text)
    # of its attributes only `derive(Debug)` is kept, which `unwrap` and `expect` ask for
    before = re.search(r"((?:#\[[^\]]*\]\s*)*)$", src[:m.start()]).group(1)
    if re.search(r"derive\([^)]*\bDebug\b", before) and head.split()[2:] != ["plain"]:
        text = "#[derive(Debug)]\n" + text
    return text + "\n"


KINDS = "ret spec loops loop loop-start loop-end loop-before loop-after closures closure start end tail before after rename qual attr subst init instantiate generics drop-macro may-panic".split()


def expand(unit):
    lines = open(f"{HERE}/units/{unit}.vrs").read().split("\n")
    out, spans, drops = [], [], []
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r"\s*//@ (\S+)\s*(.*)$", l)
        if not m:
            out.append(l)
            i += 1
            continue
        d, arg = m.group(1), m.group(2).strip()
        if d == "struct":
            out += build_struct(arg, drops).split("\n")
            i += 1
        elif d == "include":
            lines[i:i + 1] = open(f"{HERE}/units/{arg}").read().split("\n")
        elif d == "fn":
            blk = Block(arg)
            i += 1
            while True:
                mm = re.match(r"\s*//@ (\S+)\s*(.*)$", lines[i])
                assert mm, lines[i]
                if mm.group(1) == "done":
                    i += 1
                    break
                assert mm.group(1) in KINDS, mm.group(1)
                j = i + 1
                while not re.match(r"\s*//@ ", lines[j]):
                    j += 1
                blk.sections.append((mm.group(1), mm.group(2), "\n".join(lines[i + 1:j])))
                i = j
            name, file, text = build_fn(blk, drops)
            a = len(out) + 1
            out += text.split("\n")
            spans.append((a, len(out), f"{file}::{name}"))
        else:
            raise SystemExit(f"unknown directive {d} in {unit}")
    return "\n".join(out), spans, drops


VERIFY = re.compile(r"error: (?!aborting|The verifier does not|cannot|expected|unresolved|mismatched)(.*)")
KNOWN = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "possible arithmetic",
         "possible division", "decreases not satisfied", "possible bit shift", "loop invariant", "unable to prove", "assertion not satisfied",
         "precondition of", "postcondition of", "possible overflow", "possible underflow")


def verus(path, rlimit, extra=()):
    t = time.time()
    p = subprocess.run(["verus", "--triggers-mode", "silent", "--output-json", "--time", "--rlimit", str(rlimit), *(extra or ["--multiple-errors", "4"]), path],
                       capture_output=True, text=True, timeout=600, cwd=os.path.dirname(path))
    js = {}
    try:
        js = json.loads(p.stdout[p.stdout.index("{"):])
    except Exception:
        pass
    return p, js, time.time() - t


def errors_of(stderr):
    res = []
    cur = None
    for l in stderr.split("\n"):
        m = re.match(r"error(?:\[E\d+\])?: (.*)", l)
        if m:
            cur = [m.group(1), None, "error[" in l[:7]]
            if not m.group(1).startswith("aborting"):
                res.append(cur)
            continue
        if re.match(r"(warning|note)\b", l):
            cur = None
        m = re.match(r"\s*--> [^:]+:(\d+):", l)
        if m and cur is not None and cur[1] is None:
            cur[1] = int(m.group(1))
    return res


def run_unit(unit, target, tier):
    t0 = time.time()
    os.makedirs(f"{target}/verus", exist_ok=True)
    path = f"{target}/verus/{unit}.rs"
    res = {"unit": f"verus: {unit}", "verified": 0, "errors": 0, "functions": [], "failures": [], "note": "", "status": "other", "seconds": 0}
    try:
        text, spans, drops = expand(unit)
    except Lost as e:
        res["note"] = f"anchor lost: {e}"
        return res
    res["functions"] = sorted(set(s[2] for s in spans))
    open(path, "w").write(text)
    tpl = open(f"{HERE}/units/{unit}.vrs").read()
    res["trusted"] = sorted(set(re.findall(r"assume_specification[^\[]*\[\s*([^\]]*?)\s*\]", text))
                            | set("external_body: " + x for x in re.findall(r"external_body\)?\]\s*(?:pub\s+)?(?:proof\s+|exec\s+)?(?:fn|struct)\s+(\w+)", text))
                            | set("axiom: " + x for x in re.findall(r"axiom fn (\w+)", text)) | (set(["assume"]) if re.search(r"\bassume\(|\badmit\(", text) else set()))
    # vacuity: a contradiction assumed anywhere would let `assert(false)` pass at the start of a body, or at a later point
    n = iter(range(10**6))
    vac = re.sub(r"/\*VAC\*/", lambda m: f"proof {{ if vac_point({next(n)}) {{ assert(false); }} }}", text)
    vac = vac.rstrip()[:-1] + "pub uninterp spec fn vac_point(k: int) -> bool;\n}\n"
    vp = f"{target}/verus/{unit}_vacuity.rs"
    open(vp, "w").write(vac)
    pool = concurrent.futures.ThreadPoolExecutor(1)
    second = pool.submit(verus, vp, 12, ["--multiple-errors", "500"])
    try:
        p, js, s = verus(path, 60 if tier != "thorough" else 200)
    except subprocess.TimeoutExpired:
        res["note"] = "the verifier gave no answer in 600 s"
        return res
    r = js.get("verification-results", {})
    res["drops"] = drops
    res["verified"], res["errors"] = r.get("verified", 0), r.get("errors", 0)
    errs = errors_of(p.stderr)
    res["smt_seconds"] = js.get("times-ms", {}).get("smt", {}).get("total", 0) / 1000 if isinstance(js.get("times-ms", {}).get("smt"), dict) else 0
    if r.get("success") and res["verified"] and not errs:
        p2, js2, s2 = second.result()
        refuted = set(line for msg, line, rustc in errors_of(p2.stderr) if "assertion failed" in msg)
        points = [i + 1 for i, l in enumerate(vac.split("\n")) if "vac_point(" in l and "uninterp" not in l]
        start = {}
        for l in points:
            for s in spans:
                if s[0] <= l <= s[1]:
                    start.setdefault(s, []).append(l)
        missing = [s[2] for s in spans if not start.get(s) or start[s][0] not in refuted]
        if missing:
            # the verifier may give up on a function with many false assertions: once more with nothing but the first ones
            first = {start[s][0] for s in spans if start.get(s)}
            lines = vac.split("\n")
            open(vp, "w").write("\n".join("" if i + 1 in points and i + 1 not in first else l for i, l in enumerate(lines)))
            p3, js3, s3 = verus(vp, 12, ["--multiple-errors", "2"])
            again = set(line for msg, line, rustc in errors_of(p3.stderr) if "assertion failed" in msg)
            # giving up on `assert(false)` is no proof of it either
            gave_up = [line for msg, line, rustc in errors_of(p3.stderr) if "Resource limit" in msg and line]
            missing = [s[2] for s in spans if not start.get(s) or (start[s][0] not in refuted and start[s][0] not in again
                       and not any(s[0] - 8 <= l <= s[1] for l in gave_up))]
        later = [(s[2], l) for s in spans for l in start.get(s, [])[1:]]
        open_ = [f"{nm} (line {l})" for nm, l in later if l not in refuted]
        if missing:
            res["status"] = "failed"
            res["failures"] = [{"contract": res["unit"], "obligation": f"the precondition of {x} can be met (vacuity guard)", "detail": "assert(false) was accepted at the start of the body"} for x in missing]
        else:
            res["status"] = "verified"
            res["note"] = f"{len(spans)} extracted functions, each with its vacuity guard refuted; {len(later) - len(open_)} of {len(later)} later points shown reachable" + (": not " + ", ".join(open_) if open_ else "") + "; " + ("extraction: " + "; ".join(sorted(set(drops))) if drops else "extraction drops only attributes and comments")
    else:
        bad = [e for e in errs if e[2] or not any(k in e[0] for k in KNOWN)]
        if bad or not errs or not r:
            res["note"] = "the verifier does not accept the extracted text: " + "; ".join(f"{e[0]} (line {e[1]})" for e in bad[:3])[:500] if bad else "the verifier gave no verdict: " + p.stderr[-300:]
        else:
            res["status"] = "failed"
            for msg, line, _ in errs:
                nm = next((n for a, b, n in spans if line and a <= line <= b), "unit text")
                src = text.split("\n")[line - 1].strip() if line else ""
                res["failures"].append({"contract": f"{res['unit']}: {nm}", "obligation": msg, "detail": f"{src} | verifier output: {p.stderr[:3000]}"})
    res["seconds"] = round(time.time() - t0, 2)
    return res


if __name__ == "__main__":
    target = os.environ.get("VERUS_OUT", "/tmp/vout")
    for u in sys.argv[1:]:
        r = run_unit(u, target, "quick")
        print(json.dumps({k: r[k] for k in r if k != "failures"}, indent=1) if os.environ.get("V") else f"{u}: {r['status']} {r['verified']} verified {r['errors']} errors {r['seconds']} s {r['note'][:400]}")
        for f in r["failures"]:
            print("  -", f["contract"], "|", f["obligation"], "|", f["detail"].split(" | verifier output")[0])
