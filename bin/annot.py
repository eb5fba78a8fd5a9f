"""Mechanical insertion of ghost text into a copy of a source file.

annotate(text, [(function, ordinal, begin, end, assigned), ...]) inserts `begin`
at the start and `end` at the end of the body of the ordinal-th loop (0-based, in
text order) of `function`; nothing else of the text changes.  `assigned` lists
everything the loop may assign (the variables the loop contract havocs, plus
locals of the body): Misfit is raised when the body or head assigns anything
else, so a changed loop cannot slip past its contract.  Misfit is also raised when
the function or loop is not there.
"""
import re


class Misfit(Exception):
    pass


def _blank(text):
    """text with comments, strings and preprocessor lines blanked, same length"""
    def sp(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    return re.sub(r"/\*.*?\*/|//[^\n]*|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|^[ \t]*#(?:[^\n\\]|\\.|\\\n)*",
                  sp, text, flags=re.S | re.M)


def _match(t, i, o, c):
    n = 0
    for k in range(i, len(t)):
        if t[k] == o:
            n += 1
        elif t[k] == c:
            n -= 1
            if n == 0:
                return k
    raise Misfit("unbalanced " + o)


def body(text, fn):
    """(start, end) of the braces of the definition of fn"""
    t = _blank(text)
    for m in re.finditer(r"\b%s\s*\(" % re.escape(fn), t):
        try:
            e = _match(t, m.end() - 1, "(", ")")
        except Misfit:
            continue
        r = re.match(r"\s*\{", t[e + 1:])
        if r and t.count("{", 0, m.start()) == t.count("}", 0, m.start()):
            s = e + 1 + r.end() - 1
            return s, _match(t, s, "{", "}")
    raise Misfit("no definition of %s" % fn)


def loops(text, fn):
    """positions just after each loop head of fn, and the keyword"""
    t = _blank(text)
    s, e = body(text, fn)
    out, dos = [], []
    for m in re.finditer(r"\b(while|for|do|_for_probe)\b", t[s:e]):
        k, p = m.group(1), s + m.end()
        if k == "do":
            b = t.index("{", p)
            dos.append(_match(t, b, "{", "}"))
            out.append(p)
            continue
        q = t.index("(", p)
        c = _match(t, q, "(", ")")
        if k == "while" and any(t[d + 1:s + m.start()].strip() == "" for d in dos if d < s + m.start()):
            continue
        out.append(c + 1)
    return out


ASSIGN = re.compile(r"((?:\*\s*)?[A-Za-z_]\w*(?:\s*(?:->|\.)\s*\w+|\s*\[[^\]]*\])*)\s*(?:[-+*/%&|^]|<<|>>)?=(?!=)|"
                    r"((?:\*\s*)?[A-Za-z_]\w*(?:\s*(?:->|\.)\s*\w+|\s*\[[^\]]*\])*)\s*(?:\+\+|--)|"
                    r"(?:\+\+|--)\s*((?:\*\s*)?[A-Za-z_]\w*(?:\s*(?:->|\.)\s*\w+|\s*\[[^\]]*\])*)")


def assigned(code):
    """the lvalues (blanks removed, subscripts dropped) that code assigns textually"""
    out = set()
    for m in ASSIGN.finditer(code):
        v = next(g for g in m.groups() if g)
        out.add(re.sub(r"\s|\[[^\]]*\]", "", v))
    return out


def annotate(text, specs, src=""):
    ins = []
    t = _blank(text)
    for fn, k, begin, end, allowed in specs:
        ls = loops(text, fn)
        if k >= len(ls):
            raise Misfit("%s has %d loops" % (fn, len(ls)))
        empty = re.match(r"\s*;", t[ls[k]:])     # empty statement: the ghost text becomes the body
        if empty:
            s = e = ls[k]
        else:
            b = re.match(r"\s*\{", t[ls[k]:])
            if not b:
                raise Misfit("loop %d of %s has no braces" % (k, fn))
            s, e = ls[k] + b.end(), _match(t, ls[k] + b.end() - 1, "{", "}")
        q, n = ls[k] - 1, 0
        while q > 0:                    # the loop head, back to its opening parenthesis
            n += (t[q] == ")") - (t[q] == "(")
            if n == 0:
                break
            q -= 1
        odd = assigned(t[q:e]) - set(allowed.split())
        if odd:
            raise Misfit("loop %d of %s also assigns %s" % (k, fn, ", ".join(sorted(odd))))
        ins += [(s, "{ " + begin + " " + end + " }")] if empty else [(s, begin), (e, end)]
    for p, c in sorted(ins, reverse=True):
        text = text[:p] + " " + c.replace("\n", " ") + " " + text[p:]
    return text
