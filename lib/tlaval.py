"""Reads values and states printed by TLC (numbers, strings, sequences, sets, records)."""
import re

TOK = re.compile(r'\s*(?:(-?\d+)|"((?:[^"\\]|\\.)*)"|(<<|>>|\|->|:>|@@|[\[\](){},]|\w+))')


def parse(s):
    toks, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise ValueError("cannot read TLC value: " + s[i:i + 60])
        i = m.end()
        toks.append(("n", int(m.group(1))) if m.group(1) is not None else ("s", m.group(2).encode().decode("unicode_escape")) if m.group(2) is not None else ("p", m.group(3)))
    pos = [0]

    def peek(): return toks[pos[0]] if pos[0] < len(toks) else (None, None)

    def eat(v=None):
        t = toks[pos[0]]
        if v is not None and t[1] != v: raise ValueError("expected %s, got %r" % (v, t))
        pos[0] += 1
        return t

    def lst(end):
        r = []
        while peek()[1] != end or peek()[0] != "p":
            r.append(val())
            if peek() == ("p", ","): eat()
        eat(end)
        return r

    def val():
        k, v = eat()
        if k in "ns": return v
        if v == "<<": return lst(">>")
        if v == "{": return lst("}")
        if v == "(":
            d = {}
            while True:
                key = val()
                eat(":>")
                d[key if not isinstance(key, list) else tuple(key)] = val()
                if eat()[1] == ")": break
            return d
        if v == "[":
            d = {}
            while peek()[1] != "]":
                key = eat()[1]
                eat("|->")
                d[key] = val()
                if peek() == ("p", ","): eat()
            eat("]")
            return d
        if v == "TRUE": return True
        if v == "FALSE": return False
        return v
    r = val()
    return r


def block(text):
    """one state: lines "/\\ var = value" (values may span lines)"""
    st = {}
    for m in re.finditer(r"(?:^|\n)(?:/\\ )?(\w+) = (.*?)(?=\n/\\ \w+ = |\n\w+ = |\Z)", text.strip(), re.S):
        st[m.group(1)] = parse(m.group(2))
    return st


def states(path):
    """states of a -dump file"""
    res, cur = [], []
    for line in open(path):
        if line.startswith("State "):
            if cur: res.append(block("".join(cur)))
            cur = []
        else:
            cur.append(line)
    if cur: res.append(block("".join(cur)))
    return res
