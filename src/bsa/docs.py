"""Structured documents as state machines over what is written: JSON, S-expressions, CSV.

A state is a tuple; step() takes one character and returns the next state or raises Broken."""
import json


class Broken(Exception): pass


HEXD = "0123456789abcdefABCDEF"


class Format:
    def text(self, s, t):
        for ch in t: s = self.step(s, ch)
        return s


class Json(Format):
    """(open brackets, what is expected, lexical state)"""
    name = "JSON"
    start = ("", "v", "")
    fragment = ("[", "V", "")          # inside of a list
    string = "s"

    def __init__(self, trailing=False): self.trailing = trailing

    def final(self, s): return s[0] == "" and s[2] == ""
    def in_string(self, s): return s[2] == "s"

    def value(self, s):
        """a value has just been completed"""
        st, ex, _ = s
        if not st: return ("", "v", "")
        if st[-1] == "{" and ex in "kK": return (st, ":", "")
        return (st, ",", "")

    def step(self, s, ch):
        st, ex, lx = s
        if lx == "s":
            if ch == "\\": return (st, ex, "\\")
            if ch == '"': return self.value(s)
            if ord(ch) < 32: raise Broken("control character inside of a string")
            return s
        if lx == "\\":
            if ch == "u": return (st, ex, "u4")
            if ch not in '"\\/bfnrt': raise Broken("JSON has no escape \\%s" % ch)
            return (st, ex, "s")
        if lx.startswith("u"):
            if ch not in HEXD: raise Broken("\\u is followed by %r" % ch)
            return (st, ex, "s" if lx == "u1" else "u%d" % (int(lx[1]) - 1))
        if lx == "w":
            if ch.isalnum() or ch in "+-.": return s
            s = self.value(s)
            st, ex, lx = s
        if ch in " \t\r\n": return s
        if ch == '"':
            if ex not in "vVkK": raise Broken("a string follows without separator")
            return (st, ex, "s")
        if ch in "{[":
            if ex not in "vV": raise Broken("%s is not expected here" % ch)
            if len(st) > 8: raise Broken("nesting without bounds")
            return (st + ch, "K" if ch == "{" else "V", "")
        if ch in "}]":
            if not st or (st[-1] == "{") != (ch == "}"): raise Broken("%s closes nothing" % ch)
            if not (ex == "," or ex in "KV"): raise Broken("%s is not expected here" % ch)
            return self.value((st[:-1], "v", "")) if len(st) > 1 else ("", "v", "")
        if ch == ",":
            if ex != ",": raise Broken("comma without element before")
            if st[-1] == "{": return (st, "K" if self.trailing else "k", "")
            return (st, "V" if self.trailing else "v", "")
        if ch == ":":
            if ex != ":": raise Broken("colon is not expected here")
            return (st, "v", "")
        if ex in "vV" and (ch.isalnum() or ch == "-"): return (st, ex, "w")
        raise Broken("%r outside of a string" % ch)

    def encodes(self, text, k):
        try: return json.loads('"%s"' % text) == k
        except ValueError: return False


class Sexpr(Format):
    """(open parentheses, lexical state)"""
    name = "S-expression"
    start = (0, "")
    fragment = None

    def final(self, s): return s == (0, "")
    def in_string(self, s): return s[1] == "s"

    def step(self, s, ch):
        d, lx = s
        if lx == "s":
            if ch == "\\": return (d, "\\")
            if ch == '"': return (d, "e")
            return s
        if lx == "\\": return (d, "s")
        if ch == "(":
            if d > 8: raise Broken("nesting without bounds")
            return (d + 1, "")
        if ch == ")":
            if d < 1: raise Broken(") closes nothing")
            return (d - 1, "")
        if ch == '"':
            if lx: raise Broken("a string follows without separator")
            if not d: raise Broken("text outside of the list")
            return (d, "s")
        if ch in " \t\r\n": return (d, "")
        if lx == "e": raise Broken("a word follows without separator")
        return (d, "w")

    def encodes(self, text, k):
        if text == k: return k not in '"\\'
        if text == "\\" + k: return not k.isalnum()
        return text in ("\\n", "\\r", "\\t") and {"n": "\n", "r": "\r", "t": "\t"}[text[1]] == k or text == "\\%03o" % ord(k)


class Csv(Format):
    name = "CSV"
    start = ("R",)
    fragment = None

    def final(self, s): return s == ("R",)
    def in_string(self, s): return s == ("Q",)

    def step(self, s, ch):
        x = s[0]
        if x == "Q": return ("q",) if ch == '"' else s
        if x == "q":
            if ch == ",": return ("F",)
            if ch == "\n": return ("R",)
            raise Broken("%r follows a quoted field" % ch)
        if ch == '"':
            if x == "U": raise Broken("quote inside of a field without quotes")
            return ("Q",)
        if ch == ",": return ("F",)
        if ch == "\n": return ("R",)
        return ("U",)

    def text(self, s, t):
        """literal text: a quote is doubled only within one piece"""
        i = 0
        while i < len(t):
            if s == ("Q",) and t[i:i + 2] == '""':
                i += 2
                continue
            s = self.step(s, t[i])
            i += 1
        return s

    def encodes(self, text, k): return text == ('""' if k == '"' else k)


BUILTIN = {"absl::CEscape": (Sexpr,), "absl::CHexEscape": (Sexpr,), "absl::Utf8SafeCEscape": (Sexpr,)}
