"""Reading printed expressions back by the ordinary rules of notation, without any simpy code.

plain(text) reads what repr() prints, latex(text) what latex() prints; both return a recipe (see gen.py)."""
import re
from fractions import Fraction

FUN = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "sec": "sec", "csc": "csc", "cot": "cot", "asin": "asin", "acos": "acos",
       "atan": "atan", "ln": "ln", "abs": "abs"}


class Bad(Exception):
    """the text cannot be read"""


def _number(t):
    if re.fullmatch(r"\d+", t):
        return ("n", int(t), 1)
    return ("f", float(t))


class Reader:
    def __init__(self, text, tokens):
        self.text = text
        self.toks = tokens
        self.i = 0

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else None

    def next(self):
        t = self.peek()
        if t is None:
            raise Bad("unexpected end of %r" % self.text)
        self.i += 1
        return t

    def expect(self, t):
        g = self.next()
        if g != t:
            raise Bad("%r instead of %r in %r" % (g, t, self.text))

    def whole(self):
        r = self.sum()
        if self.peek() is not None:
            raise Bad("%r left over in %r" % (" ".join(self.toks[self.i:]), self.text))
        return r

    def sum(self):
        r = self.term()
        while self.peek() in ("+", "-"):
            if self.next() == "+":
                r = ("+", r, self.term())
            else:
                r = ("-", r, self.term())
        return r

    def term(self):
        # a leading minus applies to the whole product: -a/b = -(a/b)
        if self.peek() == "-":
            self.next()
            return ("neg", self.product())
        return self.product()


PLAIN = re.compile(r"\s*(?:(log\d+|log-\d+)(?=\()|(log\[base=)|(\d+\.?\d*(?:[eE][+-]?\d+)?)|([A-Za-z_][A-Za-z_0-9]*)|([-+*/^()|\]]))")


class Plain(Reader):
    def __init__(self, text):
        toks = []
        i = 0
        while i < len(text):
            m = PLAIN.match(text, i)
            if not m or m.end() == i:
                if not text[i:].strip():
                    break
                raise Bad("%r in %r" % (text[i:i + 10], text))
            toks.append(m.group(0).strip())
            i = m.end()
        Reader.__init__(self, text, toks)

    def product(self):
        r = self.power()
        while self.peek() in ("*", "/"):
            if self.next() == "*":
                r = ("*", r, self.power())
            else:
                r = ("/", r, self.power())
        return r

    def power(self):
        b = self.atom()
        if self.peek() == "^":
            self.next()
            return ("^", b, self.power())  # groups to the right
        return b

    def inside(self):
        self.expect("(")
        r = self.sum()
        self.expect(")")
        return r

    def atom(self):
        t = self.next()
        if t == "(":
            r = self.sum()
            self.expect(")")
            return r
        if t == "|":
            r = self.sum()
            self.expect("|")
            return ("abs", r)
        if t[0].isdigit():
            return _number(t)
        if t == "log[base=":
            b = self.sum()
            self.expect("]")
            return ("log", self.inside(), b)
        m = re.fullmatch(r"log(-?\d+)", t)
        if m and self.peek() == "(":
            return ("log", self.inside(), ("n", int(m.group(1)), 1))
        if t in FUN and self.peek() == "(":
            return (FUN[t], self.inside())
        if t == "pi":
            return ("pi",)
        if t == "e":
            return ("e",)
        if re.fullmatch(r"[A-Za-z_]\w*", t):
            if self.peek() == "(":
                raise Bad("unknown function %s in %r" % (t, self.text))
            return ("v", t)
        raise Bad("%r in %r" % (t, self.text))


def plain(text):
    return Plain(text).whole()


TEX = re.compile(r"\s*(\\left *[(|{]|\\right *[)|}]|\\[A-Za-z]+|\d+\.\d*(?:[eE][+-]?\d+)?|\d+(?:[eE][+-]?\d+)|\d+|[A-Za-z_][A-Za-z0-9_]*|[-+^_(){}|])")
GREEK = set("alpha beta gamma delta epsilon zeta eta theta iota kappa lambda mu nu xi rho sigma tau upsilon phi chi psi omega".split())


class Tex(Reader):
    def __init__(self, text, names=()):
        toks = []
        i = 0
        while i < len(text):
            m = TEX.match(text, i)
            if not m:
                if not text[i:].strip():
                    break
                raise Bad("%r in %r" % (text[i:i + 10], text))
            t = m.group(1)
            if t.startswith("\\left") or t.startswith("\\right"):
                t = t.replace(" ", "")
            i = m.end()
            toks.append(t)
        self.names = set(names) | {"e"}
        Reader.__init__(self, text, toks)

    def product(self):
        r = self.power()
        while self.peek() == "\\cdot":
            self.next()
            r = ("*", r, self.power())
        return r

    def group(self):
        """what a command takes: one token or {...}"""
        if self.peek() == "{":
            self.next()
            r = self.sum()
            self.expect("}")
            return r
        t = self.peek()
        if t and t[0].isalnum() and len(t) > 1:
            # TeX takes a single character: split the token
            self.toks[self.i:self.i + 1] = [t[0], t[1:]]
        return self.atom()

    def power(self):
        b = self.atom()
        if self.peek() == "^":
            self.next()
            x = self.group()
            if self.peek() == "^":
                raise Bad("double superscript in %r" % self.text)
            b = ("^", b, x)
        if self.peek() is not None and (self.peek()[0].isalnum() or self.peek() in ("(", "\\left(", "{") or self.peek() in ("\\frac", "\\sqrt")):
            raise Bad("a factor without an operator at %r in %r" % (" ".join(self.toks[self.i:][:6]), self.text))
        return b

    def arg(self):
        t = self.peek()
        if t in ("(", "\\left("):
            return self.atom()
        raise Bad("a function without brackets in %r" % self.text)

    def atom(self):
        t = self.next()
        if t == "(":
            r = self.sum()
            self.expect(")")
            return r
        if t == "\\left(":
            r = self.sum()
            self.expect("\\right)")
            return r
        if t == "{":
            r = self.sum()
            self.expect("}")
            return r
        if t == "|":
            r = self.sum()
            self.expect("|")
            return ("abs", r)
        if t == "\\left|":
            r = self.sum()
            self.expect("\\right|")
            return ("abs", r)
        if t[0].isdigit():
            return _number(t)
        if t == "\\pi":
            return ("pi",)
        if t == "\\frac":
            a = self.group()
            b = self.group()
            return ("/", a, b)
        if t == "\\sqrt":
            self.expect("{")
            r = self.sum()
            self.expect("}")
            return ("sqrt", r)
        if t == "\\ln":
            return ("ln", self.arg())
        if t == "\\log":
            self.expect("_")
            b = self.group()
            return ("log", self.arg(), b)
        if t[1:] in FUN and t[0] == "\\":
            f = t[1:]
            if self.peek() == "^" and self.toks[self.i + 1:self.i + 5] == ["{", "-", "1", "}"]:
                self.i += 5
                if "a" + f not in FUN:
                    raise Bad("no inverse of %s in %r" % (f, self.text))
                return ("a" + f, self.arg())
            return (f, self.arg())
        if t[0] == "\\" and t[1:] in GREEK:
            return ("v", t[1:])
        if t == "e":
            return ("e",)
        if t[0].isalpha():
            if t not in self.names:
                # letters next to each other would be factors, which the printer never writes
                raise Bad("unknown name %r in %r" % (t, self.text))
            return ("v", t)
        raise Bad("%r in %r" % (t, self.text))


def tex(text, names=()):
    return Tex(text, names).whole()
