"""The Helm chart: its templates (Go's text/template with Helm's functions) evaluated on given values."""
import base64
import glob
import hashlib
import json
import os
import re

import yaml

from sa.program import Broken

TOKEN = re.compile(r'''\s*(?:("(?:[^"\\]|\\.)*")|(`[^`]*`)|(-?\d+(?:\.\d+)?)|(:=|=|\||\(|\)|,)|(\$?[A-Za-z_][\w]*(?:\.[A-Za-z_]\w*)*|\$(?:\.[A-Za-z_]\w*)*|\.(?:[A-Za-z_]\w*(?:\.[A-Za-z_]\w*)*)?)|(.))''', re.S)


def dump(x):
    return yaml.safe_dump(x, default_flow_style=False, sort_keys=True, width=10 ** 6).rstrip("\n").removesuffix("\n...") if isinstance(x, (dict, list)) else yaml.safe_dump(x, width=10 ** 6).rstrip("\n").removesuffix("\n...")


class Files:
    def __init__(self, d):
        self.d = d

    def Glob(self, pat):
        return Found({os.path.basename(p): open(p).read() for p in sorted(glob.glob(os.path.join(self.d, pat))) if os.path.isfile(p)})


class Found(dict):
    @property
    def AsConfig(self):
        return dump(dict(self)) if self else ""


def show(x):
    if x is None:
        return ""
    if x is True or x is False:
        return str(x).lower()
    if isinstance(x, float) and x == int(x):
        return str(int(x))
    return x if isinstance(x, str) else json.dumps(x) if isinstance(x, (dict, list)) else str(x)


class Chart:
    def __init__(self, d):
        self.d = d
        if not os.path.isdir(d):
            raise Broken(f"no chart in {d}")
        self.meta = yaml.safe_load(open(os.path.join(d, "Chart.yaml")))
        self.values = yaml.safe_load(open(os.path.join(d, "values.yaml")))
        self.files, self.defines = {}, {}
        for p in sorted(glob.glob(os.path.join(d, "templates", "**", "*"), recursive=True)):
            if os.path.isfile(p):
                n = os.path.relpath(p, d)
                self.files[n] = self.parse(open(p).read(), n)

    # -- parsing
    def parse(self, text, name):
        parts, at = [], 0
        for m in re.finditer(r"\{\{(-\s)?\s*(/\*.*?\*/|.*?)\s*(\s-)?\}\}", text, re.S):
            lit = text[at:m.start()]
            parts.append(["text", lit])
            parts.append(["do", m.group(2), bool(m.group(1)), bool(m.group(3))])
            at = m.end()
        parts.append(["text", text[at:]])
        for i, p in enumerate(parts):
            if p[0] == "do":
                if p[2]:
                    parts[i - 1][1] = parts[i - 1][1].rstrip()
                if p[3]:
                    parts[i + 1][1] = parts[i + 1][1].lstrip()
        self.parts, self.i, self.name = parts, 0, name
        body, end = self.block()
        if end:
            raise Broken(f"{name}: unexpected {end}")
        return body

    def block(self):
        out = []
        while self.i < len(self.parts):
            p = self.parts[self.i]
            self.i += 1
            if p[0] == "text":
                if p[1]:
                    out.append(("text", p[1]))
                continue
            t = p[1].strip()
            if t.startswith("/*") or not t:
                continue
            w, _, rest = t.partition(" ")
            if w in ("end", "else"):
                return out, t
            if w in ("if", "with", "range"):
                out.append(self.chain(w, rest))
            elif w == "define":
                b, e = self.block()
                self.defines[json.loads(rest.strip())] = b
            elif w in ("template", "block", "break", "continue"):
                raise Broken(f"{self.name}: {w} in a template")
            else:
                out.append(("do", self.lex(t)))
        return out, None

    def chain(self, w, rest):
        body, end = self.block()
        other = []
        if end and end.startswith("else"):
            r = end[4:].strip()
            if r:
                k, _, c = r.partition(" ")
                other = [self.chain(k, c)]
            else:
                other, end = self.block()
        return (w, self.lex(rest), body, other)

    def lex(self, t):
        out = []
        for m in TOKEN.finditer(t.strip()):
            s, raw, num, op, path, bad = m.groups()
            if s is not None:
                out.append(("lit", json.loads(s)))
            elif raw is not None:
                out.append(("lit", raw[1:-1]))
            elif num is not None:
                out.append(("lit", float(num) if "." in num else int(num)))
            elif op is not None:
                out.append(("op", op))
            elif path is not None:
                out.append(("path", path))
            elif bad and bad.strip():
                raise Broken(f"{self.name}: {t!r}")
        return out

    # -- evaluation
    def render(self, values, release):
        """{file: text}"""
        top = {"Values": merge(json.loads(json.dumps(self.values)), values), "Chart": {"Name": self.meta["name"], "Version": str(self.meta.get("version")), "AppVersion": str(self.meta.get("appVersion"))},
               "Release": {"Name": release[0], "Namespace": release[1], "Service": "Helm"}, "Files": Files(self.d), "Template": {"BasePath": "templates"}}
        self.top = top
        return {n: self.run(b, top, [{"$": top}]) for n, b in self.files.items()}

    def objects(self, values, release):
        out = []
        for n, t in self.render(values, release).items():
            if n.endswith((".yaml", ".yml")):
                try:
                    out += [(n, o) for o in yaml.safe_load_all(t) if o]
                except yaml.YAMLError as e:
                    raise Invalid(f"{n} is not YAML with {json.dumps(values)}: {str(e)[:120]}")
        return out

    def run(self, body, dot, env):
        out = []
        for n in body:
            if n[0] == "text":
                out.append(n[1])
            elif n[0] == "do":
                t = n[1]
                if len(t) > 2 and t[1] in (("op", ":="), ("op", "=")) and t[0][1].startswith("$"):
                    v = self.pipe(t[2:], dot, env)
                    e = env[-1] if t[1][1] == ":=" else next((x for x in reversed(env) if t[0][1] in x), env[-1])
                    e[t[0][1]] = v
                else:
                    out.append(show(self.pipe(t, dot, env)))
            elif n[0] == "range":
                t, names = n[1], []
                k = next((i for i, x in enumerate(t) if x == ("op", ":=")), None)
                if k is not None:
                    names = [x[1] for x in t[:k] if x[0] == "path"]
                    t = t[k + 1:]
                v = self.pipe(t, dot, env)
                items = list(v.items()) if isinstance(v, dict) else list(enumerate(v or []))
                for a, b in sorted(items, key=lambda x: str(x[0])) if isinstance(v, dict) else items:
                    e = dict(zip(names, (a, b) if len(names) == 2 else (b,)))
                    out.append(self.run(n[2], b, env + [e]))
                if not items:
                    out.append(self.run(n[3], dot, env + [{}]))
            else:
                t, name = n[1], None
                if len(t) > 2 and t[1] == ("op", ":="):
                    name, t = t[0][1], t[2:]
                v = self.pipe(t, dot, env)
                e = {name: v} if name else {}
                out.append(self.run(n[2], v if n[0] == "with" else dot, env + [e]) if v else self.run(n[3], dot, env + [e]))
        return "".join(out)

    def pipe(self, t, dot, env):
        stages, cur, depth = [], [], 0
        for x in t:
            if x == ("op", "("):
                depth += 1
            if x == ("op", ")"):
                depth -= 1
            if x == ("op", "|") and depth == 0:
                stages.append(cur)
                cur = []
            else:
                cur.append(x)
        stages.append(cur)
        v, first = None, True
        for s in stages:
            v = self.command(s, dot, env, [] if first else [v])
            first = False
        return v

    def command(self, t, dot, env, last):
        args, i, words = [], 0, []
        while i < len(t):
            x = t[i]
            if x == ("op", "("):
                d, j = 1, i + 1
                while d:
                    if j >= len(t):
                        raise Broken("unbalanced parentheses in a template")
                    d += {("op", "("): 1, ("op", ")"): -1}.get(t[j], 0)
                    j += 1
                words.append(("val", self.pipe(t[i + 1:j - 1], dot, env)))
                i = j
            else:
                words.append(x)
                i += 1
        if not words:
            raise Broken("an empty template action")
        h = words[0]
        args = [self.value(x, dot, env) for x in words[1:]] + last
        if h[0] == "path" and h[1][0] not in ".$" and h[1] not in ("true", "false", "nil"):
            return self.call(h[1], args, env)
        v = self.value(h, dot, env)
        if args:
            if callable(v):
                return v(*args)
            raise Broken(f"{h[1]} is given arguments in a template")
        return v

    def value(self, x, dot, env):
        if x[0] in ("lit", "val"):
            return x[1]
        p = x[1]
        if p in ("true", "false", "nil"):
            return {"true": True, "false": False, "nil": None}[p]
        if p[0] == "$":
            h, _, rest = p.partition(".")
            e = next((e for e in reversed(env) if h in e), None)
            if e is None:
                raise Broken(f"{h} is not defined in a template")
            v = e[h]
        elif p[0] == ".":
            v, rest = dot, p[1:]
        else:
            return self.call(p, [], env)
        for k in rest.split(".") if rest else []:
            if v is None:
                raise Invalid(f"{p}: nil has no {k}")
            v = v.get(k) if isinstance(v, dict) and not (isinstance(v, Found) and k == "AsConfig") else getattr(v, k, None)
        return v

    def call(self, f, a, env):
        if f == "include":
            n, dot = a
            if n not in self.defines:
                b = self.files.get(n)
                if b is None:
                    raise Invalid(f"include of {n}, which is not defined")
                return self.run(b, dot, [{"$": dot}])
            return self.run(self.defines[n], dot, [{"$": dot}])
        g = FUNCS.get(f)
        if g is None:
            raise Broken(f"the template function {f}")
        try:
            return g(*a)
        except (TypeError, AttributeError, KeyError, IndexError, ValueError) as e:
            raise Invalid(f"{f} of {a!r}: {e}")


class Invalid(Exception):
    """a template cannot be evaluated"""


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = v
    return a


def indent(n, s):
    return "\n".join(" " * n + l for l in s.split("\n"))


def kind(x):
    return {str: "string", bool: "bool", int: "int", float: "float64", type(None): "invalid"}.get(type(x), "map" if isinstance(x, dict) else "slice")


def setkey(d, k, v):
    d[k] = v
    return d


FUNCS = {
    "default": lambda d, x=None: x if x else d, "trunc": lambda n, s: s[:n] if n >= 0 else s[n:], "trimSuffix": lambda x, s: s.removesuffix(x), "trimPrefix": lambda x, s: s.removeprefix(x), "trimAll": lambda x, s: s.strip(x), "trim": lambda s: s.strip(),
    "contains": lambda x, s: x in s, "hasPrefix": lambda x, s: s.startswith(x), "hasSuffix": lambda x, s: s.endswith(x), "replace": lambda a, b, s: s.replace(a, b), "lower": lambda s: s.lower(), "upper": lambda s: s.upper(),
    "printf": lambda f, *a: re.sub(r"%([svdq])", lambda m, it=iter(a): json.dumps(next(it)) if m.group(1) == "q" else show(next(it)), f), "print": lambda *a: "".join(show(x) for x in a), "quote": lambda *a: " ".join(json.dumps(show(x)) for x in a if x is not None),
    "squote": lambda *a: " ".join("'" + show(x) + "'" for x in a if x is not None), "indent": indent, "nindent": lambda n, s: "\n" + indent(n, s), "toYaml": dump, "toJson": lambda x: json.dumps(x, sort_keys=True, separators=(",", ":")), "toString": show,
    "eq": lambda a, *b: any(a == x for x in b), "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "gt": lambda a, b: a > b, "le": lambda a, b: a <= b, "ge": lambda a, b: a >= b, "not": lambda x: not x,
    "and": lambda *a: next((x for x in a if not x), a[-1]), "or": lambda *a: next((x for x in a if x), a[-1]), "keys": lambda *d: [k for x in d for k in x], "values": lambda d: list(d.values()), "sortAlpha": lambda l: sorted(map(show, l)), "index": lambda x, *k: index(x, k),
    "kindIs": lambda k, x: kind(x) == k, "kindOf": kind, "pick": lambda d, *k: {x: d[x] for x in k if x in d}, "omit": lambda d, *k: {x: y for x, y in d.items() if x not in k}, "set": setkey, "unset": lambda d, k: (d.pop(k, None), d)[1], "get": lambda d, k: d.get(k, ""),
    "hasKey": lambda d, k: k in d, "dict": lambda *a: dict(zip(a[::2], a[1::2])), "list": lambda *a: list(a), "tuple": lambda *a: list(a), "join": lambda s, l: s.join(map(show, l)), "first": lambda l: l[0] if l else None, "last": lambda l: l[-1] if l else None, "len": len,
    "sha256sum": lambda s: hashlib.sha256(s.encode()).hexdigest(), "b64enc": lambda s: base64.b64encode(s.encode()).decode(), "b64dec": lambda s: base64.b64decode(s).decode(), "empty": lambda x: not x, "coalesce": lambda *a: next((x for x in a if x), None),
    "ternary": lambda a, b, c: a if c else b, "int": lambda x: int(x or 0), "int64": lambda x: int(x or 0), "float64": float, "merge": lambda a, *b: [merge(a, {k: v for k, v in x.items() if k not in a}) for x in b] and a or a, "deepCopy": lambda x: json.loads(json.dumps(x)),
    "mustToJson": lambda x: json.dumps(x, sort_keys=True, separators=(",", ":")), "has": lambda x, l: x in l, "concat": lambda *a: [y for x in a for y in x], "append": lambda l, x: [*l, x], "cat": lambda *a: " ".join(map(show, a)), "add": lambda *a: sum(a), "sub": lambda a, b: a - b,
    "required": lambda m, x=None: x, "typeOf": kind,
}


def index(x, ks):
    for k in ks:
        x = x[k]
    return x
