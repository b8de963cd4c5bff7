#!/usr/bin/env python3
"""Writes the zoo: Rust types that use the library in every way it offers, each next to the
grammar it is meant to stand for.  usage: gen_zoo.py OUTDIR [SEED]
The hand-written part never changes; SEED (default 1) decides the random part."""
import random
import re
import sys

# ---------------------------------------------------------------- nodes


class Ctx:
    def __init__(self, elem, mod, fname):
        self.elem, self.mod, self.fname = elem, mod, fname
        self.types = []  # Rust items
        self.defs = []  # grammar definitions, in order
        self.index = {}  # definition name -> index
        self.entries = []
        self.templates = {}
        self.attrs = 0


def rs(s):
    out = ""
    for c in s:
        if c == '"':
            out += '\\"'
        elif c == "\\":
            out += "\\\\"
        elif c == "\n":
            out += "\\n"
        elif c == "\r":
            out += "\\r"
        elif c == "\t":
            out += "\\t"
        elif ord(c) < 32 or ord(c) == 127:
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return '"' + out + '"'


def rb(b):
    return 'b"' + "".join(
        chr(c) if 32 <= c < 127 and c not in (34, 92) else "\\x%02x" % c for c in b) + '"'


class N:
    """a grammar node: rust(), g(ctx), nullable(ctx), prim"""
    kind = "prim"

    def key(self):
        return self.rust()


class T(N):
    def __init__(self, s):
        self.s = s

    def rust(self):
        return "text::Tag<%s>" % rs(self.s) if isinstance(self.s, str) else "bytes::Tag<%s>" % rb(self.s)

    def g(self, c):
        return "tag(%s)" % rs(self.s) if isinstance(self.s, str) else "btag(%s)" % rb(self.s)

    def nullable(self, c):
        return len(self.s) == 0


class O(N):
    def __init__(self, s):
        self.s = s

    def rust(self):
        return "text::OneOf<%s>" % rs(self.s) if isinstance(self.s, str) else "bytes::OneOf<%s>" % rb(self.s)

    def g(self, c):
        return "one(%s)" % rs(self.s) if isinstance(self.s, str) else "bone(%s)" % rb(self.s)

    def nullable(self, c):
        return False


class A1(N):
    def __init__(self, s):
        self.s = s

    def rust(self):
        return "text::AnyOf1<%s>" % rs(self.s) if isinstance(self.s, str) else "bytes::AnyOf1<%s>" % rb(self.s)

    def g(self, c):
        return "any1(%s)" % rs(self.s) if isinstance(self.s, str) else "bany1(%s)" % rb(self.s)

    def nullable(self, c):
        return False


class A(N):
    def __init__(self, s):
        self.s = s

    def rust(self):
        return "text::AnyOf<%s>" % rs(self.s)

    def g(self, c):
        return "any(%s)" % rs(self.s)

    def nullable(self, c):
        return True


class N1(N):
    def __init__(self, s):
        self.s = s

    def rust(self):
        return "text::WhileNot1<%s>" % rs(self.s)

    def g(self, c):
        return "not1(%s)" % rs(self.s)

    def nullable(self, c):
        return False


class Simple(N):
    def __init__(self, r, g, null=False, kind="prim"):
        self.r, self.gg, self.n, self.kind = r, g, null, kind

    def rust(self):
        return self.r

    def g(self, c):
        return self.gg

    def nullable(self, c):
        return self.n


LE = Simple("text::LineEnding", "G::LineEnding")
SP = Simple("text::Space", "G::Space")
WS = Simple("text::WhiteSpace", "G::WhiteSpace")
QUOTED = Simple("Quoted", "G::Quoted", kind="user")
NUM = Simple("Num", "G::Number", kind="user")
LENPRE = Simple("LenPre", "G::LenPre", kind="user")
ANYEL = Simple("AnyEl", "G::AnyEl", kind="user")
NEVER = Simple("Never", "G::Never", kind="user")


class Wrap(N):
    kind = "cont"

    def __init__(self, p):
        self.p = p

    def rust(self):
        return "%s<%s>" % (self.rn, self.p.rust())

    def g(self, c):
        return "%s(%s)" % (self.gn, self.p.g(c))


class Opt(Wrap):
    rn, gn = "Option", "opt"

    def nullable(self, c):
        assert ZERO_OK[0] or not self.p.nullable(c), self.rust()
        return True


class Vec(Wrap):
    rn, gn = "Vec", "vec_"

    def nullable(self, c):
        assert ZERO_OK[0] or not self.p.nullable(c), self.rust()
        return True


class Vec1(Wrap):
    rn, gn = "Vec1", "vec1"

    def nullable(self, c):
        assert ZERO_OK[0] or not self.p.nullable(c), self.rust()
        return False


class Box(Wrap):
    rn, gn = "Box", "bx"

    def nullable(self, c):
        return self.p.nullable(c)


class Arr(N):
    kind = "cont"

    def __init__(self, p, n):
        self.p, self.n = p, n

    def rust(self):
        return "[%s; %d]" % (self.p.rust(), self.n)

    def g(self, c):
        return "arr(%s, %d)" % (self.p.g(c), self.n)

    def nullable(self, c):
        return self.n == 0 or self.p.nullable(c)


# conversions: field type -> (Rust type, Cv)
CONV = {
    "String": ("String", "No"), "usize": ("usize", "Usize"), "Small": ("Small", "Small"),
    "char": ("char", "No"), "NoX": ("NoX", "NotX"), "Bytes": ("Vec<u8>", "No"), "u8": ("u8", "No"),
    "Spaces": ("Vec<text::Space>", "No"), "Duo": ("Duo", "Duo"), "Sum": ("Sum", "Sum"),
}
TRAIL = {"no": "No", "yes": "Yes", "maybe": "Maybe"}


class Lst(N):
    kind = "list"

    def __init__(self, p, conv=None, sep=None, tr="no", ignore=None, mx=None, k=None):
        self.p, self.conv, self.sep, self.tr, self.ignore, self.mx = p, conv, sep, tr, ignore, mx

    def rust(self):
        k = 0 if self.sep is None else {"no": 1, "yes": 2, "maybe": 3}[self.tr]
        q = CONV[self.conv][0] if self.conv else self.p.rust()
        return "Lst<%s, %s, %s, %s, {%s}, %d>" % (
            self.p.rust(), q, self.sep.rust() if self.sep else "Never", self.ignore.rust() if self.ignore else "Never",
            "usize::MAX" if self.mx is None else self.mx, k)

    def g(self, c):
        assert not (self.sep is None and self.p.nullable(c))
        assert self.sep is None or not self.sep.nullable(c) or self.mx is not None
        return "lst(%s, Cv::%s, %s, Tr::%s, vec![%s], %s)" % (
            self.p.g(c), CONV[self.conv][1] if self.conv else "No",
            "Some(%s)" % self.sep.g(c) if self.sep else "None", TRAIL[self.tr],
            self.ignore.g(c) if self.ignore else "", "usize::MAX" if self.mx is None else self.mx)

    def nullable(self, c):
        return True


class Ref(N):
    """a derived type by name (or template with arguments)"""
    kind = "derived"

    def __init__(self, name, args=None):
        self.name, self.args = name, args or []

    def rust(self):
        if self.args:
            return "%s<%s>" % (self.name, ", ".join(a.rust() for a in self.args))
        return self.name

    def g(self, c):
        return "G::Ty(%d)" % instance(c, self)

    def nullable(self, c):
        if self.args:
            # parameters stand for types that read something
            some = T(b"a" if c.elem == "u8" else "a")
            self_ = Ref(self.name, [subst(a, {"A": some, "B": some}) for a in self.args])
            instance(c, self_)
            return c.defs[c.index[self_.rust()]]["nullable"]
        key = self.rust()
        if key not in c.index:
            return False  # recursive use: the generator guards it
        return c.defs[c.index[key]]["nullable"]


class Param(N):
    def __init__(self, name):
        self.name = name

    def rust(self):
        return self.name

    def g(self, c):
        raise Exception("parameter")

    def nullable(self, c):
        return False


class F:
    def __init__(self, name, node, conv=None, prefix=None, suffix=None, sep=None, tr=None, lst=False, ty=None):
        self.name, self.node, self.conv = name, node, conv
        self.prefix, self.suffix, self.sep, self.tr, self.lst, self.ty = prefix, suffix, sep, tr, lst, ty


def L(name, node, conv=None, sep=None, tr=None, **kw):
    return F(name, node, conv, sep=sep, tr=tr, lst=True, **kw)


def subst(node, m):
    if node is None:
        return None
    if isinstance(node, Param):
        return m[node.name]
    if isinstance(node, Wrap):
        return type(node)(subst(node.p, m))
    if isinstance(node, Arr):
        return Arr(subst(node.p, m), node.n)
    if isinstance(node, Lst):
        return Lst(subst(node.p, m), node.conv, subst(node.sep, m), node.tr, subst(node.ignore, m), node.mx)
    if isinstance(node, Ref):
        return Ref(node.name, [subst(a, m) for a in node.args])
    return node


def subst_f(f, m):
    return F(f.name, subst(f.node, m), f.conv, subst(f.prefix, m), subst(f.suffix, m), subst(f.sep, m), f.tr, f.lst, f.ty)


class D:
    """kind: struct | tuple | unit | enum"""

    def __init__(self, name, kind, fields=(), ignore=(), prefix=None, suffix=None, variants=(), pt=True, params=(), alias=()):
        self.name, self.kind, self.fields = name, kind, list(fields)
        self.ignore, self.prefix, self.suffix = list(ignore), prefix, suffix
        self.variants, self.pt, self.params = list(variants), pt, list(params)


class V:
    def __init__(self, name, kind="unit", fields=(), ignore=(), prefix=None, suffix=None):
        self.name, self.kind, self.fields = name, kind, list(fields)
        self.ignore, self.prefix, self.suffix = list(ignore), prefix, suffix


# ---------------------------------------------------------------- Rust output


def alias(c, node):
    """attribute arguments are split at commas, so types with commas get a name"""
    r = node.rust()
    depth, comma, instr = 0, False, False
    for i, ch in enumerate(r):
        if ch == '"' and (i == 0 or r[i - 1] != "\\"):
            instr = not instr
        if ch == "," and not instr:
            comma = True
    if not comma:
        return r
    for name, t in c.templates.items():
        if t == r:
            return name
    # a parameter has no name outside its type
    assert not re.search(r"\b[AB]\b", re.sub(r'"(\\.|[^"])*"', "", r))
    name = "Al%s%d" % (c.fname.capitalize(), len([t for t in c.templates if t.startswith("Al")]))
    c.templates[name] = r
    c.types.append("pub type %s = %s;" % (name, r))
    return name


def attr(c, pairs):
    # the forms users write: one attribute each, or several parameters in one, in whatever order
    c.attrs += 1
    if len(pairs) > 1 and c.attrs % 3 == 0:
        if c.attrs % 2 == 0:
            pairs = sorted(pairs, key=lambda p: p[0] == "ignore")
        return "    #[nommy(%s)]\n" % ", ".join("%s = %s" % p for p in pairs)
    return "".join("    #[nommy(%s = %s)]\n" % (k, v) for k, v in pairs)


def global_pairs(c, d, pt):
    out = []
    if pt:
        out.append(("parse_type", c.elem))
    out += [("ignore", alias(c, i)) for i in d.ignore]
    if d.prefix:
        out.append(("prefix", alias(c, d.prefix)))
    if d.suffix:
        out.append(("suffix", alias(c, d.suffix)))
    return out


def field_type(c, f):
    t = f.ty or (CONV[f.conv][0] if f.conv else f.node.rust())
    return "Vec<%s>" % t if f.lst else t


def field_attrs(c, f):
    p = []
    if f.prefix:
        p.append(("prefix", alias(c, f.prefix)))
    if f.suffix:
        p.append(("suffix", alias(c, f.suffix)))
    if f.lst:
        p.append(("inner_parser", alias(c, f.node)))
        if f.sep:
            p.append(("seperated_by", alias(c, f.sep)))
        if f.tr:
            p.append(("trailing", '"%s"' % f.tr))
    elif f.conv:
        p.append(("parser", alias(c, f.node)))
    return attr(c, p)


def fields_rust(c, kind, fields, vis="pub "):
    if kind == "unit":
        return ""
    body = ""
    for f in fields:
        name = "%s%s: " % (vis, f.name) if kind == "struct" else vis
        body += "%s    %s%s,\n" % (field_attrs(c, f), name, field_type(c, f))
    return " {\n%s}" % body if kind == "struct" else "(\n%s)" % body


def emit_type(c, d):
    params = "<%s>" % ", ".join(d.params) if d.params else ""
    pnames = params
    bounds = "<%s>" % ", ".join(p + ": ToVal" for p in d.params) if d.params else ""
    out = "#[derive(Parse)]\n" + attr(c, global_pairs(c, d, d.pt)).replace("    #", "#")
    if d.kind == "enum":
        out += "pub enum %s%s {\n" % (d.name, params)
        for v in d.variants:
            out += attr(c, global_pairs(c, v, False))
            out += "    %s%s,\n" % (v.name, fields_rust(c, v.kind, v.fields, ""))
        out += "}\n"
        arms = ""
        for i, v in enumerate(d.variants):
            names = [f.name for f in v.fields]
            pat = "" if v.kind == "unit" else (" { %s }" if v.kind == "struct" else "(%s)") % ", ".join(names)
            arms += "            %s::%s%s => Val::Var(%d, vec![%s]),\n" % (
                d.name, v.name, pat, i, ", ".join(n + ".to_val()" for n in names))
        body = "match self {\n%s        }" % arms
    else:
        f = fields_rust(c, d.kind, d.fields)
        out += "pub struct %s%s%s%s\n" % (d.name, params, f, "" if d.kind == "struct" else ";")
        acc = [f.name if d.kind == "struct" else str(i) for i, f in enumerate(d.fields)]
        body = "Val::Rec(vec![%s])" % ", ".join("self.%s.to_val()" % a for a in acc)
    out += "impl%s ToVal for %s%s {\n    fn to_val(self) -> Val {\n        %s\n    }\n}\n" % (bounds, d.name, pnames, body)
    c.types.append(out)


# ---------------------------------------------------------------- grammar output


def fields_nullable(c, fields):
    for f in fields:
        if (f.prefix and not f.prefix.nullable(c)) or (f.suffix and not f.suffix.nullable(c)):
            return False
        if not f.lst and not f.node.nullable(c):
            return False
        if f.lst:
            assert f.sep or not f.node.nullable(c), f.name
            assert not f.sep or not f.sep.nullable(c), f.name
    return True


def fix_nullable(c, d):
    for i in d.ignore:
        assert ZERO_OK[0] or not i.nullable(c)
    return (d.prefix is None or d.prefix.nullable(c)) and (d.suffix is None or d.suffix.nullable(c))


def is_nullable(c, d):
    if d.kind == "enum":
        vs = [fix_nullable(c, v) & fields_nullable(c, v.fields) for v in d.variants]
        return fix_nullable(c, d) and any(vs)
    return fields_nullable(c, d.fields) & fix_nullable(c, d)


def g_opt(c, n):
    return "Some(%s)" % n.g(c) if n else "None"


def g_attrs(c, d):
    return "Attrs { ignore: vec![%s], prefix: %s, suffix: %s }" % (
        ", ".join(i.g(c) for i in d.ignore), g_opt(c, d.prefix), g_opt(c, d.suffix))


def g_fields(c, kind, fields):
    out = []
    for i, f in enumerate(fields):
        name = f.name if kind == "struct" else "elem%d" % i
        cv = "Cv::" + (CONV[f.conv][1] if f.conv else "No")
        if f.lst:
            body = "Body::List { g: %s, cv: %s, sep: %s, trailing: Tr::%s }" % (
                f.node.g(c), cv, g_opt(c, f.sep), TRAIL[f.tr or "no"])
        else:
            body = "Body::Plain(%s, %s)" % (f.node.g(c), cv)
        out.append("Field { name: \"%s\", prefix: %s, suffix: %s, body: %s }" % (
            name, g_opt(c, f.prefix), g_opt(c, f.suffix), body))
    return "vec![%s]" % ", ".join(out)


WHAT = {"struct": "struct variant", "tuple": "tuple variant", "unit": "unit variant"}


def add_def(c, key, d):
    i = len(c.defs)
    c.index[key] = i
    slot = {"nullable": False, "text": None}
    c.defs.append(slot)
    slot["nullable"] = is_nullable(c, d)
    if d.kind == "enum":
        vs = ", ".join("Variant { name: \"%s\", what: \"%s\", attrs: %s, fields: %s }" % (
            v.name, WHAT[v.kind], g_attrs(c, v), g_fields(c, v.kind, v.fields)) for v in d.variants)
        kind = "Kind::Enum(vec![%s])" % vs
    else:
        kind = "Kind::Struct(%s)" % g_fields(c, d.kind, d.fields)
    slot["text"] = "Def { name: \"%s\", attrs: %s, kind: %s }" % (d.name, g_attrs(c, d), kind)
    return i


def instance(c, ref):
    key = ref.rust()
    if key in c.index:
        return c.index[key]
    d = c.templates_defs[ref.name]
    m = dict(zip(d.params, ref.args))
    d2 = D(d.name, d.kind, [subst_f(f, m) for f in d.fields], [subst(i, m) for i in d.ignore], subst(d.prefix, m),
           subst(d.suffix, m),
           [V(v.name, v.kind, [subst_f(f, m) for f in v.fields], [subst(i, m) for i in v.ignore], subst(v.prefix, m),
              subst(v.suffix, m)) for v in d.variants], d.pt)
    return add_def(c, key, d2)


def tags_of(c, node, d=None):
    if d is not None:
        fields = d.fields + [f for v in d.variants for f in v.fields]
        t = ["ENUM" if d.kind == "enum" else "STRUCT"]
        if any(f.lst for f in fields):
            t.append("LIST")
        return t
    return {"prim": ["PRIM"], "user": ["CONT"], "cont": ["CONT"], "list": ["LIST"], "derived": []}[node.kind]


def define(c, d, entry=True, extra=()):
    emit_type(c, d)
    if d.params:
        c.templates_defs[d.name] = d
        return
    add_def(c, d.name, d)
    if entry:
        c.entries.append((Ref(d.name), tags_of(c, None, d) + list(extra)))


def use(c, node, extra=()):
    t = tags_of(c, node)
    if isinstance(node, Ref) and node.args:
        t = tags_of(c, None, c.templates_defs[node.name])
    c.entries.append((node, t + list(extra)))


def write(c, path, header=""):
    # first: this may instantiate further generic types
    lines = ["        entry::<%s, _>(%s, %s, %s),\n" % (node.rust(), rs(node.rust()), node.g(c), " | ".join(tags)) for node, tags in c.entries]
    out = "// Written by tools/gen_zoo.py; do not edit.\n"
    out += "#![allow(dead_code, unused_imports, unused_braces, clippy::all)]\n"
    out += "use nommy_sim::model::*;\nuse nommy_sim::users::*;\nuse nommy_sim::val::{ToVal, Val};\nuse nommy_sim::zoo::*;\n"
    out += "use nommy::{bytes, text, Parse, Vec1};\n\n"
    out += header
    out += "\n".join(c.types)
    out += "\npub fn defs() -> Vec<Def> {\n    vec![\n"
    for d in c.defs:
        out += "        %s,\n" % d["text"]
    out += "    ]\n}\n\npub fn entries() -> Vec<Entry<%s>> {\n    vec![\n" % c.elem
    out += "".join(lines)
    out += "    ]\n}\n"
    with open(path, "w") as f:
        f.write(out)


# ---------------------------------------------------------------- hand-written: characters

LOW = "abcdefghijklmnopqrstuvwxyz"
DIG = "0123456789"
UNI = "aé√𝄞b"


def char_zoo(c):
    # primitives
    for s in ["a", "ab", "aab", "abcabd", "é", "né√", "𝄞𝄞", "", "\r\n", "aaaa", "/>", "hello world", "ß→"]:
        use(c, T(s))
    for s in ["a", "ab", "0123456789", "é√𝄞a", "Aa", "\n\r", ".-+"]:
        use(c, O(s))
        use(c, A(s))
        use(c, A1(s))
        use(c, N1(s))
    use(c, N1("\"\\"))
    use(c, A1(LOW))
    for s in ["zyxwvutsrqponmlkjihgfedcba9876543210", "xyzABaeiou019", "~é√𝄞aβΩя0 ", "\x7f\x00 ~"]:
        use(c, O(s))
        use(c, A1(s))
        use(c, N1(s))
        use(c, A(s))
    for s in ["The quick brown fox jumps over the lazy dog", "aAaAaB", "e\u0301e", "\x00\x7f"]:
        use(c, T(s))
    for n in [LE, SP, WS]:
        use(c, n)
    for n in [QUOTED, NUM, LENPRE, ANYEL]:
        use(c, n)
    # containers
    a, ab, AB = T("a"), T("ab"), O("ab")
    for n in [Opt(a), Opt(T("aab")), Vec(a), Vec(ab), Vec(AB), Vec1(a), Vec1(ab), Vec1(T("aba")), Arr(AB, 0), Arr(AB, 1),
              Arr(AB, 3), Arr(ab, 2), Arr(Opt(ab), 3), Arr(A1("a"), 2), Arr(Arr(AB, 2), 2), Box(ab), Box(Opt(T("né√"))),
              Vec(Vec1(T("ab"))), Opt(Vec1(AB)), Opt(Arr(AB, 3)), Vec(Arr(AB, 2)), Vec(Arr(T("aé"), 2)), Vec1(Arr(WS, 2)),
              Vec(LE), Vec1(WS), Vec(QUOTED), Vec(LENPRE), Opt(LENPRE), Vec1(O("aé√𝄞")), Arr(WS, 3), Vec(Box(ab)),
              Arr(LENPRE, 2), Vec1(LENPRE), Opt(QUOTED), Opt(NUM), Arr(Vec(T("ab")), 2), Vec(N1("a")), Opt(N1("a")),
              Arr(AB, 40), Vec(Arr(T("ab"), 3)), Opt(Box(T("abab"))), Arr(Arr(Opt(T("aa")), 2), 2), Box(Vec(T("aa")))]:
        use(c, n)
    # list functions called directly
    word, num = A1(LOW), A1(DIG)
    for mx in [4, 7, 8, 16]:
        use(c, Lst(O("aX"), "NoX", None, "no", T("-"), mx))
        use(c, Lst(AB, None, T(","), "no", SP, mx))
        use(c, Lst(AB, None, T(","), "yes", None, mx))
        use(c, Lst(AB, None, T(","), "maybe", T(" "), mx))
    for mx in [None, 0, 1, 2, 3, 5]:
        use(c, Lst(word, "String", None, "no", WS, mx))
        use(c, Lst(num, "usize", T(","), "no", WS, mx))
        use(c, Lst(num, "Small", T(","), "yes", WS, mx))
        use(c, Lst(word, "String", T(","), "maybe", WS, mx))
    for tr in ["no", "yes", "maybe"]:
        use(c, Lst(T("ab"), None, T("a"), tr, None, None))
        use(c, Lst(O("aX"), "NoX", T("--"), tr, T("-"), None))
        use(c, Lst(O("aé"), "char", T("a"), tr, T("aa"), 4))
        use(c, Lst(A("ab"), None, T(","), tr, SP, None))
        use(c, Lst(Opt(T("ab")), None, T("a"), tr, None, 6))
        use(c, Lst(NUM, None, LE, tr, SP, None))
        use(c, Lst(Arr(AB, 2), None, T("ba"), tr, T("bb"), 3))
        use(c, Lst(QUOTED, None, T(", "), tr, LE, None))
        use(c, Lst(LENPRE, None, T(","), tr, WS, None))
    use(c, Lst(AB, "char", None, "no", T("ba"), None))
    use(c, Lst(T("ab"), None, None, "no", T("a"), None))
    use(c, Lst(num, "Small", None, "no", T(","), 2))
    use(c, Lst(QUOTED, None, None, "no", WS, None))
    use(c, Lst(A1("a"), "String", None, "no", T("b"), 3))
    # structs
    define(c, D("Letters", "struct", [F("first", AB), F("second", O("cd"))], pt=False))
    define(c, D("Wrapped", "tuple", [F("elem0", AB), F("elem1", T("cd")), F("elem2", Vec(O("e")))], prefix=T("<"), suffix=T(">"), pt=False))
    define(c, D("Marker", "unit", prefix=T("mark"), suffix=T("!"), pt=False))
    define(c, D("Bare", "unit", pt=False))
    define(c, D("Spaced", "unit", prefix=T("be"), suffix=T("go"), ignore=[WS]))
    define(c, D("Ident", "struct", [F("name", A1(LOW), "String")], ignore=[WS], pt=False))
    define(c, D("NamedField", "struct", [F("name", word, "String"), F("ty", word, "String", prefix=T(":"))], ignore=[WS], suffix=T(","), pt=False))
    define(c, D("StructNamed", "struct", [F("name", word, "String"), F("fields", Vec(Ref("NamedField")), prefix=T("{"), suffix=T("}"))],
                prefix=T("struct"), ignore=[WS], pt=False))
    define(c, D("Call", "struct", [F("name", word, "String"), L("args", num, "usize", sep=T(","), prefix=T("("), suffix=T(")"))], ignore=[WS]))
    define(c, D("CallNo", "struct", [F("name", word, "String"), L("args", num, "Small", sep=T(","), tr="no", prefix=T("("), suffix=T(")"))], pt=False))
    define(c, D("CallYes", "struct", [L("args", num, "Small", sep=T(","), tr="yes"), F("rest", num, "usize")], ignore=[WS], pt=False))
    define(c, D("CallMaybe", "struct", [L("args", O("aX"), "NoX", sep=T(","), tr="maybe", suffix=T(";")), F("rest", Vec(O("aX")))], ignore=[SP, T("#")]))
    define(c, D("Plainlist", "tuple", [L("elem0", AB, "char"), F("elem1", T("c"))], ignore=[T("-")], pt=False))
    define(c, D("Two", "struct", [L("xs", AB, "char", sep=T("-")), L("ys", O("cd"), "char", sep=T("-"), tr="maybe")], pt=False))
    define(c, D("Frac", "struct", [F("digits", num, "String", prefix=T("."))], pt=False))
    define(c, D("Exp", "struct", [F("sign", Opt(O("+-")), prefix=O("eE")), F("digits", num, "Small")], pt=False))
    define(c, D("Signed", "struct", [F("n", A1("0123456789+-"), "usize"), F("unit", Opt(A1(LOW)))], pt=False))
    define(c, D("Hexish", "tuple", [F("elem0", A1("0123456789abcdef"), "usize", prefix=Opt(T("#")))], pt=False))
    define(c, D("Foreign", "struct", [F("n", A1("0123456789٣५９"), "usize", suffix=T(";")), F("m", A1("٣0123456789 "), "usize")], pt=False))
    define(c, D("Range", "struct", [F("from", num, "usize", suffix=T("-")), F("to", num, "usize")], ignore=[SP]))
    define(c, D("Ranges", "struct", [F("all", Vec1(Ref("Range"))), L("more", num, "usize", sep=T(","), prefix=T(";"), tr="maybe")], pt=False))
    define(c, D("Version", "enum", variants=[V("Three", "tuple", [F("elem0", num, "usize", suffix=T(".")), F("elem1", num, "usize", suffix=T(".")), F("elem2", num, "usize")]),
                                             V("Two", "struct", [F("major", num, "usize", suffix=T(".")), F("minor", num, "usize")]), V("One", "tuple", [F("elem0", num, "usize")]), V("Text", "tuple", [F("elem0", A1("0123456789."), "String")])], pt=False))
    for mx in (None, 2):
        for tr in ("no", "yes", "maybe"):
            use(c, Lst(A1("0123456789+"), "usize", T(","), tr, SP, mx))
    use(c, Arr(Ref("Range"), 2))
    use(c, Vec(Ref("Hexish")))
    define(c, D("Decimal", "struct", [F("sign", Opt(O("+-"))), F("whole", num, "usize"), F("frac", Opt(Ref("Frac"))), F("exp", Opt(Ref("Exp")))], pt=False))
    define(c, D("Fixes", "struct", [F("a", O("a"), "char", prefix=T("("), suffix=T(")")), F("b", O("b"), "char", prefix=T("[["), suffix=T("]]")),
                                    F("c", T("c"), prefix=Opt(T("?")), suffix=Vec(T("!")))], prefix=T("{"), suffix=T("}"), ignore=[WS], pt=False))
    define(c, D("FixesTuple", "tuple", [F("elem0", O("a"), "char", prefix=T("("), suffix=T(")")), F("elem1", O("aX"), "NoX", prefix=T("((")),
                                        F("elem2", Arr(AB, 2), suffix=T("))"))], ignore=[T("_"), T("a_")], pt=False))
    define(c, D("Recog", "unit", prefix=Ref("Fixes"), suffix=Ref("Call")))
    define(c, D("Sparse", "tuple", [F("elem0", Vec(T("ab"))), F("elem1", Opt(T("aba"))), F("elem2", A("a"))], ignore=[T(".")], pt=False))
    define(c, D("Arrays", "struct", [F("xs", Arr(Ref("Letters"), 3)), F("ys", Arr(Opt(T("yy")), 2)), F("zs", Box(Arr(T("zé"), 2)))], pt=False))
    define(c, D("Uni", "struct", [F("head", T("né√")), F("runs", A1("é√"), "String", prefix=T("→")), F("not", N1("𝄞;"), "String", suffix=T("𝄞"))], ignore=[T("ß")]))
    define(c, D("Line", "struct", [F("text", N1("\r\n"), "String"), F("end", LE)], pt=False))
    define(c, D("Lines", "struct", [F("lines", Vec(Ref("Line"))), F("last", Opt(N1("\r\n")))], pt=False))
    define(c, D("Csvrow", "struct", [L("cells", A(LOW), None, sep=T(","), suffix=LE)], ignore=[SP]))
    define(c, D("Csv", "tuple", [F("elem0", Vec1(Ref("Csvrow")))], pt=False))
    define(c, D("Lenny", "struct", [F("a", LENPRE), F("b", Vec(LENPRE), prefix=T(":")), F("c", Opt(QUOTED))], ignore=[WS]))
    define(c, D("Comment", "struct", [F("text", N1("\n"), "String", prefix=T("//"), suffix=T("\n"))], pt=False))
    define(c, D("Commented", "struct", [F("a", word, "String", suffix=T("=")), F("b", num, "usize")], ignore=[WS, Ref("Comment")], suffix=T(";"), pt=False))
    define(c, D("Program", "tuple", [F("elem0", Vec(Ref("Commented"))), F("elem1", T("end"))], ignore=[Ref("Comment"), LE, SP]))
    define(c, D("Nested", "struct", [F("inner", Ref("Fixes"), prefix=T("<"), suffix=T(">")), F("list", Vec1(Ref("Letters"))), F("tail", Ref("Plainlist"))], pt=False))
    define(c, D("Strict", "struct", [F("n", num, "Small"), F("x", O("abX"), "NoX"), F("more", Vec(Ref("Exp")))], ignore=[SP], pt=False))
    define(c, D("Retry", "struct", [F("many", Vec(Ref("Strict")), suffix=T("1")), F("rest", A(DIG))], pt=False))
    define(c, D("NoIgnore", "struct", [F("a", T("a")), F("b", T(" b")), F("c", Ref("Ident"))], pt=False))
    define(c, D("Opts", "struct", [F("a", Opt(Ref("Letters"))), F("b", Opt(Ref("NoIgnore"))), F("c", Opt(T("ac"))), F("d", A("acb "))], pt=False))
    # generic types
    A_, B_ = Param("A"), Param("B")
    define(c, D("Pair", "struct", [F("left", A_), F("right", B_)], prefix=T("("), suffix=T(")"), ignore=[SP], pt=False, params=["A", "B"]))
    define(c, D("Either", "enum", variants=[V("Left", "tuple", [F("elem0", A_)]), V("Right", "struct", [F("value", B_)], prefix=T("|"))], pt=False, params=["A", "B"]))
    define(c, D("Sep", "tuple", [F("elem0", A_), F("elem1", Vec(A_), prefix=T("/")), F("elem2", Opt(B_))], pt=False, params=["A", "B"]))
    define(c, D("Many", "struct", [L("xs", A_, None, sep=B_, tr="maybe", suffix=T(";")), L("ys", B_, None)], ignore=[SP], pt=False, params=["A", "B"]))
    define(c, D("Around", "tuple", [F("elem0", Vec1(A_), prefix=B_, suffix=B_), F("elem1", Arr(A_, 2)), F("elem2", Opt(B_))], prefix=Opt(T("~")), pt=False, params=["A", "B"]))
    define(c, D("Pick", "enum", variants=[V("Both", "tuple", [F("elem0", Box(A_)), F("elem1", Box(B_))]), V("Some", "struct", [L("v", A_, None, sep=T(","), tr="yes")], prefix=T("[")),
                                          V("None")], ignore=[WS], prefix=T("="), pt=False, params=["A", "B"]))
    for n in [Ref("Many", [T("ab"), T("a")]), Ref("Many", [Ref("Letters"), O(",-")]), Ref("Many", [Ref("Pair", [AB, AB]), T(",")]), Ref("Around", [AB, T("'")]),
              Ref("Around", [Ref("Letters"), Ref("Marker")]), Ref("Pick", [T("ab"), Ref("Letters")]), Vec(Ref("Pick", [AB, A1("cd")])), Ref("Pick", [Ref("Either", [T("ab"), AB]), NUM])]:
        use(c, n)
    for n in [Ref("Pair", [AB, T("ab")]), Ref("Pair", [Ref("Letters"), Opt(T("x"))]), Ref("Pair", [Ref("Pair", [AB, AB]), Ref("Call")]),
              Ref("Either", [T("ab"), Ref("Letters")]), Ref("Either", [Ref("Pair", [AB, AB]), Arr(AB, 3)]), Ref("Sep", [T("ab"), T("aba")]),
              Ref("Sep", [Ref("Marker"), O("m")]), Vec(Ref("Either", [T("aab"), AB])), Opt(Ref("Pair", [A1("a"), NUM])),
              Arr(Ref("Either", [T("aab"), AB]), 2)]:
        use(c, n, ["STRUCT"] if not (isinstance(n, Ref) and n.name == "Either") else [])
    # enums
    define(c, D("Abc", "enum", variants=[V("First", prefix=T("a")), V("Second", prefix=T("ab")), V("Third", prefix=T("b"), suffix=T("c"))], pt=False))
    define(c, D("Longest", "enum", variants=[V("Three", prefix=T("aaa")), V("Two", prefix=T("aa")), V("One", prefix=T("a")), V("Other", "tuple", [F("elem0", A1("b"), "String")])], pt=False))
    define(c, D("Shared", "enum", variants=[
        V("Assign", "struct", [F("name", word, "String"), F("value", num, "usize", prefix=T("="))]),
        V("Invoke", "struct", [F("name", word, "String"), L("args", num, "usize", sep=T(","), prefix=T("("), suffix=T(")"))]),
        V("Index", "tuple", [F("elem0", word, "String"), F("elem1", num, "usize", prefix=T("["), suffix=T("]"))]),
        V("Name", "tuple", [F("elem0", word, "String")])], ignore=[WS]))
    # one part in several roles
    define(c, D("Dash", "enum", prefix=T("-"), suffix=T("-"), variants=[
        V("Long", "tuple", [F("elem0", O("ab"))], prefix=T("-")), V("Short", "tuple", [F("elem0", O("ab"))]), V("Wide", "unit", prefix=T("-"), suffix=T("-"))], pt=False))
    define(c, D("Bars", "struct", [F("x", T("|"), prefix=T("|"), suffix=T("|")), F("y", T("|")), F("z", Opt(T("|")))], prefix=T("|"), suffix=T("|"), pt=False))
    define(c, D("Blanks", "struct", [F("x", A1("ab"), "String", prefix=T("a")), L("list", T("a"), None, sep=SP, tr="maybe", prefix=T("a")), F("y", Vec(T("a")))], ignore=[SP], suffix=SP, pt=False))
    define(c, D("Twice", "enum", prefix=T("a"), ignore=[SP], variants=[
        V("One", "struct", [F("x", T("a"), prefix=T("a"))], prefix=T("a"), ignore=[SP]), V("Two", "unit", prefix=T("a")), V("Three", "tuple", [F("elem0", T("b")), F("elem1", T("b"))], suffix=T("b"))]))
    define(c, D("Stmt", "tuple", [F("elem0", Ref("Shared")), F("elem1", T(";"))], ignore=[WS]))
    define(c, D("Block", "struct", [F("body", Vec(Ref("Stmt")))], prefix=T("{"), suffix=T("}"), ignore=[WS]))
    define(c, D("Outer", "enum", prefix=T("<"), suffix=T(">"), ignore=[SP], variants=[
        V("Plain"), V("Own", "struct", [F("x", O("ab"), "char"), F("y", O("ab"), "char")], prefix=T("("), suffix=T(")"), ignore=[T("-")]),
        V("Tup", "tuple", [F("elem0", Vec1(T("ab")))], prefix=T("(a"), suffix=T("b)"))], pt=False))
    # the unit variant above always parses: the later ones are for what follows a failure of the suffix
    define(c, D("OuterLast", "enum", prefix=T("<"), suffix=T(">"), ignore=[SP], variants=[
        V("Own", "struct", [F("x", O("ab"), "char"), F("y", O("ab"), "char")], prefix=T("("), suffix=T(")"), ignore=[T("-")]),
        V("Tup", "tuple", [F("elem0", Vec1(T("ab")))], prefix=T("(a"), suffix=T("b)")), V("Plain")], pt=False))
    define(c, D("Digit", "enum", variants=[V("Sm", "tuple", [F("elem0", num, "Small")]), V("Big", "tuple", [F("elem0", num, "usize")]), V("Huge", "tuple", [F("elem0", num, "String")])], pt=False))
    define(c, D("Digits", "struct", [L("all", Ref("Digit"), None, sep=T(","), tr="maybe")], ignore=[WS]))
    define(c, D("Cut", "enum", variants=[V("Long", "tuple", [F("elem0", Arr(AB, 6))]), V("Mid", "tuple", [F("elem0", Arr(AB, 4)), F("elem1", T("c"))]),
                                         V("Short", "tuple", [F("elem0", Arr(AB, 2))]), V("Len", "tuple", [F("elem0", LENPRE)])], pt=False))
    define(c, D("Cuts", "struct", [F("a", Vec(Ref("Cut"))), F("b", A("abc"))], pt=False))
    define(c, D("Listy", "enum", variants=[V("Semi", "struct", [L("xs", word, "String", sep=T(";"), tr="yes")], prefix=T("[")),
                                           V("Comma", "struct", [L("xs", word, "String", sep=T(","), tr="maybe")], prefix=T("["), suffix=T("]")),
                                           V("Spacey", "tuple", [L("elem0", word, "String")], prefix=T("["), suffix=T("!"))], ignore=[SP], pt=False))
    define(c, D("Only", "enum", variants=[V("One", "tuple", [F("elem0", word, "String"), F("elem1", Opt(O("!?")))])], pt=False))
    define(c, D("OnlyUnit", "enum", variants=[V("Here", prefix=T("here"), suffix=T(";"))], ignore=[WS], pt=False))
    define(c, D("OnlyIn", "enum", variants=[V("It", "struct", [F("a", Ref("Only")), L("b", Ref("Only"), None, sep=T(","), tr="maybe")], prefix=T("("), suffix=T(")"))], prefix=T("<"), ignore=[SP]))
    define(c, D("OnlyBoxed", "enum", variants=[V("Deep", "tuple", [F("elem0", Box(Ref("OnlyIn"))), F("elem1", Box(Box(Ref("OnlyUnit"))))])], pt=False))
    define(c, D("BoxIn", "struct", [F("x", O("x")), F("n", num, "Small")], pt=False))
    define(c, D("BoxMid", "struct", [F("l", Box(Ref("BoxIn"))), F("r", Arr(Box(Ref("BoxIn")), 2), prefix=T(":"))], pt=False))
    define(c, D("BoxOut", "struct", [F("mid", Box(Ref("BoxMid"))), F("alt", Box(Ref("Only")), suffix=T(";"))], pt=False))
    define(c, D("BoxAlt", "enum", variants=[V("M", "tuple", [F("elem0", Box(Ref("BoxMid")))]), V("N", "tuple", [F("elem0", Vec1(Box(Ref("BoxIn"))))], suffix=T("."))], pt=False))
    for n in [Box(Ref("BoxOut")), Vec(Box(Ref("BoxMid"))), Arr(Box(Ref("BoxAlt")), 2), Vec(Ref("OnlyBoxed")), Opt(Ref("OnlyIn")), Vec1(Ref("OnlyUnit"))]:
        use(c, n)
    # what goes wrong deep inside is the user's own
    for n in [Box(QUOTED), Box(Box(NUM)), Arr(QUOTED, 2), Vec1(QUOTED), Arr(Box(NUM), 3), Box(Vec1(LENPRE)), Arr(Vec1(QUOTED), 2), Vec1(Arr(ANYEL, 3))]:
        use(c, n)
    define(c, D("Own1", "struct", [F("a", QUOTED, prefix=T("a")), F("n", NUM), F("s", num, "Small", prefix=T("s"))], ignore=[SP], pt=False))
    define(c, D("Own2", "tuple", [F("elem0", Box(Ref("Own1"))), F("elem1", Arr(LENPRE, 2), prefix=T(";")), L("elem2", O("aX"), "NoX", sep=T(","))]))
    define(c, D("Own3", "struct", [F("opt", Opt(Ref("Own1")), prefix=T("?")), F("own", Box(Box(Ref("Own2")))), F("ones", Vec1(Ref("Own1")), prefix=T("!"))], pt=False))
    define(c, D("OwnAlt", "enum", variants=[V("A", "tuple", [F("elem0", Ref("Own1"))]), V("B", "struct", [F("q", Vec1(NUM)), F("any", ANYEL)], prefix=T("b"))], suffix=T(";"), pt=False))
    define(c, D("OwnAll", "struct", [F("alts", Vec(Ref("OwnAlt"))), F("o", Ref("Own3")), F("last", Arr(Arr(QUOTED, 2), 2))]))
    for n in [Arr(Ref("Own1"), 2), Vec1(Ref("Own2")), Box(Ref("Own3")), Opt(Ref("OwnAll")), Vec(Ref("OwnAlt"))]:
        use(c, n)
    define(c, D("UniEnum", "enum", variants=[V("Acc", prefix=T("é√")), V("Clef", "tuple", [F("elem0", A1("𝄞é"), "String")]), V("Rest", "struct", [F("s", N1(";"), "String")], suffix=T(";"))], pt=False))
    define(c, D("Expr0", "enum", variants=[V("Num", "tuple", [F("elem0", NUM)]), V("Str", "tuple", [F("elem0", QUOTED)]), V("Neg", "tuple", [F("elem0", Box(Ref("Expr0")))], prefix=T("-")),
                                           V("Paren", "struct", [F("first", Box(Ref("Expr0"))), F("rest", Vec(Ref("Expr0")))], prefix=T("("), suffix=T(")"))], ignore=[WS]))
    # recursive
    define(c, D("Lisp", "enum", variants=[V("Atom", "tuple", [F("elem0", A1(LOW + "+-*"), "String")]), V("List", "tuple", [F("elem0", Vec(Ref("Lisp")))], prefix=T("("), suffix=T(")")),
                                          V("Str", "tuple", [F("elem0", QUOTED)])], ignore=[WS]))
    c.index["Record"] = None
    # JSON's two types refer to each other
    ji = len(c.defs)
    c.index["Json"] = ji
    c.index["Record"] = ji + 1
    c.defs += [{"nullable": False, "text": None}, {"nullable": False, "text": None}]
    js = D("Json", "enum", variants=[V("Null", prefix=T("null")), V("Object", "tuple", [L("elem0", Ref("Record"), sep=T(","))], prefix=T("{"), suffix=T("}")),
                                     V("List", "tuple", [L("elem0", Ref("Json"), sep=T(","))], prefix=T("["), suffix=T("]")),
                                     V("Str", "tuple", [F("elem0", QUOTED)]), V("Num", "tuple", [F("elem0", A1(DIG), "usize")])], ignore=[WS])
    rec = D("Record", "struct", [F("name", QUOTED, suffix=T(":")), F("value", Ref("Json"))], ignore=[WS])
    for d in (js, rec):
        emit_type(c, d)
        i = c.index[d.name]
        n = len(c.defs)
        add_def(c, d.name + " (being defined)", d)
        c.defs[i] = c.defs.pop()
        assert len(c.defs) == n
        c.index[d.name] = i
        c.entries.append((Ref(d.name), tags_of(c, None, d)))
    name = A1(LOW + "-_")
    define(c, D("Attribute", "struct", [F("name", name, "String", suffix=T("=")), F("value", N1("\""), "String", prefix=T("\""), suffix=T("\""))], ignore=[WS]))
    define(c, D("Xml", "struct", [F("name", name, "String"), F("attributes", Vec(Ref("Attribute"))), F("children", Vec(Ref("Xml")), prefix=T(">"), suffix=T("</"))],
                prefix=T("<"), suffix=T(">"), ignore=[WS]))
    define(c, D("Chain", "struct", [F("head", AB), F("next", Opt(Box(Ref("Chain"))), prefix=T("."))], pt=True))
    define(c, D("Ini", "enum", variants=[V("Section", "struct", [F("name", N1("]\n"), "String")], prefix=T("["), suffix=T("]\n")),
                                         V("Entry", "struct", [F("key", N1("=\n"), "String", suffix=T("=")), F("value", N1("\n"), "String", suffix=T("\n"))]),
                                         V("Junk", "tuple", [F("elem0", N1("\n"), "String", suffix=T("\n"))])], pt=False))
    define(c, D("IniFile", "tuple", [F("elem0", Vec(Ref("Ini")))], pt=False))
    for n in [Vec(Ref("Abc")), Vec(Ref("Longest")), Arr(Ref("Abc"), 2), Opt(Ref("Shared")), Vec1(Ref("Letters")), Vec(Ref("NamedField")), Arr(Ref("Fixes"), 2), Opt(Ref("Json")),
              Box(Ref("Lisp")), Vec(Ref("Call")), Vec1(Ref("Stmt")), Vec(Ref("Strict")), Opt(Ref("Strict")), Vec(Ref("OuterLast")), Arr(Opt(Ref("Call")), 2)]:
        use(c, n)
    # many fields, many variants
    some = [AB, O("bc"), O("cd"), O("de"), O("ef"), O("fg"), O("gh"), O("hi"), O("ij"), O("jk"), O("kl"), O("lm"), O("mn"), O("no"), O("op"), O("pq")]
    names = ["zz", "a", "b10", "b2", "m", "Y", "q", "c", "p", "_n", "d", "u", "h", "g", "f", "e"]
    define(c, D("Wide", "tuple", [F("elem%d" % i, some[i]) for i in range(13)], pt=False))
    define(c, D("WideIgn", "tuple", [F("elem%d" % i, Opt(some[i]), suffix=T(",") if i in (3, 10) else None) for i in range(12)], ignore=[SP], prefix=T("<")))
    define(c, D("WideNamed", "struct", [F(names[i], some[i], "char" if i % 3 == 0 else None, prefix=T("-") if i == 11 else None) for i in range(16)], pt=False))
    define(c, D("WideEnum", "enum", variants=[
        V("Tup", "tuple", [F("elem%d" % i, some[i] if i % 2 else T(some[i].s[0])) for i in range(11)]),
        V("Named", "struct", [F(names[i], some[i]) for i in range(12)]), V("Less", "tuple", [F("elem0", Arr(AB, 2)), F("elem1", A(LOW))])], pt=False))
    words = ["mon", "tue", "wed", "thu", "fri", "sat", "sun", "jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec", "monday", "m"]
    define(c, D("Many20", "enum", variants=[V("X%d" % i if i % 2 else "A%d" % i, prefix=T(w)) for i, w in enumerate(words)], pt=False))
    define(c, D("Kinds", "enum", variants=[V("K%d" % i, "tuple", [F("elem0", O(some[i].s), "char"), F("elem1", Opt(T(some[i].s)))], prefix=T("k") if i % 3 == 0 else None) for i in range(15)], ignore=[SP]))
    # around what need not be there
    o, v = Opt(T("?")), Vec(T("!"))
    define(c, D("AbsPre", "struct", [F("x", T("a"), prefix=o), F("y", Opt(T("b")), prefix=v, suffix=o)], ignore=[SP]))
    define(c, D("AbsOwn", "struct", [F("x", Opt(T("a"))), F("y", T("b"))], prefix=o, suffix=v, ignore=[SP], pt=False))
    define(c, D("AbsTup", "tuple", [F("elem0", AB, "char", prefix=v, suffix=v), F("elem1", AB, "char", prefix=o, suffix=o)], prefix=v, suffix=o, ignore=[T("-"), SP]))
    define(c, D("AbsUnit", "unit", prefix=o, suffix=T("."), ignore=[SP]))
    define(c, D("AbsList", "struct", [L("xs", AB, None, sep=T(","), prefix=o, suffix=v), L("ys", O("cd"), None, prefix=v)], prefix=Opt(T("a?")), ignore=[SP]))
    define(c, D("AbsEnum", "enum", prefix=o, suffix=v, ignore=[SP], variants=[
        V("One", "tuple", [F("elem0", T("a"), suffix=o)], prefix=v), V("Two", "struct", [F("x", AB, prefix=o)], prefix=Opt(T("ab")), suffix=T(";"), ignore=[T("-")]), V("Three", prefix=T("c"), suffix=o)]))
    for n in [Vec(Ref("AbsPre")), Vec(Ref("AbsEnum")), Arr(Ref("AbsTup"), 2), Vec(Ref("AbsUnit")), Vec(Ref("Many20")), Vec(Ref("WideEnum")), Opt(Ref("Wide")), Vec(Ref("Kinds"))]:
        use(c, n)
    # conversions of what is not a primitive
    c.types.append("""pub struct Duo(u32, u32);
impl std::convert::TryFrom<Letters> for Duo {
    type Error = ConvError;
    fn try_from(v: Letters) -> Result<Self, ConvError> {
        nommy_sim::track::user_step();
        let (a, b): (char, char) = (v.first.into(), v.second.into());
        if (a, b) == ('b', 'd') {
            Err(ConvError("bd"))
        } else {
            Ok(Duo(a as u32, b as u32))
        }
    }
}
impl ToVal for Duo {
    fn to_val(self) -> Val {
        Val::Rec(vec![Val::Ch(self.0), Val::Ch(self.1)])
    }
}
pub struct Sum(u64);
impl std::convert::TryFrom<Vec<DigPlus>> for Sum {
    type Error = ConvError;
    fn try_from(v: Vec<DigPlus>) -> Result<Self, ConvError> {
        nommy_sim::track::user_step();
        match v.into_iter().map(|d| d.d.0).sum() {
            n if n < 150 => Ok(Sum(n)),
            _ => Err(ConvError("too much")),
        }
    }
}
impl ToVal for Sum {
    fn to_val(self) -> Val {
        Val::Num(self.0)
    }
}
""")
    define(c, D("ConvRun", "struct", [F("lead", Vec1(SP), "Spaces"), F("name", word, "String"), F("after", Vec1(SP), "Spaces", suffix=T(";"))], pt=False))
    define(c, D("ConvDuo", "struct", [F("one", Ref("Letters"), "Duo"), L("more", Ref("Letters"), "Duo", sep=T(","), tr="maybe", prefix=T(":")), F("left", A(LOW))], ignore=[SP], pt=False))
    define(c, D("ConvAlt", "enum", variants=[V("Duo", "tuple", [F("elem0", Ref("Letters"), "Duo"), F("elem1", T("!"))]), V("Raw", "struct", [F("v", Vec1(Ref("Letters")))]), V("Run", "tuple", [L("elem0", Ref("Letters"), "Duo")], prefix=T("#"))], pt=False))
    define(c, D("DigPlus", "struct", [F("d", num, "Small", suffix=T("+"))], pt=False))
    define(c, D("Sums", "struct", [F("a", Vec(Ref("DigPlus")), "Sum", prefix=T("=")), F("b", Vec(Ref("DigPlus")), "Sum", suffix=T("."))], ignore=[SP]))
    define(c, D("SumOr", "enum", variants=[V("Few", "tuple", [F("elem0", Vec(Ref("DigPlus")), "Sum")], prefix=T("(")), V("Lots", "struct", [L("all", num, "String", sep=T("+"), tr="maybe")], prefix=T("("), suffix=Opt(T(")")))], pt=False))
    use(c, Vec(Ref("SumOr")))
    use(c, Vec(Ref("ConvAlt")))
    # names that need care
    define(c, D("Careful", "struct", [F("r#type", AB, "char", prefix=T("@")), F("r#fn", num, "Small"), L("r#match", word, "String", sep=T(","), suffix=T("."))], ignore=[SP]))
    define(c, D("Shadow", "struct", [F("parse", T("a")), F("peek", T("b")), F("cursor", Opt(AB)), F("result", AB, "char"), F("c", AB), F("output", Vec(T("c"))), F("res", T("r")), F("value", A("xyz")), F("e", Opt(T("e"))), F("err", Opt(T("f")))], prefix=T("s")))
    define(c, D("ShadowEnum", "enum", variants=[V("Ok", "struct", [F("cursor", AB), F("result", T("r"))]), V("Err", "struct", [F("self_", AB), F("i", T("i"))]), V("Some", "tuple", [F("elem0", AB)]), V("None", "tuple", [F("elem0", T("n"))])], ignore=[SP], pt=False))
    for tr in ["no", "yes", "maybe"]:
        use(c, Lst(Ref("Fixes"), None, T(","), tr, WS, None))
        use(c, Lst(Ref("Abc"), None, T("b"), tr, T("a"), None))
        use(c, Lst(Ref("Digit"), None, Ref("Marker"), tr, Ref("Comment"), 3))
    use(c, Lst(Ref("Shared"), None, None, "no", T(";"), None))


# ---------------------------------------------------------------- repeats what may be empty

ZERO_OK = [False]


def zero_zoo(c):
    nothing, look = Simple("Nothing", "G::Nothing(false)", True), Simple("LookOnly", "G::Nothing(true)", True)
    ab, AB = T("ab"), O("ab")
    for n in [Vec(nothing), Vec1(nothing), Vec(look), Vec1(look), Vec(Opt(ab)), Vec1(Opt(T("a"))), Vec(A("a")), Vec1(A("ab")), Vec(Vec(ab)), Vec1(Vec(AB)),
              Vec(Arr(Opt(ab), 2)), Vec(Arr(AB, 0)), Vec1(Box(A("a"))), Vec(T("")), Arr(Vec(Opt(T("a"))), 2), Box(Vec(nothing)),
              Lst(AB, None, None, "no", Opt(T(" ")), None), Lst(AB, None, T(","), "no", look, None), Lst(AB, None, T(","), "yes", A(" "), None),
              Lst(AB, None, T(","), "maybe", Vec(WS), None), Lst(AB, None, T(","), "maybe", nothing, 3)]:
        use(c, n, ["ZERO"])
    for i, ig in enumerate([nothing, look, Opt(T("-")), A("-"), Vec(WS), Arr(SP, 0)]):
        define(c, D("Zs%d" % i, "struct", [F("a", AB), F("b", Opt(T("ab")))], ignore=[ig], pt=i % 2 == 0), extra=["ZERO"])
        define(c, D("Ze%d" % i, "enum", variants=[V("One", prefix=T("aa"), ignore=[ig]), V("Two", "tuple", [F("elem0", Vec(AB)), F("elem1", T("c"))])], ignore=[WS], pt=i % 2 == 1), extra=["ZERO"])
    define(c, D("Zl", "struct", [L("xs", AB, "char", sep=T(",")), F("end", T(";"))], ignore=[SP, Opt(T("!"))]), extra=["ZERO"])
    define(c, D("Zempty", "struct", [F("a", Opt(T("a"))), F("b", A("b"))], pt=False), extra=["ZERO"])
    use(c, Vec(Ref("Zempty")), ["ZERO"])
    use(c, Vec1(Ref("Zempty")), ["ZERO"])


# ---------------------------------------------------------------- hand-written: bytes


def byte_zoo(c):
    for s in [b"a", b"ab", b"\x00\xff", b"\x7f\x80\x81", b"aaab", b""]:
        use(c, T(s))
    for s in [b"a", b"ab", b"\x00\x80\xff", b"01234567"]:
        use(c, O(s))
        use(c, A1(s))
    for s in [b"xyzABaeiou019", bytes(range(255, 225, -1)), b"\x7f\x80\x00\x01 ~"]:
        use(c, O(s))
        use(c, A1(s))
    for s in [b"abc", b"abcd", b"abcdefgh", b"abcdefghi", b"aAaAaB", b"GIF89a\x00\x00\x00\x01"]:
        use(c, T(s))
        use(c, Opt(T(s)))
    for mx in [4, 8]:
        use(c, Lst(O(b"aX"), "NoX", None, "no", T(b"-"), mx))
        use(c, Lst(O(b"ab"), "u8", T(b","), "no", T(b" "), mx))
    for n in [Opt(T(b"ab")), Vec(T(b"ab")), Vec1(O(b"ab")), Arr(O(b"ab"), 3), Vec(Arr(O(b"\x00\xff"), 2)), Box(A1(b"ab")), Opt(T(b"\x00\x00\x01")),
              Arr(Opt(T(b"\x80\x80")), 2), Vec(LENPRE), NUM, QUOTED, Vec1(T(b"\xff\xfe"))]:
        use(c, n)
    for tr in ["no", "yes", "maybe"]:
        use(c, Lst(A1(b"ab"), "Bytes", T(b"\x00"), tr, T(b" "), None))
        use(c, Lst(O(b"aX"), "NoX", T(b"\x00\x00"), tr, T(b"\x00"), 3))
    use(c, Lst(O(b"ab"), "u8", None, "no", T(b"\x00"), None))
    use(c, Lst(O(b"ab"), "u8", None, "no", None, 2))
    define(c, D("Hdr", "struct", [F("magic", T(b"\x7fELF")), F("class", O(b"\x01\x02"), "u8"), F("data", A1(b"\x00\x01"), "Bytes")], pt=False))
    define(c, D("Frame", "struct", [F("kind", O(b"abX"), "NoX"), F("body", LENPRE), L("tail", O(b"ab"), "u8", sep=T(b"\x00"), tr="maybe")], prefix=T(b"\xff"), suffix=T(b"\xfe"), ignore=[T(b"\x20")]))
    define(c, D("Frames", "tuple", [F("elem0", Vec(Ref("Frame"))), F("elem1", Opt(T(b"\xff\xff")))], pt=False))
    define(c, D("Op", "enum", variants=[V("Nop", prefix=T(b"\x90")), V("Push", "tuple", [F("elem0", Arr(O(b"\x00\x01\x02\x03"), 4))], prefix=T(b"\x68")),
                                        V("Push8", "struct", [F("imm", O(b"\x00\x01\x68"), "u8")], prefix=T(b"\x68")), V("Rep", "tuple", [F("elem0", Box(Ref("Op")))], prefix=T(b"\xf3"))]))
    define(c, D("Code", "tuple", [F("elem0", Vec(Ref("Op"))), F("elem1", T(b"\xc3"))], ignore=[T(b"\xcc")]))
    use(c, Vec(Ref("Op")))
    define(c, D("Packet", "struct", [F("len", LENPRE, prefix=T(b"\x02")), F("crc", Arr(O(b"abX"), 2)), F("k", O(b"aX"), "NoX"), F("name", Box(QUOTED))], pt=False))
    define(c, D("Packets", "tuple", [F("elem0", Vec1(Box(Ref("Packet")))), F("elem1", Arr(NUM, 2), prefix=T(b"\x03"))], suffix=T(b"\x04")))
    for n in [Arr(QUOTED, 2), Vec1(LENPRE), Box(Box(QUOTED)), Arr(Ref("Packet"), 2)]:
        use(c, n)


# ---------------------------------------------------------------- random


class Rand:
    def __init__(self, rng, c, pre, elem):
        self.r, self.c, self.pre, self.bytes = rng, c, pre, elem == "u8"
        self.names, self.generics, self.params, self.recent = [], [], [], []
        if self.bytes:
            self.tags = [b"a", b"b", b"ab", b"ba", b"aa", b"aab", b"\x00", b"\xff\x00", b"c", b"(", b")", b",", b" ", b"abca", b"\x01\x02\x03"]
            self.sets = [b"ab", b"a", b"bc", b"\x00\xff", b"abX", b"0123456789", b"zbyaxc,() "]
        else:
            self.tags = ["a", "b", "ab", "ba", "aa", "aab", "aba", "é", "aé", "c", "(", ")", ",", ";", "-", "--", " ", "\n", "√é", "abca", "Ab"]
            self.sets = ["ab", "a", "bc", "aé", "abX", "0123456789", "é√", ",;", "-a", "zbya√xc,() "]

    def tag(self):
        # the same part in several roles now and then
        if self.recent and self.r.random() < 0.3:
            return T(self.r.choice(self.recent))
        self.recent.append(self.r.choice(self.tags))
        return T(self.recent[-1])

    def ref(self, depth):
        if self.generics and self.r.random() < 0.3:
            name, n = self.r.choice(self.generics)
            return Ref(name, [self.nonnull(depth - 1) for _ in range(n)])
        return Ref(self.r.choice(self.names))

    def prim(self):
        k = self.r.random()
        s = self.r.choice(self.sets)
        if k < 0.4:
            return self.tag()
        if k < 0.6:
            return O(s)
        if k < 0.75:
            return A1(s)
        if self.bytes:
            return O(s)
        if k < 0.83:
            return N1(s)
        if k < 0.95:
            return self.r.choice([WS, LE, SP, QUOTED, LENPRE, NUM])
        return ANYEL

    def nonnull(self, depth):
        for _ in range(30):
            n = self.node(depth)
            if not n.nullable(self.c):
                return n
        return self.tag()

    def node(self, depth):
        k = self.r.random()
        if self.params and self.r.random() < 0.25:
            return Param(self.r.choice(self.params))
        if depth <= 0 or k < 0.42:
            return self.prim() if self.bytes or self.r.random() > 0.08 else A(self.r.choice(self.sets))
        if k < 0.52:
            return Opt(self.nonnull(depth - 1))
        if k < 0.62:
            return Vec(self.nonnull(depth - 1))
        if k < 0.68:
            return Vec1(self.nonnull(depth - 1))
        if k < 0.75:
            return Arr(self.node(depth - 1), self.r.choice([1, 2, 2, 3]))
        if k < 0.79:
            return Box(self.ref(depth - 1) if self.names and self.r.random() < 0.5 else self.node(depth - 1))
        if k < 0.84:
            sep = self.nonnull(0) if self.r.random() < 0.75 else None
            p = self.node(depth - 1) if sep else self.nonnull(depth - 1)
            ig = self.nonnull(0) if self.r.random() < 0.6 else None
            return Lst(p, None, sep, self.r.choice(["no", "yes", "maybe"]) if sep else "no", ig, self.r.choice([None, None, 1, 2, 3, 4, 6]))
        if self.names:
            return self.ref(depth)
        return self.prim()

    def maybe_fix(self, p):
        if self.r.random() < p:
            return self.tag() if self.r.random() < 0.8 else self.node(1)
        return None

    def field(self, name, depth):
        pre, suf = self.maybe_fix(0.3), self.maybe_fix(0.3)
        k = self.r.random()
        s = self.r.choice(self.sets)
        if k < 0.55:
            return F(name, self.node(depth), prefix=pre, suffix=suf)
        digits = b"0123456789" if self.bytes else "0123456789"
        if self.bytes:
            conv, node = self.r.choice([("Bytes", A1(s)), ("u8", O(s)), ("NoX", O(b"abX"))])
        else:
            conv, node = self.r.choice([("String", A1(s)), ("char", O(s)), ("NoX", O("abX")), ("usize", A1(digits)), ("Small", A1(digits)), ("String", N1(s))])
        if k < 0.75:
            return F(name, node, conv, prefix=pre, suffix=suf)
        if self.r.random() < 0.5:
            conv, node = None, self.nonnull(1)
        sep = self.nonnull(0) if self.r.random() < 0.8 else None
        return L(name, node, conv, sep=sep, tr=self.r.choice([None, "no", "yes", "maybe", "maybe", "yes"]) if sep else None, prefix=pre, suffix=suf)

    def fields(self, kind, depth):
        if kind == "unit":
            return []
        n = self.r.choice([1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 5, 8, 12])
        names = list("xyzwrstuvmno") if kind == "struct" else ["elem%d" % i for i in range(12)]
        return [self.field(names[i], depth) for i in range(n)]

    def ignores(self, p):
        if self.r.random() > p:
            return []
        # what is ignored cannot be a parameter of the type: the derive macro does not support that
        params, self.params = self.params, []
        try:
            return [self.nonnull(0) if self.r.random() < 0.85 else self.nonnull(1) for _ in range(self.r.choice([1, 1, 2]))]
        finally:
            self.params = params

    def make(self, i):
        name = "%s%d" % (self.pre, i)
        pt = self.r.random() < 0.5
        self.recent, self.params = [], []
        if self.r.random() < 0.2 and self.names:
            self.params, pt = self.r.choice([["A"], ["A", "B"]]), False
        try:
            return self.make_as(name, pt)
        finally:
            self.params = []

    def make_as(self, name, pt):
        if self.r.random() < 0.5:
            kind = self.r.choice(["struct", "struct", "tuple", "tuple", "unit"])
            d = D(name, kind, self.fields(kind, 2), self.ignores(0.4), self.maybe_fix(0.3), self.maybe_fix(0.3), pt=pt)
            if kind == "unit" and d.prefix is None:
                d.prefix = self.tag()
        else:
            vs = []
            rec = self.r.random() < 0.3 and not self.params
            count = self.r.choice([1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 7])
            for j in range(max(count, 2) if rec else count):
                kind = self.r.choice(["unit", "tuple", "struct"])
                v = V("V%d" % j, kind, self.fields(kind, 1), self.ignores(0.15), self.maybe_fix(0.35), self.maybe_fix(0.25))
                if kind == "unit" and v.prefix is None:
                    v.prefix = self.tag()
                if rec and j == 0:
                    v = V("V0", "tuple", [F("elem0", self.r.choice([Vec(Ref(name)), Box(Ref(name)), Opt(Box(Ref(name)))]))], [], self.tag(), self.maybe_fix(0.7))
                vs.append(v)
            d = D(name, "enum", (), self.ignores(0.35), self.maybe_fix(0.3), self.maybe_fix(0.25), vs, pt=pt or rec)
            if rec:
                # a recursive use counts as reading something: every way through has to
                try:
                    if is_nullable(self.c, d):
                        d.prefix = self.tag()
                except AssertionError:
                    return False
        if self.params:
            d.params = self.params
            fields = d.fields + [f for v in d.variants for f in v.fields]
            inside = " ".join(re.sub(r'"(\\.|[^"])*"', "", f.node.rust()) for f in fields if not f.conv)
            if not all(re.search(r"\b%s\b" % p, inside) for p in d.params):
                return False
        try:
            is_nullable(self.c, d)
        except AssertionError:
            return False
        define(self.c, d, extra=["RANDOM"])
        if d.params:
            params, self.params = self.params, []
            for _ in range(3):
                use(self.c, Ref(name, [self.nonnull(2) for _ in params]), ["RANDOM"])
            self.generics.append((name, len(params)))
        else:
            self.names.append(name)
        return True


def main():
    out = sys.argv[1]
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    nchar = int(sys.argv[3]) if len(sys.argv) > 3 else 60
    nbyte = int(sys.argv[4]) if len(sys.argv) > 4 else 20
    for elem, mod, fn, hand, n in [("char", "text", "char", char_zoo, 0), ("char", "text", "zero", zero_zoo, 0), ("u8", "bytes", "byte", byte_zoo, 0),
                                   ("char", "text", "rchar", None, nchar), ("u8", "bytes", "rbyte", None, nbyte)]:
        c = Ctx(elem, mod, fn)
        c.templates_defs = {}
        ZERO_OK[0] = hand is zero_zoo
        if hand:
            hand(c)
        else:
            r = Rand(random.Random("%s-%d" % (fn, seed)), c, "R", elem)
            i = 0
            while i < n:
                before = (list(c.types), list(c.entries), list(c.defs), dict(c.index), dict(c.templates))
                try:
                    ok = r.make(i)
                except AssertionError:
                    ok = False
                if ok:
                    i += 1
                else:
                    c.types, c.entries, c.defs, c.index, c.templates = before
        write(c, "%s/zoo_%s.rs" % (out, fn))


if __name__ == "__main__":
    main()
