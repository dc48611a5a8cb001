"""Mechanical translation of C++ functions of /repo (clang AST) into Verus.

All C++ data becomes ghost data of mathematical sorts (int, bool, Seq, Map, Option,
structs); control flow stays control flow, branching through the oracle `br(Ghost(c))`.
Contracts, invariants and ghost proof text come from the .vspec files.  Everything the
translation drops or assumes is recorded in `Unit.assumptions`.
"""
import json, re, zlib, ast as pyast
from cxxast import TU, ExtractError, find_value


class Unsupported(ExtractError):
    pass


class BindError(ExtractError):
    pass


NS = ("McBopomofo", "Formosa", "Gramambular2", "Mandarin", "std")
U64 = 1 << 64

INTS = {
    "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
    "long long": (64, True), "unsigned long long": (64, False), "short": (16, True),
    "unsigned short": (16, False), "unsigned char": (8, False), "signed char": (8, True),
    "char32_t": (32, False), "char16_t": (16, False), "size_t": (64, False), "uint8_t": (8, False),
    "uint16_t": (16, False), "uint32_t": (32, False), "uint64_t": (64, False), "int64_t": (64, True),
    "int32_t": (32, True), "ptrdiff_t": (64, True), "std::size_t": (64, False), "std::ptrdiff_t": (64, True),
    "size_type": (64, False), "difference_type": (64, True), "int16_t": (16, True), "int8_t": (8, True),
    "__off_t": (64, True), "off_t": (64, True), "__mode_t": (32, False), "__size_t": (64, False),
}


def T_int(bits, signed):
    return ("int", bits, signed)


TI32 = T_int(32, True)
TU64 = T_int(64, False)
TI64 = T_int(64, True)
TCHAR = ("char",)
TBOOL = ("bool",)
TSTR = ("str",)
TVOID = ("void",)
TDBL = ("dbl",)
TCSTR = ("cstr",)
TNULL = ("null",)


def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def match_close(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == "<":
            d += 1
        elif s[j] == ">":
            d -= 1
            if d == 0:
                return j
    raise Unsupported("type " + s)


def short(q):
    parts = [p for p in q.split("::") if p and p not in NS and "anonymous" not in p]
    return "_".join(parts)


class LV:
    __slots__ = ("k", "a", "t")

    def __init__(self, k, a, t):
        self.k, self.a, self.t = k, a, t


class Unit:
    """One verification unit: spec file + translated functions -> one Verus file."""

    def __init__(self, name, tus, spec):
        self.name, self.tus, self.spec = name, tus, spec
        self.structs = {}
        self.struct_order = []
        self.enums = {}
        self.consts = {}
        self.assumptions = set()
        self.dropped = set()
        self.out = []
        self.linemap = {}
        self.struct_dropped = {}
        self.vac = False
        self.nvac = 0
        self.distrust = set()
        self.distrust_why = {}
        self.poly_cache = {}
        self.base_fields = {}
        for q, fs in spec.cstructs.items():
            tus[0].classes.setdefault(q, {"kind": "CXXRecordDecl", "name": q, "inner": [
                {"kind": "FieldDecl", "name": f, "type": {"qualType": t.replace("_", " ")}} for f, t in fs]})

    # ---- lookup -------------------------------------------------------------
    def find_class(self, q):
        for tu in self.tus:
            for cq, n in tu.classes.items():
                if cq == q or q.endswith("::" + cq) or cq.endswith("::" + q):
                    return tu, cq, n
        return None

    def find_enum(self, q):
        for tu in self.tus:
            for cq, n in tu.enums.items():
                if cq == q or q.endswith("::" + cq) or cq.endswith("::" + q):
                    return tu, cq, n
        return None

    # ---- types ----------------------------------------------------------------
    def ty(self, t):
        if isinstance(t, dict):
            s = t.get("desugaredQualType") or t["qualType"]
            try:
                return self.ty_s(s)
            except Unsupported:
                return self.ty_s(t["qualType"])
        return self.ty_s(t)

    def ty_s(self, s):
        s = s.strip().replace("(anonymous namespace)::", "")
        s = re.sub(r"\b(const|class|struct|enum|typename|volatile|constexpr)\b", " ", s)
        s = re.sub(r"\s+", " ", s).strip()
        s = s.replace(" >", ">")
        while s.endswith("&"):
            s = s[:-1].strip()
        if s == "value_type *":   # the element type of a string view's pointer iterator
            return ("ptr", TCHAR)
        if s.endswith("*"):
            inner = self.ty_s(s[:-1])
            return ("ptr", inner)
        if s in INTS:
            return T_int(*INTS[s])
        if s.startswith("std::") and s[5:] in INTS:
            return T_int(*INTS[s[5:]])
        if s in ("char", "char8_t"):
            return TCHAR
        if s == "bool" or s == "_Bool":
            return TBOOL
        if s == "void":
            return TVOID
        if s in ("double", "float", "long double"):
            return TDBL
        if s in ("std::nullptr_t", "nullptr_t"):
            return TNULL
        if s in ("std::string", "std::string_view", "string", "string_view", "std::filesystem::path",
                 "basic_string<char>", "basic_string_view<char>"):
            return TSTR
        if s in ("std::filesystem::file_time_type", "file_time_type", "std::filesystem::__file_clock::time_point") or s.startswith("std::chrono::time_point<std::filesystem::__file_clock"):
            return TI64
        for o in self.spec.opaque:
            if s == o or s == {"std::ofstream": "std::basic_ofstream<char>", "std::ifstream": "std::basic_ifstream<char>"}.get(o):
                return ("cls", o)
        if s in ("std::error_code", "error_code"):
            return T_int(32, True)
        m = re.match(r"^(.*)\[(\d*)\]$", s)
        if m:
            b = self.ty_s(m.group(1))
            if b == TCHAR:
                return TCSTR
            return ("vec", b)
        m = re.match(r"^(?:std::)?(?:__cxx11::)?([A-Za-z_]+)<", s)
        if s.startswith("__gnu_cxx::__normal_iterator<"):
            j = match_close(s, s.index("<"))
            return ("iter", self.ty_s(split_targs(s[s.index("<") + 1:j])[1]))
        if m:
            i = s.index("<")
            j = match_close(s, i)
            args = split_targs(s[i + 1:j])
            rest = s[j + 1:]
            n = m.group(1)
            base = None
            if n in ("basic_string", "basic_string_view"):
                if args[0] == "char":
                    base = TSTR
            elif n in ("vector", "array", "deque", "initializer_list", "stack"):
                base = ("vec", self.ty_s(args[0]))
                if n == "array" and len(args) > 1 and re.match(r"^\d+[uUlL]*$", args[1].strip()):
                    base += (int(re.match(r"\d+", args[1].strip()).group(0)),)
            elif n == "list":
                base = ("list", self.ty_s(args[0]))
            elif n in ("map", "unordered_map"):
                base = ("map", self.ty_s(args[0]), self.ty_s(args[1]), n == "map")
            elif n in ("set", "unordered_set"):
                base = ("set", self.ty_s(args[0]))
            elif n == "optional":
                base = ("opt", self.ty_s(args[0]))
            elif n == "pair":
                base = ("pair", self.ty_s(args[0]), self.ty_s(args[1]))
            elif n == "tuple":
                base = ("tuple",) + tuple(self.ty_s(a) for a in args)
            elif n in ("shared_ptr", "unique_ptr"):
                base = ("sptr", self.ty_s(args[0]))
            elif n == "function":
                mm = re.match(r"^(.*?)\s*\((.*)\)$", args[0])
                base = ("fun", self.ty_s(mm.group(1)), tuple(self.ty_s(a) for a in split_targs(mm.group(2))))
            elif n == "reverse_iterator":
                base = ("riter", self.ty_s(args[0]))
            elif n in ("_List_iterator", "_List_const_iterator"):
                return ("liter", self.ty_s(args[0]))
            elif n in ("_Rb_tree_iterator", "_Rb_tree_const_iterator"):
                a = self.ty_s(args[0])
                return ("mapiter", a[1], a[2]) if a[0] == "pair" else ("setiter", a)
            if base is not None:
                if rest == "":
                    return base
                if rest in ("::iterator", "::const_iterator"):
                    if base[0] == "list":
                        return ("liter", base[1])
                    if base[0] == "map":
                        return ("mapiter", base[1], base[2])
                    return ("iter", base)
                if rest in ("::reverse_iterator", "::const_reverse_iterator"):
                    return ("riter", ("iter", base))
                if rest in ("::size_type",):
                    return TU64
                if rest in ("::value_type",):
                    return base[1]
                if rest == "::difference_type":
                    return TI64
        if s.startswith("std::__detail::_Node_"):
            i = s.index("<")
            a = self.ty_s(split_targs(s[i + 1:match_close(s, i)])[0])
            return ("mapiter", a[1], a[2]) if a[0] == "pair" else ("setiter", a)
        if s in ("std::string::const_iterator", "std::string::iterator", "std::string_view::const_iterator"):
            return ("iter", TSTR)
        if "basic_stringstream" in s or "stringstream" in s or "basic_ostringstream" in s:
            return ("sstream",)
        if s in self.spec.opaque:
            return ("cls", s)
        if s in self.spec.extenums:
            return T_int(32, True)
        e = self.find_enum(s)
        if e:
            return ("enum", e[1])
        c = self.find_class(s)
        if c:
            return ("cls", c[1])
        if "(lambda" in s:
            return ("lambda",)
        if re.match(r"^[\w:]+$", s):
            al = set().union(*[tu.alias.get(s.split("::")[-1], set()) for tu in self.tus])
            if len(al) == 1 and list(al)[0] != s:
                return self.ty_s(list(al)[0])
        named = [o for o in self.spec.opaque if o.endswith("::" + s)]
        if len(named) == 1:
            return ("cls", named[0])
        raise Unsupported("type '%s'" % s)

    def family(self, root):
        """(final classes, intermediate classes) below a polymorphic base"""
        if root in self.poly_cache:
            return self.poly_cache[root]
        base = {}
        for tu in self.tus:
            for cq, n in tu.classes.items():
                for b in n.get("bases", []):
                    bt = b["type"].get("desugaredQualType") or b["type"]["qualType"]
                    c = self.find_class(re.sub(r"^(struct|class) ", "", bt))
                    if c:
                        base[cq] = c[1]
        below = set()
        grow = True
        while grow:
            grow = False
            for c, b in base.items():
                if c not in below and (b == root or b in below):
                    below.add(c)
                    grow = True
        inner = set(base[c] for c in below) - {root}
        self.poly_cache[root] = (sorted(below - inner), sorted(inner), base)
        return self.poly_cache[root]

    def poly_of(self, t):
        """(root, 'root' | 'inner' | 'leaf') for a class of a polymorphic family"""
        if t[0] != "cls" or not self.spec.poly:
            return None
        for root in self.spec.poly:
            if t[1] == root:
                return root, "root"
            lv, inner, _ = self.family(root)
            if t[1] in lv:
                return root, "leaf"
            if t[1] in inner:
                return root, "inner"
        return None

    def has_poly(self, t):
        if t[0] == "cls":
            p = self.poly_of(t)
            return p is not None and p[1] != "leaf"
        return any(self.has_poly(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) or \
            any(self.has_poly(y) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], tuple) for y in x)

    def bases_of(self, q):
        for root in self.spec.poly:
            b = self.family(root)[2].get(q)
            if b:
                return [b]
        return []

    def is_heap(self, t):
        return t[0] == "cls" and short(t[1]) in self.spec.heapclasses

    def rty(self, t):
        k = t[0]
        if k in ("int", "char", "enum"):
            return "int"
        if k == "bool":
            return "bool"
        if k == "dbl":
            return "Dbl"
        if k in ("str", "cstr"):
            return "Seq<u8>"
        if k == "sstream":
            return "SStream"
        if k == "vec":
            return "Seq<%s>" % self.rty(t[1])
        if k == "iter":
            if t[1][0] == "str":
                return "It<u8>"
            return "It<%s>" % self.rty(t[1][1])
        if k == "riter":
            return self.rty(t[1])
        if k == "ptr":
            if t[1] == TCHAR or t[1] == ("int", 8, False):
                return "It<u8>"
            if t[1] == TVOID:
                return "It<u8>"
            if self.is_heap(t[1]):
                return "int"
            return "Option<%s>" % self.rty(t[1])
        if k == "opt":
            return "Option<%s>" % self.rty(t[1])
        if k == "pair":
            return "(%s, %s)" % (self.rty(t[1]), self.rty(t[2]))
        if k == "tuple":
            return "(%s)" % ", ".join(self.rty(x) for x in t[1:])
        if k == "map":
            return "Map<%s, %s>" % (self.rty(t[1]), self.rty(t[2]))
        if k == "mapiter":
            return "Option<%s>" % self.rty(t[1])
        if k == "setiter":
            return "Option<%s>" % self.rty(t[1])
        if k == "set":
            return "Set<%s>" % self.rty(t[1])
        if k == "list":
            return "LList<%s>" % self.rty(t[1])
        if k == "liter":
            return "int"
        if k == "sptr":
            return "int" if self.is_heap(t[1]) else "Option<%s>" % self.rty(t[1])
        if k == "fun":
            return "spec_fn(%s) -> %s" % (", ".join(self.rty(a) for a in t[2]), self.rty(t[1]))
        if k == "void":
            return "()"
        if k == "cls":
            if self.is_heap(t):
                return "int"   # reference to a heap object
            p = self.poly_of(t)
            if p and p[1] != "leaf":
                for l in self.family(p[0])[0]:
                    self.struct(l)
                return short(p[0])
            return self.struct(t[1])
        raise Unsupported("no Verus type for %r" % (t,))

    def struct(self, q):
        n = short(q)
        if q in self.spec.opaque:
            return n
        if n in self.structs:
            return n
        c = self.find_class(q)
        if not c:
            raise Unsupported("class " + q)
        tu, cq, node = c
        self.structs[n] = None
        fields = []
        inner, b = list(node.get("inner", [])), self.bases_of(cq)
        while b:
            bn = self.find_class(b[0])
            inner = list(bn[2].get("inner", [])) + inner
            b = self.bases_of(b[0])
        for f in inner:
            if f["kind"] != "FieldDecl":
                continue
            fn = f.get("name")
            if not fn:
                continue
            try:
                ft = self.ty(f["type"])
                if self.poly_of(("cls", cq)) and (self.has_poly(ft) or ft[0] == "sptr" and ft[1][0] == "cls" and self.poly_of(ft[1])):
                    raise Unsupported("a state inside a state")
                if ft[0] == "fun":
                    ft = ("opt", ft)    # a stored function may be empty
                if (n + "." + fn) in self.spec.fieldtypes:
                    r = self.spec.fieldtypes[n + "." + fn]
                else:
                    r = self.rty(ft)
                fields.append((vid(fn), ft, r, f))
            except Unsupported as e:
                self.struct_dropped.setdefault(n, {})[fn] = str(e)
                self.dropped.add("field %s.%s not modelled (%s)" % (n, fn, e))
        self.structs[n] = fields
        self.struct_order.append(n)
        return n

    def fields(self, t):
        assert t[0] == "cls", t
        n = short(t[1])
        if n not in self.structs:
            self.struct(t[1])
        return self.structs[n]

    def enumconst(self, q, name, val):
        k = "%s_%s" % (short(q), name)
        self.enums[k] = val
        return k + "()"


RESERVED = {"type", "fn", "match", "impl", "loop", "in", "ref", "mod", "use", "move", "self", "let", "mut",
            "pub", "trait", "where", "final", "box", "spec", "proof", "exec", "ret", "old", "int", "nat", "tracked",
            "ghost", "choose", "open", "closed", "is", "has", "by", "via", "when", "any", "state", "readings_"}
RESERVED -= {"state", "readings_", "any"}


def vid(n):
    return n + "_r" if n in RESERVED else n


def cstr_bytes(lit):
    """bytes of a C string literal as clang prints it"""
    m = re.match(r'^(u8|L|u|U)?"(.*)"$', lit, re.S)
    if not m:
        raise Unsupported("string literal " + lit)
    s = m.group(2)
    out = bytearray()
    i = 0
    esc = {"n": 10, "t": 9, "r": 13, "0": 0, "\\": 92, '"': 34, "'": 39, "a": 7, "b": 8, "f": 12, "v": 11, "?": 63}
    while i < len(s):
        c = s[i]
        if c != "\\":
            out += c.encode("utf8")
            i += 1
            continue
        d = s[i + 1]
        if d in "01234567":
            j = i + 1
            while j < len(s) and j < i + 4 and s[j] in "01234567":
                j += 1
            out.append(int(s[i + 1:j], 8) & 255)
            i = j
        elif d == "x":
            j = i + 2
            while j < len(s) and s[j] in "0123456789abcdefABCDEF" and j < i + 4:
                j += 1
            out.append(int(s[i + 2:j], 16) & 255)
            i = j
        elif d in "uU":
            w = 4 if d == "u" else 8
            out += chr(int(s[i + 2:i + 2 + w], 16)).encode("utf8")
            i += 2 + w
        else:
            out.append(esc[d])
            i += 2
    return bytes(out)


def seqlit(b):
    if not b:
        return "Seq::<u8>::empty()"
    return "seq![%s]" % ", ".join("%du8" % x for x in b)


def irange(t):
    if t[0] == "char":
        return 0, 255
    _, bits, sg = t
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)


def num(v):
    return "(%d)" % v if v < 0 else "%d" % v


class Item:
    __slots__ = ("k", "s", "label")

    def __init__(self, k, s, label=None):
        self.k, self.s, self.label = k, s, label


class FnSpec:
    def __init__(self, key):
        self.key = key
        self.requires, self.ensures = [], []
        self.loops = {}
        self.at = []
        self.ghost = []
        self.opts = {}
        self.trusted = False
        self.used_anchors = set()


class LoopSpec:
    def __init__(self):
        self.inv, self.dec, self.ens, self.exc = [], None, [], []


class Spec:
    """Parsed .vspec file"""

    def __init__(self, path):
        self.sources = []
        self.prelude = ""
        self.post = ""
        self.fns = {}
        self.order = []
        self.opaque = set()
        self.heapclasses = set()
        self.poly = set()
        self.fieldtypes = {}
        self.includes = []
        self.imports = {}
        self.libconsts = {}
        self.extenums = set()
        self.own_prelude = ""
        self.path = path
        self.options = {}
        self.defines = []
        self.trusted_text = []
        self.externs = {}
        self.cstructs = {}
        self.path = path
        self.parse(open(path, encoding="utf8").read())

    def parse(self, text):
        cur, sect, buf = None, None, []
        self._loop = None

        def flush():
            nonlocal buf
            body = "\n".join(buf)
            buf = []
            if sect is None:
                return
            if sect == "prelude":
                self.prelude += body + "\n"
                self.own_prelude += body + "\n"
            elif sect == "post":
                self.post += body + "\n"
            elif sect in ("requires", "ensures"):
                getattr(cur, sect).extend(clauses(body))
            elif sect == "inv":
                self._loop.inv.extend(clauses(body))
            elif sect == "ens":
                self._loop.ens.extend(clauses(body))
            elif sect == "exc":
                self._loop.exc.extend(clauses(body))
            elif sect == "dec":
                self._loop.dec = body.strip()
            elif sect == "ghost":
                cur.ghost.append(body)
            elif isinstance(sect, tuple):
                cur.at.append((sect[1], body))

        for line in text.split("\n"):
            if line.startswith("@"):
                flush()
                m = re.match(r"^@(\w+)\s*(.*)$", line)
                k, rest = m.group(1), m.group(2).strip()
                sect = None
                if k == "source":
                    f, flt = rest.split()
                    self.sources.append((f, flt))
                elif k == "define":
                    self.defines.append(rest)
                elif k in ("prelude", "post"):
                    sect = k
                elif k == "include":
                    if rest not in self.includes:
                        self.includes.append(rest)
                elif k in ("import", "use"):
                    # contracts proved in another unit: its sources, prelude and function contracts
                    # are taken over, the bodies are not verified again here
                    o = Spec(__import__("os").path.join(__import__("os").path.dirname(self.path), rest + ".vspec"))
                    for x in o.sources:
                        if x not in self.sources:
                            self.sources.append(x)
                    for x in o.includes:
                        if x not in self.includes:
                            self.includes.append(x)
                    # `use`: the lemmas of that unit are taken over with their statements only
                    # and definitions nothing here refers to are left out
                    take = (lambda v: "//@used\n" + statements(v) + "\n//@end\n") if k == "use" else lambda v: v
                    for x, v in o.imports.items():
                        if x not in self.imports:
                            self.imports[x] = v
                            self.prelude += take(v)
                    if rest not in self.imports:
                        self.imports[rest] = o.own_prelude + o.post
                        self.prelude += take(self.imports[rest])
                    for x in o.order:
                        if x not in self.fns:
                            self.fns[x] = o.fns[x]
                            self.fns[x].opts.setdefault("imported", rest)
                            if k == "use":
                                self.fns[x].opts["used"] = True
                            self.order.append(x)
                    self.opaque |= o.opaque
                    self.externs.update(o.externs)
                    self.heapclasses |= o.heapclasses
                    self.libconsts.update(o.libconsts)
                    self.extenums |= o.extenums
                    self.poly |= o.poly
                    self.fieldtypes.update(o.fieldtypes)
                    self.cstructs.update(o.cstructs)
                elif k == "fn":
                    cur = FnSpec(rest)
                    self.fns[rest] = cur
                    self.order.append(rest)
                    self._loop = None
                elif k in ("requires", "ensures", "ghost"):
                    sect = k
                elif k == "loop":
                    self._loop = cur.loops.setdefault(int(rest), LoopSpec())
                elif k in ("inv", "dec", "ens", "exc"):
                    sect = k
                elif k == "at":
                    sect = ("at", rest)
                elif k == "opt":
                    a = rest.split(None, 1)
                    cur.opts[a[0]] = a[1] if len(a) > 1 else True
                elif k == "extenum":
                    self.extenums.add(rest.strip())
                elif k == "libconst":
                    # a constant of the C++ library: name type value
                    a = rest.rsplit(None, 2)
                    self.libconsts[a[0]] = (a[2], a[1])
                elif k == "opaque":
                    self.opaque.add(rest)
                elif k == "extern":
                    # name(type, ...) -> type [= expression over $0 $1 ...] ; without expression: an
                    # assumed exec function ext_<name>; prefix `world` threads the ghost world w
                    m2 = re.match(r"^(world\s+)?([\w:~]*(?:operator \w+|operator<<)|[\w:~]+)\((.*?)\)\s*->\s*([^=]+?)\s*(?:=\s*(.*))?$", rest)
                    if not m2:
                        raise ExtractError("bad extern " + rest)
                    self.externs[(m2.group(2), len(split_targs(m2.group(3))))] = (
                        bool(m2.group(1)), split_targs(m2.group(3)), m2.group(4).strip(), m2.group(5))
                elif k == "cstruct":
                    # layout of a C structure of a system header: name field:type ...
                    a = rest.split()
                    self.cstructs[a[0]] = [x.split(":") for x in a[1:]]
                elif k == "heap":
                    self.heapclasses.add(rest)
                elif k == "poly":
                    # a class hierarchy: values of the base class are a sum over its final classes
                    self.poly.add(rest)
                elif k == "fieldtype":
                    a, b = rest.split(None, 1)
                    self.fieldtypes[a] = b
                elif k == "option":
                    a = rest.split(None, 1)
                    self.options[a[0]] = a[1] if len(a) > 1 else True
                elif k == "trusted":
                    self.trusted_text.append(rest)
                else:
                    raise ExtractError("bad directive " + line)
                continue
            if line.startswith("//@"):
                continue
            buf.append(line)
        flush()


def items(text):
    """the top-level items of a prelude"""
    out, item = [], []
    for l in text.split("\n"):
        if re.match(r"(pub|#\[|broadcast|//|proof|spec)", l) and not (item and all(re.match(r"(#\[|//)", x) for x in item)):
            if item:
                out.append("\n".join(item))
            item = []
        item.append(l)
    if item:
        out.append("\n".join(item))
    return out


def shake(prelude, roots, contracts):
    """leave out the items of used units that nothing refers to; contracts: name -> text of their functions"""
    parts, live, text = [], set(), [roots]
    for i, seg in enumerate(re.split(r"//@(used|end)\n", prelude)):
        if seg in ("used", "end"):
            used = seg == "used"
        elif i == 0 or not used:
            parts.append((None, seg))
            text.append(seg)
        else:
            for it in items(seg):
                m = re.search(r"^(?:#\[[^\n]*\n|//[^\n]*\n)*(?:pub |open |closed |uninterp |broadcast |proof |spec |exec |axiom )*(?:fn|type|struct|enum|const|trait) (\w+)", it)
                parts.append((m.group(1) if m else None, it))
                if not m:
                    text.append(it)
    defs = {}
    for n, it in parts:
        if n:
            defs.setdefault(n, []).append(it)
    for n, t in contracts.items():
        defs.setdefault(n, []).append(t)
    todo = text
    while todo:
        t = re.sub(r"//.*", "", todo.pop())
        for w in set(re.findall(r"\w+(?=\(|::<)|\b[A-Z]\w*", t)) | set(re.findall(r"\b(?:reveal(?:_with_fuel)?\(|via )(\w+)", t)):
            if w in defs and w not in live:
                live.add(w)
                todo += defs[w]
    return "\n".join(it for n, it in parts if n is None or n in live), live


def statements(text):
    """a prelude in which the lemmas (proved in their own unit) have no bodies"""
    out, item = [], []

    def flush():
        s = "\n".join(item)
        m = re.search(r"\bproof fn\b", s)
        if m and "external_body" not in s and "#[via_fn]" not in s:
            e = s.rstrip().rindex("}")
            d, i = 0, e
            while i >= 0:
                if s[i] == "}":
                    d += 1
                elif s[i] == "{":
                    d -= 1
                    if d == 0:
                        break
                i -= 1
            head = re.sub(r"\bdecreases\b[^{]*$", "", s[:i])
            s = "#[verifier::external_body]\n" + head.rstrip() + "\n{ }"
        out.append(s)
    for l in text.split("\n"):
        if re.match(r"(pub|#\[|broadcast|//)", l) and not (item and all(re.match(r"(#\[|//)", x) for x in item)):
            flush()
            item = []
        item.append(l)
    flush()
    return "\n".join(out)


def clauses(body):
    out, cur = [], None
    for l in body.split("\n"):
        m = re.match(r"^- (.*)$", l)
        if m:
            if cur is not None:
                out.append(cur)
            cur = m.group(1)
        elif cur is not None and l.strip():
            cur += "\n" + l
    if cur is not None:
        out.append(cur)
    return [c.strip() for c in out if c.strip()]


STRIP = {"ExprWithCleanups", "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr",
         "FullExpr", "SubstNonTypeTemplateParmExpr", "CXXRewrittenBinaryOperator"}


def kids(n):
    return [c for c in n.get("inner", []) if isinstance(c, dict) and c and not c.get("kind", "").endswith("Attr")]


def strip(n):
    while True:
        k = n["kind"]
        if k in STRIP:
            n = kids(n)[0]
        elif k == "ImplicitCastExpr" and n.get("castKind") in ("NoOp",):
            n = kids(n)[0]
        else:
            return n


def strip_all(n):
    while True:
        n = strip(n)
        if n["kind"] in ("ImplicitCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr") and \
                n.get("castKind") in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "ArrayToPointerDecay"):
            n = kids(n)[0]
        else:
            return n


def is_const_ref_or_value(qt):
    qt = qt.strip()
    if qt.endswith("&&"):
        return True
    if qt.endswith("&"):
        return bool(re.match(r"^const\b", qt)) or qt[:-1].strip().endswith("const")
    return True


class FnT:
    def __init__(self, unit, tu, node, fspec, key):
        self.u, self.tu, self.node, self.spec, self.key = unit, tu, node, fspec, key
        self.items = []
        self.names = set()
        self.vars = {}
        self.tmp = 0
        self.loopn = 0
        self.rngn = 0
        self.wstack = []
        self.loopctx = []
        self.inl = []
        self.dtors = [[]]
        self.anchors_used = set()
        self.iter_owner = {}
        self.vtypes = {}
        self.labels = {}
        self.made = {}

    # ---- emission -------------------------------------------------------------
    def raw(self, s):
        self.items.append(Item("raw", s))

    def ob(self, cond, kind, node):
        if cond == "true":
            return
        self.items.append(Item("assert", cond, "%s: %s" % (self.tu.line(node), kind)))

    def fresh(self, p="t"):
        self.tmp += 1
        return "%s_%d" % (p, self.tmp)

    def bind(self, text, ty, p="t"):
        if re.match(r"^[A-Za-z_]\w*$", text) or re.match(r"^\d+$", text):
            return text
        n = self.fresh(p)
        self.items.append(Item("let", "let ghost %s: %s = %s;" % (n, self.u.rty(ty), text)))
        return n

    def uniq(self, n):
        n = vid(n)
        b, i = n, 2
        while n in self.names:
            n = "%s_%d" % (b, i)
            i += 1
        self.names.add(n)
        return n

    lam_obs = None
    srtn = 0

    def capture(self, f):
        old = self.items
        self.items = []
        try:
            r = f()
            got = self.items
        finally:
            self.items = old
        return r, got

    def phys(self, text):
        self.u.assumptions.add("no container or buffer holds 2^48 or more elements (address-space limit)")
        self.items.append(Item("let", "proof { phys(%s); }" % text))

    # ---- lvalues ----------------------------------------------------------------
    def read(self, lv):
        k = lv.k
        if k == "var":
            return lv.a
        if k == "temp":
            return lv.a
        if k == "field":
            if lv.a[0].k == "ctorobj":
                if lv.a[2] not in lv.a[0].a:
                    raise Unsupported("member %s read before it is initialised" % lv.a[2])
                return lv.a[0].a[lv.a[2]]
            return "%s.%s" % (self.read(lv.a[0]), lv.a[2])
        if k == "index":
            b = "%s[%s]" % (self.read(lv.a[0]), lv.a[1])
            if lv.t[0] == "char" or lv.t == ("int", 8, False) and lv.a[0].t[0] == "str":
                return "(%s as int)" % b
            return b
        if k == "mapval":
            return "%s[%s]" % (self.read(lv.a[0]), lv.a[1])
        if k == "opt":
            return "(%s->0)" % self.read(lv.a)
        if k == "pair":
            return "%s.%d" % (self.read(lv.a[0]), lv.a[1])
        if k == "heap":
            return "%s[%s]" % (lv.a[0], lv.a[1])
        if k == "lelem":
            return "%s.elems[%s]" % (self.read(lv.a[0]), lv.a[1])
        raise Unsupported("read lvalue " + k)

    growing = False

    def write(self, lv, text, fld=None):
        k = lv.k
        if k != "heap" and not self.growing and fld is None and self.holds_heap(lv.t):
            raise Unsupported("assignment to a container of objects with identity in %s" % self.key)
        if k == "var":
            self.record(lv.a, fld)
            self.raw("proof { %s = %s; }" % (lv.a, text))
            return
        if k == "field":
            b = lv.a[0]
            bt = self.read(b)
            nf = len(self.u.structs.get(lv.a[1]) or [])
            if nf == 1:
                self.write(b, "%s { %s: %s }" % (lv.a[1], lv.a[2], text), fld=lv.a[2])
            else:
                self.write(b, "%s { %s: %s, ..%s }" % (lv.a[1], lv.a[2], text, bt), fld=lv.a[2])
            return
        if k == "index":
            b = lv.a[0]
            if b.t[0] == "str":
                text = "(%s as u8)" % text
            self.write(b, "%s.update(%s, %s)" % (self.read(b), lv.a[1], text))
            return
        if k == "mapval":
            b = lv.a[0]
            self.write(b, "%s.insert(%s, %s)" % (self.read(b), lv.a[1], text))
            return
        if k == "opt":
            self.write(lv.a, "Some(%s)" % text)
            return
        if k == "pair":
            b = lv.a[0]
            o = self.read(b)
            self.write(b, "(%s, %s.1)" % (text, o) if lv.a[1] == 0 else "(%s.0, %s)" % (o, text))
            return
        if k == "heap":
            self.record(lv.a[0], None)
            self.raw("proof { %s = %s.insert(%s, %s); }" % (lv.a[0], lv.a[0], lv.a[1], text))
            return
        if k == "lelem":
            b = lv.a[0]
            o = self.read(b)
            self.write(b, "LList { elems: %s.elems.insert(%s, %s), ..%s }" % (o, lv.a[1], text, o))
            return
        raise Unsupported("write to " + k)

    def record(self, root, fld):
        for w in self.wstack:
            w.add((root, fld))

    def lv(self, n):
        n = strip(n)
        k = n["kind"]
        if k == "DeclRefExpr":
            rd = n["referencedDecl"]
            if rd["id"] in self.vars:
                v = self.vars[rd["id"]]
                return v
            return LV("temp", *self.globalref(n, rd))
        if k == "MemberExpr":
            return self.member_lv(n)
        if k == "ArraySubscriptExpr":
            a, i = kids(n)
            it, _ = self.e(i)
            it = self.bind(it, TI64, "ix")
            base = strip_all(a)
            if base["kind"] in ("DeclRefExpr", "MemberExpr"):
                b = self.lv(base)
                if b.t[0] in ("vec", "str", "cstr"):
                    return self.index(b, it, n)
            at, aty = self.e(a)
            if aty[0] == "ptr":
                at = self.bind(at, aty, "p")
                return LV("temp", self.deref_it("it_add(%s, %s)" % (at, it), aty[1], n), aty[1])
            if aty[0] in ("cstr",):
                return LV("temp", self.read(self.index(LV("temp", "(%s + seq![0u8])" % at, TSTR), it, n)), TCHAR)
            if aty[0] == "vec":
                return self.index(LV("temp", self.bind(at, aty, "a"), aty), it, n)
            raise Unsupported("subscript on %r" % (aty,))
        if k == "UnaryOperator" and n["opcode"] == "*":
            return self.deref_lv(kids(n)[0], n)
        if k == "UnaryOperator" and n["opcode"] in ("++", "--") and not n.get("isPostfix"):
            l = self.lv(kids(n)[0])
            self.incdec(l, n)
            return l
        if k == "CXXThisExpr":
            return self.this_lv()
        if k == "CXXOperatorCallExpr":
            op = self.opname(n)
            args = kids(n)[1:]
            if op == "operator[]":
                b = self.lv_or_temp(args[0])
                if b.t[0] == "map":
                    kt, _ = self.e(args[1])
                    kt = self.bind(kt, b.t[1], "k")
                    d = self.default(b.t[2])
                    m = self.read(b)
                    self.write(b, "map_get_or_insert(%s, %s, %s)" % (m, kt, d))
                    return LV("mapval", (b, kt), b.t[2])
                it, _ = self.e(args[1])
                it = self.bind(it, TU64, "ix")
                return self.index(b, it, n)
            if op == "operator*":
                return self.deref_lv(args[0], n)
            if op == "operator->":
                return self.deref_lv(args[0], n)
            if op in ("operator++", "operator--") and len(args) == 1:
                l = self.lv(args[0])
                self.incdec(l, n)
                return l
            if op in ("operator=", "operator+=", "operator-="):
                l = self.lv(args[0])
                self.e(n)
                return l
            if op == "operator<<":
                l = self.shift_lv(n)
                if l is not None:
                    return l
        if k == "CXXMemberCallExpr":
            me = strip(kids(n)[0])
            if me["kind"] == "MemberExpr":
                mn = me["name"]
                obj = self.obj_lv(me)
                if obj.t[0] in ("vec", "str"):
                    if mn in ("back", "top") or mn == "front":
                        s = self.read(obj)
                        self.ob("%s.len() > 0" % s, "%s() on non-empty container" % mn, n)
                        return self.index_raw(obj, "0" if mn == "front" else self.bind("%s.len() - 1" % s, TI64, "ix"))
                    if mn == "at":
                        it, _ = self.e(kids(n)[1])
                        it = self.bind(it, TU64, "ix")
                        return self.index(obj, it, n)
                if obj.t[0] == "list" and mn in ("back", "front"):
                    s = self.read(obj)
                    self.ob("%s.order.len() > 0" % s, "%s() on non-empty list" % mn, n)
                    i = self.bind("%s.order.first()" % s if mn == "front" else "%s.order.last()" % s, TI64, "li")
                    return LV("lelem", (obj, i), obj.t[1])
                if obj.t[0] == "opt" and mn == "value":
                    self.ob("%s.is_some()" % self.read(obj), "optional has a value", n)
                    return LV("opt", obj, obj.t[1])
            # user method returning a const reference: treat as value
        if k in ("BinaryOperator",) and n["opcode"] == "=":
            self.e(n)
            return self.lv(kids(n)[0])
        if k == "CompoundAssignOperator":
            self.e(n)
            return self.lv(kids(n)[0])
        if k == "CallExpr":
            nm = self.callee_name(n)
            if nm in ("move", "forward", "as_const"):
                return self.lv_or_temp(kids(n)[1])
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr") and n.get("castKind") in \
                ("NoOp", "LValueToRValue", "UncheckedDerivedToBase", "DerivedToBase"):
            return self.lv(kids(n)[0])
        t, ty = self.e(n)
        return LV("temp", t, ty)

    def shift_lv(self, n):
        """stream << value; the stream is the result"""
        args = kids(n)[1:]
        l = self.lv(args[0])
        if l.t[0] == "cls" and l.t[1] in self.u.spec.opaque:
            x = self.extern(short(l.t[1]) + "::operator<<", args[1:], n, obj=l)
            if x is not None:
                return l
        if l.t[0] == "sstream":
            q = strip_all(args[1])
            while q["kind"] == "ImplicitCastExpr":
                q = strip_all(kids(q)[0])
            cur = self.read(l)
            if q["kind"] == "DeclRefExpr" and q["referencedDecl"]["kind"] == "FunctionDecl":
                m = {"hex": "base: 16", "dec": "base: 10", "oct": "base: 8", "uppercase": "upper: true", "nouppercase": "upper: false"}.get(q["referencedDecl"]["name"])
                if m is None:
                    raise Unsupported("stream manipulator %s" % q["referencedDecl"]["name"])
                self.write(l, "SStream { %s, ..%s }" % (m, cur))
                return l
            if q["kind"] == "CallExpr" and self.callee_name(q) in ("setw", "setfill", "setbase"):
                t, ty = self.e(kids(q)[1])
                self.write(l, "SStream { %s: %s, ..%s }" % ({"setw": "width", "setfill": "fill", "setbase": "base"}[self.callee_name(q)], t, cur))
                return l
            t, ty = self.e(args[1])
            if ty[0] == "int":
                self.write(l, "ss_put_int(%s, %s)" % (cur, self.conv(t, ty, ty)))
            else:
                self.write(l, "ss_put(%s, %s)" % (cur, self.as_seq(t, ty)))
            return l
        return None

    def lv_or_temp(self, n):
        return self.lv(n)

    def index_raw(self, b, it):
        et = TCHAR if b.t[0] in ("str", "cstr") else b.t[1]
        if self.u.is_heap(et):
            return self.heap_elem(b, it, et)
        return LV("index", (b, it), et)

    def heap_elem(self, b, it, et):
        """an object living in a vector: its place must not change from now on"""
        hn = self.heapname(et)
        if hn not in self.names or b.t[0] != "vec":
            raise Unsupported("objects of %s in a container" % short(et[1]))
        h = self.fresh("h")
        self.raw("let ghost %s: int = %s[%s];" % (h, self.read(b), it))
        self.pins = True
        self.record("pinned_", None)
        self.raw("proof { pinned_ = true; }")
        self.ob("%s.dom().contains(%s)" % (hn, h), "the element is a live object", self.curnode)
        return LV("heap", (hn, h), et)

    pins = False
    curnode = None

    def holds_heap(self, t):
        return self.u.is_heap(t) or t[0] in ("vec", "opt", "pair", "list", "map") and any(self.holds_heap(x) for x in t[1:] if isinstance(x, tuple))

    def grow(self, o, n):
        """appending to a vector of objects moves those that are there"""
        if self.u.is_heap(o.t[1]):
            self.pins = True
            self.ob("!pinned_", "no element is referred to when the vector may move its elements", n)

    def index(self, b, it, n):
        self.ob("0 <= %s < %s.len()" % (it, self.read(b)), "index in range", n)
        return self.index_raw(b, it)

    def deref_it(self, pt, et, n):
        self.ob("it_deref(%s)" % pt, "dereference inside the buffer", n)
        r = "%s.buf[%s.off]" % (pt, pt)
        if et[0] == "char" or et == ("int", 8, False):
            return "(%s as int)" % r
        return r

    def deref_lv(self, sub, n):
        s = strip_all(sub)
        if s["kind"] == "CXXThisExpr":
            return self.this_lv()
        owner = None
        if s["kind"] == "DeclRefExpr":
            owner = self.iter_owner.get(s["referencedDecl"]["id"])
        if s["kind"] == "UnaryOperator" and s["opcode"] == "&":
            return self.lv(kids(s)[0])
        q = s
        while q["kind"] in ("CXXConstructExpr", "ImplicitCastExpr") and len(kids(q)) == 1:
            q = strip_all(kids(q)[0])
        if q["kind"] == "CXXMemberCallExpr" and strip(kids(q)[0]).get("name") == "find":
            o = self.obj_lv(strip(kids(q)[0]))
            if o.t[0] == "map":
                t, ty = self.m_map_find(o, kids(q)[1:], q)
                t = self.bind(t, ty, "mi")
                self.ob("%s.is_some()" % t, "dereference of a map iterator that is not end()", n)
                return LV("mapent", (o, "(%s->0)" % t), ("pair", ty[1], ty[2]))
        t, ty = self.e(sub)
        if ty[0] == "iter" or ty[0] == "ptr" and self.u.rty(ty).startswith("It<"):
            et = TCHAR if (ty[0] == "iter" and ty[1][0] == "str") else ty[1][1] if ty[0] == "iter" else ty[1]
            t = self.bind(t, ty, "p")
            if owner is not None and ty[0] == "iter":
                self.ob("it_deref(%s) && %s.buf =~= %s" % (t, t, self.read(owner)), "dereference of a valid iterator", n)
                return LV("index", (owner, "%s.off" % t), et)
            return LV("temp", self.deref_it(t, et, n), et)
        if ty[0] == "riter":
            t = self.bind(t, ty, "p")
            et = ty[1][1][1] if ty[1][1][0] != "str" else TCHAR
            self.ob("0 < %s.off <= %s.buf.len()" % (t, t), "dereference of a valid reverse iterator", n)
            r = "%s.buf[%s.off - 1]" % (t, t)
            return LV("temp", "(%s as int)" % r if et == TCHAR else r, et)
        if ty[0] == "liter":
            own = owner
            if own is None:
                own = self.list_owner(n, ty)
            t = self.bind(t, ty, "li")
            self.ob("llist_has(%s, %s)" % (self.read(own), t), "dereference of a valid list iterator", n)
            return LV("lelem", (own, t), ty[1])
        if ty[0] == "mapiter":
            if owner is None:
                owner = self.owner_of(sub)
            if owner is None:
                raise Unsupported("map iterator without known container")
            t = self.bind(t, ty, "mi")
            self.ob("%s.is_some() && %s.dom().contains(%s->0)" % (t, self.read(owner), t), "dereference of a valid map iterator that is not end()", n)
            return LV("mapent", (owner, "(%s->0)" % t), ("pair", ty[1], ty[2]))
        if ty[0] == "setiter":
            self.ob("%s.is_some()" % t, "dereference of a set iterator that is not end()", n)
            return LV("temp", "(%s->0)" % t, ty[1])
        if ty[0] == "sptr" or ty[0] == "ptr":
            if self.u.is_heap(ty[1]):
                t = self.bind(t, ty, "h")
                self.ob("%s.dom().contains(%s)" % (self.heapname(ty[1]), t), "dereference of a live object", n)
                return LV("heap", (self.heapname(ty[1]), t), ty[1])
            base = LV("temp", t, ty)
            q = s
            while q["kind"] == "ImplicitCastExpr" and q.get("castKind") in ("UncheckedDerivedToBase", "DerivedToBase", "NoOp"):
                q = strip_all(kids(q)[0])
            if q["kind"] in ("DeclRefExpr", "MemberExpr"):
                base = self.lv(q)
            self.ob("%s.is_some()" % t, "dereference of a non-null pointer", n)
            return LV("opt", base, ty[1])
        if ty[0] == "opt":
            base = self.lv(s)
            self.ob("%s.is_some()" % t, "optional has a value", n)
            return LV("opt", base, ty[1])
        if ty[0] == "cls" and ty[1] in self.u.spec.opaque:
            return LV("temp", t, ty)
        raise Unsupported("dereference of %r at %s" % (ty, self.tu.line(n)))

    def list_owner(self, n, ty):
        """the one list of this element type the class has"""
        th = self.vars.get("this")
        if th is not None and th.t[0] == "cls":
            fs = [f for f in self.u.fields(th.t) if f[1] == ("list", ty[1])]
            if len(fs) == 1:
                self.u.assumptions.add("list iterators of %s point into %s" % (short(th.t[1]), fs[0][0]))
                return LV("field", (th, short(th.t[1]), fs[0][0]), fs[0][1])
        raise Unsupported("list iterator without known container at %s" % self.tu.line(n))

    def ordered_map(self, own, n):
        if own.t[1] == TSTR:
            return "map_"
        if own.t[1][0] == "char":
            self.u.assumptions.add("a map with char keys is traversed in the order of the bytes (the keys are ASCII)")
        elif own.t[1][0] != "int":
            raise Unsupported("iteration over a map with keys that are not texts or numbers at %s" % self.tu.line(n))
        return "imap_"

    def heapname(self, t):
        return "heap_" + short(t[1])

    def this_lv(self):
        return self.vars["this"]

    def obj_lv(self, me):
        sub = kids(me)[0]
        if me.get("isArrow"):
            q = strip(sub)
            while q["kind"] == "ImplicitCastExpr" and q.get("castKind") in ("UncheckedDerivedToBase", "DerivedToBase", "NoOp"):
                q = strip(kids(q)[0])
            if q["kind"] == "CXXOperatorCallExpr" and self.opname(q) == "operator->":
                return self.deref_lv(kids(q)[1], me)
            return self.deref_lv(sub, me)
        return self.lv(sub)

    def member_lv(self, n):
        if "this" not in self.vars and self.made and strip(kids(n)[0])["kind"] == "CXXThisExpr" and vid(n["name"]) in self.made:
            return LV("temp", *self.made[vid(n["name"])])     # a member initialised before this one
        name = n["name"]
        rid = n.get("referencedMemberDecl")
        rd = self.tu.ids.get(rid)
        if rd is not None and rd["kind"] == "VarDecl":
            return LV("temp", *self.globalref(n, rd))
        obj = self.obj_lv(n)
        return self.field(obj, name, n)

    def field(self, obj, name, n):
        t = obj.t
        if t[0] == "pair":
            i = 0 if name == "first" else 1
            if obj.k == "mapent":
                own, key = obj.a
                if i == 0:
                    return LV("temp", key, t[1])
                return LV("mapval", (own, key), t[2])
            return LV("pair", (obj, i), t[1 + i])
        if t[0] != "cls":
            raise Unsupported("member %s of %r at %s" % (name, t, self.tu.line(n)))
        S = short(t[1])
        if S in self.u.spec.heapclasses:
            flds = self.u.heap_struct(t)
            S = S + "S"
        else:
            p = self.u.poly_of(t)
            if p and p[1] != "leaf":
                cq = t[1]
                while cq:
                    tu, q, node = self.u.find_class(cq)
                    for f in node.get("inner", []):
                        if f["kind"] == "FieldDecl" and f.get("name") == name:
                            ft = self.u.ty(f["type"])
                            self.u.base_fields[(p[0], q, vid(name))] = self.u.rty(ft)
                            return LV("temp", "%s_%s(%s)" % (short(q), vid(name), self.read(obj)), ft)
                    cq = (self.u.bases_of(cq) or [None])[0]
                raise Unsupported("field %s.%s" % (t[1], name))
            flds = self.u.fields(t)
        for fn, ft, r, f in flds:
            if fn == vid(name):
                return LV("field", (obj, S, fn), ft)
        raise Unsupported("field %s.%s is not modelled" % (S, name))

    # ---- globals -----------------------------------------------------------------
    def globalref(self, n, rd):
        rid = rd["id"]
        if rd["kind"] == "EnumConstantDecl":
            for tu in self.u.tus:
                d = tu.ids.get(rid)
                if d is not None and "_enum" in d:
                    return self.u.enumconst(d["_enum"], d["name"], d["_val"]), ("enum", d["_enum"])
            ty = self.u.ty(n["type"])
            if rd.get("name") in self.u.spec.libconsts:
                return self.u.spec.libconsts[rd["name"]][0], ty
            if ty[0] == "enum":
                d = self.u.enum_const(rd["name"], ty)
                if d is not None:
                    return self.u.enumconst(d["_enum"], d["name"], d["_val"]), ty
            raise Unsupported("enum constant " + rd.get("name", "?"))
        d = self.tu.ids.get(rid)
        if d is not None and d["kind"] == "VarDecl":
            return self.constvar(d)
        nm = rd.get("name")
        if nm in self.u.spec.libconsts:
            v, t = self.u.spec.libconsts[nm]
            return v, self.u.ty_s(t)
        if nm == "npos":
            return str(U64 - 1), TU64
        if rd["kind"] == "VarDecl":
            g = self.u.global_var(self.tu, nm, rd["type"]["qualType"])
            if g is None and self.u.demand(self.tu, nm):
                g = self.u.global_var(self.tu, nm, rd["type"]["qualType"])
            if g is not None:
                return FnT(self.u, g[0], g[1], FnSpec("const"), "const " + nm).constvar(g[1])
        raise Unsupported("reference to %s at %s" % (nm, self.tu.line(n)))

    def constvar(self, d):
        name = "c_" + vid(d["name"])
        if name in self.u.consts:
            return self.u.consts[name][0] + "()", self.u.consts[name][1]
        init = [c for c in kids(d) if c["kind"] not in ("FullComment",)]
        if not init:
            raise Unsupported("global %s has no initialiser here" % d["name"])
        qt = d["type"]["qualType"]
        if "const" not in qt and not d.get("constexpr"):
            raise Unsupported("global variable %s is mutable" % d["name"])
        ty = self.u.ty(d["type"])
        sub = FnT(self.u, self.tu, d, FnSpec("const"), "const " + d["name"])
        t, ty2 = sub.e(init[-1])
        if ty[0] in ("str", "vec"):
            pass
        else:
            t = sub.conv(t, ty2, ty)
        if any(i.k != "assert" for i in sub.items):
            raise Unsupported("initialiser of %s is not a constant expression here" % d["name"])
        if ty[0] == "ptr" and ty2[0] == "cstr":
            ty = TCSTR
        if ty[0] == "vec" and ty[1][0] == "ptr" and ty2 == ("vec", TCSTR):
            ty = ty2
        self.u.consts[name] = (name, ty, t)
        return name + "()", ty

    # ---- conversions -----------------------------------------------------------------
    def conv(self, t, a, b):
        if a == b:
            return t
        ka, kb = a[0], b[0]
        if ka in ("sptr", "ptr") and kb in ("sptr", "ptr") and b[1][0] == "cls" and a[1][0] == "cls":
            pa, pb = self.u.poly_of(a[1]), self.u.poly_of(b[1])
            if pa and pb and pa[1] == "leaf" and pb[1] != "leaf":
                return "up_%s(%s)" % (short(a[1][1]), t)
            if pa and pb and a[1] != b[1] and not (pa[1] == "inner" and pb[1] == "root"):
                raise Unsupported("conversion of %s to %s" % (a[1][1], b[1][1]))
        if kb == "bool":
            if ka in ("int", "char", "enum"):
                return "(%s != 0)" % t
            if ka == "bool":
                return t
            if ka == "ptr" or ka == "sptr":
                return self.notnull(t, a)
        if ka == "bool" and kb in ("int", "char"):
            return "(if %s { 1int } else { 0int })" % t
        if ka == "enum" and kb == "int" or kb == "enum" and ka == "int":
            return t
        if ka == "char" and kb == "int":
            if b == ("int", 8, False):
                return t
            if re.match(r"^\d+$", t):
                v = int(t)
                v = v - 256 if v >= 128 else v
                return self.conv(num(v), TI32, b)
            return self.conv("sx8(%s)" % t, T_int(8, True), b)
        if ka == "int" and kb == "char":
            if a == ("int", 8, False):
                return t
            if re.match(r"^\d+$", t) and int(t) < 256:
                return t
            return "w_u8(%s)" % t
        if ka == "int" and kb == "int":
            la, ha = irange(a)
            lb, hb = irange(b)
            if lb <= la and ha <= hb:
                return t
            m = re.match(r"^\(?(-?\d+)\)?$", t)
            if m:
                v = int(m.group(1))
                if lb <= v <= hb:
                    return t
                v &= (1 << b[1]) - 1
                if b[2] and v > hb:
                    v -= 1 << b[1]
                return num(v)
            return "w_%s%d(%s)" % ("i" if b[2] else "u", b[1], t)
        if a == ("cstr", "z") and kb == "str":
            return "zcut(%s)" % t
        if ka in ("str", "cstr") and kb in ("str", "cstr"):
            return t
        if ka == "iter" and a[1][0] == "str" and kb == "ptr" and b[1] == TCHAR:
            return t
        if kb == "iter" and b[1][0] == "str" and ka == "ptr" and a[1] == TCHAR:
            return t
        if kb == "dbl" and ka == "int":
            m = re.match(r"^\(?(-?\d{1,6})\)?$", t)
            return ("dlit(%s)" if m else "d_of_int(%s)") % t
        if kb == "int" and ka == "dbl":
            return "d_trunc(%s)" % t
        if ka == "null" and kb == "ptr":
            return self.null(b)
        if ka == "null" and kb == "sptr":
            return self.null(b)
        if ka == "null" and kb == "opt":
            return "None"
        if kb == "opt" and ka != "opt":
            return "Some(%s)" % self.conv(t, a, b[1])
        if ka == "cstr" and kb == "ptr":
            return "It { buf: %s + seq![0u8], off: 0, nil: false }" % t
        if ka in ("vec", "iter", "riter", "opt", "map", "sptr", "ptr", "pair", "mapiter", "liter", "setiter",
                  "set", "fun", "lambda") and kb == ka:
            return t
        if ka == "cls" and kb == "cls" and self.u.rty(a) == self.u.rty(b):
            return t
        if kb == "void":
            return t
        if ka == "lambda" and kb == "fun":
            return t
        raise Unsupported("conversion %r -> %r of %s" % (a, b, t))

    def null(self, ty):
        r = self.u.rty(ty)
        if r == "int":
            return "0"
        if r.startswith("It<"):
            return "it_null()"
        return "None"

    def notnull(self, t, ty):
        r = self.u.rty(ty)
        if r == "int":
            return "(%s != 0)" % t
        if r.startswith("It<"):
            return "(!%s.nil)" % t
        return "%s.is_some()" % t

    def default(self, ty):
        k = ty[0]
        if k in ("int", "char", "enum"):
            return "0int"
        if k == "bool":
            return "false"
        if k == "dbl":
            return "dlit(0)"
        if k == "sstream":
            return "ss_new(Seq::<u8>::empty())"
        if k in ("str", "cstr"):
            return "Seq::<u8>::empty()"
        if k == "vec" and len(ty) > 2:
            return "Seq::<%s>::new(%d, |i_: int| %s)" % (self.u.rty(ty[1]), ty[2], self.default(ty[1]))
        if k == "vec":
            return "Seq::<%s>::empty()" % self.u.rty(ty[1])
        if k == "opt":
            return "None"
        if k in ("ptr", "sptr"):
            return self.null(ty)
        if k == "map":
            return "Map::<%s, %s>::empty()" % (self.u.rty(ty[1]), self.u.rty(ty[2]))
        if k == "set":
            return "Set::<%s>::empty()" % self.u.rty(ty[1])
        if k == "pair":
            return "(%s, %s)" % (self.default(ty[1]), self.default(ty[2]))
        if k == "list":
            return "llist_empty::<%s>()" % self.u.rty(ty[1])
        if k == "cls":
            S = self.u.rty(ty)
            if ty[1] in self.u.spec.opaque:
                return "arbitrary::<%s>()" % S
            return "%s { %s }" % (S, ", ".join("%s: %s" % (fn, self.field_default(f, ft, r))
                                               for fn, ft, r, f in self.u.fields(ty)))
        if k == "fun":
            self.u.assumptions.add("an empty std::function is never called")
            return "arbitrary()"
        raise Unsupported("default value of %r" % (ty,))

    def field_default(self, f, ft, r):
        init = [c for c in kids(f) if c["kind"] not in ("FullComment",)]
        if init:
            t, ty = self.e(init[-1])
            return self.conv(t, ty, ft)
        if ft[0] in ("int", "bool", "char", "enum", "dbl", "ptr"):
            return "arbitrary()"
        return self.default(ft)

    # ---- expressions --------------------------------------------------------------
    def callee_name(self, n):
        c = strip_all(kids(n)[0])
        if c["kind"] == "DeclRefExpr":
            return c["referencedDecl"]["name"]
        if c["kind"] == "MemberExpr":
            return c["name"]
        return None

    def opname(self, n):
        return self.callee_name(n)

    def ev(self, n):
        """evaluate and return text only"""
        return self.e(n)[0]

    def cond(self, n):
        t, ty = self.e(n)
        return self.conv(t, ty, TBOOL)

    def guarded(self, g, node):
        """evaluate `node` as bool only when `g` holds; returns text valid under g"""
        (t, ty), items = self.capture(lambda: self.e(node))
        t = self.conv(t, ty, TBOOL)
        if not items:
            return t, []
        if all(i.k in ("assert", "let") for i in items):
            for i in items:
                if i.k == "assert":
                    self.items.append(Item("assert", "(%s) ==> (%s)" % (g, i.s), i.label))
                else:
                    self.items.append(i)
            return t, []
        return t, items

    def e(self, n):
        n = strip(n)
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (k, self.tu.line(n)))
        return m(n)

    def e_IntegerLiteral(self, n):
        return n["value"], self.u.ty(n["type"])

    def e_CharacterLiteral(self, n):
        ty = self.u.ty(n["type"])
        v = int(n["value"])
        if ty == TCHAR:
            v &= 255
        return str(v), ty

    def e_FloatingLiteral(self, n):
        return "dlit(%d)" % self.u.dlit(n["value"]), TDBL

    def e_CXXBoolLiteralExpr(self, n):
        return ("true" if n["value"] else "false"), TBOOL

    def e_CXXNullPtrLiteralExpr(self, n):
        return "None", TNULL

    def e_StringLiteral(self, n):
        return seqlit(cstr_bytes(n["value"])), TCSTR

    def e_CXXThisExpr(self, n):
        l = self.this_lv()
        return self.read(l), l.t

    def e_DeclRefExpr(self, n):
        l = self.lv(n)
        if l.k == "mapent":
            raise Unsupported("map entry as value")
        return self.read(l), l.t

    def e_MemberExpr(self, n):
        l = self.member_lv(n)
        return self.read(l), l.t

    e_ArraySubscriptExpr = e_DeclRefExpr

    def e_CXXDefaultArgExpr(self, n):
        ks = kids(n)
        if ks:
            return self.e(ks[0])
        raise Unsupported("default argument at %s" % self.tu.line(n))

    def e_CXXDefaultInitExpr(self, n):
        ks = kids(n)
        if ks:
            return self.e(ks[0])
        raise Unsupported("default member initialiser")

    def e_ImplicitValueInitExpr(self, n):
        ty = self.u.ty(n["type"])
        return self.default(ty), ty

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_ImplicitCastExpr(self, n):
        ck = n.get("castKind")
        sub = kids(n)[0]
        if ck == "LValueToRValue":
            l = self.lv(sub)
            return self.read(l), l.t
        if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase"):
            return self.e(sub)
        if ck in ("IntegralCast", "IntegralToBoolean", "PointerToBoolean", "IntegralToFloating",
                  "FloatingToIntegral"):
            t, ty = self.e(sub)
            to = self.u.ty(n["type"])
            return self.conv(t, ty, to), to
        if ck == "FloatingCast":
            return self.e(sub)
        if ck == "IntegralToPointer":
            ty = self.u.ty(n["type"])
            t, a = self.e(sub)
            if lit(t) == -1 and self.u.rty(ty).startswith("It<"):
                return "it_fail::<u8>()", ty
        if ck == "NullToPointer":
            ty = self.u.ty(n["type"])
            return self.null(ty), ty
        if ck == "ArrayToPointerDecay":
            t, ty = self.e(sub)
            return t, ty
        if ck in ("ConstructorConversion", "UserDefinedConversion"):
            t, ty = self.e(sub)
            to = self.u.ty(n["type"])
            return self.conv(t, ty, to), to
        if ck == "ToVoid":
            t, ty = self.e(sub)
            return t, TVOID
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.e(sub)
        if ck == "BitCast":
            t, ty = self.e(sub)
            return t, ty
        raise Unsupported("cast %s at %s" % (ck, self.tu.line(n)))

    def e_CXXDynamicCastExpr(self, n):
        to = self.u.ty(n["type"])
        t, ty = self.e(kids(n)[0])
        if ty == to:
            return t, to
        if to[0] == "ptr" and ty[0] == "ptr":
            pa, pb = self.u.poly_of(ty[1]), self.u.poly_of(to[1])
            if pa and pb and pa[0] == pb[0]:
                if pa[1] == "leaf":
                    raise Unsupported("dynamic_cast from %s" % ty[1][1])
                if pb[1] == "root":
                    return t, to
                return "as_%s(%s)" % (short(to[1][1]), t), to
            x = self.u.spec.externs.get(("dynamic_cast_" + short(to[1][1]), 1))
            if x:
                return self.extern("dynamic_cast_" + short(to[1][1]), [kids(n)[0]], n)
        raise Unsupported("dynamic_cast at %s" % self.tu.line(n))

    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr

    def arith(self, op, a, b, ty, n):
        if ty[0] == "dbl":
            f = {"+": "dadd", "-": "dsub", "*": "dmul", "/": "ddiv"}.get(op)
            if not f:
                raise Unsupported("floating operator " + op)
            return "%s(%s, %s)" % (f, a, b)
        if ty[0] not in ("int", "char"):
            raise Unsupported("arithmetic on %r at %s" % (ty, self.tu.line(n)))
        lo, hi = irange(ty)
        bits, sg = (8, False) if ty[0] == "char" else (ty[1], ty[2])
        la, lb = lit(a), lit(b)
        if op in ("+", "-", "*"):
            if la is not None and lb is not None:
                v = la + lb if op == "+" else la - lb if op == "-" else la * lb
                if lo <= v <= hi:
                    return num(v)
            r = "(%s %s %s)" % (a, op, b)
            if sg:
                self.ob("%s <= %s <= %s" % (num(lo), r, num(hi)), "no signed overflow", n)
                return r
            if op == "+":
                return "u%d_add(%s, %s)" % (bits, a, b)
            if op == "-":
                return "u%d_sub(%s, %s)" % (bits, a, b)
            return "u%d_mul(%s, %s)" % (bits, a, b)
        if op in ("/", "%"):
            if lb is None or lb == 0:
                self.ob("%s != 0" % b, "divisor is not zero", n)
            if not sg:
                return "(%s %s %s)" % (a, op, b)
            self.ob("!(%s == %s && %s == -1)" % (a, num(lo), b), "no division overflow", n)
            return "c_%s(%s, %s)" % ("div" if op == "/" else "mod", a, b)
        if op in ("&", "|", "^"):
            f = {"&": "and", "|": "or", "^": "xor"}[op]
            w = "%s%d" % ("i" if sg else "u", bits)
            if la is not None and lb is not None and la >= 0 and lb >= 0:
                return num(la & lb if op == "&" else la | lb if op == "|" else la ^ lb)
            return "b%s_%s(%s, %s)" % (f, w, a, b)
        if op in ("<<", ">>"):
            if lb is None:
                self.ob("0 <= %s < %d" % (b, bits), "shift amount in range", n)
            elif not 0 <= lb < bits:
                self.ob("false", "shift amount in range", n)
            if la is not None and lb is not None and la >= 0:
                v = la << lb if op == "<<" else la >> lb
                if v <= hi:
                    return num(v)
            if op == "<<" and sg:
                self.ob("0 <= %s && bshl_w(%s, %s) <= %s" % (a, a, b, num(hi)), "no signed overflow in shift", n)
            return "b%s_%s(%s, %s)" % ("shl" if op == "<<" else "shr", "%s%d" % ("i" if sg else "u", bits), a, b)
        raise Unsupported("operator " + op)

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = kids(n)
        if op == "=":
            t, ty = self.e(b)
            l = self.lv(a)
            t = self.conv(t, ty, l.t)
            self.note_iter(a, b)
            t = self.bind(t, l.t)
            self.write(l, t)
            return t, l.t
        if op == ",":
            self.e(a)
            return self.e(b)
        if op in ("&&", "||"):
            ta = self.cond(a)
            g = ta if op == "&&" else "!(%s)" % ta
            if not re.match(r"^!?\(?[A-Za-z_]\w*\)?$", g):
                pass
            tb, items = self.guarded(g, b)
            if items:
                r = self.fresh("sc")
                ta = self.bind(ta, TBOOL, "c")
                self.raw("let ghost mut %s: bool = %s;" % (r, ta))
                c = self.fresh("b")
                self.raw("let %s = br(Ghost(%s));" % (c, r))
                self.items.append(Item("open", "if %s {" % c if op == "&&" else "if !%s {" % c))
                self.items.extend(items)
                self.raw("proof { %s = %s; }" % (r, tb))
                self.items.append(Item("close", "}"))
                return r, TBOOL
            return "(%s %s %s)" % (ta, op, tb), TBOOL
        ta, tya = self.e(a)
        tb, tyb = self.e(b)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, ta, tya, tb, tyb, n), TBOOL
        if tya[0] in ("ptr", "iter", "cstr") or tyb[0] in ("ptr", "iter"):
            return self.ptr_arith(op, ta, tya, tb, tyb, n)
        ty = self.u.ty(n["type"])
        return self.arith(op, ta, tb, ty, n), ty

    def ptr_arith(self, op, ta, tya, tb, tyb, n):
        if tya[0] == "cstr":
            ta, tya = self.conv(ta, tya, ("ptr", TCHAR)), ("ptr", TCHAR)
        if tya[0] in ("ptr", "iter") and tyb[0] == "int":
            return "it_add(%s, %s%s)" % (ta, "-" if op == "-" else "", tb if op == "+" else "(%s)" % tb), tya
        if tyb[0] in ("ptr", "iter") and tya[0] == "int" and op == "+":
            return "it_add(%s, %s)" % (tb, ta), tyb
        if op == "-" and tya[0] in ("ptr", "iter") and tyb[0] in ("ptr", "iter"):
            self.ob("it_same(%s, %s)" % (ta, tb), "subtracted pointers belong to one buffer", n)
            self.phys("%s.buf" % a_(ta))
            return "(%s.off - %s.off)" % (ta, tb), TI64
        raise Unsupported("pointer arithmetic at %s" % self.tu.line(n))

    def compare(self, op, a, ta, b, tb, n):
        ka, kb = ta[0], tb[0]
        if ka == "null" or kb == "null" or (ka in ("ptr", "sptr") and b in ("0", "it_null()", "None")):
            x, tx = (b, tb) if ka == "null" else (a, ta)
            nn = self.notnull(x, tx)
            return nn if op == "!=" else "!%s" % nn
        if ka == "bool" and kb == "bool":
            return "(%s %s %s)" % (a, op, b)
        if ka in ("int", "char", "enum") and kb in ("int", "char", "enum"):
            return "(%s %s %s)" % (a, op, b)
        if ka == "dbl" and kb == "dbl":
            f = {"<": "dlt(%s, %s)", "<=": "dle(%s, %s)", "==": "deq(%s, %s)", "!=": "!deq(%s, %s)"}.get(op)
            if f:
                return f % (a, b)
            return ("dlt(%s, %s)" if op == ">" else "dle(%s, %s)") % (b, a)
        if ka in ("ptr", "iter") and kb in ("ptr", "iter"):
            if op in ("==", "!=") and ("it_fail" in a or "it_fail" in b):
                return "(%s %s %s)" % (a, op, b)
            if self.u.rty(ta).startswith("It<"):
                self.ob("it_same(%s, %s)" % (a, b), "compared pointers belong to one buffer", n)
                return "(%s.off %s %s.off)" % (a, op, b)
            return "(%s %s %s)" % (a, op, b)
        if ka == "riter":
            self.ob("it_same(%s, %s)" % (a, b), "compared iterators belong to one buffer", n)
            o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            return "(%s.off %s %s.off)" % (a, o, b)
        if ka in ("str", "cstr", "vec") and kb in ("str", "cstr", "vec"):
            if op == "==":
                return "(%s =~= %s)" % (a, b)
            if op == "!=":
                return "!(%s =~= %s)" % (a, b)
            if ka != "vec":
                return "(lexcmp(%s, %s) %s 0)" % (a, b, op)
        if op in ("==", "!=") and {ka, kb} == {"cls", "ptr"} and (tb[1] == ta if kb == "ptr" else ta[1] == tb) and not self.u.is_heap(ta if ka == "cls" else tb):
            # `this` compared with a pointer
            a, b = ("Some(%s)" % a if ka == "cls" else a), ("Some(%s)" % b if kb == "cls" else b)
            self.u.assumptions.add("pointers to %s compare equal exactly when the objects they point to have equal contents" % short((ta if ka == "cls" else tb)[1]))
            return "(%s %s %s)" % (a, op, b)
        if op in ("==", "!=") and ka == kb:
            return "(%s %s %s)" % (a, op, b)
        if op in ("==", "!=") and ka == "opt" and kb != "opt":
            return "(%s %s Some(%s))" % (a, op, self.conv(b, tb, ta[1]))
        raise Unsupported("comparison %r %s %r at %s" % (ta, op, tb, self.tu.line(n)))

    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = kids(n)
        tb, tyb = self.e(b)
        l = self.lv(a)
        cur = self.read(l)
        if l.t[0] in ("ptr", "iter"):
            t, _ = self.ptr_arith(op, cur, l.t, tb, tyb, n)
            self.write(l, t)
            return self.read(l), l.t
        cty = self.u.ty(n["computeLHSType"]) if "computeLHSType" in n else l.t
        r = self.arith(op, self.conv(cur, l.t, cty), self.conv(tb, tyb, cty) if op not in ("<<", ">>") else tb, cty, n)
        t = self.bind(self.conv(r, cty, l.t), l.t)
        self.write(l, t)
        return self.read(l), l.t

    def incdec(self, l, n):
        op = n.get("opcode") or ("++" if "++" in (self.opname(n) or "") else "--")
        cur = self.read(l)
        d = "1" if op == "++" else "-1"
        if l.t[0] in ("ptr", "iter"):
            self.write(l, "it_add(%s, %s)" % (cur, d))
        elif l.t[0] == "riter":
            self.write(l, "it_add(%s, %s)" % (cur, "-1" if op == "++" else "1"))
        elif l.t[0] in ("liter", "mapiter"):
            a = kids(n)[-1] if n["kind"] == "UnaryOperator" else kids(n)[1]
            own = self.owner_of(a)
            if own is None and l.t[0] == "liter":
                own = self.list_owner(n, l.t)
            if own is None:
                raise Unsupported("iterator without known container at %s" % self.tu.line(n))
            o = self.read(own)
            if l.t[0] == "mapiter":
                pre = self.ordered_map(own, n)
                if op == "--":
                    raise Unsupported("map iterator decrement")
                self.ob("%s.is_some() && %s.dom().contains(%s->0)" % (cur, o, cur), "increment of a valid map iterator that is not end()", n)
                self.write(l, "%snext(%s, %s)" % (pre, o, cur))
            elif op.endswith("++"):
                self.ob("llist_has(%s, %s)" % (o, cur), "increment of a valid list iterator", n)
                self.write(l, "llist_next(%s, %s)" % (o, cur))
            else:
                self.ob("(%s == -1 || llist_has(%s, %s)) && llist_at(%s, %s) > 0" % (cur, o, cur, o, cur), "decrement of a list iterator that is not begin()", n)
                self.write(l, "llist_prev(%s, %s)" % (o, cur))
        elif l.t[0] == "dbl":
            self.write(l, "dadd(%s, dlit(1))" % cur)
        else:
            t = self.arith("+" if op == "++" else "-", cur, "1", l.t, n)
            self.write(l, t)

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        sub = kids(n)[0]
        if op in ("++", "--"):
            l = self.lv(sub)
            if n.get("isPostfix"):
                o = self.bind_force(self.read(l), l.t)
                self.incdec(l, n)
                return o, l.t
            self.incdec(l, n)
            return self.read(l), l.t
        if op == "!":
            return "!%s" % par(self.cond(sub)), TBOOL
        if op == "-":
            t, ty = self.e(sub)
            rt = self.u.ty(n["type"])
            if rt[0] == "dbl":
                return "dneg(%s)" % t, rt
            if lit(t) is not None:
                return num(-lit(t)), rt
            return self.arith("-", "0", t, rt, n), rt
        if op == "+":
            return self.e(sub)
        if op == "~":
            t, ty = self.e(sub)
            rt = self.u.ty(n["type"])
            if lit(t) is not None:
                v = ~lit(t)
                return num(v if rt[2] else v & ((1 << rt[1]) - 1)), rt
            return "bnot_%s%d(%s)" % ("i" if rt[2] else "u", rt[1], t), rt
        if op == "*":
            l = self.lv(n)
            return self.read(l), l.t
        if op == "&":
            l = self.lv(sub)
            if self.u.is_heap(l.t):
                if l.k == "heap":
                    return l.a[1], ("ptr", l.t)
                return self.read(l), ("ptr", l.t)
            return "Some(%s)" % self.read(l), ("ptr", l.t)
        raise Unsupported("unary " + op)

    def bind_force(self, text, ty):
        n = self.fresh()
        self.items.append(Item("let", "let ghost %s: %s = %s;" % (n, self.u.rty(ty), text)))
        return n

    def e_ConditionalOperator(self, n):
        c, a, b = kids(n)
        # assert(): cond ? void(0) : __assert_fail(...)
        cb = self.find_call(b, "__assert_fail")
        if cb:
            t = self.cond(c)
            self.ob(t, "assert(%s)" % re.sub(r"\s+", " ", self.tu.text(c))[:60], n)
            return "()", TVOID
        tc = self.bind(self.cond(c), TBOOL, "c")
        rt = self.u.ty(n["type"])
        if rt == ("ptr", TCHAR) and all(self.literal_str(x) for x in (a, b)):
            rt = TCSTR

        (ta, tya), ia = self.capture(lambda: self.e(a))
        (tb, tyb), ib = self.capture(lambda: self.e(b))
        if rt[0] == "ptr" and tya == tyb and tya in (TCSTR, ("vec", TCSTR)):
            # string literals and tables of them stay the values they are
            rt = tya
        if rt != TVOID:
            ta, xa = self.capture(lambda: self.conv(ta, tya, rt))
            tb, xb = self.capture(lambda: self.conv(tb, tyb, rt))
            ia, ib = ia + xa, ib + xb
        if all(i.k in ("assert", "let") for i in ia + ib):
            for g, its in ((tc, ia), ("!%s" % tc, ib)):
                for i in its:
                    if i.k == "assert":
                        self.items.append(Item("assert", "%s ==> (%s)" % (g, i.s), i.label))
                    else:
                        self.items.append(i)
            return "(if %s { %s } else { %s })" % (tc, ta, tb), rt
        r = self.fresh("cv")
        if rt != TVOID:
            self.raw("let ghost mut %s: %s = arbitrary();" % (r, self.u.rty(rt)))
        bb = self.fresh("b")
        self.raw("let %s = br(Ghost(%s));" % (bb, tc))
        self.items.append(Item("open", "if %s {" % bb))
        self.items.extend(ia)
        if rt != TVOID:
            self.raw("proof { %s = %s; }" % (r, ta))
        self.items.append(Item("else", "} else {"))
        self.items.extend(ib)
        if rt != TVOID:
            self.raw("proof { %s = %s; }" % (r, tb))
        self.items.append(Item("close", "}"))
        return r, rt

    def literal_str(self, n):
        n = strip_all(n)
        while n["kind"] == "ImplicitCastExpr" and kids(n):
            n = strip_all(kids(n)[0])
        return n["kind"] == "StringLiteral"

    def find_call(self, n, name):
        if n["kind"] == "CallExpr" and self.callee_name(n) == name:
            return n
        for c in kids(n):
            r = self.find_call(c, name)
            if r:
                return r
        return None

    def e_LambdaExpr(self, n):
        # pure, single-return lambda -> spec closure
        rec = None
        for c in kids(n):
            if c["kind"] == "CXXRecordDecl":
                rec = c
        call = None
        for c in kids(rec):
            if c["kind"] == "CXXMethodDecl" and c.get("name") == "operator()":
                call = c
            if c["kind"] == "FunctionTemplateDecl":
                for c2 in kids(c):
                    if c2["kind"] == "CXXMethodDecl":
                        if "auto" in c2["type"]["qualType"] and call is None:
                            call = c2
                        elif any(x["kind"] == "CompoundStmt" for x in kids(c2)):
                            call = c2 if "auto" not in json_type(c2) else call or c2
        return self.lambda_text(call, n)

    def block_lambda(self, n):
        """a lambda with statements, capturing only references: every call of it is its body put in place"""
        rec = [c for c in kids(n) if c["kind"] == "CXXRecordDecl"]
        call = [c for r in rec for c in kids(r) if c["kind"] == "CXXMethodDecl" and c.get("name") == "operator()"]
        if not call:
            return None
        body = [c for c in kids(call[0]) if c["kind"] == "CompoundStmt"]
        if not body or not kids(body[0]) or (len(kids(body[0])) == 1 and kids(body[0])[0]["kind"] == "ReturnStmt"):
            return None
        for f in kids(rec[0]):
            if f["kind"] == "FieldDecl" and not f["type"]["qualType"].strip().endswith(("&", "*", "*const")):
                return None
        call = dict(call[0])
        call["_qname"], call["_qscope"], call["storageClass"] = "lambda%s" % n["id"], "", "static"
        return call

    def lambda_text(self, call, n):
        ps = [c for c in kids(call) if c["kind"] == "ParmVarDecl"]
        body = [c for c in kids(call) if c["kind"] == "CompoundStmt"][0]
        sts = kids(body)
        if not sts and not ps:
            return "(|| { () })", ("fun", TVOID, ())
        if len(sts) != 1 or sts[0]["kind"] != "ReturnStmt":
            raise Unsupported("lambda with more than a return statement at %s" % self.tu.line(n))
        args = []
        saved = dict(self.vars)
        for p in ps:
            t = self.u.ty(p["type"])
            nm = self.uniq(p.get("name", "a"))
            self.vars[p["id"]] = LV("var", nm, t)
            args.append((nm, t))

        def ev():
            return self.e(kids(sts[0])[0])
        (t, ty), items = self.capture(ev)
        self.vars = saved
        pre = ""
        for i in items:
            if i.k == "let" and i.s.startswith("let ghost"):
                pre += i.s.replace("let ghost", "let") + " "
            elif i.k == "assert":
                if self.lam_obs is None:
                    raise Unsupported("lambda body with proof obligations at %s" % self.tu.line(n))
                self.lam_obs.append((args, pre, i))
            elif i.k == "let":
                pass
            else:
                raise Unsupported("lambda with side effects at %s" % self.tu.line(n))
        txt = "|%s| {%s%s}" % (", ".join("%s: %s" % (a, self.u.rty(b)) for a, b in args), pre, t)
        return "(%s)" % txt, ("fun", ty, tuple(b for a, b in args))

    def e_CXXConstructExpr(self, n):
        ty = self.u.ty(n["type"])
        args = [a for a in kids(n)]
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        return self.construct(ty, args, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, ty, args, n):
        k = ty[0]
        if len(args) == 0:
            if k == "cls":
                return self.construct_cls(ty, args, n)
            return self.default(ty), ty
        if k == "str":
            if len(args) == 1:
                t, a = self.e(args[0])
                if a[0] in ("str", "cstr"):
                    return self.conv(t, a, TSTR), TSTR
                if a[0] == "ptr":
                    raise Unsupported("string from char* at %s" % self.tu.line(n))
                if a == ("vec", TCHAR):
                    return t, TSTR
                return self.conv(t, a, TSTR), TSTR
            t1, a1 = self.e(args[0])
            t2, a2 = self.e(args[1])
            if a1[0] == "ptr" and a2[0] == "int":
                t1 = self.bind(t1, a1, "p")
                t2 = self.bind(t2, a2, "n")
                self.ob("it_range(%s, %s)" % (t1, t2), "text taken from inside the buffer", n)
                return "%s.buf.subrange(%s.off, %s.off + %s)" % (t1, t1, t1, t2), TSTR
            if a1[0] in ("iter", "ptr") and a2[0] in ("iter", "ptr"):
                t1, t2 = self.bind(t1, a1, "p"), self.bind(t2, a2, "p")
                self.ob("it_span(%s, %s)" % (t1, t2), "iterator range is valid", n)
                return "%s.buf.subrange(%s.off, %s.off)" % (t1, t1, t2), TSTR
            if a1[0] == "int" and a2[0] in ("char", "int"):
                return "Seq::new((%s) as nat, |i_: int| (%s) as u8)" % (t1, self.conv(t2, a2, TCHAR)), TSTR
            raise Unsupported("string constructor at %s" % self.tu.line(n))
        if k == "vec":
            if len(args) == 1:
                t, a = self.e(args[0])
                if a[0] == "vec":
                    if self.holds_heap(a):
                        raise Unsupported("copy of objects of a class with identity at %s" % self.tu.line(n))
                    return t, ty
                if a[0] == "int":
                    return "Seq::new((%s) as nat, |i_: int| %s)" % (t, self.default(ty[1])), ty
            if len(args) == 2:
                t1, a1 = self.e(args[0])
                t2, a2 = self.e(args[1])
                if self.holds_heap(ty):
                    # only empty vectors are copied
                    self.ob("%s.len() == 0" % t2, "no object of a class with identity is copied", n)
                    if a1[0] != "int" or a2[0] != "vec":
                        raise Unsupported("copy of objects of a class with identity at %s" % self.tu.line(n))
                if a1[0] == "int":
                    return "Seq::new((%s) as nat, |i_: int| %s)" % (t1, self.conv(t2, a2, ty[1])), ty
                t1, t2 = self.bind(t1, a1, "p"), self.bind(t2, a2, "p")
                if a1[0] == "iter":
                    self.ob("it_span(%s, %s)" % (t1, t2), "iterator range is valid", n)
                    return "%s.buf.subrange(%s.off, %s.off)" % (t1, t1, t2), ty
                if a1[0] == "riter":
                    self.ob("it_span(%s, %s)" % (t2, t1), "iterator range is valid", n)
                    return "%s.buf.subrange(%s.off, %s.off).reverse()" % (t1, t2, t1), ty
            raise Unsupported("vector constructor at %s" % self.tu.line(n))
        if k in ("iter", "opt", "map", "set", "sptr", "fun", "mapiter", "liter", "list", "setiter", "riter") and len(args) == 1:
            t, a = self.e(args[0])
            if k == "riter" and a[0] == "iter":
                return t, ty
            if k == "opt" and a[0] == "cls" and short(a[1]) == "nullopt_t":
                return "None", ty
            if k == "sptr" and a == ("ptr", ty[1]) and not self.u.is_heap(ty[1]):
                return t, ty    # taking over a new object
            if k == "fun" and a == ("opt", ty):
                return t, a     # a copy of a possibly empty function
            return self.conv(t, a, ty), ty
        if k == "pair":
            if len(args) == 2:
                t1, a1 = self.e(args[0])
                t2, a2 = self.e(args[1])
                return "(%s, %s)" % (self.conv(t1, a1, ty[1]), self.conv(t2, a2, ty[2])), ty
            t, a = self.e(args[0])
            return t, ty
        if k == "cls":
            return self.construct_cls(ty, args, n)
        if k == "sstream":
            t, a = self.e(args[0])
            return "ss_new(%s)" % self.as_seq(t, a), ty
        raise Unsupported("construction of %r at %s" % (ty, self.tu.line(n)))

    def construct_cls(self, ty, args, n):
        if len(args) == 1 and not n.get("_noctorcopy"):
            qt = n.get("ctorType", {}).get("qualType", "")
            m = re.match(r"^void \((.*)\)", qt)
            if m:
                try:
                    pt = self.u.ty_s(m.group(1))
                except Unsupported:
                    pt = None
                if pt == ty:
                    if self.u.is_heap(ty):
                        raise Unsupported("copy of an object of a class with identity at %s" % self.tu.line(n))
                    c = self.find_ctor(ty, n) if ty[1] not in self.u.spec.opaque else None
                    if c is not None and not c[1].get("isImplicit") and not c[1].get("explicitlyDefaulted") and \
                            norm_fn(c[1]["type"]["qualType"]) == norm_fn(qt) and any(x["kind"] == "CompoundStmt" for x in kids(c[1])):
                        return self.inline_ctor(c, ty, args, n)
                    t, a = self.e(args[0])
                    return t, ty
        S = short(ty[1])
        if ty[1] in self.u.spec.opaque:
            x = self.extern(S + "::" + S, args, n)
            if x is None:
                raise Unsupported("constructor of %s with %d arguments at %s" % (S, len(args), self.tu.line(n)))
            return x
        ctor = self.find_ctor(ty, n)
        key = self.u.fkey(*ctor) if ctor is not None else S + "_ctor"
        fs = self.u.spec.fns.get(key)
        if fs is not None:
            return self.contract_call(key, ctor, args, None, n, ctor_ty=ty)
        if self.u.is_heap(ty):
            return self.inline_ctor(ctor, ty, args, n)
        if ctor is None:
            if not args:
                return self.default(ty), ty
            raise Unsupported("constructor of %s" % S)
        return self.inline_ctor(ctor, ty, args, n)

    def find_ctor(self, ty, n):
        """definition of the constructor with the matching parameter list"""
        want = n.get("ctorType", {}).get("qualType", "")
        for tu in self.u.tus:
            for q, defs in tu.decls.items():
                if not (q == ty[1] + "::" + ty[1].split("::")[-1]):
                    continue
                c = [d for d in defs if d["kind"] == "CXXConstructorDecl"]
                withbody = [d for d in c if any(x["kind"] == "CompoundStmt" for x in kids(d))]
                np = len([a for a in kids(n)]) if n else 0
                for d in withbody + c:
                    if norm_fn(d["type"]["qualType"]) == norm_fn(want):
                        return (tu, d)
                for d in withbody:
                    ps = [p for p in kids(d) if p["kind"] == "ParmVarDecl"]
                    if len(ps) == np:
                        if n and "_argtys" in n:
                            # the arguments were forwarded: class arguments must meet parameters of that class
                            def cl(x):
                                try:
                                    x = self.u.ty(x)
                                except Unsupported:
                                    return "?"
                                return x[1] if x[0] == "cls" else ""
                            if any("?" not in (cl(p["type"]), cl(a)) and cl(p["type"]) != cl(a) for p, a in zip(ps, n["_argtys"])):
                                continue
                        return (tu, d)
        return None

    def inline_ctor(self, ctor, ty, args, n):
        tu, d = ctor
        S = self.u.rty(ty)
        saved, stu = dict(self.vars), self.tu
        ps = [p for p in kids(d) if p["kind"] == "ParmVarDecl"]
        vals = []
        for p, a in zip(ps, args):
            t, at = self.e(a)
            pt = self.u.ty(p["type"])
            vals.append((p, self.bind(self.conv(t, at, pt), pt), pt))
        for p in ps[len(args):]:
            da = [c for c in kids(p) if c["kind"] != "FullComment"] or [self.u.default_arg(tu, d, p)]
            da = da[-1]
            if da is None:
                raise Unsupported("default arguments of constructor %s" % S)
            old, self.tu = self.tu, tu
            t, at = self.e(da)
            self.tu = old
            pt = self.u.ty(p["type"])
            vals.append((p, self.bind(self.conv(t, at, pt), pt), pt))
        self.tu = tu
        for p, t, pt in vals:
            self.vars[p["id"]] = LV("temp", t, pt)
        inits = {}
        for c in kids(d):
            if c["kind"] == "CXXCtorInitializer" and "anyInit" in c:
                f = c["anyInit"]["name"]
                inits[vid(f)] = kids(c)[0]
        if self.u.is_heap(ty):
            # a new object: members in order of declaration, each may use the earlier ones
            hn = self.heapname(ty)
            if hn not in self.names:
                raise Unsupported("construction of heap object %s in a function without this heap" % S)
            v = self.uniq("obj")
            self.names.add(v)
            self.raw("let ghost mut %s: %sS = arbitrary();" % (v, short(ty[1])))
            self.vars["this"] = LV("var", v, ty)
            for fn, ft, r, f in self.u.heap_struct(ty):
                i = strip(inits[fn]) if fn in inits else None
                if i is not None and i["kind"] != "CXXDefaultInitExpr":
                    t, at = self.e(i)
                    t = self.conv(t, at, ft)
                else:
                    t = self.field_default(f, ft, r)
                self.write(LV("field", (self.vars["this"], short(ty[1]) + "S", fn), ft), t)
            self.u.assumptions.add("there is always memory for a new object")
            hv = self.fresh("new")
            self.raw("let ghost %s: int = heap_new(%s); proof { ax_heap_new(%s); %s = %s.insert(%s, %s); }" % (hv, hn, hn, hn, hn, hv, v))
            self.record(hn, None)
            self.names.add(hv)
            self.vars["this"] = LV("heap", (hn, hv), ty)
            body = [c for c in kids(d) if c["kind"] == "CompoundStmt"]
            if body and kids(body[0]):
                self.block(kids(body[0]))
            self.vars, self.tu = saved, stu
            return hv, ty
        parts = []
        done = {}
        basep = {}
        if self.u.poly_of(ty):
            for c in kids(d):
                if c["kind"] == "CXXCtorInitializer" and "baseInit" in c:
                    basep.update(self.base_parts(c))
        self.vars["this"] = LV("ctorobj", done, ty)
        for fn, ft, r, f in self.u.fields(ty):
            if fn in basep:
                parts.append((fn, basep[fn]))
            elif fn in inits:
                i = strip(inits[fn])
                if i["kind"] == "CXXDefaultInitExpr":
                    parts.append((fn, self.field_default(f, ft, r)))
                else:
                    t, at = self.e(i)
                    parts.append((fn, self.conv(t, at, ft)))
            else:
                parts.append((fn, self.field_default(f, ft, r)))
            done[fn] = parts[-1][1]
        body = [c for c in kids(d) if c["kind"] == "CompoundStmt"]
        txt = "%s { %s }" % (S, ", ".join("%s: %s" % p for p in parts))
        if body and kids(body[0]):
            v = self.uniq("obj")
            self.names.add(v)
            self.raw("let ghost mut %s: %s = %s;" % (v, S, txt))
            self.vars["this"] = LV("var", v, ty)
            self.block(kids(body[0]))
            txt = v
        self.vars, self.tu = saved, stu
        return txt, ty

    def base_parts(self, c):
        """members of the base class, set by its constructor"""
        ty = self.u.ty(c["baseInit"])
        n = strip(kids(c)[0])
        cls = self.u.find_class(ty[1])
        own = [(vid(f["name"]), self.u.ty(f["type"])) for f in cls[2].get("inner", []) if f["kind"] == "FieldDecl"]
        args = [a for a in kids(n) if a["kind"] != "CXXDefaultArgExpr"]
        ctor = self.find_ctor(ty, n)
        if ctor is None or not any(x["kind"] == "CompoundStmt" for x in kids(ctor[1])):
            if own:
                raise Unsupported("base class %s" % ty[1])
            return {}
        tu, d = ctor
        vals = []
        ps = [p for p in kids(d) if p["kind"] == "ParmVarDecl"]
        for p, a in zip(ps, args):
            t, at = self.e(a)
            pt = self.u.ty(p["type"])
            vals.append((p, self.bind(self.conv(t, at, pt), pt), pt))
        saved, stu = dict(self.vars), self.tu
        for p in ps[len(args):]:
            da = self.u.default_arg(tu, d, p) or [c_ for c_ in kids(p) if c_["kind"] != "FullComment"][-1]
            self.tu = tu
            t, at = self.e(da)
            pt = self.u.ty(p["type"])
            vals.append((p, self.bind(self.conv(t, at, pt), pt), pt))
        self.tu = tu
        for p, t, pt in vals:
            self.vars[p["id"]] = LV("temp", t, pt)
        out, seen = {}, set()
        for i in kids(d):
            if i["kind"] != "CXXCtorInitializer":
                continue
            if "baseInit" in i:
                out.update(self.base_parts(i))
            elif "anyInit" in i:
                fn = vid(i["anyInit"]["name"])
                ft = dict(own).get(fn)
                if ft is not None and strip(kids(i)[0])["kind"] != "CXXDefaultInitExpr":
                    t, at = self.e(kids(i)[0])
                    out[fn] = self.bind(self.conv(t, at, ft), ft)
        body = [x for x in kids(d) if x["kind"] == "CompoundStmt"]
        if kids(body[0]) or any(fn not in out for fn, _ in own):
            raise Unsupported("constructor of base class %s" % ty[1])
        self.vars, self.tu = saved, stu
        return out

    def e_CXXNewExpr(self, n):
        ks = [c for c in kids(n) if c["kind"] == "CXXConstructExpr"]
        ty = self.u.ty(n["type"])
        if n.get("isArray") or n.get("isPlacement") or len(ks) != 1 or ty[0] != "ptr" or ty[1][0] != "cls" or self.u.is_heap(ty[1]):
            raise Unsupported("new expression at %s" % self.tu.line(n))
        t, _ = self.e(ks[0])
        return "Some(%s)" % t, ty

    def e_InitListExpr(self, n):
        ty = self.u.ty(n["type"])
        ks = kids(n)
        if "array_filler" in n:
            ks = [c for c in n["array_filler"] if c.get("kind") != "ImplicitValueInitExpr"]
        if ty[0] == "cls":
            fl = self.u.fields(ty)
            parts = []
            for (fn, ft, r, f), i in zip(fl, ks):
                if strip(i)["kind"] == "CXXDefaultInitExpr":
                    parts.append("%s: %s" % (fn, self.field_default(f, ft, r)))
                    continue
                t, a = self.e(i)
                parts.append("%s: %s" % (fn, self.conv(t, a, ft)))
            if len(parts) != len(fl):
                raise Unsupported("aggregate initialisation of %s" % ty[1])
            return "%s { %s }" % (self.u.rty(ty), ", ".join(parts)), ty
        if ty[0] == "vec":
            if len(ks) == 1 and strip(ks[0])["kind"] == "InitListExpr":
                return self.e(ks[0])
            ts = []
            et = None
            for i in ks:
                t, a = self.e(i)
                if ty[1][0] == "ptr" and a[0] == "cstr":
                    et = TCSTR
                    ts.append(t)
                else:
                    ts.append(self.conv(t, a, ty[1]))
            if et:
                ty = ("vec", et)
            sfx = ""
            return ("seq![%s]" % ", ".join(intlit(t) for t in ts) if ts else self.default(ty)), ty
        if len(ks) == 1:
            t, a = self.e(ks[0])
            return self.conv(t, a, ty), ty
        if not ks:
            return self.default(ty), ty
        raise Unsupported("initialiser list of %r at %s" % (ty, self.tu.line(n)))

    def e_CXXStdInitializerListExpr(self, n):
        return self.e(kids(n)[0])

    # ---- calls ------------------------------------------------------------------
    def extern(self, nm, args, n, obj=None):
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        ex = self.u.spec.externs.get((nm, len(args) + (1 if obj is not None else 0)))
        if ex is None:
            return None
        world, pts, rt, expr = ex
        vals = []
        outs = []
        cb = None
        if obj is not None:
            vals.append(self.bind(self.read(obj), obj.t, "x"))
            if pts[0].startswith("&"):
                outs.append(obj)
            pts = pts[1:]
        for a, pt in zip(args, pts):
            if pt.startswith("&&"):
                l = self.lv(a)
                vals.append(self.bind(self.read(l), l.t, "x"))
                outs.append(l)
                continue
            if pt.startswith("&"):
                # output argument: address of a local
                s = strip_all(a)
                l = self.lv(kids(s)[0]) if s["kind"] == "UnaryOperator" and s["opcode"] == "&" else self.lv(a)
                outs.append(l)
                continue
            if pt == "_":
                continue
            if pt.startswith("=>"):
                cb = (a, self.u.ty_s(pt[2:]))
                continue
            t, ty = self.e(a)
            want = self.u.ty_s(pt)
            vals.append(self.bind(self.conv(t, ty, want), want, "x"))
        rty = self.u.ty_s(rt)
        if expr is not None:
            out = expr
            for i, v in enumerate(vals):
                out = out.replace("$%d" % i, v)
            return out, rty
        self.u.assumptions.add("assumed contract of external function %s (specs: ext_%s)" % (nm, nm))
        r, v = self.fresh("r"), self.fresh("v")
        aa = (["Ghost(w)"] if world else []) + ["Ghost(%s)" % x for x in vals]
        fn = nm.replace("::", "_").replace("operator<<", "put").replace("~", "drop_")
        if sum(1 for k in self.u.spec.externs if k[0] == nm) > 1:
            fn += "_%d" % len(args)
        self.raw("let %s = ext_%s(%s);" % (r, fn, ", ".join(aa)))
        no = len(outs) + (1 if world else 0) + (1 if cb else 0)
        have = rty != TVOID
        tot = no + (1 if have else 0)
        acc = lambda i: "%s@" % r if tot == 1 else "%s@.%d" % (r, i)
        i = 0
        if have:
            self.raw("let ghost %s: %s = %s;" % (v, self.u.rty(rty), acc(0)))
            lohi = self.u.typed_facts(v, rty) if rty[0] in ("int", "char") else []
            for f in lohi:
                self.raw("proof { typed(%s); }" % f)
            i = 1
        for l in outs:
            self.write(l, acc(i))
            i += 1
        if world:
            self.record("w", None)
            self.raw("proof { w = %s; }" % acc(i))
            i += 1
        if cb:
            self.called_back(cb[0], cb[1], acc(i), n)
        return (v if have else "()"), rty

    def called_back(self, a, ty, what, n):
        """the function given as argument `a` to an external function, which calls it at most once, last, with the value inside `what`"""
        b = self.fresh("b")
        self.raw("let %s = br(Ghost(%s.is_some()));" % (b, what))
        self.items.append(Item("open", "if %s {" % b))
        lam = []

        def find(x):
            if x["kind"] == "LambdaExpr":
                lam.append(x)
                return
            for c in kids(x):
                find(c)
        find(a)
        saved = dict(self.vars)
        if lam:
            op = [m for c in kids(lam[0]) if c["kind"] == "CXXRecordDecl" for m in kids(c) if m["kind"] == "CXXMethodDecl" and m.get("name") == "operator()"][0]
            p = [c for c in kids(op) if c["kind"] == "ParmVarDecl"][0]
            body = [c for c in kids(op) if c["kind"] == "CompoundStmt"][0]
            nm = self.uniq(p.get("name") or "p")
            self.raw("let ghost mut %s: %s = %s->0;" % (nm, self.u.rty(ty), what))
            self.vars[p["id"]] = LV("var", nm, ty)
            sl, self.loopctx = self.loopctx, []
            self.inlret = getattr(self, "inlret", []) + [(None, TVOID)]
            self.dtors.append([])
            self.inl.append("lambda")
            self.inl_nested = any(has_return(x) for x in kids(body) if x["kind"] != "ReturnStmt")
            self.iblock(kids(body))
            self.inl.pop()
            self.destroy(self.dtors.pop())
            self.inlret = self.inlret[:-1]
            self.loopctx = sl
        else:
            nm = "call_" + short((ty[1] if ty[0] in ("sptr", "ptr", "opt") else ty)[1])
            if (nm, 1) not in self.u.spec.externs:
                raise Unsupported("callback %s at %s" % (nm, self.tu.line(n)))
            r = self.fresh("r")
            self.raw("let %s = ext_%s(Ghost(w), Ghost(%s->0));" % (r, nm, what))
            self.record("w", None)
            self.raw("proof { w = %s@; }" % r)
        self.vars = saved
        self.items.append(Item("close", "}"))

    def e_CallExpr(self, n):
        c = strip_all(kids(n)[0])
        args = kids(n)[1:]
        if c["kind"] == "DeclRefExpr":
            rd = c["referencedDecl"]
            nm = rd["name"]
            x = self.extern(nm, args, n)
            if x is not None:
                return x
            d = self.u.def_of(self.tu, rd["id"])
            if d is not None:
                return self.user_call(d, None, args, n)
            f = getattr(self, "std_" + nm, None)
            if f:
                return f(n, args)
            d = self.u.by_sig(nm, rd["type"]["qualType"])
            if d is None and self.u.demand(self.tu, nm):
                d = self.u.by_sig(nm, rd["type"]["qualType"])
            if d is not None:
                return self.user_call(d, None, args, n)
            if nm in self.u.spec.fns:
                raise Unsupported("external function %s" % nm)
            d = self.u.by_name(nm, len(args))
            if d is not None:
                return self.user_call(d, None, args, n)
            if rd["kind"] == "CXXMethodDecl":
                d = self.u.by_sig(nm, rd["type"]["qualType"], "CXXMethodDecl")
                if d is not None:
                    return self.user_call(d, None, args, n)
        raise Unsupported("call of %s at %s" % (self.callee_name(n), self.tu.line(n)))

    def types_of(self, args):
        try:
            return [self.u.ty(a["type"]) for a in args]
        except Unsupported:
            return None

    def e_CXXMemberCallExpr(self, n):
        me = strip(kids(n)[0])
        args = [a for a in kids(n)[1:]]
        if me["kind"] != "MemberExpr":
            raise Unsupported("member call at %s" % self.tu.line(n))
        mn = me["name"]
        d = self.u.def_of(self.tu, me.get("referencedMemberDecl"))
        if d is not None:
            cls = d[1].get("_qscope", "")
            if cls in self.u.spec.opaque or any(o.endswith("::" + cls) for o in self.u.spec.opaque if cls):
                x = self.extern("%s::%s" % (cls.split("::")[-1], mn), args, n, obj=self.obj_lv(me))
                if x is not None:
                    return x
            return self.user_call(d, me, args, n)
        obj = None
        sub = strip(kids(me)[0])
        obj = self.obj_lv(me)
        nargs = len(args)
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        k = obj.t[0]
        if k == "str" and mn.startswith("operator basic_string_view"):
            return self.read(obj), obj.t
        if k == "int" and mn == "operator bool":
            return "(%s != 0)" % self.read(obj), TBOOL
        if k == "cls":
            x = self.extern(short(obj.t[1]) + "::" + mn, args, n, obj=obj)
            if x is not None:
                return x
        f = getattr(self, "m_%s_%s" % (k, mn), None)
        if f is None:
            if k == "cls":
                d = self.u.by_method(obj.t[1], mn, nargs, self.types_of(kids(n)[1:]))
                if d is not None:
                    return self.user_call(d, me, args, n, obj=obj)
            raise Unsupported("method %s of %r at %s" % (mn, obj.t, self.tu.line(n)))
        return f(obj, args, n)

    def user_call(self, d, me, args, n, obj=None):
        tu, node = d
        key = self.u.fkey(tu, node)
        fs = self.u.spec.fns.get(key)
        if fs is not None:
            return self.contract_call(key, d, args, me, n, obj=obj)
        return self.inline_call(d, args, me, n, obj=obj)

    def contract_call(self, key, d, args, me, n, ctor_ty=None, obj=None):
        tu, node = d
        sig = self.u.signature(tu, node, key)
        ins = []
        outs = []
        for h in sig["heaps"]:
            ins.append(h)
        if sig["this"] and ctor_ty is None:
            if obj is None:
                obj = self.obj_lv(me) if me is not None else self.this_lv()
            if sig["this"] == "heapref":
                ins.append(obj.a[1] if obj.k == "heap" else self.read(obj))
            else:
                ins.append(self.read(obj))
                if sig["this_out"]:
                    outs.append(("this", obj, None))
        for p, a in zip(sig["params"], args):
            if strip(a)["kind"] == "CXXDefaultArgExpr":
                dv = self.u.default_arg(tu, node, p)
                t, at = self.e(dv) if dv is not None else self.e(a)
                ins.append(self.conv(t, at, p["ty"]))
                continue
            if p["mode"] == "inout":
                l = self.lv(a)
                ins.append(self.read(l))
                outs.append((p["name"], l, None))
            elif p["mode"] == "optref":
                s = strip_all(a)
                if s["kind"] == "UnaryOperator" and s["opcode"] == "&":
                    l = self.lv(kids(s)[0])
                    ins.append("Some(%s)" % self.read(l))
                    outs.append((p["name"], l, "some"))
                else:
                    t, at = self.e(a)
                    t = self.conv(t, at, p["ty"])
                    ins.append(t)
                    l = self.lv(s) if s["kind"] in ("DeclRefExpr",) else None
                    outs.append((p["name"], l, "pass"))
            else:
                t, at = self.e(a)
                ins.append(self.conv(t, at, p["ty"]))
        for p in sig["params"][len(args):]:
            dv = self.u.default_arg(tu, node, p)
            if dv is None:
                raise Unsupported("missing argument in call of %s" % key)
            t, at = self.e(dv)
            ins.append(self.conv(t, at, p["ty"]))
        names = []
        for t in ins:
            if re.match(r"^[A-Za-z_]\w*$", t) or re.match(r"^\d+$", t):
                names.append(t)
            else:
                nm = self.fresh("a")
                self.raw("let ghost %s = %s;" % (nm, t))
                names.append(nm)
        r = self.fresh("r")
        self.items.append(Item("call", "let %s = %s(%s);" % (r, key_id(key), ", ".join("Ghost(%s)" % x for x in names)),
                               "%s: precondition of %s" % (self.tu.line(n), key)))
        self.u.calls.add((self.key, key))
        olist = sig["outs"]
        many = len(olist) > 1

        def acc(i):
            return "%s@.%d" % (r, i) if many else "%s@" % r
        res = "()"
        rty = sig["ret"]
        for i, (on, ot) in enumerate(olist):
            if on == "ret":
                v = self.fresh("v")
                self.raw("let ghost %s: %s = %s;" % (v, ot, acc(i)))
                res = v
            elif on.startswith("heap_") or on == "w":
                self.record(on, None)
                self.raw("proof { %s = %s; }" % (on, acc(i)))
            else:
                for (pn, l, mode) in outs:
                    if pn == on:
                        if mode == "some":
                            self.write(l, "%s->0" % acc(i))
                        elif l is not None and l.k != "temp":
                            self.write(l, acc(i))
        if ctor_ty is not None:
            return res, ctor_ty
        return res, rty

    def inline_call(self, d, args, me, n, obj=None):
        tu, node = d
        key = self.u.fkey(tu, node)
        if key in self.inl or key == self.key:
            raise Unsupported("recursion without contract: %s" % key)
        body = [c for c in kids(node) if c["kind"] == "CompoundStmt"]
        if not body:
            raise Unsupported("call of %s, which has neither a contract nor a body here (%s)" % (key, self.tu.line(n)))
        self.u.inlined.add(key)
        saved, stu, sown = dict(self.vars), self.tu, dict(self.iter_owner)
        ps = [p for p in kids(node) if p["kind"] == "ParmVarDecl"]
        if node["kind"] == "CXXMethodDecl" and node.get("storageClass") != "static":
            if obj is None:
                obj = self.obj_lv(me) if me is not None else self.this_lv()
            if obj.k == "temp":
                obj = LV("temp", self.bind(obj.a, obj.t, "o"), obj.t)
        newvars = {}
        for i, p in enumerate(ps):
            if i < len(args) and strip(args[i])["kind"] != "CXXDefaultArgExpr":
                a = args[i]
            else:
                a = self.u.default_arg(tu, node, {"name": p.get("name"), "index": i})
                if a is None:
                    raise Unsupported("default argument of " + key)
            pt = self.u.ty(p["type"])
            qt = p["type"]["qualType"]
            if not is_const_ref_or_value(qt):
                newvars[p["id"]] = self.freeze(self.lv(a))
            elif pt[0] == "ptr" and self.u.rty(pt).startswith("Option<"):
                s = strip_all(a)
                if s["kind"] == "UnaryOperator" and s["opcode"] == "&":
                    newvars[p["id"]] = LV("addr", self.freeze(self.lv(kids(s)[0])), pt)
                else:
                    t, at = self.e(a)
                    newvars[p["id"]] = LV("temp", self.bind(self.conv(t, at, pt), pt), pt)
            else:
                t, at = self.e(a)
                nm = self.uniq(p.get("name") or "p")
                if pt[0] == "fun":
                    newvars[p["id"]] = LV("temp", self.conv(t, at, pt), pt)
                else:
                    self.raw("let ghost mut %s: %s = %s;" % (nm, self.u.rty(pt), self.conv(t, at, pt)))
                    newvars[p["id"]] = LV("var", nm, pt)
        self.vars = dict(saved)
        self.vars.update(newvars)
        if obj is not None:
            self.vars["this"] = obj
        self.tu = tu
        self.inl.append(key)
        rt = self.u.ty_s(ret_type(node["type"]["qualType"])) if not is_auto_ret(node) else None
        sts = kids(body[0])
        try:
            if len(sts) == 1 and sts[0]["kind"] == "ReturnStmt" and kids(sts[0]):
                t, ty = self.e(kids(sts[0])[0])
                if rt is None or (rt == ("ptr", TCHAR) and ty == TCSTR):
                    rt = ty
                else:
                    t = self.conv(t, ty, rt)
                return t, rt
            if rt is None:
                raise Unsupported("auto return in inlined " + key)
            rv = None
            if rt != TVOID:
                rv = self.uniq("ret_" + key.split("/")[0].split("_")[-1])
                self.raw("let ghost mut %s: %s = arbitrary();" % (rv, self.u.rty(rt)))
            sl, self.loopctx = self.loopctx, []
            self.inlret = getattr(self, "inlret", []) + [(rv, rt)]
            self.dtors.append([])
            self.inl_nested = any(has_return(x) for x in sts if x["kind"] != "ReturnStmt")
            self.iblock(sts)
            self.destroy(self.dtors.pop())
            self.inlret = self.inlret[:-1]
            self.loopctx = sl
            return (rv or "()"), rt
        finally:
            self.inl.pop()
            self.vars, self.tu, self.iter_owner = saved, stu, sown

    def freeze(self, l):
        """make index/key expressions of an lvalue constants so that it can be aliased"""
        return l

    def iblock(self, sts):
        """statements of an inlined function: returns become structured control flow"""
        for i, s in enumerate(sts):
            if s["kind"] == "ReturnStmt":
                rv, rt = self.inlret[-1]
                if kids(s):
                    t, ty = self.e(kids(s)[0])
                    if rv:
                        self.raw("proof { %s = %s; }" % (rv, self.conv(t, ty, rt)))
                return
            if has_return(s):
                if s["kind"] == "CompoundStmt":
                    self.iblock(kids(s) + sts[i + 1:])
                    return
                if s["kind"] == "IfStmt":
                    ks = kids(s)
                    if s.get("hasVar") or s.get("hasInit"):
                        raise Unsupported("if with declaration in inlined function")
                    rest = sts[i + 1:]
                    c = self.bind(self.cond(ks[0]), TBOOL, "c")
                    b = self.fresh("b")
                    self.raw("let %s = br(Ghost(%s));" % (b, c))
                    self.items.append(Item("open", "if %s {" % b))
                    self.iblock(stmts_of(ks[1]) + rest)
                    self.items.append(Item("else", "} else {"))
                    self.iblock((stmts_of(ks[2]) if len(ks) > 2 else []) + rest)
                    self.items.append(Item("close", "}"))
                    return
                if s["kind"] == "SwitchStmt":
                    rest = sts[i + 1:]
                    self.switch(s, lambda body: self.iblock(body + rest), inl=True)
                    return
                raise Unsupported("return inside a loop of an inlined function (%s)" % self.tu.line(s))
            self.stmt(s)
        return

    # ---- operators on class types --------------------------------------------------
    def e_CXXOperatorCallExpr(self, n):
        op = self.opname(n)
        c = strip_all(kids(n)[0])
        args = kids(n)[1:]
        d = self.u.def_of(self.tu, c.get("referencedDecl", {}).get("id")) if c["kind"] == "DeclRefExpr" else None
        if op == "operator()":
            d = None
        if d is not None and not d[1].get("explicitlyDefaulted") and not d[1].get("isImplicit") and \
                any(x["kind"] == "CompoundStmt" for x in kids(d[1])):
            tu, node = d
            if node["kind"] == "CXXMethodDecl":
                o = self.lv(args[0])
                key = self.u.fkey(tu, node)
                if key in self.u.spec.fns:
                    return self.contract_call(key, d, args[1:], None, n, obj=o)
                return self.inline_call(d, args[1:], None, n, obj=o)
            return self.user_call(d, None, args, n)
        if op in ("operator*", "operator->", "operator[]") and len(args) <= 2 and not (op == "operator*" and len(args) == 2):
            l = self.lv(n)
            if l.k == "mapent":
                raise Unsupported("map entry value")
            return self.read(l), l.t
        if op in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
            a, ta = self.e(args[0])
            b, tb = self.e(args[1])
            return self.compare(op[8:], a, ta, b, tb, n), TBOOL
        if op == "operator=":
            t, ty = self.e(args[1])
            l = self.lv(args[0])
            self.note_iter(args[0], args[1])
            t = self.bind(self.conv(t, ty, l.t), l.t)
            self.write(l, t)
            return t, l.t
        if op in ("operator++", "operator--"):
            l = self.lv(args[0])
            if len(args) == 2:
                o = self.bind_force(self.read(l), l.t)
                self.incdec(l, n)
                return o, l.t
            self.incdec(l, n)
            return self.read(l), l.t
        if op == "operator+=":
            t, ty = self.e(args[1])
            l = self.lv(args[0])
            if l.t[0] == "str":
                self.write(l, "%s + %s" % (self.read(l), self.as_seq(t, ty)))
                return self.read(l), l.t
            if l.t[0] == "iter":
                self.write(l, "it_add(%s, %s)" % (self.read(l), t))
                return self.read(l), l.t
        if op == "operator<<":
            l = self.shift_lv(n)
            if l is not None:
                return self.read(l), l.t
        if op in ("operator+", "operator-"):
            a, ta = self.e(args[0])
            b, tb = self.e(args[1])
            if ta[0] in ("str", "cstr") or tb[0] in ("str", "cstr"):
                return "(%s + %s)" % (self.as_seq(a, ta), self.as_seq(b, tb)), TSTR
            if ta[0] == "riter" and tb[0] == "int":
                return "it_add(%s, %s(%s))" % (a, "-" if op == "operator+" else "", b), ta
            return self.ptr_arith(op[8:], a, ta, b, tb, n)
        if op == "operator()":
            c = strip_all(args[0])
            cn = "reenter_" + c["referencedDecl"].get("name", "") if c["kind"] == "DeclRefExpr" else ""
            if (cn, len(args) - 1) in self.u.spec.externs:
                # a callback that calls the object back: it acts through the object's contracts
                st = list(self.sig["heaps"]) + ["this"]
                r = self.fresh("r")
                self.items.append(Item("call", "let %s = ext_%s(%s);" % (r, cn, ", ".join("Ghost(%s)" % x for x in st)),
                                       "%s: precondition of the callback %s" % (self.tu.line(n), cn[8:])))
                for i, x in enumerate(st):
                    self.record(x, None)
                    self.raw("proof { %s = %s@.%d; }" % (x, r, i))
                self.u.assumptions.add("the callback %s changes the object only through the object's contracts (specs: ext_%s)" % (cn[8:], cn))
                return "()", TVOID
            v = self.vars.get(c["referencedDecl"]["id"]) if c["kind"] == "DeclRefExpr" else None
            if v is not None and v.t[0] == "block":
                return self.inline_call((self.tu, v.t[1]), args[1:], None, n)
            f, ft = self.e(args[0])
            if ft[0] == "opt" and ft[1][0] == "fun":
                f = self.bind(f, ft, "f")
                self.ob("%s.is_some()" % f, "the function called is not empty", n)
                f, ft = "(%s->0)" % f, ft[1]
            if ft[0] == "fun" and ft[1] == TVOID:
                nm = "call_" + "_".join(short(a[1][1]) if a[0] in ("sptr", "ptr") else a[0] for a in ft[2])
                if (nm, len(args) - 1) in self.u.spec.externs:
                    x = self.extern(nm, args[1:], n)
                    self.u.assumptions.add("a callback does not touch the state under contract; it is a record of what it was given (%s)" % nm)
                    return x
                self.u.assumptions.add("a callback that returns nothing does not touch the state under contract")
                return "()", TVOID
            if ft[0] == "fun":
                ts = []
                for a, pt in zip(args[1:], ft[2]):
                    t, at = self.e(a)
                    ts.append(self.conv(t, at, pt))
                return "%s(%s)" % (f, ", ".join(ts)), ft[1]
        raise Unsupported("operator %s at %s" % (op, self.tu.line(n)))

    def as_seq(self, t, ty):
        if ty == ("cstr", "z"):
            return "zcut(%s)" % t
        if ty[0] in ("str", "cstr"):
            return t
        if ty[0] == "char":
            return "seq![%s]" % ("%su8" % t if lit(t) is not None else "(%s) as u8" % t)
        raise Unsupported("append of %r" % (ty,))

    def note_iter(self, a, b):
        s = strip_all(a)
        if s["kind"] == "DeclRefExpr":
            o = self.owner_of(b)
            if o is not None:
                self.iter_owner[s["referencedDecl"]["id"]] = o

    def owner_of(self, n):
        """container an iterator-valued expression points into, if syntactically evident"""
        s = strip_all(n)
        if s["kind"] in ("CXXConstructExpr", "InitListExpr") and len(kids(s)) >= 1:
            return self.owner_of(kids(s)[0])
        if s["kind"] == "ImplicitCastExpr":
            return self.owner_of(kids(s)[0])
        if s["kind"] == "CXXMemberCallExpr":
            me = strip(kids(s)[0])
            if me["kind"] == "MemberExpr" and me["name"] in ("begin", "end", "cbegin", "cend", "find", "rbegin", "rend",
                                                             "insert", "erase", "lower_bound"):
                try:
                    l, items = self.capture(lambda: self.obj_lv(me))
                except Unsupported:
                    return None
                return l if l.k != "temp" else None
        if s["kind"] == "DeclRefExpr":
            return self.iter_owner.get(s["referencedDecl"]["id"])
        if s["kind"] == "CallExpr" and self.callee_name(s) in ("next", "prev", "move", "find_if", "find"):
            return self.owner_of(kids(s)[1])
        if s["kind"] == "CXXOperatorCallExpr" and self.opname(s) in ("operator+", "operator-"):
            return self.owner_of(kids(s)[1])
        return None

    # ---- library models: free functions -----------------------------------------------
    def std_move(self, n, args):
        return self.e(args[0])

    def std_make_shared(self, n, args):
        ty = self.u.ty(n["type"])
        t, at = self.construct(ty[1], list(args), {"kind": "CXXConstructExpr", "inner": list(args), "range": n.get("range", {}),
                                                   "type": n["type"], "ctorType": {"qualType": "void ()"},
                                                   "_argtys": [a["type"] for a in args]})
        if self.u.is_heap(ty[1]):
            return t, ty
        return "Some(%s)" % t, ty

    std_make_unique = std_make_shared

    def std_exchange(self, n, args):
        l = self.lv(args[0])
        old = self.bind(self.read(l), l.t, "x")
        t, ty = self.e(args[1])
        self.write(l, self.conv(t, ty, l.t))
        return old, l.t

    std_forward = std_move
    std_as_const = std_move
    std___builtin_expect = std_move

    def std_min(self, n, args):
        a, ta = self.e(args[0])
        b, tb = self.e(args[1])
        a, b = self.bind(a, ta), self.bind(b, tb)
        if ta[0] == "dbl":
            return "(if dlt(%s, %s) { %s } else { %s })" % (b, a, b, a), ta
        return "(if %s < %s { %s } else { %s })" % (b, a, b, a), ta

    def std_max(self, n, args):
        a, ta = self.e(args[0])
        b, tb = self.e(args[1])
        a, b = self.bind(a, ta), self.bind(b, tb)
        if ta[0] == "dbl":
            return "(if dlt(%s, %s) { %s } else { %s })" % (a, b, b, a), ta
        return "(if %s < %s { %s } else { %s })" % (a, b, b, a), ta

    def std_next(self, n, args):
        a, ta = self.e(args[0])
        k = "1"
        if len(args) > 1 and args[1]["kind"] != "CXXDefaultArgExpr":
            k = self.e(args[1])[0]
        return "it_add(%s, %s)" % (a, k), ta

    def std_advance(self, n, args):
        l = self.lv(args[0])
        k = self.conv(*self.e(args[1]), T_int(64, True))
        self.write(l, "it_add(%s, %s)" % (self.read(l), k))
        return "()", TVOID

    def std_prev(self, n, args):
        a, ta = self.e(args[0])
        k = "1"
        if len(args) > 1 and args[1]["kind"] != "CXXDefaultArgExpr":
            k = self.e(args[1])[0]
        return "it_add(%s, -(%s))" % (a, k), ta

    def std_ceil(self, n, args):
        return "dceil(%s)" % self.conv(*self.e(args[0]), TDBL), TDBL

    def std_floor(self, n, args):
        return "dfloor(%s)" % self.conv(*self.e(args[0]), TDBL), TDBL

    def whole_range(self, args, n):
        """the container whose whole range two iterator expressions give"""
        o1, o2 = self.owner_of(args[0]), self.owner_of(args[1])
        if o1 is None or o2 is None or (o1.k, o1.a) != (o2.k, o2.a):
            raise Unsupported("range of an unknown container at %s" % self.tu.line(n))

        def nm(a):
            a = strip_all(a)
            while a["kind"] in ("CXXConstructExpr", "ImplicitCastExpr") and kids(a):
                a = strip_all(kids(a)[0])
            return strip(kids(a)[0]).get("name") if a["kind"] == "CXXMemberCallExpr" else None
        if nm(args[0]) not in ("begin", "cbegin") or nm(args[1]) not in ("end", "cend"):
            raise Unsupported("partial range at %s" % self.tu.line(n))
        return o1

    def std_stable_sort(self, n, args):
        o = self.whole_range(args, n)
        if len(args) != 3:
            raise Unsupported("stable_sort form at %s" % self.tu.line(n))
        self.lam_obs = []
        f, tf = self.lambda_of(args[2], "stable_sort")
        for largs, pre, it in self.lam_obs:
            ix = ["i%d_" % k for k in range(len(largs))]
            s_ = self.read(o)
            self.items.append(Item("assert", "forall|%s| %s ==> ({ %s %s %s })" % (
                ", ".join(x + ": int" for x in ix), " && ".join("0 <= %s < %s.len()" % (x, s_) for x in ix),
                " ".join("let %s = #[trigger] %s[%s];" % (a, s_, x) for (a, _), x in zip(largs, ix)), pre, it.s), it.label))
        self.lam_obs = None
        self.u.assumptions.add("std::stable_sort sorts stably by a strict weak order")
        self.raw("let ghost srt%d: %s = %s;" % (self.srtn, self.u.rty(o.t), self.read(o)))
        self.srtn += 1
        self.write(o, "ssort(%s, %s)" % (self.read(o), f))
        return "()", TVOID

    def std_swap(self, n, args):
        a, b = self.lv(args[0]), self.lv(args[1])
        x = self.bind_force(self.read(a), a.t)
        self.write(a, self.read(b))
        self.write(b, x)
        return "()", TVOID

    def std_replace(self, n, args):
        o = self.whole_range(args, n)
        if o.t[0] != "str":
            raise Unsupported("std::replace at %s" % self.tu.line(n))
        a = self.bind(self.conv(*self.e(args[2]), TCHAR), TCHAR, "x")
        b = self.bind(self.conv(*self.e(args[3]), TCHAR), TCHAR, "x")
        s = self.bind(self.read(o), o.t, "s")
        self.write(o, "Seq::new(%s.len(), |k_: int| if %s[k_] as int == %s { %s as u8 } else { %s[k_] })" % (s, s, a, b, s))
        return "()", TVOID

    def std_any_of(self, n, args):
        o = self.whole_range(args, n)
        self.lam_obs = None
        f, tf = self.lambda_of(args[2], "any_of")
        s = self.bind(self.read(o), o.t, "s")
        return "(exists|k_: int| 0 <= k_ < %s.len() && (%s)(#[trigger] %s[k_]))" % (s, f, s), TBOOL

    def std_lowest(self, n, args):
        if self.u.ty(n["type"])[0] != "dbl":
            raise Unsupported("numeric limit at %s" % self.tu.line(n))
        return "dlowest()", TDBL

    def std_infinity(self, n, args):
        if self.u.ty(n["type"])[0] != "dbl":
            raise Unsupported("numeric limit at %s" % self.tu.line(n))
        return "dinf()", TDBL

    def std_reverse(self, n, args):
        o1, o2 = self.owner_of(args[0]), self.owner_of(args[1])
        if o1 is None or o2 is None or (o1.k, o1.a) != (o2.k, o2.a):
            raise Unsupported("reverse of an unknown range at %s" % self.tu.line(n))

        def whole(a, nm):
            a = strip_all(a)
            while a["kind"] in ("CXXConstructExpr", "ImplicitCastExpr") and kids(a):
                a = strip_all(kids(a)[0])
            return a["kind"] == "CXXMemberCallExpr" and strip(kids(a)[0]).get("name") == nm
        if whole(args[0], "begin") and whole(args[1], "end"):
            self.write(o1, "%s.reverse()" % self.read(o1))
            return "()", TVOID
        a, ta = self.e(args[0])
        b, tb = self.e(args[1])
        a, b = self.bind(a, ta, "p"), self.bind(b, tb, "p")
        s = self.read(o1)
        self.ob("it_span(%s, %s) && it_pos(%s, %s)" % (a, b, a, s), "iterator range is valid", n)
        self.write(o1, "%s.subrange(0, %s.off) + %s.subrange(%s.off, %s.off).reverse() + %s.subrange(%s.off, %s.len() as int)" % (s, a, s, a, b, s, b, s))
        return "()", TVOID

    def lambda_of(self, n, what):
        s = strip_all(n)
        while s["kind"] in ("CXXConstructExpr", "ImplicitCastExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr") and kids(s):
            s = strip_all(kids(s)[0])
        if s["kind"] == "DeclRefExpr" and s.get("referencedDecl", {}).get("kind") == "FunctionDecl":
            ex = self.u.spec.externs.get((s["referencedDecl"]["name"], 1))
            if ex is not None and ex[3] is not None:
                at, rt = self.u.ty_s(ex[1][0]), self.u.ty_s(ex[2])
                r = self.conv(ex[3].replace("$0", self.conv("(c_ as int)", TCHAR, at)), rt, TCHAR)
                return "|c_: u8| ((%s) as u8)" % r, ("fun", TCHAR, (TCHAR,))
        t, ty = self.e(s)
        if ty[0] != "fun" or len(ty) < 3:
            raise Unsupported("%s with an unknown function at %s" % (what, self.tu.line(n)))
        return t, ty

    def iter_range(self, x, y, n):
        a, ta = self.e(x)
        b, tb = self.e(y)
        if ta[0] not in ("iter", "ptr"):
            raise Unsupported("range of %s at %s" % (ta[0], self.tu.line(n)))
        a, b = self.bind(a, ta, "p"), self.bind(b, tb, "p")
        self.ob("it_span(%s, %s)" % (a, b), "iterator range is valid", n)
        return a, b, ta

    def std_transform(self, n, args):
        if len(args) != 4:
            raise Unsupported("transform form at %s" % self.tu.line(n))
        a, b, ta = self.iter_range(args[0], args[1], n)
        f, tf = self.lambda_of(args[3], "transform")
        f = self.bind(f, tf, "f") if False else f
        out = self.bind("%s.buf.subrange(%s.off, %s.off).map_values(%s)" % (a, a, b, f), TSTR if tf[1] == TCHAR else ("vec", tf[1]), "m")
        d = strip_all(args[2])
        while d["kind"] in ("CXXConstructExpr", "ImplicitCastExpr") and kids(d):
            d = strip_all(kids(d)[0])
        nm = self.callee_name(d) if d["kind"] == "CallExpr" else None
        if nm == "back_inserter":
            o = self.lv(kids(d)[1])
            self.write(o, "%s + %s" % (self.read(o), out))
        elif nm == "inserter":
            o = self.lv(kids(d)[1])
            if o.t[0] != "set":
                raise Unsupported("inserter of %s at %s" % (o.t[0], self.tu.line(n)))
            self.write(o, "%s.union(%s.to_set())" % (self.read(o), out))
        elif d["kind"] == "CXXMemberCallExpr" and strip(kids(d)[0]).get("name") == "begin" and self.owner_of(args[0]) is not None:
            o, o2 = self.whole_range(args[:2], n), self.owner_of(d)
            if o2 is None or (o.k, o.a) != (o2.k, o2.a):
                raise Unsupported("transform between containers at %s" % self.tu.line(n))
            self.write(o, out)
        else:
            raise Unsupported("transform into %s at %s" % (nm or d["kind"], self.tu.line(n)))
        return "()", TVOID

    def std_memcmp(self, n, args):
        a, ta = self.e(args[0])
        b, tb = self.e(args[1])
        c, tc = self.e(args[2])
        if ta[0] == "cstr":
            a = self.conv(a, ta, ("ptr", TCHAR))
        if tb[0] == "cstr":
            b = self.conv(b, tb, ("ptr", TCHAR))
        a, b, c = self.bind(a, ("ptr", TCHAR), "p"), self.bind(b, ("ptr", TCHAR), "p"), self.bind(c, TU64, "n")
        self.ob("it_range(%s, %s)" % (a, c), "memcmp reads inside its first buffer", n)
        self.ob("it_range(%s, %s)" % (b, c), "memcmp reads inside its second buffer", n)
        r, v = self.fresh("r"), self.fresh("v")
        self.raw("let %s = ext_memcmp(Ghost(%s), Ghost(%s), Ghost(%s)); let ghost %s = %s@;" % (r, a, b, c, v, r))
        return v, TI32

    # ---- library models: strings and vectors ---------------------------------------------
    def len_of(self, o):
        s = self.read(o)
        self.phys(s)
        return "(%s.len() as int)" % s

    def m_vec_size(self, o, args, n):
        return self.len_of(o), TU64

    m_vec_length = m_str_size = m_str_length = m_vec_size

    def m_vec_empty(self, o, args, n):
        return "(%s.len() == 0)" % self.read(o), TBOOL

    m_str_empty = m_vec_empty

    def m_vec_clear(self, o, args, n):
        self.write(o, self.default(o.t))
        return "()", TVOID

    m_str_clear = m_vec_clear

    def m_vec_reserve(self, o, args, n):
        for a in args:
            self.e(a)
        return "()", TVOID

    m_str_reserve = m_vec_reserve

    def m_vec_begin(self, o, args, n):
        return "it_begin(%s)" % self.read(o), ("iter", o.t)

    m_vec_cbegin = m_str_begin = m_str_cbegin = m_vec_begin

    def m_vec_end(self, o, args, n):
        self.phys(self.read(o))
        return "it_end(%s)" % self.read(o), ("iter", o.t)

    m_vec_cend = m_str_end = m_str_cend = m_vec_end

    def m_vec_rbegin(self, o, args, n):
        self.phys(self.read(o))
        return "it_end(%s)" % self.read(o), ("riter", ("iter", o.t))

    m_vec_crbegin = m_str_rbegin = m_vec_rbegin

    def m_vec_rend(self, o, args, n):
        return "it_begin(%s)" % self.read(o), ("riter", ("iter", o.t))

    m_vec_crend = m_str_rend = m_vec_rend

    def m_vec_push_back(self, o, args, n):
        if self.holds_heap(o.t[1]):
            raise Unsupported("copy of an object of a class with identity at %s" % self.tu.line(n))
        t, ty = self.e(args[0])
        t = self.conv(t, ty, o.t[1])
        self.write(o, "%s.push(%s)" % (self.read(o), t))
        return "()", TVOID

    def m_vec_emplace_back(self, o, args, n):
        if self.holds_heap(o.t[1]) and not self.u.is_heap(o.t[1]):
            raise Unsupported("copy of an object of a class with identity at %s" % self.tu.line(n))
        t = self.construct_emplace(o.t[1], args, n) [0] if self.u.is_heap(o.t[1]) else self.emplace(o.t[1], args, n)
        self.grow(o, n)
        self.growing, was = self.u.is_heap(o.t[1]), self.growing
        self.write(o, "%s.push(%s)" % (self.read(o), t))
        self.growing = was
        return "()", TVOID

    m_vec_push = m_vec_push_back
    m_vec_emplace = m_vec_emplace_back

    def emplace(self, et, args, n):
        if len(args) == 1:
            t, ty = self.e(args[0])
            if ty == et or et[0] != "cls" or ty[0] == "cls" and self.u.rty(ty) == self.u.rty(et):
                if self.u.rty(ty) == self.u.rty(et) or (ty[0], et[0]) in (("cstr", "str"), ("null", "ptr")):
                    return self.conv(t, ty, et)
        if et[0] in ("str", "pair", "vec"):
            t, ty = self.construct(et, args, n)
            return t
        if et[0] == "cls":
            fake = {"kind": "CXXConstructExpr", "inner": args, "range": n.get("range", {}),
                    "ctorType": {"qualType": ""}, "_emplace": True}
            t, ty = self.construct_emplace(et, args, fake)
            return t
        if len(args) == 1:
            t, ty = self.e(args[0])
            return self.conv(t, ty, et)
        raise Unsupported("emplace of %r at %s" % (et, self.tu.line(n)))

    def construct_emplace(self, et, args, n):
        c = None
        for tu in self.u.tus:
            for q, defs in tu.decls.items():
                if q == et[1] + "::" + et[1].split("::")[-1]:
                    for d in defs:
                        if d["kind"] != "CXXConstructorDecl" or d.get("isImplicit"):
                            continue
                        ps = [p for p in kids(d) if p["kind"] == "ParmVarDecl"]
                        if len(ps) == len(args) and any(x["kind"] == "CompoundStmt" for x in kids(d)):
                            c = (tu, d)
        if c is None:
            raise Unsupported("constructor for emplace of %s" % et[1])
        key = short(et[1]) + "_ctor"
        if key in self.u.spec.fns:
            return self.contract_call(key, c, args, None, n, ctor_ty=et)
        return self.inline_ctor(c, et, args, n)

    def m_vec_pop_back(self, o, args, n):
        s = self.read(o)
        self.ob("%s.len() > 0" % s, "pop on non-empty container", n)
        self.write(o, "%s.drop_last()" % s)
        return "()", TVOID

    m_vec_pop = m_str_pop_back = m_vec_pop_back

    def m_vec_back(self, o, args, n):
        l = self.lv(n)
        return self.read(l), l.t

    m_vec_front = m_vec_top = m_vec_at = m_str_back = m_str_front = m_str_at = m_vec_back
    m_list_front = m_list_back = m_opt_value = m_vec_back

    def m_vec_insert(self, o, args, n):
        p, tp = self.e(args[0])
        p = self.bind(p, tp, "p")
        s = self.read(o)
        self.ob("it_pos(%s, %s)" % (p, s), "insert position is a valid iterator", n)
        if len(args) == 2:
            t, ty = self.e(args[1])
            t = self.conv(t, ty, o.t[1])
            self.write(o, "%s.insert(%s.off, %s)" % (s, p, t))
            return "It { buf: %s, off: %s.off, nil: false }" % (self.read(o), p), ("iter", o.t)
        a, ta = self.e(args[1])
        b, tb = self.e(args[2])
        a, b = self.bind(a, ta, "p"), self.bind(b, tb, "p")
        self.ob("it_span(%s, %s)" % (a, b), "inserted range is valid", n)
        self.write(o, "seq_insert_all(%s, %s.off, %s.buf.subrange(%s.off, %s.off))" % (s, p, a, a, b))
        return "It { buf: %s, off: %s.off, nil: false }" % (self.read(o), p), ("iter", o.t)

    def m_vec_erase(self, o, args, n):
        p, tp = self.e(args[0])
        p = self.bind(p, tp, "p")
        s = self.read(o)
        if len(args) == 1:
            self.ob("it_pos(%s, %s) && %s.off < %s.len()" % (p, s, p, s), "erased position is valid", n)
            self.write(o, "%s.remove(%s.off)" % (s, p))
            return "It { buf: %s, off: %s.off, nil: false }" % (self.read(o), p), ("iter", o.t)
        q, tq = self.e(args[1])
        q = self.bind(q, tq, "p")
        self.ob("it_span(%s, %s) && it_pos(%s, %s)" % (p, q, p, s), "erased range is valid", n)
        self.write(o, "(%s.subrange(0, %s.off) + %s.subrange(%s.off, %s.len() as int))" % (s, p, s, q, s))
        return "It { buf: %s, off: %s.off, nil: false }" % (self.read(o), p), ("iter", o.t)

    def m_vec_resize(self, o, args, n):
        t, ty = self.e(args[0])
        d = self.default(o.t[1])
        if len(args) > 1:
            d = self.conv(*self.e(args[1]), o.t[1])
        self.write(o, "seq_resize(%s, %s, %s)" % (self.read(o), t, d))
        return "()", TVOID

    def m_vec_fill(self, o, args, n):
        t, ty = self.e(args[0])
        s = self.read(o)
        self.write(o, "Seq::new(%s.len(), |i_: int| %s)" % (s, self.conv(t, ty, o.t[1])))
        return "()", TVOID

    def m_str_push_back(self, o, args, n):
        t, ty = self.e(args[0])
        t = self.conv(t, ty, TCHAR)
        self.write(o, "%s.push((%s) as u8)" % (self.read(o), t))
        return "()", TVOID

    def m_str_append(self, o, args, n):
        if len(args) == 1:
            t, ty = self.e(args[0])
            self.write(o, "%s + %s" % (self.read(o), self.as_seq(t, ty)))
            return self.read(o), o.t
        t, ty = self.construct(TSTR, args, n)
        self.write(o, "%s + %s" % (self.read(o), t))
        return self.read(o), o.t

    def m_str_c_str(self, o, args, n):
        return self.read(o), ("cstr", "z")   # "z": may hold a NUL byte, so a string made from it may be shorter

    def m_str_str(self, o, args, n):
        return self.read(o), TSTR

    def m_sstream_str(self, o, args, n):
        if args:
            t, ty = self.e(args[0])
            self.write(o, "ss_new(%s)" % self.as_seq(t, ty))
            return "()", TVOID
        return "%s.s" % self.read(o), TSTR

    def m_str_data(self, o, args, n):
        return "it_begin(%s)" % self.read(o), ("ptr", TCHAR)

    def m_str_substr(self, o, args, n):
        s = self.read(o)
        a, ta = ("0", TU64)
        if args:
            a, ta = self.e(args[0])
        a = self.bind(self.conv(a, ta, TU64), TU64, "n")
        self.ob("%s <= %s.len()" % (a, s), "substr position inside the string (else it throws)", n)
        self.phys(s)
        if len(args) > 1:
            b, tb = self.e(args[1])
            b = self.bind(self.conv(b, tb, TU64), TU64, "n")
            return "str_sub(%s, %s, %s)" % (s, a, b), TSTR
        return "%s.subrange(%s, %s.len() as int)" % (s, a, s), TSTR

    def m_str_find(self, o, args, n):
        s = self.read(o)
        t, ty = self.e(args[0])
        pos = "0"
        if len(args) > 1:
            pos = self.conv(*self.e(args[1]), TU64)
        self.phys(s)
        pat = self.as_seq(t, ty)
        pat = self.bind(pat, TSTR, "pat")
        return "str_find(%s, %s, %s)" % (s, pat, pos), TU64

    def m_str_rfind(self, o, args, n):
        # only from the first position on: is it a prefix?
        if len(args) != 2 or self.conv(*self.e(args[1]), TU64) != "0":
            raise Unsupported("rfind at %s" % self.tu.line(n))
        s = self.bind(self.read(o), TSTR, "s")
        t, ty = self.e(args[0])
        pat = self.bind(self.as_seq(t, ty), TSTR, "pat")
        return "(if is_at(%s, %s, 0) { 0int } else { 0xFFFFFFFFFFFFFFFF })" % (s, pat), TU64

    def _str_pos(self, o, arg, n, what):
        a = self.bind(self.conv(*self.e(arg), TU64), TU64, "n")
        s = self.bind(self.read(o), TSTR, "s")
        self.ob("%s <= %s.len()" % (a, s), "%s position inside the string (else it throws)" % what, n)
        self.phys(s)
        return s, a

    def _str_tail(self, s, a, b):
        return "(if %s + %s <= %s.len() { %s.subrange(%s + %s, %s.len() as int) } else { Seq::<u8>::empty() })" % (a, b, s, s, a, b, s)

    def m_str_replace(self, o, args, n):
        if len(args) != 3 or self.u.ty(args[0]["type"])[0] != "int":
            raise Unsupported("string replace form at %s" % self.tu.line(n))
        s, a = self._str_pos(o, args[0], n, "replace")
        b = self.bind(self.conv(*self.e(args[1]), TU64), TU64, "n")
        t = self.bind(self.as_seq(*self.e(args[2])), TSTR, "r")
        self.write(o, "%s.subrange(0, %s) + %s + %s" % (s, a, t, self._str_tail(s, a, b)))
        return self.read(o), o.t

    def m_str_insert(self, o, args, n):
        if len(args) != 2 or self.u.ty(args[0]["type"])[0] != "int":
            raise Unsupported("string insert form at %s" % self.tu.line(n))
        s, a = self._str_pos(o, args[0], n, "insert")
        t = self.bind(self.as_seq(*self.e(args[1])), TSTR, "r")
        self.write(o, "%s.subrange(0, %s) + %s + %s.subrange(%s, %s.len() as int)" % (s, a, t, s, a, s))
        return self.read(o), o.t

    def m_str_erase(self, o, args, n):
        if not args or self.u.ty(args[0]["type"])[0] != "int":
            raise Unsupported("string erase form at %s" % self.tu.line(n))
        s, a = self._str_pos(o, args[0], n, "erase")
        b = "0xFFFFFFFFFFFFFFFF"
        if len(args) > 1:
            b = self.bind(self.conv(*self.e(args[1]), TU64), TU64, "n")
        self.write(o, "%s.subrange(0, %s) + %s" % (s, a, self._str_tail(s, a, b)))
        return self.read(o), o.t

    def m_str_compare(self, o, args, n):
        if len(args) == 3:
            b, a = self._str_pos(o, args[0], n, "compare")
            c = self.bind(self.conv(*self.e(args[1]), TU64), TU64, "n")
            t = self.as_seq(*self.e(args[2]))
            return "lexcmp(str_sub(%s, %s, %s), %s)" % (b, a, c, t), TI32
        t, ty = self.e(args[0])
        if len(args) != 1:
            raise Unsupported("string compare with positions")
        t = self.as_seq(t, ty)
        return "lexcmp(%s, %s)" % (self.read(o), t), TI32

    # ---- optional / map / set ------------------------------------------------------------
    def m_sptr_get(self, o, args, n):
        return self.read(o), ("ptr", o.t[1])

    def m_opt_has_value(self, o, args, n):
        return "%s.is_some()" % self.read(o), TBOOL

    def m_opt_reset(self, o, args, n):
        self.write(o, "None")
        return "()", TVOID

    def m_map_find(self, o, args, n):
        t, ty = self.e(args[0])
        t = self.bind(self.conv(t, ty, o.t[1]), o.t[1], "k")
        m = self.read(o)
        return "(if %s.dom().contains(%s) { Some(%s) } else { None })" % (m, t, t), ("mapiter", o.t[1], o.t[2])

    def m_map_end(self, o, args, n):
        return "None", ("mapiter", o.t[1], o.t[2])

    m_map_cend = m_map_end

    def m_map_begin(self, o, args, n):
        me = strip(kids(n)[0])
        ty = kids(me)[0]["type"]
        if "unordered_map" in ty["qualType"] + str(ty.get("desugaredQualType")):
            raise Unsupported("iteration over an unordered map at %s" % self.tu.line(n))
        return "%sbegin(%s)" % (self.ordered_map(o, n), self.read(o)), ("mapiter", o.t[1], o.t[2])

    m_map_cbegin = m_map_begin

    # ---- list -----------------------------------------------------------------------------
    def m_list_begin(self, o, args, n):
        return "llist_begin(%s)" % self.read(o), ("liter", o.t[1])

    def m_list_end(self, o, args, n):
        return "-1", ("liter", o.t[1])

    m_list_cbegin = m_list_begin
    m_list_cend = m_list_end

    def m_list_size(self, o, args, n):
        return "(%s.order.len() as int)" % self.read(o), TU64

    def m_list_empty(self, o, args, n):
        return "(%s.order.len() == 0)" % self.read(o), TBOOL

    def m_list_clear(self, o, args, n):
        s = self.read(o)
        self.write(o, "LList { elems: %s.elems.remove_keys(%s.elems.dom()), order: %s.order.subrange(0, 0), next: %s.next }" % (s, s, s, s))
        return "()", TVOID

    def list_elem(self, o, args, n):
        if len(args) == 1:
            t, ty = self.e(args[0])
            return self.bind(self.conv(t, ty, o.t[1]), o.t[1], "x")
        return self.construct(o.t[1], args, n)[0]

    def m_list_push_front(self, o, args, n):
        x = self.list_elem(o, args, n)
        s = self.read(o)
        self.write(o, "llist_insert(%s, llist_begin(%s), %s)" % (s, s, x))
        return "()", TVOID

    m_list_emplace_front = m_list_push_front

    def m_list_push_back(self, o, args, n):
        x = self.list_elem(o, args, n)
        self.write(o, "llist_insert(%s, -1, %s)" % (self.read(o), x))
        return "()", TVOID

    m_list_emplace_back = m_list_push_back

    def m_list_pop_back(self, o, args, n):
        s = self.read(o)
        self.ob("%s.order.len() > 0" % s, "pop_back() on non-empty list", n)
        self.write(o, "llist_erase(%s, %s.order.last())" % (s, s))
        return "()", TVOID

    def m_list_pop_front(self, o, args, n):
        s = self.read(o)
        self.ob("%s.order.len() > 0" % s, "pop_front() on non-empty list", n)
        self.write(o, "llist_erase(%s, %s.order.first())" % (s, s))
        return "()", TVOID

    def m_list_erase(self, o, args, n):
        t, ty = self.e(args[0])
        t = self.bind(t, ty, "li")
        s = self.read(o)
        self.ob("llist_has(%s, %s)" % (s, t), "erase of a valid list iterator", n)
        r = self.bind("llist_next(%s, %s)" % (s, t), ty, "li")
        self.write(o, "llist_erase(%s, %s)" % (s, t))
        return r, ty

    def m_list_splice(self, o, args, n):
        if len(args) != 3:
            raise Unsupported("splice of a whole list")
        p, tp = self.e(args[0])
        p = self.bind(p, tp, "li")
        l2 = self.lv(args[1])
        if self.read(l2) != self.read(o):
            raise Unsupported("splice from another list at %s" % self.tu.line(n))
        e, te = self.e(args[2])
        e = self.bind(e, te, "li")
        s = self.read(o)
        self.ob("llist_has(%s, %s) && (%s == -1 || llist_has(%s, %s))" % (s, e, p, s, p), "splice of valid list iterators", n)
        self.write(o, "llist_splice(%s, %s, %s)" % (s, p, e))
        return "()", TVOID

    def m_map_clear(self, o, args, n):
        self.write(o, self.default(o.t))
        return "()", TVOID

    def m_map_empty(self, o, args, n):
        return "(%s.dom().len() == 0)" % self.read(o), TBOOL

    def m_map_size(self, o, args, n):
        return "(%s.dom().len() as int)" % self.read(o), TU64

    def m_map_count(self, o, args, n):
        t, ty = self.e(args[0])
        return "(if %s.dom().contains(%s) { 1int } else { 0int })" % (self.read(o), self.conv(t, ty, o.t[1])), TU64

    def m_map_contains(self, o, args, n):
        t, ty = self.e(args[0])
        return "%s.dom().contains(%s)" % (self.read(o), self.conv(t, ty, o.t[1])), TBOOL

    def m_map_erase(self, o, args, n):
        t, ty = self.e(args[0])
        if ty[0] == "mapiter":
            t = self.bind(t, ty, "mi")
            self.ob("%s.is_some()" % t, "erase of a map iterator that is not end()", n)
            self.write(o, "%s.remove(%s->0)" % (self.read(o), t))
            return "()", TVOID
        self.write(o, "%s.remove(%s)" % (self.read(o), self.conv(t, ty, o.t[1])))
        return "()", TVOID

    def m_map_insert(self, o, args, n):
        """insert does not overwrite"""
        t, ty = self.e(args[0])
        if ty[0] != "pair":
            raise Unsupported("map insert")
        t = self.bind(t, ty, "kv")
        m = self.read(o)
        self.write(o, "(if %s.dom().contains(%s.0) { %s } else { %s.insert(%s.0, %s.1) })" % (m, t, m, m, t, t))
        return "()", TVOID

    def m_map_emplace(self, o, args, n):
        a = self.conv(*self.e(args[0]), o.t[1])
        b = self.conv(*self.e(args[1]), o.t[2])
        a = self.bind(a, o.t[1], "k")
        m = self.read(o)
        self.write(o, "(if %s.dom().contains(%s) { %s } else { %s.insert(%s, %s) })" % (m, a, m, m, a, b))
        return "()", TVOID

    def m_set_find(self, o, args, n):
        t, ty = self.e(args[0])
        t = self.bind(self.conv(t, ty, o.t[1]), o.t[1], "k")
        return "(if %s.contains(%s) { Some(%s) } else { None })" % (self.read(o), t, t), ("setiter", o.t[1])

    def m_set_end(self, o, args, n):
        return "None", ("setiter", o.t[1])

    m_set_cend = m_set_end

    def m_set_contains(self, o, args, n):
        t, ty = self.e(args[0])
        return "%s.contains(%s)" % (self.read(o), self.conv(t, ty, o.t[1])), TBOOL

    def m_set_count(self, o, args, n):
        t, ty = self.e(args[0])
        return "(if %s.contains(%s) { 1int } else { 0int })" % (self.read(o), self.conv(t, ty, o.t[1])), TU64

    def m_set_insert(self, o, args, n):
        t, ty = self.e(args[0])
        t = self.conv(t, ty, o.t[1])
        t = self.bind(t, o.t[1], "k")
        b = self.bind_force("!%s.contains(%s)" % (self.read(o), t), TBOOL)
        self.write(o, "%s.insert(%s)" % (self.read(o), t))
        return "(Some(%s), %s)" % (t, b), ("pair", ("setiter", o.t[1]), TBOOL)

    m_set_emplace = m_set_insert

    def m_set_clear(self, o, args, n):
        self.write(o, self.default(o.t))
        return "()", TVOID

    # ---- statements ------------------------------------------------------------------
    def block(self, sts):
        self.dtors.append([])
        for i, s in enumerate(sts):
            self.stmt(s)
        fr = self.dtors.pop()
        if not always_returns(sts):
            self.destroy(fr)

    def destroy(self, frame):
        """destructors of library objects leaving scope, where a contract models them"""
        for lv in reversed(frame):
            S = short(lv.t[1])
            self.extern(S + "::~" + S, [], {"kind": "destructor"}, obj=lv)

    def stmt(self, s):
        k = s["kind"]
        self.anchor_src("before", s)
        m = getattr(self, "s_" + k, None)
        if m:
            m(s)
        elif k.endswith("Stmt"):
            raise Unsupported("statement %s at %s" % (k, self.tu.line(s)))
        else:
            self.e_discard(s)
        self.anchor_src("after", s)

    def e_discard(self, s):
        s2 = strip(s)
        if s2["kind"] == "UnaryOperator" and s2["opcode"] in ("++", "--"):
            self.incdec(self.lv(kids(s2)[0]), s2)
            return
        if s2["kind"] == "CStyleCastExpr" and s2.get("castKind") == "ToVoid":
            inner = strip(kids(s2)[0])
            if inner["kind"] in ("DeclRefExpr", "IntegerLiteral", "MemberExpr"):
                return
        self.e(s)

    def anchor_src(self, w, s):
        if not self.spec.at:
            return
        txt = re.sub(r"\s+", " ", self.tu.text(s)).strip()
        for i, (a, body) in enumerate(self.spec.at):
            if a.startswith(w + " "):
                pat = a[len(w) + 1:]
                nth = None
                m = re.match(r"^(.*) #(\d+)$", pat)
                if m:
                    pat, nth = m.group(1), int(m.group(2))
                if txt.startswith(pat):
                    self.acount = getattr(self, "acount", {})
                    c = self.acount.get(i, 0)
                    self.acount[i] = c + 1
                    if nth is None or nth == c:
                        self.anchors_used.add(i)
                        self.proof(body)

    def vac(self, where):
        if self.u.vac:
            self.u.nvac += 1
            i = self.u.nvac
            self.items.append(Item("raw", "if br(Ghost(vac_sel(%d))) {" % i))
            self.items.append(Item("assert", "false", "VAC:%d:%s %s" % (i, self.key, where)))
            self.items.append(Item("raw", "}"))

    def anchor(self, name):
        for i, (a, body) in enumerate(self.spec.at):
            if a == name:
                self.anchors_used.add(i)
                self.proof(body)

    def proof(self, body):
        if body.strip().startswith("raw "):
            self.items.append(Item("let", body.strip()[4:]))
        else:
            self.items.append(Item("proof", "proof {\n%s\n}" % body))

    def s_CompoundStmt(self, s):
        self.items.append(Item("open", "{"))
        saved = dict(self.vars)
        self.block(kids(s))
        self.vars = saved
        self.items.append(Item("close", "}"))

    def s_NullStmt(self, s):
        pass

    def s_DeclStmt(self, s):
        for d in kids(s):
            if d["kind"] != "VarDecl":
                if d["kind"] in ("UsingDecl", "TypeAliasDecl", "StaticAssertDecl", "CXXRecordDecl", "TypedefDecl",
                                 "UsingDirectiveDecl"):
                    continue
                raise Unsupported("declaration %s at %s" % (d["kind"], self.tu.line(d)))
            self.vardecl(d)

    def vardecl(self, d):
        init = [c for c in kids(d) if c["kind"] not in ("FullComment",)]
        qt = d["type"]["qualType"].strip()
        if d.get("storageClass") == "static":
            if init and strip_all(init[-1])["kind"] == "LambdaExpr" or "(lambda" in qt:
                t, ty = self.e(init[-1])
                self.vars[d["id"]] = LV("temp", t, ty)
                return
            ty = self.u.ty(d["type"])
            if ty[0] == "ptr" and ty[1][0] == "cls" and not self.u.is_heap(ty[1]) and init:
                self.u.assumptions.add("the object of a function-local static pointer is not modified after its initialisation")
                t, ti = self.e(init[-1])
                t = self.bind_force(self.conv(t, ti, ty), ty)
                self.vars[d["id"]] = LV("temp", t, ty)
                return
            t, ty = self.constvar(d)
            self.vars[d["id"]] = LV("temp", t, ty)
            return
        if init and find_kind(init[-1], "LambdaExpr") and "(lambda" in (qt + str(d["type"].get("desugaredQualType"))):
            lam = find_kind(init[-1], "LambdaExpr")
            blk = self.block_lambda(lam)
            if blk is not None:
                self.vars[d["id"]] = LV("temp", "()", ("block", blk))
                return
            t, ty = self.e(init[-1])
            self.vars[d["id"]] = LV("temp", t, ty)
            return
        isref = qt.endswith("&") or qt.endswith("&&")
        if isref and init:
            l = self.lv(init[-1])
            if l.k == "temp":
                nm = self.uniq(d["name"])
                self.raw("let ghost %s: %s = %s;" % (nm, self.u.rty(l.t), l.a))
                l = LV("var", nm, l.t)
                o = self.owner_of(init[-1])
                if o is not None:
                    self.iter_owner[d["id"]] = o
            elif is_const_ref_or_value(qt) and l.k not in ("heap",):
                # const reference: the aliased object may still change; keep as alias
                pass
            self.vars[d["id"]] = l
            return
        ty = self.u.ty(d["type"])
        if init:
            t, ti = self.e(init[-1])
            if ty[0] == "ptr" and ti[0] == "cstr":
                ty = TCSTR
            if ty[0] == "ptr" and ty[1][0] == "ptr" or ti[0] == "vec" and ty[0] == "ptr":
                ty = ti
            t = self.conv(t, ti, ty)
            o = self.owner_of(init[-1])
            if o is not None:
                self.iter_owner[d["id"]] = o
            elif ty[0] == "liter" and False:
                pass
        elif ty[0] in ("int", "char", "bool", "enum", "dbl", "ptr"):
            t = "arbitrary()"
        else:
            t, _ = self.construct(ty, [], {"kind": "CXXConstructExpr", "inner": [], "range": d.get("range", {}),
                                           "ctorType": {"qualType": "void ()"}})
        nm = self.uniq(d["name"])
        if self.holds_heap(ty) and ty[0] not in ("vec", "cls"):
            raise Unsupported("object of a class with identity inside %r at %s" % (ty, self.tu.line(d)))
        if self.u.is_heap(ty):
            if init and strip_all(init[-1])["kind"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                raise Unsupported("copy of an object of a class with identity at %s" % self.tu.line(d))
            self.names.add(nm)
            self.raw("let ghost %s: int = %s;" % (nm, t))
            self.vars[d["id"]] = LV("heap", (self.heapname(ty), nm), ty)
            return
        self.raw("let ghost mut %s: %s = %s;" % (nm, self.u.rty(ty), t))
        self.vars[d["id"]] = LV("var", nm, ty)
        if ty[0] == "cls" and ty[1] in self.u.spec.opaque and (short(ty[1]) + "::~" + short(ty[1]), 1) in self.u.spec.externs:
            if self.inl and self.inl_nested:
                raise Unsupported("destructor in an inlined function with several returns (%s)" % self.tu.line(d))
            self.dtors[-1].append(self.vars[d["id"]])
        self.vtypes[nm] = ty

    def s_IfStmt(self, s):
        ks = kids(s)
        saved = dict(self.vars)
        if s.get("hasInit") or s.get("hasVar"):
            self.items.append(Item("open", "{"))
            while ks[0]["kind"] == "DeclStmt":
                self.stmt(ks[0])
                ks = ks[1:]
        if s.get("isConstexpr"):
            raise Unsupported("if constexpr")
        c = self.bind(self.cond(ks[0]), TBOOL, "c")
        b = self.fresh("b")
        self.raw("let %s = br(Ghost(%s));" % (b, c))
        self.items.append(Item("open", "if %s {" % b))
        sv = dict(self.vars)
        self.block(stmts_of(ks[1]))
        self.vars = dict(sv)
        if len(ks) > 2:
            self.items.append(Item("else", "} else {"))
            self.block(stmts_of(ks[2]))
            self.vars = dict(sv)
        self.items.append(Item("close", "}"))
        if s.get("hasInit") or s.get("hasVar"):
            self.items.append(Item("close", "}"))
        self.vars = saved

    def s_SwitchStmt(self, s):
        self.switch(s, self.block)

    def switch(self, s, emit, inl=False):
        ks = kids(s)
        t, ty = self.e(ks[0])
        t = self.bind(t, ty, "sw")
        groups = []   # (values or None for default, stmts)

        def flat(c, vals):
            if c["kind"] == "CaseStmt":
                kk = kids(c)
                v = kk[0]
                vals.append(("case", v))
                return flat(kk[-1], vals)
            if c["kind"] == "DefaultStmt":
                vals.append(("default", None))
                return flat(kids(c)[0], vals)
            return c
        body = stmts_of(ks[1])
        for c in body:
            if c["kind"] in ("CaseStmt", "DefaultStmt"):
                vals = []
                st = flat(c, vals)
                groups.append([vals, [st]])
            else:
                groups[-1][1].append(c)
        # fallthrough expansion
        exp = []
        for i, (vals, sts) in enumerate(groups):
            all_ = []
            for j in range(i, len(groups)):
                done = False
                for x in groups[j][1]:
                    for y in (kids(x) if x["kind"] == "CompoundStmt" else [x]):
                        if y["kind"] == "BreakStmt":
                            done = True
                            break
                        all_.append(y)
                        if y["kind"] in ("ReturnStmt", "ContinueStmt", "GotoStmt"):
                            done = True
                            break
                    if done:
                        break
                if done:
                    break
            exp.append((vals, all_))
        allv = []
        for vals, _ in exp:
            allv += [v for k, v in vals if k == "case"]

        def vtext(v):
            x, tx = self.e(v)
            return x
        depth = 0
        default = None
        for vals, sts in exp:
            if any(k == "default" for k, _ in vals):
                default = sts
                # default may share with explicit labels; those labels are covered by "otherwise"
                continue
            c = " || ".join("%s == %s" % (t, vtext(v)) for k, v in vals)
            c = self.bind("(%s)" % c, TBOOL, "c")
            b = self.fresh("b")
            self.raw("let %s = br(Ghost(%s));" % (b, c))
            self.items.append(Item("open", "if %s {" % b))
            sv = dict(self.vars)
            emit(sts)
            self.vars = sv
            self.items.append(Item("else", "} else {"))
            depth += 1
        emit(default or [])
        for _ in range(depth):
            self.items.append(Item("close", "}"))

    def s_ReturnStmt(self, s):
        if self.inl:
            raise Unsupported("return in unexpected place of an inlined function (%s)" % self.tu.line(s))
        t = "()"
        sig = self.sig
        if kids(s):
            t, ty = self.e(kids(s)[0])
            if sig["ret"] != TVOID:
                t = self.conv(t, ty, sig["ret"])
        elif sig["ret"] != TVOID and "this" in self.vars:
            t = self.vars["this"].a      # return from a constructor
        self.emit_return(t, s)

    def emit_return(self, t, s):
        sig = self.sig
        if sig["ret"] != TVOID:
            self.items.append(Item("let", "let ghost ret: %s = %s;" % (self.u.rty(sig["ret"]), t)))
        for fr in reversed(self.dtors):
            self.destroy(fr)
        self.anchor("return")
        if s is not None and s is getattr(self, "last_stmt", None):
            self.anchor("return.end")
        outs = [("ret" if o == "ret" else self.outvar(o)) for o, _ in sig["outs"]]
        v = "()" if not outs else outs[0] if len(outs) == 1 else "(%s)" % ", ".join(outs)
        self.items.append(Item("ret", "return Ghost(%s);" % v, "%s: return" % (self.tu.line(s) if s else "end")))

    def outvar(self, o):
        if o == "this":
            return self.vars["this"].a
        if o.startswith("heap_"):
            return o
        return vid(o)

    def s_GotoStmt(self, s):
        lab = s.get("targetLabelDeclId")
        if lab not in self.labels or self.inl:
            raise Unsupported("goto at %s" % self.tu.line(s))
        sts = self.labels[lab]
        self.block(sts)
        if not always_returns(sts):
            if self.sig["ret"] == TVOID:
                self.emit_return("()", s)
            else:
                raise Unsupported("goto target does not return")

    def s_LabelStmt(self, s):
        self.block(kids(s))

    # ---- loops
    def s_BreakStmt(self, s):
        if not self.loopctx or any(self.dtors):
            raise Unsupported("break")
        L = self.loopctx[-1]
        L["breaks"] = True
        self.raw("proof { brk%d = true; }" % L["id"])
        self.anchor("loop%d.break" % L["id"])
        self.items.append(Item("raw", "break;"))

    def s_ContinueStmt(self, s):
        if any(self.dtors):
            raise Unsupported("continue past a destructor")
        L = self.loopctx[-1]
        if L["inc"]:
            L["inc"]()
        self.anchor("loop%d.end" % L["id"])
        self.items.append(Item("raw", "continue;"))

    def s_WhileStmt(self, s):
        ks = kids(s)
        if s.get("hasVar"):
            raise Unsupported("while with declaration")
        self.loop(ks[0], stmts_of(ks[-1]), None, s)

    def s_DoStmt(self, s):
        ks = kids(s)
        self.loop(None, stmts_of(ks[0]), None, s, post=ks[1])

    def s_ForStmt(self, s):
        inner = s.get("inner", [])
        init, var, cnd, inc, body = [(x if isinstance(x, dict) and x.get("kind") else None) for x in inner]
        if init and init["kind"] == "DeclStmt" and kids(init) and kids(init)[0].get("name") == "fcitxLogEnabled":
            self.u.dropped.add("logging statements (FCITX_MCBOPOMOFO_INFO/WARN/ERROR)")
            return
        self.items.append(Item("open", "{"))
        saved = dict(self.vars)
        if init:
            self.stmt(init)
        self.loop(cnd, stmts_of(body), (lambda: self.e_discard(inc)) if inc else None, s)
        self.vars = saved
        self.items.append(Item("close", "}"))

    def s_CXXForRangeStmt(self, s):
        inner = s.get("inner", [])
        # [init, range decl, begin, end, cond, inc, loopvar, body]
        rng = inner[1]
        lvd = inner[6]
        body = inner[7]
        rinit = [c for c in kids(kids(rng)[0]) if c["kind"] != "FullComment"][-1]
        self.items.append(Item("open", "{"))
        saved = dict(self.vars)
        l = self.lv(rinit)
        d = kids(lvd)[0]
        qt = d["type"]["qualType"].strip()
        mutable = qt.endswith("&") and not is_const_ref_or_value(qt) and l.k != "temp"
        k = self.rngn
        self.rngn += 1
        if l.t[0] == "map" or l.t[0] == "set":
            raise Unsupported("iteration over map/set at %s" % self.tu.line(s))
        self.raw("let ghost rng%d: %s = %s;" % (k, self.u.rty(l.t), self.read(l)))
        self.phys("rng%d" % k)
        self.raw("let ghost mut idx%d: int = 0;" % k)
        et = TCHAR if l.t[0] in ("str", "cstr") else l.t[1]
        src = l if mutable else LV("var", "rng%d" % k, l.t)

        def pre():
            if self.u.is_heap(et):
                if not qt.endswith("&"):
                    raise Unsupported("copy of an object of a class with identity at %s" % self.tu.line(s))
                self.curnode = s
                hl = self.heap_elem(LV("temp", "rng%d" % k, l.t), "idx%d" % k, et)
                nm = self.uniq(d["name"])
                self.raw("let ghost %s: int = %s;" % (nm, hl.a[1]))
                self.vars[d["id"]] = LV("heap", (hl.a[0], nm), et)
            elif qt.endswith("&") and not mutable and d["kind"] != "DecompositionDecl":
                nm = self.uniq(d["name"])
                self.raw("let ghost mut %s: %s = %s;" % (nm, self.u.rty(et), self.read(LV("index", (src, "idx%d" % k), et))))
                self.vars[d["id"]] = LV("var", nm, et)
            elif qt.endswith("&"):
                self.vars[d["id"]] = LV("index", (src, "idx%d" % k), et)
                if d["kind"] == "DecompositionDecl":
                    raise Unsupported("structured binding")
            else:
                nm = self.uniq(d["name"])
                vt = self.u.ty(d["type"])
                self.raw("let ghost mut %s: %s = %s;" % (nm, self.u.rty(vt), self.conv(
                    self.read(LV("index", (src, "idx%d" % k), et)), et, vt)))
                self.vars[d["id"]] = LV("var", nm, vt)

        def inc():
            self.record("idx%d" % k, None)
            self.raw("proof { idx%d = idx%d + 1; }" % (k, k))
        auto = ["0 <= idx%d <= rng%d.len()" % (k, k)]
        def kept(writes):
            root = l.a if l.k == "var" else (l.a[0].a if l.k == "field" and l.a[0].k == "var" else None)
            fld = l.a[2] if l.k == "field" else None
            same = root is not None and not any(r == root and (f is None or fld is None or f == fld) for r, f in writes)
            return "%s == rng%d" % (self.read(l), k) if same or not mutable or self.u.is_heap(et) else "%s.len() == rng%d.len()" % (self.read(l), k)
        if mutable:
            auto.append(kept)
        elif l.k != "temp":
            # the container is not changed by the loop
            auto.append(lambda writes: kept(writes) if any(re.search(r"\b%s\b" % re.escape(r), self.read(l)) for r, f in writes) else None)
        self.loop_core(lambda: ("(idx%d < rng%d.len())" % (k, k)), stmts_of(body), inc, s, pre=pre, auto=auto,
                       autodec="rng%d.len() - idx%d" % (k, k))
        self.vars = saved
        self.items.append(Item("close", "}"))

    def loop(self, cnd, body, inc, s, post=None):
        dec = self.guess_dec(cnd) if cnd is not None else None
        self.loop_core((lambda: self.cond(cnd)) if cnd is not None else None, body, inc, s, autodec=dec, post=post)

    def guess_dec(self, c):
        c = strip(c)
        if c["kind"] == "BinaryOperator" and c["opcode"] == "&&":
            return self.guess_dec(kids(c)[0])
        if c["kind"] in ("BinaryOperator", "CXXOperatorCallExpr"):
            op = c.get("opcode") or (self.opname(c) or "")[8:]
            ks = kids(c) if c["kind"] == "BinaryOperator" else kids(c)[1:]
            if op in ("<", "!=", "<=", ">", ">=") and len(ks) == 2:
                try:
                    (a, b), items = self.capture(lambda: (self.e(ks[0]), self.e(ks[1])))
                except Unsupported:
                    return None
                if any(i.k not in ("assert",) and "phys(" not in i.s for i in items):
                    return None
                if op in (">", ">="):
                    a, b = b, a
                if a[1][0] in ("ptr", "iter") and b[1][0] in ("ptr", "iter"):
                    return "%s.off - %s.off" % (b[0], a[0])
                if a[1][0] == "riter":
                    return "%s.off - %s.off" % (a[0], b[0])
                if a[1][0] == "int" and b[1][0] == "int":
                    return "%s - %s%s" % (b[0], a[0], " + 1" if op in ("<=", ">=") else "")
        return None

    def loop_core(self, condf, body, inc, s, pre=None, auto=(), autodec=None, post=None):
        L = self.loopn
        self.loopn += 1
        ls = self.spec.loops.get(L, LoopSpec())
        self.anchor("loop%d.pre" % L)
        ctx = {"id": L, "inc": inc, "breaks": False}
        self.loopctx.append(ctx)
        writes = set()
        self.wstack.append(writes)
        scope_vars = dict((v.a, v.t) for v in self.vars.values() if v.k == "var")

        def gen():
            exitc = None
            if condf is not None:
                t, its = self.capture(condf)
                self.items.extend(its)
                simple = all(i.k == "assert" or (i.k == "let" and "phys(" in i.s) for i in its)
                lets = [i.s.replace("let ghost", "let") for i in its if i.k == "let" and i.s.startswith("let ghost")]
                if all(i.k in ("assert", "let") for i in its):
                    exitc = "({ %s !%s })" % (" ".join(lets), par(t)) if lets else "!%s" % par(t)
                c = self.fresh("c")
                b = self.fresh("b")
                self.raw("let ghost %s: bool = %s; let %s = br(Ghost(%s));" % (c, t, b, c))
                self.items.append(Item("open", "if !%s {" % b))
                self.anchor("loop%d.exit" % L)
                self.items.append(Item("raw", "break;"))
                self.items.append(Item("close", "}"))
            if pre:
                pre()
            self.anchor("loop%d.begin" % L)
            self.vac("loop%d" % L)
            sv = dict(self.vars)
            self.block(body)
            self.vars = sv
            if not always_leaves(body):
                if inc:
                    inc()
                if post is not None:
                    t, its = self.capture(lambda: self.cond(post))
                    self.items.extend(its)
                    c = self.fresh("c")
                    b = self.fresh("b")
                    self.raw("let ghost %s: bool = %s; let %s = br(Ghost(%s));" % (c, t, b, c))
                    self.items.append(Item("open", "if !%s {" % b))
                    self.items.append(Item("raw", "break;"))
                    self.items.append(Item("close", "}"))
                self.anchor("loop%d.end" % L)
            return exitc
        exitc, items = self.capture(gen)
        self.wstack.pop()
        self.loopctx.pop()
        for w in writes:
            self.record(*w)
        # which struct variables are only partly written
        inv = [a for a in (a(writes) if callable(a) else a for a in auto) if a]
        byroot = {}
        for r, f in writes:
            byroot.setdefault(r, set()).add(f)
        for r, fs in sorted(byroot.items()):
            t = scope_vars.get(r)
            if t is None:
                continue
            if t[0] in ("int", "char"):
                lo, hi = irange(t)
                inv.append("%s <= %s <= %s" % (num(lo), r, num(hi)))
            if t[0] == "cls" and None not in fs and not self.u.is_heap(t):
                self.raw("let ghost %s_L%d = %s;" % (r, L, r))
                for fn, ft, rr, f in self.u.fields(t):
                    if fn not in fs:
                        inv.append("%s.%s == %s_L%d.%s" % (r, fn, r, L, fn))
                    elif ft[0] in ("int", "char"):
                        lo, hi = irange(ft)
                        inv.append("%s <= %s.%s <= %s" % (num(lo), r, fn, num(hi)))
        if ctx["breaks"]:
            self.raw("let ghost mut brk%d: bool = false;" % L)
        head = ["loop"]
        lines = []
        allinv = inv + ls.inv
        exc = list(ls.exc)
        if ctx["breaks"]:
            exc.append("!brk%d" % L)
        ens = list(ls.ens)
        if exitc is not None:
            ens.append(exitc if not ctx["breaks"] else "(brk%d || %s)" % (L, exitc))
        if exc:
            lines.append(("  invariant_except_break", None))
            for c in exc:
                lines.append(("    (%s)," % c, "%s: loop %d invariant: %s" % (self.tu.line(s), L, onel(c))))
        if allinv:
            lines.append(("  invariant", None))
            for c in allinv:
                lines.append(("    (%s)," % c, "%s: loop %d invariant: %s" % (self.tu.line(s), L, onel(c))))
        if ens:
            lines.append(("  ensures", None))
            for c in ens:
                lines.append(("    (%s)," % c, "%s: loop %d exit: %s" % (self.tu.line(s), L, onel(c))))
        dec = ls.dec or autodec
        if dec is None:
            raise BindError("loop %d of %s (%s) has no decreases clause" % (L, self.key, self.tu.line(s)))
        lines.append(("  decreases %s," % dec, "%s: loop %d terminates" % (self.tu.line(s), L)))
        self.items.append(Item("loop", lines))
        self.items.append(Item("open", "{"))
        self.items.extend(items)
        self.items.append(Item("close", "}"))
        self.anchor("loop%d.post" % L)


def a_(t):
    return t


def onel(s):
    return re.sub(r"\s+", " ", s)[:160]


def lit(t):
    m = re.match(r"^\(?(-?\d+)(?:int)?\)?$", t)
    return int(m.group(1)) if m else None


def intlit(t):
    return t + "int" if re.match(r"^\d+$", t) else t


def par(t):
    return t if re.match(r"^\(.*\)$", t) or re.match(r"^[\w.@]+$", t) else "(%s)" % t


def json_type(c):
    return c["type"]["qualType"]


def find_kind(n, k):
    if n["kind"] == k:
        return n
    for c in kids(n):
        r = find_kind(c, k)
        if r:
            return r
    return None


def stmts_of(n):
    return kids(n) if n["kind"] == "CompoundStmt" else [n]


def has_return(s):
    if s["kind"] == "ReturnStmt":
        return True
    if s["kind"] == "LambdaExpr":
        return False
    return any(has_return(c) for c in kids(s))


def always_returns(sts):
    if not sts:
        return False
    s = sts[-1]
    if s["kind"] == "ReturnStmt":
        return True
    if s["kind"] == "CompoundStmt" or s["kind"] == "LabelStmt":
        return always_returns(kids(s))
    if s["kind"] == "IfStmt" and len(kids(s)) > 2:
        return always_returns(stmts_of(kids(s)[1])) and always_returns(stmts_of(kids(s)[2]))
    return False


def always_leaves(sts):
    if not sts:
        return False
    s = sts[-1]
    if s["kind"] in ("ReturnStmt", "BreakStmt", "ContinueStmt", "GotoStmt"):
        return True
    if s["kind"] == "CompoundStmt":
        return always_leaves(kids(s))
    if s["kind"] == "IfStmt" and len(kids(s)) > 2:
        return always_leaves(stmts_of(kids(s)[1])) and always_leaves(stmts_of(kids(s)[2]))
    return False


def ret_type(qt):
    d = 0
    # return type is everything before the parameter list's opening parenthesis
    i = len(qt) - 1
    # find matching parenthesis of the last ')' that is the parameter list
    m = re.match(r"^(.*\))\s*(const|noexcept|&|&&|\s)*$", qt)
    j = qt.rindex(")")
    for k in range(j, -1, -1):
        if qt[k] == ")":
            d += 1
        elif qt[k] == "(":
            d -= 1
            if d == 0:
                return qt[:k].strip()
    return qt


def is_auto_ret(node):
    return ret_type(node["type"]["qualType"]) == "auto"


def norm_fn(s):
    return re.sub(r"\s+|noexcept|McBopomofo::|Formosa::|Gramambular2::|Mandarin::|ReadingGrid::|LanguageModel::", "", s)


def key_id(k):
    return re.sub(r"\W", "_", k)


# ------------------------------------------------------------------------------------------
def unit_methods():
    U = Unit

    def prepare(self):
        self.calls = set()
        self.inlined = set()
        self.dlits = []
        self.defmap = {}
        self.demanded = set()
        for tu in self.tus:
            self.defmap_add(tu)

    def defmap_add(self, tu):
        m = {}
        for q, defs in tu.funcs.items():
            for d in defs:
                cur = d
                seen = 0
                m[d["id"]] = d
                while cur is not None and cur.get("previousDecl") and seen < 10:
                    m.setdefault(cur["previousDecl"], d)
                    cur = tu.ids.get(cur["previousDecl"])
                    seen += 1
        # declarations without body map to the spec'd declaration (external)
        self.defmap[id(tu)] = m

    def demand(self, tu, name):
        """dump the declarations of this name too (helpers outside the filters of the unit); False when done before"""
        key = (tu.path, name)
        if key in self.demanded:
            return False
        self.demanded.add(key)
        from cxxast import TU, REPO
        t2 = TU(tu.path, name)
        def ours(r):
            f = r.get("loc", {}).get("_file") or r.get("range", {}).get("begin", {}).get("_file") or ""
            return f.startswith(REPO)
        t2.funcs = {q: [d for d in ds if ours(d)] for q, ds in t2.funcs.items() if any(ours(d) for d in ds)}
        t2.decls = {q: [d for d in ds if ours(d)] for q, ds in t2.decls.items() if any(ours(d) for d in ds)}
        t2.roots = [r for r in t2.roots if ours(r)]
        t2.enums = {q: d for q, d in t2.enums.items() if ours(d)}
        t2.classes = {q: d for q, d in t2.classes.items() if ours(d)}
        self.tus.append(t2)
        self.defmap_add(t2)
        return True

    def global_var(self, tu, nm, qt):
        c = []
        for t in self.tus:
            if t.path == tu.path:
                for r in t.roots:
                    if r["kind"] == "VarDecl" and r.get("name") == nm and r["type"]["qualType"] == qt and kids(r):
                        c.append((t, r))
        return c[0] if c else None

    def enum_const(self, nm, ty):
        for t in self.tus:
            d = t.enums.get(ty[1])
            for c in (d or {}).get("inner", []):
                if c.get("name") == nm and "_val" in c:
                    return c
        return None

    def def_of(self, tu, rid):
        if rid is None:
            return None
        d = self.defmap[id(tu)].get(rid)
        if d is not None:
            return (tu, d)
        dd = tu.ids.get(rid)
        if dd is None:
            for q, defs in tu.decls.items():
                for x in defs:
                    if x["id"] == rid:
                        dd = x
        if dd is not None and "_qname" in dd:
            np = nparams(dd)
            for tu2 in self.tus:
                for x in tu2.funcs.get(dd["_qname"], []):
                    if nparams(x) == np and norm_fn(x["type"]["qualType"]) == norm_fn(dd["type"]["qualType"]):
                        return (tu2, x)
            if self.fkey(tu, dd) in self.spec.fns:
                return (tu, dd)
            return (tu, dd)
        return None

    def by_sig(self, nm, qt, kind="FunctionDecl"):
        """the one free function of this name and type among the dumped declarations
        (declaration ids are not comparable between two dumps of one file)"""
        c = {}
        for tu in self.tus:
            for q, defs in tu.funcs.items():
                if q.split("::")[-1] == nm:
                    for d in defs:
                        if d["kind"] == kind and norm_fn(d["type"]["qualType"]) == norm_fn(qt):
                            c[q] = (tu, d)
        return list(c.values())[0] if len(c) == 1 else None

    def by_name(self, nm, na):
        for tu in self.tus:
            for q, defs in tu.decls.items():
                if q.split("::")[-1] == nm:
                    for d in defs:
                        if nparams(d) == na and d["kind"] == "FunctionDecl":
                            return (tu, d)
        return None

    def by_method(self, cls, nm, na, types=None):
        if types is not None:
            # overloads: arguments have the parameters' types (conversions are explicit in the tree)
            c = {}
            for tu in self.tus:
                for q, defs in list(tu.funcs.items()) + list(tu.decls.items()):
                    if q == cls + "::" + nm or q.endswith("::" + cls + "::" + nm):
                        for d in defs:
                            ps = [p for p in kids(d) if p["kind"] == "ParmVarDecl"]
                            if len(ps) == na:
                                try:
                                    if [self.ty(p["type"]) for p in ps] == types:
                                        c.setdefault(d.get("mangledName"), (tu, d))
                                except Unsupported:
                                    pass
            if len(c) == 1:
                return list(c.values())[0]
        for tu in self.tus:
            for q, defs in list(tu.funcs.items()) + list(tu.decls.items()):
                if q == cls + "::" + nm or q.endswith("::" + cls + "::" + nm) or cls.endswith("::" + q.rsplit("::", 1)[0]) and q.endswith("::" + nm):
                    for d in defs:
                        if nparams(d) == na:
                            return (tu, d)
        return None

    def fkey(self, tu, node):
        q = node["_qname"]
        s = short(q)
        if node["kind"] == "CXXConstructorDecl":
            s = short(node["_qscope"]) + "_ctor"
        if node["kind"] == "CXXDestructorDecl":
            s = short(node["_qscope"]) + "_dtor"
        s = s.replace("operator==", "op_eq").replace("operator!=", "op_ne").replace("operator+=", "op_pluseq")
        s = s.replace("operator+", "op_plus").replace("operator<", "op_lt").replace("operator=", "op_assign")
        s2 = "%s/%d" % (s, nparams(node))
        if s2 in self.spec.fns:
            return s2
        for k in sorted(self.spec.fns, key=len, reverse=True):
            if k.startswith(s + "/"):
                f = k[len(s) + 1:]
                if not f.isdigit() and f in node.get("mangledName", ""):
                    return k
        if any(k.startswith(s + "/") for k in self.spec.fns):
            return s2
        return s

    def default_arg(self, tu, node, p):
        cands = [node]
        c = node
        while c is not None and c.get("previousDecl"):
            c = tu.ids.get(c["previousDecl"])
            if c is not None:
                cands.append(c)
        for q, defs in tu.decls.items():
            if q == node.get("_qname"):
                cands += defs
        for d in cands:
            ps = [x for x in kids(d) if x["kind"] == "ParmVarDecl"]
            i = p.get("index")
            if i is None:
                continue
            if i < len(ps):
                init = [c for c in kids(ps[i]) if c["kind"] != "FullComment"]
                if init:
                    return init[-1]
        return None

    def signature(self, tu, node, key):
        fs = self.spec.fns[key]
        heaps, hmut = [], []
        if "heaps" in fs.opts:
            for h in fs.opts["heaps"].split():
                nm = "heap_" + h.rstrip("!")
                heaps.append(nm)
                if h.endswith("!"):
                    hmut.append(nm)
        if fs.opts.get("world"):
            heaps.append("w")
            hmut.append("w")
        params = []
        ps = [p for p in kids(node) if p["kind"] == "ParmVarDecl"]
        for i, p in enumerate(ps):
            t = self.ty(p["type"])
            if t[0] == "fun" and fs.opts.get("nullfun"):
                t = ("opt", t)
            qt = p["type"]["qualType"].strip()
            mode = "in"
            r = self.rty(t)
            if t[0] == "ptr" and r.startswith("Option<") and not re.match(r"^const\b", qt) and not self.poly_of(t[1]):
                mode = "optref"
            elif qt.endswith("&") and not qt.endswith("&&") and not is_const_ref_or_value(qt) and not self.is_heap(t):
                mode = "inout"
            elif qt.endswith("&&") and fs.opts.get("rvalue_out"):
                mode = "inout"
            if t[0] in ("vec", "opt", "list", "pair") and FnT.holds_heap(self_holder(self), t):
                raise Unsupported("container of objects of a class with identity as parameter of " + key)
            params.append({"name": p.get("name", "arg%d" % i), "ty": t, "mode": mode, "id": p["id"], "index": i})
        this, this_out, tty = None, False, None
        ctor = node["kind"] == "CXXConstructorDecl"
        if ctor:
            ret = ("cls", self.find_class(node["_qscope"])[1])
        else:
            rt = ret_type(node["type"]["qualType"])
            try:
                ret = self.ty_s(rt)
            except Unsupported:
                ret = self.ty_s(qualify(rt, node, self))
        if node["kind"] in ("CXXMethodDecl", "CXXDestructorDecl") and not is_static(tu, node):
            c = self.find_class(node["_qscope"])
            tty = ("cls", c[1] if c else node["_qscope"])
            if self.is_heap(tty):
                this = "heapref"
            else:
                this = "value"
                this_out = not node["type"]["qualType"].rstrip().endswith("const") and \
                    "const" not in node["type"]["qualType"].rsplit(")", 1)[1]
        outs = []
        if ret != TVOID:
            outs.append(("ret", self.rty(ret)))
        if this_out:
            outs.append(("this", self.rty(tty)))
        for p in params:
            if p["mode"] != "in":
                outs.append((p["name"], self.rty(p["ty"])))
        for h in hmut:
            outs.append((h, self.heaptype(h)))
        return dict(heaps=heaps, hmut=hmut, params=params, ret=ret, this=this, this_out=this_out, tty=tty,
                    outs=outs, ctor=ctor)

    def heaptype(self, h):
        if h == "w":
            return "World"
        c = h[5:]
        for tu in self.tus:
            for q in tu.classes:
                if short(q) == c:
                    self.heap_struct(("cls", q))
                    return "Map<int, %sS>" % c
        raise Unsupported("heap class " + c)

    def heap_struct(self, t):
        n = short(t[1]) + "S"
        if n in self.structs:
            return self.structs[n]
        tu, cq, node = self.find_class(t[1])
        self.structs[n] = []
        fields = []
        for f in node.get("inner", []):
            if f["kind"] == "FieldDecl":
                try:
                    ft = self.ty(f["type"])
                    fields.append((vid(f["name"]), ft, self.rty(ft), f))
                except Unsupported as e:
                    self.dropped.add("field %s.%s not modelled (%s)" % (n, f.get("name"), e))
        self.structs[n] = fields
        self.struct_order.append(n)
        return fields

    def dlit_(self, v):
        v = str(v)
        if v not in self.dlits:
            self.dlits.append(v)
        try:
            f = float(v)
            if f == int(f) and abs(f) < 1000000:
                return int(f)
        except ValueError:
            pass
        return 1000000 + zlib.crc32(repr(float(v)).encode())

    def find_fn(self, key):
        for tu in self.tus:
            for src in (tu.funcs, tu.decls):
                for q, defs in src.items():
                    for d in defs:
                        if "_qname" in d and self.fkey(tu, d) == key:
                            if src is tu.funcs or self.spec.fns[key].opts.get("trusted"):
                                return tu, d
        return None

    def header(self, tu, node, key, sig):
        fs = self.spec.fns[key]
        ps, prelets, postlets = [], [], []
        for h in sig["heaps"]:
            ps.append((h, self.heaptype(h)))
        if sig["this"] == "heapref":
            ps.append(("this", "int"))
        elif sig["this"]:
            ps.append(("this", self.rty(sig["tty"])))
        for p in sig["params"]:
            ps.append((vid(p["name"]), self.rty(p["ty"])))
        for n, t in ps:
            prelets.append("let %s = %s_in@;" % (n, n))
        outs = sig["outs"]
        ot = "()" if not outs else outs[0][1] if len(outs) == 1 else "(%s)" % ", ".join(t for _, t in outs)
        for i, (o, t) in enumerate(outs):
            nm = "ret" if o == "ret" else vid(o) + "_post"
            postlets.append("let %s = out_@%s;" % (nm, "" if len(outs) == 1 else ".%d" % i))
        lines = []
        L = lines.append
        if fs.opts.get("trusted") or fs.opts.get("imported"):
            L(("#[verifier::external_body]", None))
        else:
            L(("#[verifier::loop_isolation(%s)]" % fs.opts.get("isolation", "false"), None))
            L(("#[verifier::allow_complex_invariants]", None))
            L(("#[verifier::rlimit(%s)]" % fs.opts.get("rlimit", "60"), None))
            if fs.opts.get("spinoff", True):
                L(("#[verifier::spinoff_prover]", None))
        L(("pub fn %s(%s) -> (out_: Ghost<%s>)" % (key_id(key), ", ".join("%s_in: Ghost<%s>" % p for p in ps), ot),
           "%s: %s" % (tu.line(node), key)))
        if fs.requires:
            L(("  requires", None))
            for c in fs.requires:
                L(("    ({ %s %s })," % (" ".join(prelets), c), "%s: precondition of %s: %s" % (tu.line(node), key, onel(c))))
        if fs.ensures:
            L(("  ensures", None))
            for c in fs.ensures:
                L(("    ({ %s %s %s })," % (" ".join(prelets), " ".join(postlets), c),
                   "%s: postcondition of %s: %s" % (tu.line(node), key, onel(c))))
        return lines, ps

    def typed_facts(self, name, t, depth=0):
        out = []
        if t[0] in ("int", "char"):
            lo, hi = irange(t)
            out.append("%s <= %s <= %s" % (num(lo), name, num(hi)))
        elif t[0] == "cls" and depth < 2 and t[1] not in self.spec.opaque and not self.is_heap(t):
            for fn, ft, r, f in self.fields(t):
                out += self.typed_facts("%s.%s" % (name, fn), ft, depth + 1)
        elif t[0] == "list":
            out.append("llist_ok(%s)" % name)
        return out

    def translate(self, key):
        r = self.find_fn(key)
        if r is None:
            raise BindError("function %s not found in the current sources" % key)
        tu, node = r
        fs = self.spec.fns[key]
        sig = self.signature(tu, node, key)
        lines, ps = self.header(tu, node, key, sig)
        if fs.opts.get("imported"):
            lines.append(("{ unimplemented!() }", None))
            return lines
        if fs.opts.get("trusted"):
            lines.append(("{ unimplemented!() }", None))
            self.assumptions.add("assumed contract: %s" % key)
            return lines
        t = FnT(self, tu, node, fs, key)
        t.sig = sig
        bc = fs.opts.get("broadcast") or self.spec.options.get("broadcast")
        for h in (fs.opts.get("hide") or "").split():
            t.raw("hide(%s);" % h)
        if bc:
            t.raw("broadcast use %s;" % bc)
        for h in sig["heaps"]:
            t.names.add(h)
        for n, rt in ps:
            t.names.add(n)
        for n, rt in ps:
            t.raw("let ghost mut %s: %s = %s_in@; let ghost old_%s = %s;" % (n, rt, n, n, n))
        for g in fs.ghost:
            for l in g.strip().split("\n"):
                t.raw("let ghost mut %s;" % l.strip())
                t.names.add(l.strip().split(":")[0])
        if sig["this"] == "heapref":
            t.vars["this"] = LV("heap", ("heap_" + short(sig["tty"][1]), "this"), sig["tty"])
        elif sig["this"]:
            t.vars["this"] = LV("var", "this", sig["tty"])
            facts = self.typed_facts("this", sig["tty"])
            if facts:
                t.raw("proof { %s }" % " ".join("typed(%s);" % f for f in facts))
        for p in sig["params"]:
            t.vars[p["id"]] = LV("var", vid(p["name"]), p["ty"])
            facts = self.typed_facts(vid(p["name"]), p["ty"])
            if facts:
                t.raw("proof { %s }" % " ".join("typed(%s);" % f for f in facts))
        body = [c for c in kids(node) if c["kind"] == "CompoundStmt"][0]
        sts = kids(body)
        for i, s in enumerate(sts):
            if s["kind"] == "LabelStmt":
                t.labels[s.get("declId")] = kids(s) + sts[i + 1:]
        if sig["ctor"]:
            ty = sig["ret"]
            t.names.add("this")
            inits = {}
            for c in kids(node):
                if c["kind"] == "CXXCtorInitializer" and "anyInit" in c:
                    inits[vid(c["anyInit"]["name"])] = kids(c)[0]
            parts = []
            for fn, ft, r_, f in self.fields(ty):
                if fn in inits and strip(inits[fn])["kind"] != "CXXDefaultInitExpr":
                    x, at = t.e(inits[fn])
                    x = t.conv(x, at, ft)
                    if any("CXXThisExpr" in json.dumps(c) for c in inits.values()):
                        x = t.bind(x, ft)
                        t.made[fn] = (x, ft)
                    parts.append((fn, x))
                else:
                    parts.append((fn, t.field_default(f, ft, r_)))
            t.raw("let ghost mut this: %s = %s { %s };" % (self.rty(ty), self.rty(ty), ", ".join("%s: %s" % p for p in parts)))
            t.vars["this"] = LV("var", "this", ty)
        npin = len(t.items)
        t.anchor("entry")
        t.vac("entry")
        t.last_stmt = sts[-1] if sts else None
        stop = False
        for i, s in enumerate(sts):
            if s["kind"] == "LabelStmt" and i > 0 and always_returns(sts[:i]):
                stop = True
                break
            t.stmt(s)
        if not (always_returns(sts[:i] if stop else sts)):
            if sig["ret"] == TVOID:
                t.emit_return("()", None)
            elif sig["ctor"]:
                t.emit_return("this", None)
            else:
                t.raw("proof { assert(false); }")
                t.raw("return Ghost(arbitrary());")
        if t.pins:
            t.items.insert(npin, Item("raw", "let ghost mut pinned_: bool = false;"))
        used = t.anchors_used
        for i, (a, b) in enumerate(fs.at):
            if i not in used:
                raise BindError("proof anchor '%s' of %s matches nothing in the current source" % (a, key))
        for l in fs.loops:
            if l >= t.loopn:
                raise BindError("loop %d of %s does not exist in the current source" % (l, key))
        lines.append(("{", None))
        for x in fs.opts.get("hide", "").split():
            lines.append(("  hide(%s);" % x, None))
        ind = 1
        for it in t.items:
            if it.k in ("close", "else"):
                ind -= 1
            pad = "  " * ind
            if it.k == "assert":
                lines.append((pad + "assert(%s);" % it.s, it.label))
            elif it.k == "loop":
                lines.append((pad + "loop", None))
                for s, lab in it.s:
                    lines.append((pad + s, lab))
            elif it.k == "open" and it.s == "{" and False:
                pass
            else:
                lines.append((pad + it.s, it.label))
            if it.k in ("open", "else"):
                ind += 1
        lines.append(("}", None))
        return lines

    def generate(self, common):
        """returns (text, linemap)"""
        self.prepare()
        for q in self.spec.cstructs:
            self.struct(q)
        for tu in self.tus:
            for q, e in tu.enums.items():
                for c in e.get("inner", []):
                    if c["kind"] == "EnumConstantDecl" and "_val" in c:
                        self.enumconst(q, c["name"], c["_val"])
        fnl = []
        self.failed = {}
        for key in self.spec.order:
            try:
                if key in self.distrust:
                    raise BindError(self.distrust_why.get(key, "annotations do not fit the current source"))
                fnl.append((key, self.translate(key)))
            except ExtractError as e:
                self.failed[key] = str(e)
            except (KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
                if __import__("os").environ.get("C2V_DEBUG"):
                    raise
                self.failed[key] = "translator: %s: %s" % (type(e).__name__, e)
        for key in list(self.failed):
            # keep the contract for the callers; the body is not verified in this run
            try:
                fs = self.spec.fns[key]
                sv = fs.opts.get("trusted")
                fs.opts["trusted"] = True
                r = self.find_fn(key)
                if r is not None:
                    sig = self.signature(r[0], r[1], key)
                    lines, _ = self.header(r[0], r[1], key, sig)
                    lines.append(("{ unimplemented!() }", None))
                    fnl.append((key, lines))
                fs.opts["trusted"] = sv
            except Exception:
                pass
        # constants that only the specifications (of imported units too) name
        text = self.spec.prelude + self.spec.post + "\n".join(l for _, ls in fnl for l, _ in ls)
        for nm in sorted(set(re.findall(r"\bc_(\w+)\(\)", text))):
            if "c_" + nm in self.consts:
                continue
            if not any(d["kind"] == "VarDecl" and d.get("name") and vid(d["name"]) == nm for t in self.tus for d in t.ids.values()):
                for t in list(self.tus):
                    if re.search(r"\b%s\b" % nm, open(t.path).read()):
                        self.demand(t, nm)
                        break
            for t in self.tus:
                ds = [d for d in t.ids.values() if d["kind"] == "VarDecl" and d.get("name") and vid(d["name"]) == nm and kids(d)]
                try:
                    if ds and FnT(self, t, ds[0], FnSpec("const"), "const " + nm).constvar(ds[0]):
                        break
                except ExtractError:
                    pass
        out, lm = [], {}

        def emit(s, lab=None):
            for l in s.split("\n"):
                out.append(l)
                if lab:
                    lm[len(out)] = lab
        emit(spin(common))
        emit("verus! {")
        for n in self.struct_order:
            emit("#[verifier::ext_equal]\npub struct %s { %s }" % (n, ", ".join(
                "pub %s: %s" % (fn, r) for fn, ft, r, f in self.structs[n])))
        for root in sorted(self.spec.poly):
            R = short(root)
            leaves, inner, base = self.family(root)
            if not any(re.search(r"\b%s\b" % R, l) for _, ls in fnl for l, _ in ls) and not re.search(r"\b%s\b" % R, self.spec.own_prelude):
                continue
            emit("pub enum %s { %s }" % (R, ", ".join("%s(%s)" % (l.split("::")[-1], short(l)) for l in leaves)))
            for l in leaves:
                S, V = short(l), l.split("::")[-1]
                emit("pub open spec fn up_%s(x: Option<%s>) -> Option<%s> { match x { Some(v) => Some(%s::%s(v)), None => None } }" % (S, S, R, R, V))
                emit("pub open spec fn as_%s(x: Option<%s>) -> Option<%s> { match x { Some(%s::%s(v)) => Some(v), _ => None } }" % (S, R, S, R, V))
            for i in inner:
                def under(c):
                    while c:
                        if c == i:
                            return True
                        c = base.get(c)
                    return False
                emit("pub open spec fn is_%s(x: %s) -> bool { match x { %s, _ => false } }" % (short(i), R, ", ".join("%s::%s(_) => true" % (R, l.split("::")[-1]) for l in leaves if under(l))))
                emit("pub open spec fn as_%s(x: Option<%s>) -> Option<%s> { if x.is_some() && is_%s(x->0) { x } else { None } }" % (short(i), R, R, short(i)))
            for i in inner:
                tu_, q_, node_ = self.find_class(i)
                for f in node_.get("inner", []):
                    if f["kind"] == "FieldDecl":
                        try:
                            self.base_fields[(root, i, vid(f["name"]))] = self.rty(self.ty(f["type"]))
                        except Unsupported:
                            pass
            for (r_, q, fn), ft in sorted(self.base_fields.items()):
                if r_ == root:
                    arms = []
                    for l in leaves:
                        if l in self.spec.opaque:
                            continue
                        c = l
                        while c and c != q:
                            c = base.get(c)
                        if c and any(x[0] == fn for x in self.structs.get(short(l)) or []):
                            arms.append("%s::%s(v) => v.%s" % (R, l.split("::")[-1], fn))
                    emit("pub open spec fn %s_%s(x: %s) -> %s { match x { %s, _ => arbitrary() } }" % (short(q), fn, R, ft, ", ".join(arms)))
        for o in sorted(self.spec.opaque):
            if o != "#":
                emit("#[verifier::external_body]\npub struct %s { x: int }" % short(o))
        for k, v in sorted(self.enums.items()):
            emit("#[verifier::inline]\npub open spec fn %s() -> int { %s }" % (k, num(v)))
        for name, (nm, ty, txt) in self.consts.items():
            emit("pub open spec fn %s() -> %s { %s }" % (nm, self.rty(ty), txt))
        if self.vac:
            emit("pub uninterp spec fn vac_sel(i: int) -> bool;")
        used = {key_id(k): "\n".join(l for l, _ in ls) for k, ls in fnl if "imported" in self.spec.fns[k].opts and self.spec.fns[k].opts.get("used")}
        pre, live = shake(self.spec.prelude, self.spec.post + "\n".join(l for k, ls in fnl if key_id(k) not in used for l, _ in ls), used)
        fnl = [(k, ls) for k, ls in fnl if key_id(k) not in used or key_id(k) in live]
        emit(spin(pre))
        self.fn_lines = {}
        self.fn_main = {}
        for key, lines in fnl:
            a = len(out) + 1
            fs = self.spec.fns[key]
            body = not any("external_body" in l for l, _ in lines)
            parts = split_paths(lines, key_id(key)) if body and fs.opts.get("split") else [lines]
            for j, part in enumerate(parts):
                if body:
                    emit("#[verifier::spinoff_prover]")
                for s, lab in part:
                    emit(s, lab)
                if j == 0:
                    self.fn_main[key] = (a, len(out))
            self.fn_lines[key] = (a, len(out))
        emit(spin(self.spec.post))
        emit("} // verus!\nfn main() {}")
        return "\n".join(out) + "\n", lm

    for k, v in list(locals().items()):
        if callable(v) and k != "U":
            setattr(U, "dlit" if k == "dlit_" else k, v)


def spin(text):
    """each lemma gets a solver process of its own"""
    return re.sub(r"(?m)^(\s*)((?:pub )?(?:broadcast )?proof fn )", r"\1#[verifier::spinoff_prover]\n\1\2", text)


def split_paths(lines, name):
    """Copies of a function, one for each of its returns. In each copy the branches that end in another return are cut off (assume false at their start), so that
    the obligations on the way to one return are proved at a time. A branch is cut only when its last statement is a return, and that return has a copy of its
    own in which no branch around it is cut; so every obligation of the function stands in some copy with nothing cut before it. The last copy, of the final
    return, keeps the name."""
    L = [l for l, _ in lines]
    b = L.index("{")
    stack, blocks = [], []
    for i in range(b, len(L)):
        s = L[i].strip()
        if s.startswith("}") and not s.startswith("});"):
            stack and blocks.append((stack.pop(), i))
        if s.endswith("{") and "\n" not in s and not s.startswith("//"):
            stack.append(i)
    if stack:
        return [lines]
    rets = [i for i in range(b, len(L)) if L[i].strip().startswith("return ")]
    cut = {(x, y): y - 1 for x, y in blocks if re.match(r"(if !?b_\d+ \{|\} else \{)$", L[x].strip()) and L[y - 1].strip().startswith("return ")}
    if not cut:
        return [lines]
    targets = set(cut.values()) | ({rets[-1]} if rets[-1] not in cut.values() else set())
    parts = []
    for k, t in enumerate(sorted(targets, reverse=True)):
        p = list(lines)
        for (x, y) in cut:
            if not x < t < y:
                p[x] = (p[x][0] + " proof { assume(false); }", p[x][1])
        if k:
            p = [(re.sub(r"\bfn %s\(" % name, "fn %s__%d(" % (name, k), l), lab) for l, lab in p]
        parts.append(p)
    return parts


def nparams(d):
    return len([p for p in kids(d) if p["kind"] == "ParmVarDecl"])


def is_static(tu, node):
    if node.get("storageClass") == "static":
        return True
    p = node.get("previousDecl")
    n = 0
    while p and n < 5:
        for q, defs in tu.decls.items():
            for d in defs:
                if d["id"] == p:
                    if d.get("storageClass") == "static":
                        return True
                    p = d.get("previousDecl")
                    break
            else:
                continue
            break
        else:
            return False
        n += 1
    return False


def qualify(rt, node, unit):
    return rt


class self_holder:
    def __init__(self, u):
        self.u = u

    def holds_heap(self, t):
        return FnT.holds_heap(self, t)


unit_methods()
