"""Load the clang 18 AST (JSON) of one translation unit of /repo, restricted to the
project's own namespaces.  Nothing here is written by hand about the code: it is the
compiler's own view of the current source."""
import json, subprocess, os, re

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "clang++-18"
INC = ["src", "src/Engine", "src/ChineseNumbers"]


class ExtractError(Exception):
    pass


def flags(extra=()):
    r = ["-std=c++20" if False else "-std=c++17", "-x", "c++"]
    for i in INC:
        r.append("-I%s/%s" % (REPO, i))
    for d in ("/usr/include/Fcitx5/Core", "/usr/include/Fcitx5/Config",
              "/usr/include/Fcitx5/Utils", "/usr/include/Fcitx5/Module",
              "/usr/include/json-c"):
        r.append("-isystem" + d)
    return r + list(extra)


def dump(src, flt, extra=()):
    cmd = [CLANG] + flags(extra) + ["-w", "-fsyntax-only", "-Xclang", "-ast-dump=json",
                                    "-Xclang", "-ast-dump-filter=" + flt, src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise ExtractError("clang failed on %s: %s" % (src, p.stderr[-2000:]))
    s = p.stdout
    dec = json.JSONDecoder()
    i, out, n = 0, [], len(s)
    while i < n:
        while i < n and s[i] in " \n\r\t":
            i += 1
        if i >= n:
            break
        if s[i] != "{":
            j = s.find("\n", i)
            i = n if j < 0 else j
            continue
        o, i = dec.raw_decode(s, i)
        out.append(o)
    return out


class TU:
    """One translation unit: declarations by id, functions by qualified name."""

    def __init__(self, relpath, flt, extra=()):
        self.path = relpath if os.path.isabs(relpath) else os.path.join(REPO, relpath)
        self.roots = dump(self.path, flt, extra)
        self.src = {}
        self.ids = {}
        self.parent = {}
        self.funcs = {}      # qualname -> list of decl nodes having a body
        self.decls = {}      # qualname -> list of all function decl nodes
        self.classes = {}    # qualname -> node
        self.enums = {}
        self.qual = {}       # id -> qualname
        self._file, self._line = self.path, 0
        self.alias = {}      # bare typedef name -> set of what it desugars to
        for r in self.roots:
            self._locs(r)
        for r in self.roots:
            if r["kind"] == "NamespaceDecl" or r["kind"] in ("CXXRecordDecl", "EnumDecl") and not r.get("parentDeclContextId"):
                self._index(r, self._outer(r))
        # out-of-class definitions
        for r in self.roots:
            self._defs(r)

    def _outer(self, r):
        return ""

    def _locs(self, o):
        if isinstance(o, dict):
            if "offset" in o or "spellingLoc" in o:
                self._loc1(o)
                return
            if o.get("kind") in ("TypeAliasDecl", "TypedefDecl") and "name" in o and "type" in o:
                self.alias.setdefault(o["name"], set()).add((o["type"].get("desugaredQualType") or o["type"]["qualType"]).replace("const ", ""))
            for k, v in o.items():
                if k in ("loc",) and isinstance(v, dict):
                    self._loc1(v)
                elif k == "range" and isinstance(v, dict):
                    for b in ("begin", "end"):
                        if b in v:
                            self._loc1(v[b])
                elif k == "type" and isinstance(v, dict) and "desugaredQualType" in v:
                    m = re.match(r"^(?:const )?([A-Za-z_]\w*)$", v.get("qualType", ""))
                    if m:
                        self.alias.setdefault(m.group(1), set()).add(v["desugaredQualType"].replace("const ", ""))
                elif isinstance(v, (dict, list)) and k not in ("type", "referencedDecl"):
                    self._locs(v)
        elif isinstance(o, list):
            for v in o:
                self._locs(v)

    def _loc1(self, l):
        if "spellingLoc" in l:
            self._loc1(l["spellingLoc"])
            self._loc1(l["expansionLoc"])
            e = l["expansionLoc"]
            l["_file"], l["_line"], l["offset"] = e.get("_file"), e.get("_line"), e.get("offset")
            l["tokLen"] = e.get("tokLen", 1)
            return
        if "file" in l:
            self._file = l["file"]
        if "line" in l:
            self._line = l["line"]
        l["_file"], l["_line"] = self._file, self._line

    def _index(self, o, scope):
        k = o.get("kind")
        name = o.get("name")
        q = scope
        if k in ("NamespaceDecl", "CXXRecordDecl", "EnumDecl", "ClassTemplateDecl"):
            if name:
                q = (scope + "::" + name) if scope else name
            self.qual[o.get("id")] = q
        if "id" in o and k and k.endswith("Decl"):
            self.ids.setdefault(o["id"], o)
            o["_scope"] = scope
        if k == "CXXRecordDecl" and o.get("completeDefinition") and (name or q not in self.classes):
            self.classes[q] = o
        if k == "EnumDecl":
            self.enums[q] = o
            v = 0
            for c in o.get("inner", []):
                if c["kind"] == "EnumConstantDecl":
                    cv = find_value(c)
                    if cv is not None:
                        v = int(cv)
                    c["_val"] = v
                    c["_enum"] = q
                    self.ids[c["id"]] = c
                    v += 1
        for c in o.get("inner", []):
            if isinstance(c, dict) and "kind" in c:
                self._index(c, q)
        if k in ("VarDecl", "ParmVarDecl", "FieldDecl", "LabelDecl"):
            self.ids[o["id"]] = o

    def _defs(self, o):
        k = o.get("kind")
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl",
                 "CXXConversionDecl"):
            sc = o.get("_scope", "")
            pc = o.get("parentDeclContextId")
            if pc and pc in self.qual:
                sc = self.qual[pc]
            prev = o.get("previousDecl")
            if prev and prev in self.ids and k != "FunctionDecl":
                sc = self.ids[prev].get("_qscope", sc)
            q = (sc + "::" if sc else "") + o.get("name", "")
            o["_qscope"] = sc
            o["_qname"] = q
            self.decls.setdefault(q, []).append(o)
            if any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in o.get("inner", [])):
                self.funcs.setdefault(q, []).append(o)
        for c in o.get("inner", []):
            if isinstance(c, dict):
                self._defs(c)

    def text(self, node):
        r = node.get("range", {})
        b, e = r.get("begin", {}), r.get("end", {})
        f = b.get("_file")
        if not f or "offset" not in b or "offset" not in e:
            return ""
        if f not in self.src:
            try:
                self.src[f] = open(f, "rb").read()
            except OSError:
                return ""
        return self.src[f][b["offset"]:e["offset"] + e.get("tokLen", 1)].decode("utf8", "replace")

    def line(self, node):
        b = node.get("range", {}).get("begin", {})
        f = b.get("_file") or ""
        return "%s:%s" % (os.path.basename(f), b.get("_line", "?"))


def find_value(n):
    if "value" in n and n["kind"] in ("ConstantExpr", "IntegerLiteral"):
        return n["value"]
    for c in n.get("inner", []):
        v = find_value(c)
        if v is not None:
            return v
    return None
