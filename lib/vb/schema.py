"""Protocol descriptions used by the harness.

A schema is a plain JSON-able dict:
  {"id": "s01", "ns": "S01" or None, "lst": <size type>, "str": <size type>,
   "enums":    [{"name": .., "entries": [[name, number], ..], "form": "names"|"table"}],
   "structs":  [{"name": .., "members": [[name, type, is_list], ..]}],
   "messages": [same as structs]}
Values are positional: a struct/message value is the list of its members' values; numbers are ints
(float/double: IEEE bit patterns), strings are python str, enums are their numbers, lists are lists.
"""
BASE = ["byte", "bool", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double"]
SIZES = {"byte": 1, "bool": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4, "uint64": 8, "int64": 8, "float": 4, "double": 8}
RANGES = {"byte": (0, 255), "uint16": (0, 2**16 - 1), "int16": (-2**15, 2**15 - 1), "uint32": (0, 2**32 - 1),
          "int32": (-2**31, 2**31 - 1), "uint64": (0, 2**64 - 1), "int64": (-2**63, 2**63 - 1),
          "bool": (0, 1), "float": (0, 2**32 - 1), "double": (0, 2**64 - 1)}
SIZE_TYPES = ["byte", "uint16", "int16", "uint32", "int32", "uint64", "int64"]


def q(s):
    out = '"'
    for ch in s:
        if ch in '"\\': out += "\\" + ch
        elif ord(ch) < 32 or ord(ch) == 127: out += "\\u%04x" % ord(ch)
        else: out += ch
    return out + '"'


def toml(s):
    """TOML text of a (well-formed) schema, in declaration order."""
    o = []
    meta = []
    if s.get("ns"): meta.append(f'namespace = {q(s["ns"])}')
    # the default size types are sometimes left out, sometimes spelled out
    bare = len(s["messages"]) % 2 == 1
    if s.get("lst") and not (bare and s["lst"] == "uint32"): meta.append(f'list_size_type = {q(s["lst"])}')
    if s.get("str") and not (bare and s["str"] == "uint32"): meta.append(f'string_size_type = {q(s["str"])}')
    if meta: o += ["[meta]"] + meta + [""]
    for kind in ("structs", "enums", "messages"):
        for d in s.get(kind, []):
            o.append(f"[[{kind}]]")
            o.append(f'_name = {q(d["name"])}')
            if kind == "enums":
                o.append("_values = [")
                for n, v in d["entries"]:
                    o.append(f"    {q(n)}," if d.get("form") == "names" else "    { _name = %s, _value = %d }," % (q(n), v))
                o.append("]")
            else:
                for n, t, l in d["members"]:
                    o.append(f'{q(n)} = {q("[" + t + "]" if l else t)}')
            o.append("")
    return "\n".join(o) + "\n"


class View:
    """Convenience lookups over a schema dict."""
    def __init__(self, s):
        self.s = s
        self.id = s["id"]
        self.ns = s.get("ns")
        self.lst = s.get("lst") or "uint32"
        self.str = s.get("str") or "uint32"
        self.enums = {e["name"]: e for e in s.get("enums", [])}
        self.structs = {e["name"]: e for e in s.get("structs", [])}
        self.messages = s.get("messages", [])

    def kind(self, t):
        if t in BASE: return t
        if t == "string": return "string"
        if t in self.enums: return "enum"
        if t in self.structs: return "struct"
        raise KeyError(t)

    def enc(self, e):
        v = [n for _, n in self.enums[e]["entries"]]
        for t in ("byte", "int16", "int32"):
            if min(v) >= RANGES[t][0] and max(v) <= RANGES[t][1]: return t
        raise ValueError(e)

    def used_structs(self):
        """Struct names in dependency order (inner first)."""
        out = []
        def go(n):
            if n in out: return
            for _, t, _l in self.structs[n]["members"]:
                if t in self.structs: go(t)
            out.append(n)
        for n in self.structs: go(n)
        return out

    # ---- token streams exchanged with the drivers
    def tok_type(self, t, v, out):
        k = self.kind(t)
        if k == "struct":
            for (_, mt, ml), x in zip(self.structs[t]["members"], v, strict=True): self.tok_member(mt, ml, x, out)
        elif k == "string":
            out.append("s" + v.encode("utf-8", "surrogatepass").hex())
        else:
            out.append(str(int(v)))

    def tok_member(self, t, is_list, v, out):
        if is_list:
            out.append(str(len(v)))
            for x in v: self.tok_type(t, x, out)
        else:
            self.tok_type(t, v, out)

    def tokens(self, mi, value):
        out = []
        for (_, t, l), v in zip(self.messages[mi]["members"], value, strict=True): self.tok_member(t, l, v, out)
        return out

    def parse(self, mi, it):
        """Read a value back from a token iterator; raises on malformed tokens."""
        def ty(t):
            k = self.kind(t)
            if k == "struct":
                return [mem(mt, ml) for _, mt, ml in self.structs[t]["members"]]
            tok = next(it)
            if k == "string":
                if tok[0] != "s": raise ValueError("string token expected: " + tok)
                return bytes.fromhex(tok[1:])
            return int(tok)
        def mem(t, l):
            if not l: return ty(t)
            n = int(next(it))
            return [ty(t) for _ in range(n)]
        return [mem(t, l) for _, t, l in self.messages[mi]["members"]]
