"""Curated protocols for the codec checks: each exercises a family of generator decisions."""
from .schema import SIZE_TYPES, BASE

B = lambda n, t: [n, t, False]
L = lambda n, t: [n, t, True]


def st(name, *members): return {"name": name, "members": [list(m) for m in members]}
def en(name, *entries):
    if entries and isinstance(entries[0], str):
        return {"name": name, "form": "names", "entries": [[e, i] for i, e in enumerate(entries)]}
    return {"name": name, "form": "table", "entries": [[e, v] for e, v in entries]}


def P(id, messages, structs=(), enums=(), lst=None, str_=None, ns="="):
    return {"id": id, "ns": (id[0].upper() + id[1:] if ns == "=" else ns), "lst": lst, "str": str_,
            "enums": list(enums), "structs": list(structs), "messages": list(messages)}


E_DENSE = en("Dense", "Aa", "Bb", "Cc", "Dd", "Ee")
E_GAP = en("Gap", ("Two", 2), ("Five", 5), ("Zero", 0), ("Max", 255))
E_NEG = en("Neg", ("Minus", -1), ("Plus", 1), ("Low", -32768), ("High", 32767))
E_WIDE = en("Wide", ("Big", 2147483647), ("Small", -2147483648), ("Mid", 65536), ("Nul", 0))
E_W256 = en("Over", ("First", 1), ("Edge", 256))
E_U16 = en("Ushort", ("Hi", 32768), ("Lo", 7))
E_ONE = en("Single", ("Only", 42))

def base():
    return P("scalars", [st("OneByte", B("b", "byte")), st("OneBool", B("t", "bool")), st("Ints", *[B(t + "M", t) for t in BASE if "int" in t]),
                         st("Floats", B("f", "float"), B("d", "double")), st("Str", B("s", "string")),
                         st("All", *[B("m" + t.capitalize(), t) for t in BASE + ["string"]]),
                         st("Empty"), st("Mixed", B("x1", "bool"), B("x2", "int64"), B("x3", "byte"), B("x4", "double"), B("x5", "int16"), B("x6", "float"))])

def lists():
    return P("lists", [st("L" + t.capitalize(), L("v", t)) for t in BASE + ["string"]] +
             [st("AllLists", *[L("m" + t.capitalize(), t) for t in BASE + ["string"]]),
              st("Interleaved", B("a", "byte"), L("b", "uint16"), B("c", "string"), L("d", "string"), B("e", "bool"), L("f", "bool"))])

def enums():
    es = [E_DENSE, E_GAP, E_NEG, E_WIDE, E_W256, E_U16, E_ONE]
    return P("enumy", [st("M" + e["name"], B("one", e["name"]), L("many", e["name"])) for e in es] +
             [st("InStruct", B("h", "Holder"), B("x", "byte")), st("InSimple", B("s", "SimpleHolder")), st("InSimpleList", L("s", "SimpleHolder"), B("z", "byte")),
              st("Deep", B("o", "Outer"), L("ol", "Outer")), st("SimpleDeep", B("sd", "SimpleOuter"), L("sdl", "SimpleOuter"))],
             [st("Holder", B("d", "Dense"), L("gs", "Gap"), B("n", "Neg")), st("SimpleHolder", B("pre", "byte"), B("w", "Wide"), B("g", "Gap")),
              st("SimpleOuter", B("i", "SimpleHolder"), B("k", "Over"), B("j", "SimpleHolder")),
              st("Outer", B("h", "Holder"), L("hs", "Holder"), B("so", "SimpleHolder"), L("sos", "SimpleHolder"))], es)

def enum_edges():
    """Enums whose extreme values are exactly at, or one beyond, the borders of the encodings."""
    tops = [("T255", 0, 255), ("T256", 0, 256), ("T32767", 0, 32767), ("T32768", 0, 32768), ("T65535", 3, 65535), ("T65536", 0, 65536), ("Tmax", 0, 2147483647),
            ("Bm1", -1, 0), ("Bm1t255", -1, 255), ("Bm128", -128, 127), ("Bm32768", -32768, 0), ("Bm32769", -32769, 0), ("Bmin", -2147483648, 0), ("Bm1t32768", -1, 32768), ("Bm1t65535", -1, 65535)]
    es = [en(n, ("Hi", hi), ("Lo", lo)) if i % 2 else en(n, ("Lo", lo), ("Hi", hi)) for i, (n, lo, hi) in enumerate(tops)]
    return P("edgy", [st("One", *[B("m" + e["name"], e["name"]) for e in es]), st("Lists", *[L("m" + e["name"], e["name"]) for e in es]), st("Sub", B("s", "Fixed"), L("l", "Fixed"))],
             [st("Fixed", *[B("m" + e["name"], e["name"]) for e in es])], es)

def nest():
    return P("nesty", [st("Tree", B("root", "Branch"), L("roots", "Branch")), st("Flat", B("p", "Point"), L("ps", "Point")),
                       st("Lines", B("l", "Line"), L("ls", "Line"), B("tail", "string")), st("Texts", B("t", "Text"), L("ts", "Text")),
                       st("Empties", B("e", "Nothing"), L("es", "Nothing"), B("after", "uint16"))],
             [st("Point", B("x", "float"), B("y", "float")), st("Line", B("a", "Point"), B("b", "Point"), B("w", "byte")),
              st("Nothing"), st("Text", B("s", "string"), L("items", "string")),
              st("Leaf", L("items", "int16"), B("name", "string")), st("Twig", L("items", "Leaf"), B("p", "Point"), L("names", "string")),
              st("Branch", L("items", "Twig"), B("twig", "Twig"), L("lines", "Line"), B("c", "byte"))])

def order():
    """Structs declared after the structs that use them."""
    return P("forward", [st("Msg", B("o", "Outermost"), L("os", "Outermost"), B("k", "Kind"))],
             [st("Outermost", B("m", "Middle"), L("ms", "Middle"), B("f", "FlatOuter")), st("FlatOuter", B("i", "FlatInner"), B("z", "uint16")),
              st("Middle", B("n", "Innermost"), B("t", "string")), st("FlatInner", B("q", "int32"), B("k", "Kind")), st("Innermost", L("v", "double"), B("k", "Kind"))],
             [en("Kind", "Kone", "Ktwo")])

def sized(lst, s, id):
    return P(id, [st("Strs", B("s", "string"), L("ss", "string")), st("Nums", L("n", "int32"), L("b", "bool"), L("e", "En")),
                  st("Boxes", B("x", "Bx"), L("xs", "Bx"), B("end", "byte")), st("Pts", L("p", "Pt"), B("q", "Pt"))],
             [st("Bx", B("s", "string"), L("l", "byte"), L("ss", "string"), L("ps", "Pt")), st("Pt", B("x", "uint16"), B("y", "int64"))],
             [en("En", ("Q", 3), ("R", 300))], lst, s)

def many(n, id="many"):
    return P(id, [st("Kind%03d" % i, *([B("v", "byte")] if i % 3 == 0 else [B("s", "string")] if i % 3 == 1 else [])) for i in range(n)])

def stream():
    return P("strm", [st("Nil"), st("One", B("b", "byte")), st("Txt", B("s", "string")), st("Nums", L("n", "int16")), st("Col", B("c", "Color"), L("cs", "Color")),
                      st("One2", B("b", "byte")), st("Parcel", B("t", "Tag"), L("ts", "Tag"))],
             [st("Tag", B("c", "Color"), B("s", "string"))], [en("Color", ("Red", 1), ("Green", 2), ("Blue", 4))])

def nons():
    s = P("bare", [st("Hello", B("s", "string"), L("l", "Pair")), st("World", B("p", "Pair"), B("e", "Mode"))], [st("Pair", B("a", "byte"), B("b", "string"))], [en("Mode", "On", "Off")])
    s["ns"] = None
    return s

def locals_():
    """Member names that generated code might also use for its own variables."""
    names = ["data", "buffer", "len", "length", "size", "offset", "position", "reader", "writer", "input", "output", "result", "err", "i", "j", "n", "m",
             "r", "w", "b", "src", "dst", "bytes", "tag", "msg", "value", "index", "count", "bytesRead", "el", "br", "bw", "da", "dv", "buf", "out_", "numBytes", "retVal", "i1", "i2", "s_len_", "local", "list_read", "read", "write", "allocator", "state", "list", "item", "items_count", "temp", "ret", "res", "x_len_", "nElements"]
    names = [x for x in names if x not in ("list",)]
    half = names[:]
    return P("namey", [st("Scal", *[B(x, "uint16") for x in half]), st("Strg", *[B(x, "string") for x in half[:30]]), st("Lst", *[L(x, "uint16") for x in half[:30]]),
                       st("LstStr", *[L(x, "string") for x in half[:20]]), st("Stru", *[B(x, "Sub") for x in half[:20]]), st("StruL", *[L(x, "Sub") for x in half[:20]]),
                       st("Flt", *[B(x, "Flat") for x in half[:20]]), st("En", *[B(x, "Mode") for x in half[:20]]), st("EnL", *[L(x, "Mode") for x in half[:20]])],
             [st("Sub", *[L(x, "byte") for x in half[:24]], *[B(x, "string") for x in half[24:30]]), st("Flat", *[B(x, "int16") for x in half[:24]])], [en("Mode", "On", "Off")])

def lenlike():
    """x and x_len side by side (a distinct member that only looks like a length)."""
    return P("lenny", [st("A", B("name", "string"), B("nameLen", "uint16"), L("items", "byte"), B("itemsLen", "uint32"), L("itemsLenLen", "byte")), st("B", B("nameLen", "uint32"), B("name", "string"), B("itemsLen", "uint32"), L("items", "byte"), L("itemsLenLen", "uint16"))])

def derived():
    """Member names that look like others with something added."""
    m = [B("door", "Mode"), B("doorRead", "Mode"), B("door_el", "Mode"), L("doors", "Mode"), B("doorsRead", "Mode"), B("doors_el", "byte"), L("doors_Read", "Sub"), B("nSub", "Sub"), L("sub", "Sub"), B("subEls", "string"), B("sub_el", "Sub"), L("els", "string"), B("els_el", "string"), B("size2", "Flat")]
    return P("derivy", [st("Msg", *m), st("nMsg", *m[::-1])], [st("Sub", *m[:6]), st("Flat", *m[:3])], [en("Mode", "On", "Off")])

def cases():
    """Names in different case conventions."""
    return P("casey", [st("CamelCase", B("camelCase", "byte"), B("PascalCase", "uint16"), B("snake_case", "string"), B("UPPER", "bool"), B("HTTPServer2Go", "int32"), L("someListOf", "innerThing")),
                       st("Lowercase", B("x", "byte"), B("y1z", "innerThing"))],
             [st("innerThing", B("aB", "byte"), B("cD", "string"))], [])

def samenames():
    """Members named like types."""
    return P("samey", [st("Msg", B("Color", "Color"), B("Point", "Point"), L("Other", "byte"), L("Points", "Point")), st("Other", B("Msg", "byte"), B("Other2", "Color"))],
             [st("Point", B("Color", "Color"), B("x", "byte")), st("Pointy", B("Point", "Point"), L("Color", "string"))], [en("Color", "Red", "Green")])

def prefixes():
    """Names that begin other names; entries shared between enums; enums of 256 and 257 entries."""
    return P("prefixy", [st("Pi", B("x", "Po")), st("Ping", B("x", "PointList"), L("l", "Point")), st("PingPong", L("pi", "Po"), B("pin", "Power"), B("ping", "Most"), B("pi2", "More"), L("more", "More"))],
             [st("Po", B("p", "byte")), st("Point", B("p", "Po"), B("po", "Pow")), st("PointList", L("items", "Point")), st("PointListList", L("items", "PointList"))],
             [en("Pow", "A", "AB"), en("Power", "B", "AB", "A"), en("Most", *["M%d" % i for i in range(256)]), en("More", *["M%d" % i for i in range(257)])])


def curated():
    out = [base(), lists(), enums(), enum_edges(), nest(), order(), stream(), nons(), cases(), lenlike(), samenames(), prefixes(), many(130)]
    combos = [("byte", "byte"), ("uint16", "int16"), ("int16", "uint16"), ("int32", "byte"), ("byte", "uint32"), ("uint64", "int32"), ("int64", "uint64"), ("uint32", "int64"), ("int16", "int16"), ("int32", "uint64"), ("uint16", None), (None, "byte")]
    for i, (l, s) in enumerate(combos): out.append(sized(l, s, "sized%d" % i))
    return out
