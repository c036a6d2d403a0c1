"""Go driver: glue from one generated package to the schema-driven main program."""
import os
from ..schema import View


def glue(s, idx, pkg):
    v = View(s)
    o = ["package main", "import (", '\t"io"', f'\tg{idx} "vbgo/{pkg}"', ")", f"func init() {{ schemas[{idx}] = &Schema{{", "New: []func() any{"]
    g = f"g{idx}"
    for m in v.messages: o.append(f"func() any {{ return {g}.New{m['name']}Default() }},")
    o.append("},\nFrom: []func(io.Reader) (any, error){")
    for m in v.messages: o.append(f"func(r io.Reader) (any, error) {{ m, e := {g}.{m['name']}FromBytes(r); return m, e }},")
    o.append("},\nConsts: []int{" + ", ".join(f"int({g}.{m['name']}Type)" for m in v.messages) + "},")
    o.append(f"Type: func(m any) int {{ return int(m.({g}.Message).GetMessageType()) }},")
    conv = "o := []any{}; for _, m := range l { o = append(o, m) }; return o, nil"
    o.append(f"Process: func(r io.Reader, max int) ([]any, error) {{ l, e := {g}.ProcessRawBytes(r, max); if e != nil {{ return nil, e }}; {conv} }},")
    o.append(f"Unpack: func(r io.Reader) ([]any, error) {{ l, e := {g}.UnpackMessages(r); if e != nil {{ return nil, e }}; {conv} }},")
    o.append(f"Pack: func(l []any, w io.Writer) {{ o := []{g}.Message{{}}; for _, m := range l {{ o = append(o, m.({g}.Message)) }}; {g}.PackMessages(o, w) }},")
    o.append(f"Packed: func(l []any) int {{ o := []{g}.Message{{}}; for _, m := range l {{ o = append(o, m.({g}.Message)) }}; return {g}.GetPackedSize(o) }},")
    o.append("}}")
    return "\n".join(o) + "\n"
