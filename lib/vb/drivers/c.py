"""C / C++ driver: one translation unit per schema over the generated single-file header."""
from ..schema import View

CT = {"byte": "uint8_t", "bool": "bool", "uint16": "uint16_t", "int16": "int16_t", "uint32": "uint32_t", "int32": "int32_t",
      "uint64": "uint64_t", "int64": "int64_t", "float": "float", "double": "double"}


def unit(s, header, idx, fn="vb_schema"):
    v = View(s)
    P = (v.ns + "_") if v.ns else "beschi_"
    U = P.upper()
    lst, st = CT[v.lst], CT[v.str]
    o = []
    a = o.append
    a('#include "vb.h"')
    a(f"#define {U}MALLOC(n) vb_malloc(n)\n#define {U}REALLOC(p,n) vb_realloc(p,n)\n#define {U}FREE(p) vb_free(p)")
    a(f"#define {U}IMPLEMENTATION\n#include \"{header}\"\n")

    def rd(t):
        k = v.kind(t)
        if k == "float": return "vb_f()"
        if k == "double": return "vb_d()"
        if k == "bool": return "(vb_u() != 0)"
        if k == "enum": return f"({P}{t})vb_i()"
        if k in ("int16", "int32", "int64"): return f"({CT[k]})vb_i()"
        return f"({CT[k]})vb_u()"

    def pr(t, e):
        k = v.kind(t)
        if k == "float": return f"vb_pf({e});"
        if k == "double": return f"vb_pd({e});"
        if k == "bool": return f"vb_pu({e} ? 1 : 0);"
        if k == "enum": return f"vb_pi((int64_t)({e}));"
        if k in ("int16", "int32", "int64"): return f"vb_pi({e});"
        return f"vb_pu({e});"

    def ctype(t):
        k = v.kind(t)
        return P + t if k in ("enum", "struct") else ("char*" if k == "string" else CT[k])

    def builder(name, members):
        a(f"static void b_{name}({P}{name}* m) {{ (void)m;")
        for n, t, l in members:
            k = v.kind(t)
            if l:
                a(f"  {{ size_t n = (size_t)vb_u(); m->{n}_len = ({lst})n; m->{n} = n ? ({ctype(t)}*)vb_malloc(n * sizeof({ctype(t)})) : NULL;")
                if k == "string":
                    # the element type is whatever the generated header declares
                    a(f"    size_t es = sizeof(*(m->{n}_els_len)); void* ev = n ? vb_malloc(n * es) : NULL; memcpy(&(m->{n}_els_len), &ev, sizeof ev);")
                    a(f"    for (size_t i = 0; i < n; i++) {{ size_t L; m->{n}[i] = vb_str(&L); m->{n}_els_len[i] = ({st})L; }} }}")
                elif k == "struct":
                    a(f"    for (size_t i = 0; i < n; i++) b_{t}(&m->{n}[i]); }}")
                else:
                    a(f"    for (size_t i = 0; i < n; i++) m->{n}[i] = {rd(t)}; }}")
            elif k == "string":
                a(f"  {{ size_t L; m->{n} = vb_str(&L); m->{n}_len = ({st})L; }}")
            elif k == "struct":
                a(f"  b_{t}(&m->{n});")
            else:
                a(f"  m->{n} = {rd(t)};")
        a("}")

    def printer(name, members):
        a(f"static void p_{name}(const {P}{name}* m) {{ (void)m;")
        for n, t, l in members:
            k = v.kind(t)
            if l:
                a(f"  vb_pu((uint64_t)m->{n}_len);")
                e = f"m->{n}[i]"
                body = f"vb_pz({e}, (uint64_t)m->{n}_els_len[i]);" if k == "string" else (f"p_{t}(&{e});" if k == "struct" else pr(t, e))
                a(f"  for (uint64_t i = 0; i < (uint64_t)m->{n}_len; i++) {{ {body} }}")
            elif k == "string":
                a(f"  vb_pz(m->{n}, (uint64_t)m->{n}_len);")
            elif k == "struct":
                a(f"  p_{t}(&m->{n});")
            else:
                a("  " + pr(t, f"m->{n}"))
        a("}")

    for sn in v.used_structs():
        builder(sn, v.structs[sn]["members"]); printer(sn, v.structs[sn]["members"])
    for m in v.messages:
        builder(m["name"], m["members"]); printer(m["name"], m["members"])

    def sw(fmt, indent="  "):
        """switch over message indices (1-based)"""
        a(f"{indent}switch (mi) {{")
        for i, m in enumerate(v.messages):
            a(f"{indent}case {i+1}: {fmt.replace('$', m['name'])} break;")
        a(f"{indent}default: break; }}")

    a("static void* mk(int mi) { void* o = NULL;")
    sw(f"{{ {P}$* x = ({P}$*)vb_malloc(sizeof({P}$)); if (!x) exit(97); *x = {P}$_default; b_$(x); o = x; }}")
    a("  (void)mi; return o; }")
    a("static void pm(int mi, const void* o) { (void)mi; (void)o;")
    sw(f"p_$((const {P}$*)o);")
    a("}")
    a("static size_t msz(int mi) { (void)mi;")
    sw(f"return sizeof({P}$);")
    a("  return 1; }")
    a("static void rmsg(void* o, int mi, bool own) { (void)mi; (void)o; (void)own;")
    sw(f"if (own) {P}$_Destroy(({P}$*)o); else {P}$_Cleanup(({P}$*)o);")
    a("}")
    a(f"static {P}err_t wr({P}DataAccess* w, int mi, const void* o, bool tag) {{ (void)w; (void)mi; (void)o; (void)tag;")
    sw(f"return {P}$_WriteBytes(w, (const {P}$*)o, tag);")
    a(f"  return 99; }}")
    a(f"static {P}err_t rdm({P}DataAccess* r, int mi, void* o) {{ (void)r; (void)mi; (void)o;")
    sw(f"return {P}$_FromBytes(r, ({P}$*)o);")
    a(f"  return 99; }}")
    a("static void* create(int mi) { (void)mi;")
    sw(f"return {P}$_Create();")
    a("  return NULL; }")
    a("static void copydef(int mi, void* o) { (void)mi; (void)o;")
    sw(f"memcpy(o, &{P}$_default, sizeof({P}$));")
    a("}")
    a("static void psize(int mi, const void* o) { size_t a_ = 0xFFFFFF, b_ = 0xFFFFFF; int e = 1; (void)mi; (void)o;")
    sw(f"e = {P}$_GetSizeInBytes((const {P}$*)o, &a_);")
    a(f"  if (e) vb_w(\"-1\"); else vb_pu(a_); if ({P}GetSizeInBytes(o, &b_)) vb_w(\"-1\"); else vb_pu(b_); }}")
    a("static void perr(int e) { vb_w(\"err\"); vb_w(e == 1 ? \"eof\" : e == 2 ? \"invalid\" : e == 3 ? \"alloc\" : \"other\"); }")
    a(r"""
static void op_write(bool generic) {
  int mi = (int)vb_i(); bool tag = vb_i() != 0; size_t total = (size_t)vb_u(), vo = (size_t)vb_u(), cap = (size_t)vb_u(), off = (size_t)vb_u();
  void* o = mk(mi); uint8_t* u = vb_raw(total); NSDataAccess w; w.buffer = u + vo; w.bufferSize = cap; w.position = off;
  int e = generic ? NSWriteBytes(&w, o, tag) : wr(&w, mi, o, tag);
  if (e) { perr(e); psize(mi, o); vb_pu(vb_intact(u, 0, vo + off) && vb_intact(u, vo + cap, total)); }
  else { size_t end = w.position; vb_w("ok"); psize(mi, o); vb_pu(end); vb_pu(vb_intact(u, 0, vo + off) && (end >= off && end <= cap) && vb_intact(u, vo + end, total));
    if (end >= off && end <= cap) vb_phex(u + vo + off, end - off); else vb_w("x"); }
  free(u); rmsg(o, mi, true); vb_mem(); }
static uint8_t* view(NSDataAccess* r, size_t* total) {
  size_t vo = (size_t)vb_u(), off = (size_t)vb_u(), trail = (size_t)vb_u(), n; uint8_t* d = vb_hex(&n); *total = vo + off + n + trail;
  uint8_t* u = vb_raw(*total); memcpy(u + vo + off, d, n); free(d); r->buffer = u + vo; r->bufferSize = off + n; r->position = off; return u; }
static void op_read(void) {
  int mi = (int)vb_i(); int style = (int)vb_i(); NSDataAccess r; size_t total; uint8_t* u = view(&r, &total);
  size_t ms = msz(mi); bool own = (style & 1) == 0; void* o = own ? vb_malloc(ms) : malloc(ms); if (!own) memset(o, 0x5A, ms);
  if (o == NULL) { vb_w("err alloc"); free(u); vb_mem(); return; }
  int e = rdm(&r, mi, o);
  memset(u, 0xEE, total ? total : 1); free(u); /* reading copies everything it needs */
  if (e) perr(e); else { vb_w("ok"); vb_pu(r.position); vb_pu((uint64_t)NSGetMessageType(o)); pm(mi, o); }
  rmsg(o, mi, own); if (!own) free(o); vb_mem(); }
static void plist(void** l, size_t n) { vb_pu(n); for (size_t i = 0; i < n; i++) { int mi = (int)NSGetMessageType(l[i]); vb_pi(mi); if (mi) pm(mi, l[i]); } }
static void op_proc(bool unpack) {
  int32_t max = unpack ? 0 : (int32_t)vb_i(); NSDataAccess r; size_t total; uint8_t* u = view(&r, &total); void** l = NULL; size_t n = 0;
  int e = unpack ? NSUnpackMessages(&r, &l, &n) : NSProcessRawBytes(&r, max, &l, &n);
  memset(u, 0xEE, total ? total : 1); free(u);
  if (e) { perr(e); if (l) { vb_w("list"); plist(l, n); } } else { vb_w("ok"); vb_pu(r.position); plist(l, n); }
  if (l) { NSDestroyMessageList(l, n); }
  vb_mem(); }
static void op_pack(void) {
  size_t total = (size_t)vb_u(), vo = (size_t)vb_u(), cap = (size_t)vb_u(), off = (size_t)vb_u(); size_t n = (size_t)vb_u();
  void** l = (void**)vb_malloc(n ? n * sizeof(void*) : 1); for (size_t i = 0; i < n; i++) l[i] = mk((int)vb_i());
  uint8_t* u = vb_raw(total); NSDataAccess w; w.buffer = u + vo; w.bufferSize = cap; w.position = off; size_t ps = 0xFFFFFF;
  int e2 = NSGetPackedSize(l, n, &ps); int e = NSPackMessages(l, n, &w); size_t end = w.position;
  if (e) { perr(e); if (e2) vb_w("-1"); else vb_pu(ps); vb_pu(vb_intact(u, 0, vo + off) && vb_intact(u, vo + cap, total)); }
  else { vb_w("ok"); if (e2) vb_w("-1"); else vb_pu(ps); vb_pu(end); vb_pu(vb_intact(u, 0, vo + off) && end >= off && end <= cap && vb_intact(u, vo + end, total));
    if (end >= off && end <= cap) vb_phex(u + vo + off, end - off); else vb_w("x"); }
  free(u); NSDestroyMessageList(l, n); vb_mem(); }
static void op_seq(void) { /* write a sequence through one accessor, read it back through one accessor */
  size_t vo = (size_t)vb_u(), off = (size_t)vb_u(), trail = (size_t)vb_u(), cap = (size_t)vb_u(); size_t n = (size_t)vb_u(); size_t total = vo + cap + trail;
  uint8_t* u = vb_raw(total); NSDataAccess w; w.buffer = u + vo; w.bufferSize = cap; w.position = off; int* mis = (int*)malloc((n + 1) * sizeof(int)); bool* tags = (bool*)malloc((n + 1) * sizeof(bool));
  vb_w("ok"); size_t i; int e = 0;
  for (i = 0; i < n; i++) { mis[i] = (int)vb_i(); tags[i] = vb_i() != 0; void* o = mk(mis[i]); if (!e) { e = wr(&w, mis[i], o, tags[i]); if (!e) { vb_w("w"); vb_pu(w.position); } else { vb_w("werr"); } } rmsg(o, mis[i], true); }
  size_t end = w.position;
  if (!e) { vb_w("b"); vb_pu(vb_intact(u, 0, vo + off) && end >= off && end <= cap && vb_intact(u, vo + end, total)); vb_phex(u + vo + off, (end >= off && end <= cap) ? end - off : 0);
    NSDataAccess r; r.buffer = u + vo; r.bufferSize = cap; r.position = off;
    for (i = 0; i < n; i++) {
      if (tags[i]) { void** l = NULL; size_t k = 0; int e2 = NSProcessRawBytes(&r, 1, &l, &k); if (e2) vb_w("rerr"); else { vb_w("t"); vb_pu(r.position); plist(l, k); } if (l) NSDestroyMessageList(l, k); if (e2) break; }
      else { size_t ms = msz(mis[i]); void* o = vb_malloc(ms); int e2 = rdm(&r, mis[i], o); if (e2) { vb_w("rerr"); } else { vb_w("r"); vb_pu(r.position); vb_pu((uint64_t)NSGetMessageType(o)); pm(mis[i], o); } rmsg(o, mis[i], true); if (e2) break; } } }
  free(mis); free(tags); free(u); vb_mem(); }
static void op_default(void) {
  int mi = (int)vb_i(); int style = (int)vb_i(); void* o = NULL; (void)mi;
  if (style == 0) {""".replace("NS", P))
    sw(f"o = {P}$_Create();", "    ")
    a("  } else if (style == 1) {")
    sw(f"o = vb_malloc(sizeof({P}$)); if (o) memcpy(o, &{P}$_default, sizeof({P}$));", "    ")
    a("  } else {")
    sw(f"o = malloc(sizeof({P}$)); if (o) memcpy(o, &{P}$_default, sizeof({P}$));", "    ")
    a(r"""  }
  if (!o) { vb_w("err alloc"); vb_mem(); return; }
  size_t cap = 1 << 16; uint8_t* u = vb_raw(cap); NSDataAccess w; w.buffer = u; w.bufferSize = cap; w.position = 0; int e = wr(&w, mi, o, true);
  vb_w("ok"); psize(mi, o); vb_pu((uint64_t)NSGetMessageType(o)); if (e) vb_w("x"); else vb_phex(u, w.position); pm(mi, o);
  free(u); rmsg(o, mi, style != 2); if (style == 2) free(o); vb_mem(); }
static void hist_pack(void** l, size_t n) {
  size_t ps = 0; if (NSGetPackedSize(l, n, &ps)) { vb_w("err size"); return; }
  uint8_t* u = vb_raw(ps + 8); NSDataAccess w; w.buffer = u; w.bufferSize = ps; w.position = 0; int e = NSPackMessages(l, n, &w);
  if (e) perr(e); else { vb_w("ok"); vb_phex(u, w.position); } free(u); }
static void op_hist(void) { /* a history of calls; see Lifecycle.tla */
  void* o[4] = {0}; int om[4] = {0}; bool heap[4] = {0}; void** l[3] = {0}; size_t ln[3] = {0};
  size_t steps = (size_t)vb_u();
  while (steps--) {
    char op = vb_tok()[0]; long f = (long)vb_i(); int i = (int)vb_i(); vb_w(";");
    switch (op) {
    case 'c': om[i] = (int)vb_i(); heap[i] = true; vb_step(i, f); o[i] = create(om[i]); if (o[i]) { vb_w("ok"); vb_pu((uint64_t)NSGetMessageType(o[i])); pm(om[i], o[i]); } else vb_w("err alloc"); break;
    case 's': om[i] = (int)vb_i(); heap[i] = false; vb_step(i, f); o[i] = malloc(msz(om[i])); copydef(om[i], o[i]); vb_w("ok"); vb_pu((uint64_t)NSGetMessageType(o[i])); pm(om[i], o[i]); break;
    case 'b': om[i] = (int)vb_i(); heap[i] = true; vb_step(i, f); o[i] = mk(om[i]); vb_w("ok"); vb_pu((uint64_t)NSGetMessageType(o[i])); pm(om[i], o[i]); break;
    case 'r': { size_t off = (size_t)vb_u(), n; uint8_t* d = vb_hex(&n); uint8_t* u = vb_raw(off + n); memcpy(u + off, d, n); free(d);
      NSDataAccess r; r.buffer = u; r.bufferSize = off + n; r.position = off; vb_step(i, f); int e = rdm(&r, om[i], o[i]); memset(u, 0xEE, off + n); free(u);
      if (e) perr(e); else { vb_w("ok"); vb_pu(r.position); vb_pu((uint64_t)NSGetMessageType(o[i])); pm(om[i], o[i]); } break; }
    case 'w': { bool tag = vb_i() != 0; size_t sz = 0; vb_step(i, f); if (NSGetSizeInBytes(o[i], &sz)) { vb_w("err size"); break; } uint8_t* u = vb_raw(sz + 1); NSDataAccess w; w.buffer = u; w.bufferSize = sz + tag; w.position = 0;
      int e = wr(&w, om[i], o[i], tag); if (e) perr(e); else { vb_w("ok"); vb_phex(u, w.position); } free(u); break; }
    case 'g': { size_t sz = 0; vb_step(i, f); if (NSGetSizeInBytes(o[i], &sz)) vb_w("err size"); else { vb_w("ok"); vb_pu(sz); } break; }
    case 'k': vb_step(i, f); rmsg(o[i], om[i], false); vb_w("ok"); break;
    case 'd': { int g = (int)vb_i(); vb_step(i, f); if (o[i]) { if (g) { if (NSDestroy(o[i])) vb_w("err destroy"); else vb_w("ok"); } else { rmsg(o[i], om[i], true); vb_w("ok"); } } else vb_w("ok"); o[i] = NULL; break; }
    case 'x': vb_step(i, f); if (heap[i]) vb_free(o[i]); else free(o[i]); o[i] = NULL; vb_w("ok"); break;
    case 'P': case 'U': { int32_t max = op == 'P' ? (int32_t)vb_i() : 0; size_t n; uint8_t* u = vb_hex(&n); NSDataAccess r; r.buffer = u; r.bufferSize = n; r.position = 0; vb_step(3 + i, f);
      int e = op == 'P' ? NSProcessRawBytes(&r, max, &l[i], &ln[i]) : NSUnpackMessages(&r, &l[i], &ln[i]); memset(u, 0xEE, n); free(u);
      if (e) { perr(e); if (l[i]) plist(l[i], ln[i]); else vb_pu(0); } else { vb_w("ok"); plist(l[i], ln[i]); } break; }
    case 'D': vb_step(3 + i, f); if (l[i] && NSDestroyMessageList(l[i], ln[i])) vb_w("err destroy"); else vb_w("ok"); l[i] = NULL; break;
    case 'I': { int e = 0; vb_step(3 + i, f); if (l[i]) { for (size_t j = 0; j < ln[i]; j++) e |= (int)NSDestroy(l[i][j]); vb_free(l[i]); } l[i] = NULL; vb_w(e ? "err destroy" : "ok"); break; }
    case 'L': vb_step(3 + i, f); hist_pack(l[i], ln[i]); break;
    case 'K': { void* a[8]; int n = i; for (int j = 0; j < n; j++) a[j] = o[vb_i()]; vb_step(0, f); hist_pack(a, (size_t)n); break; }
    default: vb_w("badop"); }
    vb_after(); } }
static void op_types(void) { vb_w("ok");""".replace("NS", P))
    for m in v.messages:
        a(f"  vb_w(\"{m['name']}\"); vb_pu((uint64_t){P}MessageType_{m['name']}); vb_pu((uint64_t){P}GetMessageType(&{P}{m['name']}_default));")
    a("}")
    a('#ifdef __cplusplus\nextern "C"\n#endif')
    a(f"""void {fn}_{idx}(char op);
#ifdef __cplusplus
extern "C"
#endif
void {fn}_{idx}(char op) {{
  switch (op) {{ case 'W': op_write(false); break; case 'G': op_write(true); break; case 'R': op_read(); break; case 'P': op_proc(false); break; case 'U': op_proc(true); break;
    case 'K': op_pack(); break; case 'Q': op_seq(); break; case 'D': op_default(); break; case 'T': op_types(); break; case 'H': op_hist(); break; default: vb_w("badop"); }} }}""")
    return "\n".join(o) + "\n"


def table(idxs, n, fn="vb_schema"):
    o = ['#include "vb.h"', "#ifdef __cplusplus\nextern \"C\" {\n#endif"]
    for i in idxs: o.append(f"void {fn}_{i}(char op);")
    o.append(f"extern vb_op vb_table[]; extern const int vb_table_n;")
    o.append("vb_op vb_table[] = { " + ", ".join(f"{fn}_{i}" if i in idxs else "0" for i in range(n)) + ("" if n else "0") + " };")
    o.append(f"const int vb_table_n = {n};")
    o.append("#ifdef __cplusplus\n}\n#endif")
    return "\n".join(o) + "\n"
