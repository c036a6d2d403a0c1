#include "vb.h"
static char* toks; static char* line;
/* ---- tracked allocator: counts, fails on demand, knows live blocks */
#define HMAX (1u<<20)
static void** live_tab; static uint8_t* live_own; static size_t live_n; static long own_n[16]; static int owner; static int fired; static long n_alloc, n_bad, fail_at; static int zero_null;
static size_t hsh(void* p) { return (size_t)(((uintptr_t)p >> 4) * 11400714819323198485ull) & (HMAX-1); }
static void t_add(void* p) { size_t h = hsh(p); while (live_tab[h] && live_tab[h] != (void*)1) h = (h+1)&(HMAX-1); live_tab[h] = p; live_own[h] = (uint8_t)owner; own_n[owner]++; live_n++; }
static int t_del(void* p) { size_t h = hsh(p); while (live_tab[h]) { if (live_tab[h] == p) { live_tab[h] = (void*)1; own_n[live_own[h]]--; live_n--; return 1; } h = (h+1)&(HMAX-1); } return 0; }
void* vb_malloc(size_t n) {
    if (n == 0 && zero_null) return NULL;
    if (n) n_alloc++; /* an empty allocation that gives NULL is no failure */
    if (n && fail_at && n_alloc == fail_at) { fired = 1; return NULL; }
    if (n > ((size_t)1 << 31)) return NULL;
    void* p = malloc(n); if (!p) { fprintf(stderr, "driver: out of memory\n"); exit(97); }
    memset(p, 0xA5, n); t_add(p); return p;
}
void vb_free(void* p) { if (!p) return; if (!t_del(p)) { n_bad++; return; } free(p); }
void* vb_realloc(void* p, size_t n) {
    if (!p) return vb_malloc(n);
    n_alloc++;
    if (fail_at && n_alloc == fail_at) { fired = 1; return NULL; }
    if (!t_del(p)) { n_bad++; return NULL; }
    void* q = realloc(p, n); if (!q) { fprintf(stderr, "driver: out of memory\n"); exit(97); }
    t_add(q); return q;
}
uint8_t* vb_raw(size_t n) { uint8_t* p = (uint8_t*)malloc(n ? n : 1); if (!p) exit(97); memset(p, 0xAA, n ? n : 1); return p; }
bool vb_intact(const uint8_t* p, size_t from, size_t to) { for (size_t i = from; i < to; i++) if (p[i] != 0xAA) return false; return true; }
/* ---- tokens */
const char* vb_tok(void) { char* t = strtok(toks, " \n"); toks = NULL; if (!t) { fprintf(stderr, "driver: token underrun\n"); exit(98); } return t; }
uint64_t vb_u(void) { return strtoull(vb_tok(), NULL, 10); }
int64_t vb_i(void) { return strtoll(vb_tok(), NULL, 10); }
static int hx(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
char* vb_str(size_t* len) { /* tracked, NUL-terminated for convenience */
    const char* t = vb_tok() + 1; size_t n = strlen(t) / 2; char* s = (char*)vb_malloc(n + 1);
    for (size_t i = 0; i < n; i++) s[i] = (char)(hx(t[2*i]) * 16 + hx(t[2*i+1]));
    s[n] = 0; *len = n; return s;
}
uint8_t* vb_hex(size_t* len) { /* "x" prefix; plain malloc */
    const char* t = vb_tok() + 1; size_t n = strlen(t) / 2; uint8_t* s = vb_raw(n);
    for (size_t i = 0; i < n; i++) s[i] = (uint8_t)(hx(t[2*i]) * 16 + hx(t[2*i+1]));
    *len = n; return s;
}
static char* ob; static size_t on, oc;
static void outn(const char* s, size_t n) { if (on + n + 1 > oc) { oc = (on + n + 1) * 2; ob = (char*)realloc(ob, oc); if (!ob) exit(97); } memcpy(ob + on, s, n); on += n; }
void vb_w(const char* s) { outn(" ", 1); outn(s, strlen(s)); }
void vb_pu(uint64_t v) { char b[32]; snprintf(b, 32, "%" PRIu64, v); vb_w(b); }
void vb_pi(int64_t v) { char b[32]; snprintf(b, 32, "%" PRId64, v); vb_w(b); }
void vb_pf(float f) { uint32_t u; memcpy(&u, &f, 4); vb_pu(u); }
void vb_pd(double f) { uint64_t u; memcpy(&u, &f, 8); vb_pu(u); }
float vb_f(void) { uint32_t u = (uint32_t)vb_u(); float f; memcpy(&f, &u, 4); return f; }
double vb_d(void) { uint64_t u = vb_u(); double f; memcpy(&f, &u, 8); return f; }
static void hexn(char pre, const uint8_t* b, size_t n) { static const char* H = "0123456789abcdef"; outn(" ", 1); outn(&pre, 1); for (size_t i = 0; i < n; i++) { char c[2] = { H[b[i] >> 4], H[b[i] & 15] }; outn(c, 2); } }
void vb_ps(const char* s, uint64_t len) { hexn('s', (const uint8_t*)s, (size_t)len); }
void vb_pz(const char* s, uint64_t len) { /* a C string: its length, and the NUL which ends it */
    if (s ? s[len] != 0 : len != 0) vb_ps("\xff" "not NUL-terminated", 19); else vb_ps(s, len);
}
void vb_phex(const uint8_t* b, size_t n) { hexn('x', b, n); }
void vb_mem(void) { vb_w("M"); vb_pi(n_alloc); vb_pi((int64_t)live_n); vb_pi(n_bad); }
void vb_step(int o, long fail) { owner = o; fail_at = fail; n_alloc = 0; n_bad = 0; fired = 0; }
void vb_after(void) { fail_at = 0; vb_w("#"); vb_pi(fired); vb_pi(n_bad); for (int i = 1; i <= 5; i++) vb_pi(own_n[i]); }
bool vb_leave_failed = false;
extern vb_op vb_table[]; extern const int vb_table_n;
int main(void) {
    live_tab = (void**)calloc(HMAX, sizeof(void*)); live_own = (uint8_t*)calloc(HMAX, 1); size_t cap = 0; ssize_t got;
    while ((got = getline(&line, &cap, stdin)) > 0) {
        toks = line; on = 0;
        /* id schema op failAt zeroNull ... */
        const char* id = vb_tok(); int sch = atoi(vb_tok()); char op = vb_tok()[0]; fail_at = 0; long fa = atol(vb_tok()); zero_null = 0; int zn = atoi(vb_tok());
        char idb[64]; snprintf(idb, 64, "%s", id);
        n_alloc = 0; n_bad = 0; owner = 0; memset(own_n, 0, sizeof own_n); size_t live0 = live_n; live_n = 0; (void)live0;
        fail_at = fa; zero_null = zn;
        if (sch < 0 || sch >= vb_table_n || !vb_table[sch]) vb_w("noschema");
        else if (op == 'F') { /* an operation whose n-th allocation fails, then the same operation with memory available */
            char in = vb_tok()[0]; char* rest = strtok(NULL, "\n"); char* one = strdup(rest); char* two = strdup(rest);
            toks = one; vb_table[sch](in); free(one);
            vb_w("|"); fail_at = 0; toks = two; vb_table[sch](in); free(two);
        }
        else vb_table[sch](op);
        outn("", 1); printf("%s%s\n", idb, ob); fflush(stdout);
    }
    return 0;
}
