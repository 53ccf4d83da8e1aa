/* Exhaustive explorer of the closed system stub | transport | skeleton | implementation.
   argv: MODE (call | perturb | ops) [filter: stub=,skel=,method=]                           */
#define _GNU_SOURCE
#include "h.h"
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

/* ------------------------------------------------------------ guarded memory */
#define NREG 220
#define REGSZ (256u << 10)
#define CAN 64
static uint8_t *reg[NREG]; static int nreg; static struct { uint8_t *p; size_t n; } live[NREG];
static void mem_init(void) {
  for (int i = 0; i < NREG; i++) {
    reg[i] = mmap(0, REGSZ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (reg[i] == MAP_FAILED) { perror("mmap"); _exit(9); }
    mprotect(reg[i] + REGSZ, 4096, PROT_NONE);
  }
}
static void *galloc(size_t n, int fill) {
  if (n == 0) return nreg ? reg[0] + REGSZ : (void *)0; /* zero length: a pointer that must not be followed */
  if (nreg >= NREG || n > REGSZ - CAN) { printf("HARNESS out of regions\n"); fflush(stdout); _exit(9); }
  uint8_t *p = reg[nreg] + REGSZ - n;
  memset(p - CAN, 0xA5, CAN); memset(p, fill, n);
  live[nreg].p = p; live[nreg].n = n; nreg++;
  return p;
}
static int canaries_ok(void) {
  for (int i = 0; i < nreg; i++) for (int j = 1; j <= CAN; j++) if (live[i].p[-j] != 0xA5) return 0;
  return 1;
}

/* ------------------------------------------------------------ reporting */
static char where[512]; static long nviol, ncalls, nvals, noutcomes;
static const char *only_stub, *only_skel, *only_method; static int mixed; static const char *oldn; static char skip[512];
static void viol(const char *prop, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#include <stdarg.h>
static void viol(const char *prop, const char *fmt, ...) {
  if (nviol++ > 60) return;
  va_list ap; va_start(ap, fmt); printf("V %s %s :: ", prop, where); vprintf(fmt, ap); printf("\n"); va_end(ap);
  fflush(stdout);
}
static void on_sig(int s) {
  char b[700]; int n = snprintf(b, sizeof b, "CRASH signal %d at %s\n", s, where);
  fflush(stdout); (void)!write(1, b, n); _exit(3);
}

/* ------------------------------------------------------------ counted objects */
typedef struct { int refs, id, dead; } HObj;
#define NOBJ 160
static HObj objs[NOBJ];
static int32_t hobj_invoke(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) {
  HObj *o = (HObj *)h; (void)a; (void)k;
  if (o < objs || o >= objs + NOBJ) { viol("C05", "invoke on a garbage object handle"); return Object_ERROR_BADOBJ; }
  switch (ObjectOp_methodID(op)) {
  case Object_OP_retain: if (o->refs <= 0) { viol("C05", "retain of object %d after its last release", o->id); } o->refs++; return 0;
  case Object_OP_release: if (o->refs <= 0) { viol("C05", "double release of object %d", o->id); } o->refs--; return 0;
  }
  return Object_ERROR_INVALID;
}
static Object hobj(int i) { return (Object){hobj_invoke, &objs[i]}; }
static void objs_reset(void) { for (int i = 0; i < NOBJ; i++) objs[i] = (HObj){1, i, 0}; }
static int objs_neutral(int *who) { for (int i = 0; i < NOBJ; i++) if (objs[i].refs != 1) { *who = i; return 0; } return 1; }
static Object getobj(const void *p) { Object o; memcpy(&o, p, sizeof o); return o; }
static int sameobj(Object a, Object b) { return a.invoke == b.invoke && (a.invoke == 0 || a.context == b.context); }

/* ------------------------------------------------------------ one call: what is expected */
#define MAXP 64
static struct {
  int iface, method; const MDesc *m;
  HArg in[MAXP];            /* what the caller passes (storage owned by us) */
  HArg want[MAXP];          /* what the implementation produces */
  int32_t status; int write_on_fail;
  int entered, in_ok; const char *skel;
  int rag_iface, rag_method, rag_param; size_t rag_size;
} cur;
static size_t psize(const PDesc *p, size_t n) { return p->kind == K_ARRAY ? p->el * n : p->kind == K_OBJARR ? 16u * p->arrn : p->el; }
static int nobjs(const PDesc *p) { return p->kind == K_OBJ ? 1 : p->kind == K_OBJARR ? (int)p->arrn : p->kind == K_OSTRUCT ? p->nobj : 0; }
static uint32_t objoff(const PDesc *p, int j) { return p->kind == K_OSTRUCT ? p->objoff[j] : 16u * j; }

static int cmp_value(const PDesc *p, const HArg *got, const HArg *exp, const char *what, const char *prop, int i) {
  size_t n = p->kind == K_ARRAY ? (p->out ? exp->lenout : exp->n) : 1;
  if (p->kind == K_ARRAY) {
    size_t g = p->out ? got->lenout : got->n;
    if (g != n) { viol(prop, "%s parameter %d: length %zu, expected %zu", what, i, g, n); return 0; }
  }
  size_t sz = psize(p, n);
  for (int j = 0; j < nobjs(p); j++) {
    Object a = getobj((char *)got->p + objoff(p, j)), b = getobj((char *)exp->p + objoff(p, j));
    if (!sameobj(a, b)) { viol(prop, "%s parameter %d: object %d differs", what, i, j); return 0; }
  }
  if (p->kind == K_OBJ || p->kind == K_OBJARR) return 1;
  for (size_t b = 0; b < sz; b++) {
    int isobj = 0;
    for (int j = 0; j < nobjs(p); j++) if (b >= objoff(p, j) && b < objoff(p, j) + 16) isobj = 1;
    if (!isobj && ((uint8_t *)got->p)[b] != ((uint8_t *)exp->p)[b]) {
      viol(prop, "%s parameter %d: byte %zu of %zu is %02x, expected %02x", what, i, b, sz, ((uint8_t *)got->p)[b], ((uint8_t *)exp->p)[b]);
      return 0;
    }
  }
  return 1;
}

int32_t h_impl(void *ctx, int iface, int method, HArg *a) {
  (void)ctx;
  cur.entered++;
  if (cur.iface == -7) { /* ragged array buffers: only the extents handed over matter */
    if (iface == cur.rag_iface && method == cur.rag_method && a[cur.rag_param].n * cur.m->p[cur.rag_param].el > cur.rag_size)
      viol("C04", "the implementation is given %zu elements of %u bytes in a buffer of %zu bytes", a[cur.rag_param].n, cur.m->p[cur.rag_param].el, cur.rag_size);
    return Object_ERROR;
  }
  if (iface != cur.iface || method != cur.method) {
    viol("C01", "the skeleton ran method %d of interface %d, expected %d of %d", method, iface, cur.method, cur.iface);
    viol("C07", "the skeleton ran method %d of interface %d, expected %d of %d", method, iface, cur.method, cur.iface);
    viol("C02", "the skeleton ran method %d of interface %d, expected %d of %d", method, iface, cur.method, cur.iface);
    return Object_ERROR;
  }
  const MDesc *m = cur.m;
  for (int i = 0; i < m->np; i++) {
    const PDesc *p = &m->p[i];
    if (!p->out) { if (!cmp_value(p, &a[i], &cur.in[i], "implementation input", "C01", i)) cur.in_ok = 0; continue; }
    if (p->kind == K_ARRAY && a[i].n != cur.in[i].n) { viol("C01", "implementation sees capacity %zu of output %d, caller gave %zu", a[i].n, i, cur.in[i].n); return Object_ERROR; }
  }
  if (cur.status && !cur.write_on_fail) return cur.status;
  for (int i = 0; i < m->np; i++) {
    const PDesc *p = &m->p[i];
    if (!p->out) continue;
    size_t n = p->kind == K_ARRAY ? cur.want[i].lenout : 1;
    memcpy(a[i].p, cur.want[i].p, psize(p, n));
    a[i].lenout = cur.want[i].lenout;
    if (cur.status == 0) for (int j = 0; j < nobjs(p); j++) { Object o = getobj((char *)cur.want[i].p + objoff(p, j)); if (!Object_isNull(o)) Object_retain(o); }
  }
  return cur.status;
}
static int drops; void h_drop(void *ctx) { (void)ctx; drops++; }

/* ------------------------------------------------------------ reference encoder */
static void ref_put_in(const MDesc *m, const HArg *in, ObjectArg *args) {
  int x = 0;
  for (int s = 0; s < m->n[0]; s++, x++) {
    const Slot *b = &m->bi[s];
    if (b->bundle) {
      uint8_t *d = galloc(b->size, 0);
      for (int j = 0; j < b->nm; j++) memcpy(d + b->m[j].off, in[b->m[j].param].p, b->m[j].size);
      args[x].b = (ObjectBuf){d, b->size};
    } else {
      const PDesc *p = &m->p[b->param]; size_t sz = psize(p, in[b->param].n);
      uint8_t *d = galloc(sz, 0); if (sz) memcpy(d, in[b->param].p, sz);
      if (p->kind == K_OSTRUCT) for (int j = 0; j < p->nobj; j++) memset(d + p->objoff[j], 0, 16);
      args[x].b = (ObjectBuf){d, sz};
    }
  }
  for (int s = 0; s < m->n[1]; s++, x++) {
    const Slot *b = &m->bo[s];
    size_t sz = b->bundle ? b->size : psize(&m->p[b->param], in[b->param].n);
    args[x].b = (ObjectBuf){galloc(sz, 0xCD), sz};
    if (!b->bundle && m->p[b->param].kind == K_OSTRUCT) { /* handles are blank in both directions */
      const PDesc *p = &m->p[b->param]; for (int j = 0; j < p->nobj; j++) memset((uint8_t *)args[x].b.ptr + p->objoff[j], 0, 16);
    }
  }
  for (int s = 0; s < m->n[2]; s++, x++) args[x].o = getobj((char *)in[m->oi[s].param].p + m->oi[s].off);
  for (int s = 0; s < m->n[3]; s++, x++) args[x].o = Object_NULL;
}
/* compare the out section of args with what the reference skeleton would have produced */
static void ref_check_out(const MDesc *m, const HArg *want, ObjectArg *args, const char *prop, const char *who) {
  int x = m->n[0];
  for (int s = 0; s < m->n[1]; s++, x++) {
    const Slot *b = &m->bo[s]; uint8_t *d = args[x].b.ptr;
    if (b->bundle) {
      if (args[x].b.size != b->size) { viol(prop, "%s: output bundle size %zu, expected %u", who, args[x].b.size, b->size); continue; }
      for (int j = 0; j < b->nm; j++) if (memcmp(d + b->m[j].off, want[b->m[j].param].p, b->m[j].size)) viol(prop, "%s: output bundle bytes of parameter %u at offset %u differ from the reference", who, b->m[j].param, b->m[j].off);
    } else {
      const PDesc *p = &m->p[b->param]; size_t sz = p->kind == K_ARRAY ? p->el * want[b->param].lenout : p->el;
      if (args[x].b.size != sz) { viol(prop, "%s: output buffer of parameter %d has size %zu, expected %zu", who, b->param, args[x].b.size, sz); continue; }
      uint8_t *tmp = malloc(sz + 1); memcpy(tmp, want[b->param].p, sz);
      if (p->kind == K_OSTRUCT) for (int j = 0; j < p->nobj; j++) memset(tmp + p->objoff[j], 0, 16);
      if (sz && memcmp(d, tmp, sz)) { size_t q = 0; while (d[q] == tmp[q]) q++; viol(prop, "%s: output buffer of parameter %d differs from the reference at byte %zu (%02x, expected %02x)", who, b->param, q, d[q], tmp[q]); }
      free(tmp);
    }
  }
}
static int32_t ref_stub(int iface, int method, Object self, HArg *a) {
  const MDesc *m = &h_ifaces[iface].m[method];
  int tot = m->n[0] + m->n[1] + m->n[2] + m->n[3];
  ObjectArg *args = galloc(sizeof(ObjectArg) * tot, 0);
  ref_put_in(m, a, args);
  int32_t r = Object_invoke(self, m->op, args, ObjectCounts_pack(m->n[0], m->n[1], m->n[2], m->n[3]));
  if (r) return r;
  int x = m->n[0];
  for (int s = 0; s < m->n[1]; s++, x++) {
    const Slot *b = &m->bo[s];
    if (b->bundle) for (int j = 0; j < b->nm; j++) memcpy(a[b->m[j].param].p, (uint8_t *)args[x].b.ptr + b->m[j].off, b->m[j].size);
    else {
      const PDesc *p = &m->p[b->param];
      if (p->kind == K_ARRAY) a[b->param].lenout = args[x].b.size / p->el;
      if (args[x].b.size <= psize(p, a[b->param].n)) memcpy(a[b->param].p, args[x].b.ptr, args[x].b.size);
    }
  }
  x += m->n[2];
  for (int s = 0; s < m->n[3]; s++, x++) memcpy((char *)a[m->oo[s].param].p + m->oo[s].off, &args[x].o, 16);
  return r;
}
typedef struct { int refs, iface; void *ctx; } RefSkel;
static int32_t ref_invoke(ObjectCxt h, ObjectOp op, ObjectArg *args, ObjectCounts k) {
  RefSkel *me = h;
  if (op == Object_OP_release) { if (--me->refs == 0) { h_drop(me->ctx); free(me); } return 0; }
  if (op == Object_OP_retain) { me->refs++; return 0; }
  const IDesc *I = &h_ifaces[me->iface];
  for (int q = 0; q < I->nm; q++) {
    const MDesc *m = &I->m[q];
    if (m->op != op) continue;
    if (k != ObjectCounts_pack(m->n[0], m->n[1], m->n[2], m->n[3])) return Object_ERROR;
    HArg a[MAXP]; memset(a, 0, sizeof a);
    for (int i = 0; i < m->np; i++) { const PDesc *p = &m->p[i]; if (p->kind != K_ARRAY) a[i].p = calloc(1, psize(p, 1)); }
    int x = 0;
    for (int s = 0; s < m->n[0]; s++, x++) {
      const Slot *b = &m->bi[s];
      if (b->bundle) { if (args[x].b.size != b->size) return Object_ERROR_INVALID;
        for (int j = 0; j < b->nm; j++) memcpy(a[b->m[j].param].p, (uint8_t *)args[x].b.ptr + b->m[j].off, b->m[j].size); }
      else { const PDesc *p = &m->p[b->param];
        if (p->kind == K_ARRAY) { a[b->param].p = args[x].b.ptr; a[b->param].n = args[x].b.size / p->el; }
        else { if (args[x].b.size != p->el) return Object_ERROR_INVALID; memcpy(a[b->param].p, args[x].b.ptr, p->el); } }
    }
    for (int s = 0; s < m->n[1]; s++, x++) {
      const Slot *b = &m->bo[s];
      if (b->bundle) { if (args[x].b.size != b->size) return Object_ERROR_INVALID; }
      else { const PDesc *p = &m->p[b->param];
        if (p->kind == K_ARRAY) { a[b->param].p = args[x].b.ptr; a[b->param].n = args[x].b.size / p->el; }
        else if (args[x].b.size != p->el) return Object_ERROR_INVALID; }
    }
    for (int s = 0; s < m->n[2]; s++, x++) memcpy((char *)a[m->oi[s].param].p + m->oi[s].off, &args[x].o, 16);
    int32_t r = h_impl(me->ctx, me->iface, q, a);
    if (r == 0) {
      x = m->n[0];
      for (int s = 0; s < m->n[1]; s++, x++) {
        const Slot *b = &m->bo[s];
        if (b->bundle) for (int j = 0; j < b->nm; j++) memcpy((uint8_t *)args[x].b.ptr + b->m[j].off, a[b->m[j].param].p, b->m[j].size);
        else { const PDesc *p = &m->p[b->param];
          if (p->kind == K_ARRAY) args[x].b.size = a[b->param].lenout * p->el;
          else { memcpy(args[x].b.ptr, a[b->param].p, p->el); if (p->kind == K_OSTRUCT) for (int j = 0; j < p->nobj; j++) memset((uint8_t *)args[x].b.ptr + p->objoff[j], 0, 16); } }
      }
      x += m->n[2];
      for (int s = 0; s < m->n[3]; s++, x++) memcpy(&args[x].o, (char *)a[m->oo[s].param].p + m->oo[s].off, 16);
    }
    for (int i = 0; i < m->np; i++) if (m->p[i].kind != K_ARRAY) free(a[i].p);
    return r;
  }
  return Object_ERROR_INVALID;
}
static Object ref_skel(int iface, void *ctx, int partial) { (void)partial; RefSkel *s = malloc(sizeof *s); *s = (RefSkel){1, iface, ctx}; return (Object){ref_invoke, s}; }
static const Lang ref_lang = {"REF", ref_stub, ref_skel};

/* ------------------------------------------------------------ transport */
static struct { Object target; int direct, nulls, calls, refs; } tr;
static int32_t tr_invoke(ObjectCxt h, ObjectOp op, ObjectArg *args, ObjectCounts k) {
  (void)h;
  if (op == Object_OP_retain) { tr.refs++; return 0; }
  if (op == Object_OP_release) { tr.refs--; return 0; }
  const MDesc *m = cur.m; tr.calls++;
  size_t nb[4] = {ObjectCounts_numBI(k), ObjectCounts_numBO(k), ObjectCounts_numOI(k), ObjectCounts_numOO(k)};
  int envok = 1;
  if (op != m->op) { viol("C02", "op %u on the wire, expected %u", op, m->op); viol("C07", "op %u on the wire, expected %u", op, m->op); envok = 0; }
  if (k != (ObjectCounts)(m->n[0] | m->n[1] << 4 | m->n[2] << 8 | m->n[3] << 12)) {
    viol("C02", "counts word %#x, expected BI=%d BO=%d OI=%d OO=%d", k, m->n[0], m->n[1], m->n[2], m->n[3]); envok = 0; }
  if (envok) { /* section by section against the reference */
    int x = 0;
    for (int s = 0; s < m->n[0]; s++, x++) {
      const Slot *b = &m->bi[s]; size_t sz = b->bundle ? b->size : psize(&m->p[b->param], cur.in[b->param].n);
      if (args[x].b.size != sz) { viol("C02", "argument %d should be input buffer %d of %zu bytes, found size %zu", x, s, sz, args[x].b.size); viol("C03", "input buffer %d has size %zu, rule says %zu", s, args[x].b.size, sz); envok = 0; continue; }
      uint8_t *d = args[x].b.ptr, *tmp = malloc(sz + 1);
      if (b->bundle) for (int j = 0; j < b->nm; j++) memcpy(tmp + b->m[j].off, cur.in[b->m[j].param].p, b->m[j].size);
      else { const PDesc *p = &m->p[b->param]; memcpy(tmp, cur.in[b->param].p, sz); if (p->kind == K_OSTRUCT) for (int j = 0; j < p->nobj; j++) memset(tmp + p->objoff[j], 0, 16); }
      if (sz && memcmp(d, tmp, sz)) { size_t q = 0; while (d[q] == tmp[q]) q++; viol("C03", "input buffer %d (%s) differs from the reference at byte %zu of %zu (%02x, expected %02x)", s, b->bundle ? "bundle" : "discrete", q, sz, d[q], tmp[q]); }
      free(tmp);
    }
    for (int s = 0; s < m->n[1] && envok; s++, x++) {
      const Slot *b = &m->bo[s]; size_t sz = b->bundle ? b->size : psize(&m->p[b->param], cur.in[b->param].n);
      if (args[x].b.size != sz) { viol("C02", "argument %d should be output buffer %d of %zu bytes, found size %zu", x, s, sz, args[x].b.size); viol("C03", "output buffer %d has size %zu, rule says %zu", s, args[x].b.size, sz); envok = 0; }
    }
    for (int s = 0; s < m->n[2] && envok; s++, x++) {
      Object e = getobj((char *)cur.in[m->oi[s].param].p + m->oi[s].off);
      if (!sameobj(args[x].o, e)) { viol("C02", "argument %d should be input object %d (parameter %u)", x, s, m->oi[s].param); viol("C01", "argument %d should be input object %d (parameter %u)", x, s, m->oi[s].param); envok = 0; }
    }
  }
  if (tr.direct) return Object_invoke(tr.target, op, args, k);
  /* copying transport: moves only what counts and sizes describe */
  size_t tot = nb[0] + nb[1] + nb[2] + nb[3];
  ObjectArg *na = galloc(sizeof(ObjectArg) * tot, 0); size_t x = 0;
  for (; x < nb[0] + nb[1]; x++) {
    if (args[x].b.size > REGSZ / 2) { viol("C01", "argument %zu is described as a buffer of %zu bytes", x, args[x].b.size); return Object_ERROR_MAXDATA; }
    na[x].b.size = args[x].b.size; na[x].b.ptr = tr.nulls && !args[x].b.size ? (void *)0 : galloc(args[x].b.size, 0xCD);
    if (x < nb[0] && args[x].b.size) memcpy(na[x].b.ptr, args[x].b.ptr, args[x].b.size);
  }
  for (; x < nb[0] + nb[1] + nb[2]; x++) {
    na[x].o = args[x].o;
    if (na[x].o.invoke && na[x].o.invoke != hobj_invoke) { viol("C01", "argument %zu is described as an object but is none", x); return Object_ERROR_BADOBJ; }
  }
  for (; x < tot; x++) na[x].o = Object_NULL;
  ObjectArg *sv = malloc(sizeof(ObjectArg) * (tot + 1)); memcpy(sv, na, sizeof(ObjectArg) * tot);
  int32_t r = Object_invoke(tr.target, op, na, k);
  if (r == 0) {
    if (envok && cur.entered && strcmp(cur.skel, "REF")) {
      ref_check_out(m, cur.want, na, "C03", "skeleton");
      int y = m->n[0] + m->n[1] + m->n[2];
      for (int s = 0; s < m->n[3]; s++, y++) { Object e = getobj((char *)cur.want[m->oo[s].param].p + m->oo[s].off);
        if (!sameobj(na[y].o, e)) { viol("C02", "output object %d (parameter %u) is not in its slot", s, m->oo[s].param); viol("C01", "output object %d (parameter %u) is not in its slot", s, m->oo[s].param); } }
    }
    for (x = nb[0]; x < nb[0] + nb[1]; x++) {
      if (na[x].b.size > sv[x].b.size) { viol("C01", "skeleton reports %zu bytes in an output buffer of %zu", na[x].b.size, sv[x].b.size); continue; }
      if (na[x].b.size) memcpy(args[x].b.ptr, sv[x].b.ptr, na[x].b.size);
      args[x].b.size = na[x].b.size;
    }
    for (x = nb[0] + nb[1] + nb[2]; x < tot; x++) args[x].o = na[x].o;
  }
  free(sv);
  return r;
}

/* ------------------------------------------------------------ value domains */
static int ndom(const PDesc *p) {
  switch (p->kind) { case K_PRIM: case K_STRUCT: return 3; case K_ARRAY: return 4; case K_OBJ: return 3; default: return 5; }
}
static uint8_t pat(int v, int i, size_t j) { return v == 0 ? (uint8_t)(i * 41 + j * 11 + 1) : v == 1 ? 0 : 0xff; }
static void fill_objs(const PDesc *p, uint8_t *d, int v, int base) {
  int n = nobjs(p);
  for (int j = 0; j < n; j++) {
    Object o = hobj(base + j);
    if (p->kind == K_OBJ) o = v == 0 ? o : v == 1 ? Object_NULL : hobj(0);
    else if (v == 1 || (v == 2 && j == 0) || (v == 3 && j == n - 1)) o = Object_NULL;
    else if (v == 4) o = hobj(0);
    memcpy(d + objoff(p, j), &o, 16);
  }
}
static void make_in(const PDesc *p, int i, int v, HArg *a) { /* caller side storage */
  static const size_t lens[4] = {2, 0, 1, 5}, caps[4] = {2, 0, 3, 1}, louts[4] = {2, 0, 1, 0};
  memset(a, 0, sizeof *a); (void)louts;
  if (!p->out) {
    a->n = p->kind == K_ARRAY ? lens[v] : 1; size_t sz = psize(p, a->n);
    a->p = galloc(sz, 0);
    int dp = p->kind == K_PRIM || p->kind == K_STRUCT ? v : 0;
    for (size_t j = 0; j < sz; j++) ((uint8_t *)a->p)[j] = pat(dp, i, j);
    fill_objs(p, a->p, v, 1 + 3 * i);
  } else {
    a->n = p->kind == K_ARRAY ? caps[v] : 1; size_t sz = psize(p, a->n);
    a->p = galloc(sz, 0xEE); a->lenout = 0x7777;
    for (int j = 0; j < nobjs(p); j++) memset((uint8_t *)a->p + objoff(p, j), 0, 16);
  }
}
static uint8_t wantbuf[MAXP][REGSZ / 64];
static void make_want(const PDesc *p, int i, int v, HArg *a) {
  static const size_t louts[4] = {2, 0, 1, 0};
  memset(a, 0, sizeof *a); if (!p->out) return;
  a->lenout = p->kind == K_ARRAY ? louts[v] : 0; a->p = wantbuf[i];
  size_t sz = p->kind == K_ARRAY ? p->el * a->lenout : psize(p, 1);
  if (sz > sizeof wantbuf[i]) { printf("HARNESS value too large\n"); _exit(9); }
  int dp = p->kind == K_PRIM || p->kind == K_STRUCT ? v : 0;
  for (size_t j = 0; j < sz; j++) ((uint8_t *)a->p)[j] = (uint8_t)(pat(dp, i, j) ^ (dp ? 0 : 0x5a));
  fill_objs(p, a->p, v, 80 + 3 * i > NOBJ - 20 ? NOBJ - 20 : 80 + 3 * i);
}

/* ------------------------------------------------------------ mode: call */
static Object skels[16][256]; static int skelmade[16][256]; static int dropsbase;
static Object get_skel(const Lang *L, int li, int iface) {
  if (!skelmade[li][iface]) { skels[li][iface] = L->skel(iface, 0, 0); skelmade[li][iface] = 1; }
  return skels[li][iface];
}
static const Lang *lang(int i) { return i < h_nlangs ? &h_langs[i] : &ref_lang; }

static void one_call(int si, int ki, int iface, int method, const int *v, int32_t status, int wof, int direct) {
  const MDesc *m = &h_ifaces[iface].m[method]; const Lang *st = lang(si), *sk = lang(ki);
  nreg = 0; objs_reset(); ncalls++;
  int l = snprintf(where, sizeof where, "stub=%s skel=%s iface=%s method=%s transport=%s status=%d%s values=", st->name, sk->name, h_ifaces[iface].name, m->name, direct == 1 ? "direct" : direct ? "copy, NULL for empty buffers" : "copy", status, wof ? "(outputs written)" : "");
  for (int i = 0; i < m->np && l < 480; i++) l += snprintf(where + l, sizeof where - l, "%d,", v[i]);
  if (sk == &ref_lang && wof) return;
  memset(&cur, 0, sizeof cur); cur.iface = iface; cur.method = method; cur.m = m; cur.in_ok = 1; cur.skel = sk->name;
  cur.status = status; cur.write_on_fail = wof;
  galloc(1, 0);
  HArg a[MAXP];
  for (int i = 0; i < m->np; i++) { make_in(&m->p[i], i, v[i], &cur.in[i]); if (direct == 2 && !cur.in[i].n) cur.in[i].p = 0; a[i] = cur.in[i]; make_want(&m->p[i], i, v[i], &cur.want[i]); }
  uint8_t *keep[MAXP]; /* inputs must survive the call */
  for (int i = 0; i < m->np; i++) if (!m->p[i].out) { size_t sz = psize(&m->p[i], cur.in[i].n); keep[i] = malloc(sz + 1); if (sz) memcpy(keep[i], cur.in[i].p, sz); }
  tr.target = get_skel(sk, ki, iface); tr.direct = direct == 1; tr.nulls = direct == 2; tr.calls = 0; tr.refs = 1;
  int32_t r = st->stub(iface, method, (Object){tr_invoke, &tr}, a);
  if (tr.calls != 1) viol("C01", "the stub made %d invocations", tr.calls);
  if (tr.refs != 1) viol("C05", "the stub changed the target's own count by %d", tr.refs - 1);
  if (cur.entered != 1) viol("C01", "the implementation was entered %d times (status %d)", cur.entered, r);
  if (cur.entered == 1 && r != status) { viol("C01", "caller got status %d, implementation returned %d", r, status); viol("C08", "caller got status %d, implementation returned %d", r, status); }
  for (int i = 0; i < m->np; i++) if (!m->p[i].out) { size_t sz = psize(&m->p[i], cur.in[i].n); if (sz && memcmp(keep[i], cur.in[i].p, sz)) viol("C01", "input parameter %d of the caller was modified", i); free(keep[i]); }
  if (!canaries_ok()) viol("C01", "memory in front of a buffer was overwritten");
  if (r == 0 && status == 0) {
    for (int i = 0; i < m->np; i++) if (m->p[i].out) {
      cmp_value(&m->p[i], &a[i], &cur.want[i], "caller output", "C01", i);
      for (int j = 0; j < nobjs(&m->p[i]); j++) { Object o = getobj((char *)a[i].p + objoff(&m->p[i], j)); if (o.invoke == hobj_invoke) Object_release(o); else if (o.invoke) viol("C05", "output object %d of parameter %d is garbage", j, i); }
    }
  } else if (r != 0) {
    for (int i = 0; i < m->np; i++) if (m->p[i].out) for (int j = 0; j < nobjs(&m->p[i]); j++) {
      Object o = getobj((char *)a[i].p + objoff(&m->p[i], j));
      if (!Object_isNull(o)) viol("C05", "after a failed call the caller holds an object in output parameter %d", i);
    }
  }
  int who; if (!objs_neutral(&who)) viol("C05", "object %d ends with %d references, started with 1", who, objs[who].refs);
}
/* revision of a language's generated code (C15): the digit its name ends in; the reference is of none */
static char rev(int i) { const char *n = lang(i)->name; char c = n[strlen(n) - 1]; return c >= '0' && c <= '9' ? c : '0'; }
static int want_it(const char *f, const char *n) { return !f || !strcmp(f, n); }
static int has_empty(const MDesc *m, const int *v) { for (int i = 0; i < m->np; i++) if (m->p[i].kind == K_ARRAY && v[i] == 1) return 1; return 0; }
static void explore_method(int iface, int method, long cap) {
  const MDesc *m = &h_ifaces[iface].m[method]; int v[MAXP]; long prod = 1;
  for (int i = 0; i < m->np; i++) { prod *= ndom(&m->p[i]); if (prod > cap) { prod = cap + 1; break; } }
  for (int si = 0; si <= h_nlangs; si++) for (int ki = 0; ki <= h_nlangs; ki++) {
    if (!want_it(only_stub, lang(si)->name) || !want_it(only_skel, lang(ki)->name)) continue;
    if (mixed && rev(si) == rev(ki)) continue;
    long vi = 0;
    if (prod <= cap) { /* full product */
      memset(v, 0, sizeof v);
      for (;;) {
        vi++;
        one_call(si, ki, iface, method, v, 0, 0, 0);
        one_call(si, ki, iface, method, v, 0, 0, 1);
        if (has_empty(m, v)) one_call(si, ki, iface, method, v, 0, 0, 2);
        int i = 0; for (; i < m->np; i++) { if (++v[i] < ndom(&m->p[i])) break; v[i] = 0; }
        if (i == m->np) break;
      }
    } else { /* one deviation from each uniform assignment */
      for (int d = 0; d < 5; d++) for (int i = -1; i < m->np; i++) for (int w = 0; w < (i < 0 ? 1 : ndom(&m->p[i])); w++) {
        for (int j = 0; j < m->np; j++) v[j] = d < ndom(&m->p[j]) ? d : 0;
        if (i >= 0) v[i] = w;
        vi++;
        one_call(si, ki, iface, method, v, 0, 0, 0); one_call(si, ki, iface, method, v, 0, 0, 1);
        if (has_empty(m, v)) one_call(si, ki, iface, method, v, 0, 0, 2);
      }
    }
    if (si == 0 && ki == 0) nvals += vi;
    static const int32_t sts[] = {10, 1, 9, 27, -90, 0x7fffffff};
    for (unsigned e = 0; e < sizeof sts / sizeof *sts; e++) for (int d = 0; d < 3; d++) for (int wof = 0; wof < 2; wof++) for (int direct = 0; direct < 2; direct++) {
      for (int j = 0; j < m->np; j++) v[j] = d < ndom(&m->p[j]) ? d : 0;
      one_call(si, ki, iface, method, v, sts[e], wof, direct);
    }
  }
}

/* ------------------------------------------------------------ mode: perturb (C04) */
static long nperturb;
static int envelope;
static void build_env(const MDesc *m, HArg *in, ObjectArg *buf) {
  for (int i = 0; i < m->np; i++) { make_in(&m->p[i], i, 0, &in[i]); make_want(&m->p[i], i, 0, &cur.want[i]); cur.in[i] = in[i]; }
  ref_put_in(m, in, buf);
}
static void release_oo(const MDesc *m, ObjectArg *a) { for (int s = 0; s < m->n[3]; s++) { Object o = a[m->n[0] + m->n[1] + m->n[2] + s].o; if (o.invoke == hobj_invoke) Object_release(o); } }
static void well_formed(Object t, int iface, int method, const char *why) {
  const MDesc *m = &h_ifaces[iface].m[method]; int tot = m->n[0] + m->n[1] + m->n[2] + m->n[3];
  nreg = 0; objs_reset(); galloc(1, 0); memset(&cur, 0, sizeof cur); cur.iface = iface; cur.method = method; cur.m = m; cur.in_ok = 1;
  HArg in[MAXP]; ObjectArg *args = galloc(sizeof(ObjectArg) * tot, 0); build_env(m, in, args);
  int32_t r = Object_invoke(t, m->op, args, ObjectCounts_pack(m->n[0], m->n[1], m->n[2], m->n[3]));
  if (r != 0 || cur.entered != 1) viol("C04", "%s: well-formed call gives %d, implementation entered %d times", why, r, cur.entered);
  else { ref_check_out(m, cur.want, args, "C04", "well-formed call"); release_oo(m, args); }
  int who; if (!objs_neutral(&who)) viol("C04", "%s: object %d ends with %d references", why, who, objs[who].refs);
}
static const char *refused_as = "C04";
static void refused(Object t, int iface, int method, ObjectOp op, const int n[4], const size_t *szs, const size_t *at, int nsz, int32_t exact) {
  /* send m's envelope with counts n and the sizes at[] replaced by szs[] */
  const MDesc *m = &h_ifaces[iface].m[method]; int tot = n[0] + n[1] + n[2] + n[3];
  nreg = 0; objs_reset(); galloc(1, 0); nperturb++;
  memset(&cur, 0, sizeof cur); cur.iface = iface; cur.method = method; cur.m = m; cur.in_ok = 1;
  HArg in[MAXP]; ObjectArg full[64]; memset(full, 0, sizeof full); build_env(m, in, full);
  ObjectArg *args = galloc(sizeof(ObjectArg) * tot, 0); int x = 0;
  int base[4] = {0, m->n[0], m->n[0] + m->n[1], m->n[0] + m->n[1] + m->n[2]};
  for (int c = 0; c < 4; c++) for (int j = 0; j < n[c]; j++, x++) {
    if (j < m->n[c]) args[x] = full[base[c] + j];
    else if (c < 2) args[x].b = (ObjectBuf){galloc(8, 0x11), 8};
    else args[x].o = c == 2 ? hobj(0) : Object_NULL;
  }
  for (int s = 0; s < nsz; s++) { size_t z = szs[s]; args[at[s]].b = (ObjectBuf){z > REGSZ / 2 ? reg[0] + REGSZ : galloc(z, 0x22), z}; }
  ObjectArg sv[64]; memcpy(sv, args, sizeof(ObjectArg) * tot);
  int32_t r = Object_invoke(t, op, args, ObjectCounts_pack(n[0], n[1], n[2], n[3]));
  if (cur.entered) viol(refused_as, "op %#x counts %d/%d/%d/%d: the implementation was entered (status %d)", op, n[0], n[1], n[2], n[3], r);
  else if (exact ? r != exact : (r < 1 || r > 9)) viol("C04", "op %#x counts %d/%d/%d/%d: returned %d instead of a generic error", op, n[0], n[1], n[2], n[3], r);
  if (!canaries_ok()) viol("C04", "op %#x: memory outside the described buffers was written", op);
  int who; if (!objs_neutral(&who)) viol("C04", "op %#x: refusal changed the references of object %d", op, who);
}
static void perturb_method(Object t, int iface, int method) {
  const MDesc *m = &h_ifaces[iface].m[method];
  int n0[4] = {m->n[0], m->n[1], m->n[2], m->n[3]};
  char tag[400]; snprintf(tag, sizeof tag, "%s", where);
#define TAG(...) do { int l = snprintf(where, sizeof where, "%s ", tag); if (l < (int)sizeof where) snprintf(where + l, sizeof where - l, __VA_ARGS__); } while (0)
  TAG("before"); well_formed(t, iface, method, "before");
  for (int c = 0; c < 4; c++) {
    int alts[5] = {n0[c] - 1, n0[c] + 1, 0, 15, 14};
    for (int q = 0; q < 5; q++) if (alts[q] >= 0 && alts[q] <= 15 && alts[q] != n0[c]) {
      int n[4]; memcpy(n, n0, sizeof n); n[c] = alts[q];
      TAG("counts[%d]=%d", c, alts[q]); refused(t, iface, method, m->op, n, 0, 0, 0, 0);
      for (int c2 = c + 1; c2 < 4; c2++) for (int dl = -1; dl <= 1; dl += 2) { int z[4]; memcpy(z, n, sizeof z); z[c2] += dl; if (z[c2] < 0 || z[c2] > 15) continue;
        TAG("counts[%d]=%d counts[%d]=%d", c, alts[q], c2, z[c2]); refused(t, iface, method, m->op, z, 0, 0, 0, 0); }
    }
  }
  TAG("after counts"); well_formed(t, iface, method, "after wrong counts");
  size_t fixed[32], fsz[32]; int nf = 0;
  for (int s = 0; s < m->n[0]; s++) { const Slot *b = &m->bi[s]; if (b->size != 0xffffffffu) { fixed[nf] = s; fsz[nf++] = b->size; } }
  for (int s = 0; s < m->n[1]; s++) { const Slot *b = &m->bo[s]; if (b->size != 0xffffffffu) { fixed[nf] = m->n[0] + s; fsz[nf++] = b->size; } }
  for (int f = 0; f < nf; f++) {
    size_t alts[8] = {0, fsz[f] - 1, fsz[f] + 1, fsz[f] * 2, 1u << 20, (size_t)-1, fsz[f] | (1ull << 32), (size_t)1 << 63};
    for (int q = 0; q < 8; q++) if (alts[q] != fsz[f]) {
      TAG("size of argument %zu = %zu", fixed[f], alts[q]); refused(t, iface, method, m->op, n0, &alts[q], &fixed[f], 1, 0);
      for (int g = f + 1; g < nf; g++) { size_t sz[2] = {alts[q], fsz[g] + 1}, at[2] = {fixed[f], fixed[g]};
        TAG("sizes of arguments %zu,%zu", at[0], at[1]); refused(t, iface, method, m->op, n0, sz, at, 2, 0); }
    }
  }
  TAG("after sizes"); well_formed(t, iface, method, "after wrong sizes");
}
static void ragged(Object t, int iface, int method) { /* array buffers whose size is no multiple of the element: memory safety only */
  const MDesc *m = &h_ifaces[iface].m[method]; int tot = m->n[0] + m->n[1] + m->n[2] + m->n[3];
  for (int s = 0; s < m->n[0] + m->n[1]; s++) {
    const Slot *b = s < m->n[0] ? &m->bi[s] : &m->bo[s - m->n[0]];
    if (b->bundle || b->size != 0xffffffffu || m->p[b->param].el < 2) continue;
    for (size_t z = 1; z < m->p[b->param].el; z += m->p[b->param].el > 4 ? 3 : 1) {
      nreg = 0; objs_reset(); galloc(1, 0); nperturb++;
      memset(&cur, 0, sizeof cur); cur.iface = -7; cur.m = m; cur.rag_iface = iface; cur.rag_method = method; cur.rag_param = b->param; cur.rag_size = z;
      HArg in[MAXP]; ObjectArg *args = galloc(sizeof(ObjectArg) * tot, 0); build_env(m, in, args);
      args[s].b = (ObjectBuf){galloc((z + 15) & ~(size_t)15, 0x33), z};
      int32_t r = Object_invoke(t, m->op, args, ObjectCounts_pack(m->n[0], m->n[1], m->n[2], m->n[3])); (void)r;
      if (!canaries_ok()) viol("C04", "ragged array buffer: memory outside was written");
    }
  }
}
static void envelope_iface(int iface) { /* C02: the skeleton expects exactly the counts of the method, nothing else reaches the implementation */
  const IDesc *I = &h_ifaces[iface];
  for (int ki = 0; ki < h_nlangs; ki++) {
    if (!want_it(only_skel, lang(ki)->name)) continue;
    Object t = get_skel(lang(ki), ki, iface);
    for (int q = 0; q < I->nm; q++) {
      const MDesc *m = &I->m[q];
      if (!want_it(only_method, m->name)) continue;
      int n0[4] = {m->n[0], m->n[1], m->n[2], m->n[3]};
      for (int c = 0; c < 4; c++) for (int v = 0; v <= 15; v++) for (int c2 = c; c2 < 4; c2++) for (int dl = -1; dl <= (c2 > c); dl++) {
        int n[4]; memcpy(n, n0, sizeof n); n[c] = v; if (c2 > c) n[c2] += dl;
        if (n[c2] < 0 || n[c2] > 15 || !memcmp(n, n0, sizeof n) || (c2 > c && !dl)) continue;
        snprintf(where, sizeof where, "skel=%s iface=%s method=%s counts[%d]=%d counts[%d]=%d", lang(ki)->name, I->name, m->name, c, n[c], c2, n[c2]);
        refused_as = "C02"; refused(t, iface, q, m->op, n, 0, 0, 0, 0); refused_as = "C04";
      }
    }
  }
}
static void perturb_iface(int iface) {
  const IDesc *I = &h_ifaces[iface];
  for (int ki = 0; ki < h_nlangs; ki++) {
    if (!want_it(only_skel, lang(ki)->name)) continue;
    Object t = get_skel(lang(ki), ki, iface);
    for (int q = 0; q < I->nm; q++) {
      if (!want_it(only_method, I->m[q].name)) continue;
      snprintf(where, sizeof where, "skel=%s iface=%s method=%s", lang(ki)->name, I->name, I->m[q].name);
      perturb_method(t, iface, q); ragged(t, iface, q);
    }
    if (only_method) continue;
    uint32_t last = I->nm; /* ops are 0..nm-1 */
    uint32_t ops[] = {last, last + 1, last + 7, 0x100, 0x3FFE, 0x3FFF, 0x4000, 0x7FFF, 0x8000, 0x8001, 0xBFFF, 0xFF00, 0xFFFD, 0xFFFC};
    for (unsigned o = 0; o < sizeof ops / sizeof *ops; o++) for (int mod = 0; mod < 3; mod++) {
      if (ops[o] < last) continue;
      uint32_t op = ops[o] | (mod == 1 ? 0x10000u : mod == 2 ? 0xFFFF0000u : 0);
      for (int q = 0; q < I->nm; q++) {
        int n[4] = {I->m[q].n[0], I->m[q].n[1], I->m[q].n[2], I->m[q].n[3]};
        snprintf(where, sizeof where, "skel=%s iface=%s foreign op %#x with the envelope of %s", lang(ki)->name, I->name, op, I->m[q].name);
        refused(t, iface, q, op, n, 0, 0, 0, 0);
        if (q > 3) q += I->nm / 4;
      }
      int z[4] = {0, 0, 0, 0};
      snprintf(where, sizeof where, "skel=%s iface=%s foreign op %#x, no arguments", lang(ki)->name, I->name, op);
      refused(t, iface, 0, op, z, 0, 0, 0, 0);
    }
    for (int q = 0; q < I->nm; q++) { /* modifier bits on a known op: served as that method, or refused */
      const MDesc *m = &I->m[q]; int tot = m->n[0] + m->n[1] + m->n[2] + m->n[3];
      for (int mod = 0; mod < 2; mod++) {
        uint32_t op = m->op | (mod ? 0x80000000u : 0x10000u);
        snprintf(where, sizeof where, "skel=%s iface=%s method=%s op %#x", lang(ki)->name, I->name, m->name, op);
        nreg = 0; objs_reset(); galloc(1, 0); nperturb++; memset(&cur, 0, sizeof cur); cur.iface = iface; cur.method = q; cur.m = m;
        HArg in[MAXP]; ObjectArg *args = galloc(sizeof(ObjectArg) * tot, 0); build_env(m, in, args);
        int32_t r = Object_invoke(t, op, args, ObjectCounts_pack(m->n[0], m->n[1], m->n[2], m->n[3]));
        if (r == 0 ? cur.entered != 1 : cur.entered || r < 1 || r > 9) viol("C04", "status %d, implementation entered %d times", r, cur.entered);
        if (r == 0) release_oo(m, args);
      }
    }
    for (int q = 0; q < I->nm; q++) { snprintf(where, sizeof where, "skel=%s iface=%s method=%s at the end", lang(ki)->name, I->name, I->m[q].name); if (want_it(only_method, I->m[q].name)) well_formed(t, iface, q, "after all refusals"); }
    /* optional methods the implementor did not provide */
    Object pt = lang(ki)->skel(iface, 0, 1);
    for (int q = 0; q < I->nm; q++) {
      int n[4] = {I->m[q].n[0], I->m[q].n[1], I->m[q].n[2], I->m[q].n[3]};
      snprintf(where, sizeof where, "skel=%s iface=%s method=%s (partial implementation)", lang(ki)->name, I->name, I->m[q].name);
      if (I->m[q].optional) refused(pt, iface, q, I->m[q].op, n, 0, 0, 0, Object_ERROR_INVALID);
      well_formed(I->m[q].optional ? t : pt, iface, q, "partial implementation");
    }
    Object_release(pt);
  }
}

/* ------------------------------------------------------------ mode: ops (C07) */
static int32_t rec_op = -1;
static int32_t rec_invoke(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) { (void)h; (void)a; (void)k; if (op == Object_OP_retain || op == Object_OP_release) return 0; rec_op = (int32_t)op; return Object_ERROR; }
static void ops_iface(int iface) {
  const IDesc *I = &h_ifaces[iface];
  for (int li = 0; li < h_nlangs; li++) {
    for (int q = 0; q < I->nm; q++) {
      snprintf(where, sizeof where, "stub=%s iface=%s method=%s", lang(li)->name, I->name, I->m[q].name);
      HArg a[MAXP]; nreg = 0; galloc(1, 0); objs_reset(); for (int i = 0; i < I->m[q].np; i++) make_in(&I->m[q].p[i], i, 0, &a[i]);
      rec_op = -1; ncalls++;
      lang(li)->stub(iface, q, (Object){rec_invoke, &tr}, a);
      if (rec_op != (int32_t)I->m[q].op) viol("C07", "op-code %d on the wire, expected %u", rec_op, I->m[q].op);
    }
    Object t = get_skel(lang(li), li, iface);
    for (uint32_t op = 0; op < I->nm + 3u; op++) {
      int q = -1; for (int j = 0; j < I->nm; j++) if (I->m[j].op == op) q = j;
      snprintf(where, sizeof where, "skel=%s iface=%s op=%u", lang(li)->name, I->name, op);
      ncalls++;
      if (q >= 0) { /* well_formed reports a wrong method as C07 through h_impl */
        long nv = nviol; well_formed(t, iface, q, "dispatch"); if (nviol > nv) viol("C07", "op %u does not run %s", op, I->m[q].name);
      } else { memset(&cur, 0, sizeof cur); cur.iface = cur.method = -1; ObjectArg x[1]; memset(x, 0, sizeof x);
        int32_t r = Object_invoke(t, op, x, 0); if (r == 0 || cur.entered) viol("C07", "op %u, which no method has, is served", op); }
    }
  }
}

/* ------------------------------------------------------------ mode: unknown (C15) */
/* old=N0,N1,..: the number of methods each interface had in the old revision, whose skeletons are the ones named *0 */
static void unknown_iface(int iface, int nold) {
  const IDesc *I = &h_ifaces[iface]; int v[MAXP];
  for (int q = nold; q < I->nm; q++) for (int si = 0; si <= h_nlangs; si++) for (int ki = 0; ki < h_nlangs; ki++) {
    if ((si < h_nlangs && rev(si) != '1') || rev(ki) != '0') continue;
    const MDesc *m = &I->m[q];
    for (int d = 0; d < 2; d++) for (int part = 0; part < 2; part++) {
      nreg = 0; objs_reset(); ncalls++;
      snprintf(where, sizeof where, "new stub=%s old skel=%s%s iface=%s unknown method=%s", lang(si)->name, lang(ki)->name, part ? " (partial)" : "", I->name, m->name);
      memset(&cur, 0, sizeof cur); cur.iface = cur.method = -1; cur.m = m; cur.skel = lang(ki)->name;
      galloc(1, 0); HArg a[MAXP];
      for (int i = 0; i < m->np; i++) { v[i] = d; make_in(&m->p[i], i, v[i], &cur.in[i]); a[i] = cur.in[i]; make_want(&m->p[i], i, v[i], &cur.want[i]); }
      Object t = part ? lang(ki)->skel(iface, 0, 1) : get_skel(lang(ki), ki, iface);
      long nv = nviol; cur.entered = 0;
      int32_t r = lang(si)->stub(iface, q, t, a);
      if (nviol > nv) viol("C15", "the old skeleton ran another method");
      else if (r == 0 || cur.entered) viol("C15", "status %d, implementation entered %d times", r, cur.entered);
      int who; if (!objs_neutral(&who)) viol("C15", "object %d ends with %d references", who, objs[who].refs);
      if (part) Object_release(t);
    }
  }
}

int main(int argc, char **argv) {
  setvbuf(stdout, 0, _IOLBF, 1 << 16);
  const char *mode = argc > 1 ? argv[1] : "call"; long cap = 400;
  for (int i = 2; i < argc; i++) {
    if (!strncmp(argv[i], "stub=", 5)) only_stub = argv[i] + 5; else if (!strncmp(argv[i], "skel=", 5)) only_skel = argv[i] + 5;
    else if (!strncmp(argv[i], "method=", 7)) only_method = argv[i] + 7; else if (!strncmp(argv[i], "cap=", 4)) cap = atol(argv[i] + 4);
    else if (!strcmp(argv[i], "mixed")) mixed = 1; else if (!strcmp(argv[i], "envelope")) envelope = 1; else if (!strncmp(argv[i], "skip=", 5)) snprintf(skip, sizeof skip, ",%s,", argv[i] + 5); else if (!strncmp(argv[i], "old=", 4)) oldn = argv[i] + 4;
  }
  int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE, SIGTRAP};
  static uint8_t alt[65536]; stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt}; sigaltstack(&ss, 0);
  for (unsigned i = 0; i < 6; i++) { struct sigaction sa = {.sa_handler = on_sig, .sa_flags = SA_ONSTACK}; sigaction(sigs[i], &sa, 0); }
  mem_init(); dropsbase = drops; (void)dropsbase; (void)noutcomes;
  for (int f = 0; f < h_nifaces; f++) {
    char nm[128]; snprintf(nm, sizeof nm, ",%s,", h_ifaces[f].name);
    int sk = strstr(skip, nm) != 0;
    if (sk && !strcmp(mode, "unknown")) { strtol(oldn, (char **)&oldn, 10); if (*oldn == ',') oldn++; }
    if (sk) continue;
    if (!strcmp(mode, "call")) { for (int q = 0; q < h_ifaces[f].nm; q++) if (want_it(only_method, h_ifaces[f].m[q].name)) explore_method(f, q, cap); if (envelope) envelope_iface(f); }
    else if (!strcmp(mode, "perturb")) perturb_iface(f);
    else if (!strcmp(mode, "unknown")) { unknown_iface(f, (int)strtol(oldn, (char **)&oldn, 10)); if (*oldn == ',') oldn++; }
    else ops_iface(f);
  }
  /* dropping every skeleton destroys its implementation exactly once */
  objs_reset();
  for (int li = 0; li <= h_nlangs; li++) for (int f = 0; f < h_nifaces; f++) if (skelmade[li][f]) {
    snprintf(where, sizeof where, "skel=%s iface=%s destruction", lang(li)->name, h_ifaces[f].name);
    int d = drops; Object_release(skels[li][f]); if (drops != d + 1) viol("C05", "releasing the last reference destroyed the implementation %d times", drops - d);
  }
  printf("DONE calls=%ld values=%ld perturbations=%ld violations=%ld\n", ncalls, nvals, nperturb, nviol);
  return nviol ? 1 : 0;
}
