/* Interface between the generic driver and the generated, typed glue of every language. */
#ifndef H_H
#define H_H
#include <stddef.h>
#include <stdint.h>
#include "object.h"
/* One user-level parameter. p: the bytes of the value (objects are 16-byte handles in place);
   arrays: n elements (out: capacity), lenout: reported elements. */
typedef struct { void *p; size_t n; size_t lenout; } HArg;
typedef struct { uint32_t param, off, size; } BMem;
typedef struct { uint8_t bundle; uint32_t size; int32_t param; uint16_t nm; const BMem *m; } Slot; /* size 0xffffffff: variable */
typedef struct { uint32_t param, off; } ORef;
enum { K_PRIM, K_STRUCT, K_OSTRUCT, K_ARRAY, K_OBJ, K_OBJARR };
typedef struct { uint8_t out, kind; uint32_t el, arrn; uint16_t nobj; const uint32_t *objoff; } PDesc;
typedef struct { const char *name; uint32_t op; uint8_t optional; uint16_t np; const PDesc *p;
  uint16_t n[4]; const Slot *bi, *bo; const ORef *oi, *oo; } MDesc;
typedef struct { const char *name; uint16_t nm; const MDesc *m; } IDesc;
typedef struct { const char *name; int32_t (*stub)(int iface, int method, Object self, HArg *a);
  Object (*skel)(int iface, void *ctx, int partial); } Lang;
#ifdef __cplusplus
extern "C" {
#endif
extern const IDesc h_ifaces[]; extern const int h_nifaces;
extern const Lang h_langs[]; extern const int h_nlangs;
int32_t h_impl(void *ctx, int iface, int method, HArg *a);
void h_drop(void *ctx);
#ifdef __cplusplus
}
#endif
#endif
