/* Shared by every generated C/C++ driver unit. */
#ifndef VB_H
#define VB_H
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <inttypes.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vb_malloc(size_t n);
void* vb_realloc(void* p, size_t n);
void vb_free(void* p);
const char* vb_tok(void);
uint64_t vb_u(void);
int64_t vb_i(void);
char* vb_str(size_t* len);
uint8_t* vb_hex(size_t* len);
void vb_pu(uint64_t v);
void vb_pi(int64_t v);
void vb_pf(float f);
void vb_pd(double d);
float vb_f(void);
double vb_d(void);
void vb_ps(const char* s, uint64_t len);
void vb_pz(const char* s, uint64_t len);
void vb_phex(const uint8_t* b, size_t len);
void vb_w(const char* s);
void vb_mem(void);
void vb_step(int owner, long fail);
void vb_after(void);
bool vb_intact(const uint8_t* p, size_t from, size_t to);
uint8_t* vb_raw(size_t n);
typedef void (*vb_op)(char op);
extern bool vb_leave_failed; /* true: the caller does not clean up after failed calls (not used) */
#ifdef __cplusplus
}
#endif
#endif
