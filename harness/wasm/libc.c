/* The little of a C library that the library needs when it is compiled to WebAssembly without Emscripten.
   Blocks are checked: freeing anything but a live block traps, freed blocks are overwritten. */
#include <stddef.h>
#include <stdint.h>

#define EXPORT(n) __attribute__((export_name(n)))
extern unsigned char __heap_base;
typedef struct Block { struct Block *next; uint32_t size, magic, pad; } Block;     /* 16 bytes */
#define LIVE 0x11fe11feu
#define DEAD 0xdeaddeadu
static Block *bins[32];
static uintptr_t top;
static int32_t failat;
static uint32_t nlive, nfail;

EXPORT("vp_live") uint32_t vp_live(void) { return nlive; }
EXPORT("vp_failed") uint32_t vp_failed(void) { uint32_t n = nfail; nfail = 0; return n; }
EXPORT("vp_fail") void vp_fail(int32_t n) { failat = n; nfail = 0; }        /* the nth request from now fails; 0: none */
EXPORT("vp_hold") int32_t vp_hold(int32_t n) { int32_t o = failat; failat = n; return o; }

static unsigned bin(size_t n) {
	unsigned b = 4;
	while(((size_t)1 << b) < n) b++;
	return b;
}
EXPORT("malloc") void *malloc(size_t n) {
	if(failat && !--failat) { nfail++; return NULL; }
	if(n > 1u << 30) return NULL;
	unsigned b = bin(n);
	Block *p = bins[b];
	if(p) bins[b] = p->next;
	else {
		if(!top) top = ((uintptr_t)&__heap_base + 15) & ~(uintptr_t)15;
		size_t need = sizeof(Block) + ((size_t)1 << b), have = __builtin_wasm_memory_size(0) * (size_t)65536;
		if(have - top < need && __builtin_wasm_memory_grow(0, (need - (have - top) + 65535) / 65536) == (size_t)-1)
			return NULL;
		p = (Block *)top;
		top += need;
	}
	p->size = n;
	p->magic = LIVE;
	unsigned char *d = (unsigned char *)(p + 1);
	for(size_t i = 0; i < (size_t)1 << b; i++) d[i] = 0xcb;
	nlive++;
	return d;
}
EXPORT("free") void free(void *v) {
	if(!v) return;
	Block *p = (Block *)v - 1;
	if((uintptr_t)v & 15 || p->magic != LIVE) __builtin_trap();
	unsigned b = bin(p->size);
	unsigned char *d = v;
	for(size_t i = p->size; i < (size_t)1 << b; i++) if(d[i] != 0xcb) __builtin_trap();     /* written past its end */
	for(size_t i = 0; i < (size_t)1 << b; i++) d[i] = 0xfd;
	p->magic = DEAD;
	p->next = bins[b];
	bins[b] = p;
	nlive--;
}
void *memset(void *d, int c, size_t n) { for(size_t i = 0; i < n; i++) ((volatile unsigned char *)d)[i] = c; return d; }
void *memcpy(void *restrict d, const void *restrict s, size_t n) { for(size_t i = 0; i < n; i++) ((volatile unsigned char *)d)[i] = ((const unsigned char *)s)[i]; return d; }
void *memmove(void *d, const void *s, size_t n) {
	if((uintptr_t)d <= (uintptr_t)s) return memcpy(d, s, n);
	while(n--) ((volatile unsigned char *)d)[n] = ((const unsigned char *)s)[n];
	return d;
}
int memcmp(const void *a, const void *b, size_t n) {
	for(size_t i = 0; i < n; i++) { int c = ((const unsigned char *)a)[i] - ((const unsigned char *)b)[i]; if(c) return c; }
	return 0;
}
void *memchr(const void *a, int c, size_t n) { for(size_t i = 0; i < n; i++) if(((const unsigned char *)a)[i] == (unsigned char)c) return (void *)((const unsigned char *)a + i); return NULL; }
void *calloc(size_t m, size_t n) {
	if(n && m > (size_t)-1 / n) return NULL;
	void *p = malloc(m * n);
	return p ? memset(p, 0, m * n) : NULL;
}
void *realloc(void *v, size_t n) {
	if(!v) return malloc(n);
	void *d = malloc(n);
	if(!d) return NULL;
	size_t o = ((Block *)v - 1)->size;
	memcpy(d, v, o < n ? o : n);
	free(v);
	return d;
}
void *reallocarray(void *v, size_t m, size_t n) { return n && m > (size_t)-1 / n ? NULL : realloc(v, m * n); }
void *aligned_alloc(size_t a, size_t n) { return a <= 16 ? malloc(n) : NULL; }
size_t strlen(const char *s) { size_t n = 0; while(((volatile const char *)s)[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while(*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while(n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcasecmp(const char *a, const char *b) { while(*a && tolower(*a) == tolower(*b)) a++, b++; return tolower(*a) - tolower(*b); }
char *strchr(const char *s, int c) { for(;; s++) if(*s == (char)c) return (char *)s; else if(!*s) return NULL; }
char *strrchr(const char *s, int c) { char *r = NULL; for(;; s++) { if(*s == (char)c) r = (char *)s; if(!*s) return r; } }
char *strcpy(char *d, const char *s) { memcpy(d, s, strlen(s) + 1); return d; }
char *strdup(const char *s) { char *d = malloc(strlen(s) + 1); return d ? strcpy(d, s) : NULL; }
char *strerror(int e) { return "system error"; }
static int the_errno;
int *__errno_location(void) { return &the_errno; }
void abort(void) { __builtin_trap(); }
void exit(int c) { __builtin_trap(); }
void __assert_fail(const char *a, const char *f, unsigned l, const char *n) { __builtin_trap(); }
void *stderr, *stdout;
size_t fwrite(const void *p, size_t s, size_t n, void *f) { return n; }
int fputc(int c, void *f) { return c; }
int fputs(const char *s, void *f) { return 0; }
int fprintf(void *f, const char *s, ...) { return 0; }

/* a heap sort: like the real one, not stable */
static void swap(char *a, char *b, size_t n) { while(n--) { char t = *a; *a++ = *b; *b++ = t; } }
void qsort(void *v, size_t n, size_t s, int (*cmp)(const void *, const void *)) {
	char *a = v;
	for(size_t k = n / 2, m = n; m > 1;) {
		if(k) k--;
		else { m--; swap(a, a + m * s, s); }
		for(size_t i = k, c; (c = 2 * i + 1) < m; i = c) {
			if(c + 1 < m && cmp(a + c * s, a + (c + 1) * s) < 0) c++;
			if(cmp(a + i * s, a + c * s) >= 0) break;
			swap(a + i * s, a + c * s, s);
		}
	}
}
double round(double x) {
	double t = __builtin_trunc(x), d = x - t;
	return d >= .5 ? t + 1 : d <= -.5 ? t - 1 : t;
}
float roundf(float x) { return round(x); }
long lround(double x) { return round(x); }
long lroundf(float x) { return round(x); }
long lrint(double x) { return __builtin_rint(x); }
long lrintf(float x) { return __builtin_rint(x); }
double fmax(double a, double b) { return __builtin_isnan(a) || b > a ? b : a; }
double fmin(double a, double b) { return __builtin_isnan(a) || b < a ? b : a; }
float fmaxf(float a, float b) { return fmax(a, b); }
float fminf(float a, float b) { return fmin(a, b); }
double frexp(double x, int *e) {
	union { double d; uint64_t u; } v = { x };
	int b = v.u >> 52 & 0x7ff;
	*e = 0;
	if(x == 0 || b == 0x7ff) return x;
	if(!b) { x = frexp(x * 0x1p64, e); *e -= 64; return x; }
	*e = b - 1022;
	v.u = (v.u & ~(0x7ffull << 52)) | 1022ull << 52;
	return v.d;
}
double ldexp(double x, int e) {
	while(e > 0) { x *= 2; e--; }
	while(e < 0) { x /= 2; e++; }
	return x;
}
float frexpf(float x, int *e) { return frexp(x, e); }
float ldexpf(float x, int e) { return ldexp(x, e); }
