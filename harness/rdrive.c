/*
 * rdrive: executes scripts of calls of libresdet's public API and records every call with its arguments and reply as
 * one line of JSON.  One forked process per trace, so that a crash or hang is an event of its trace like any other.
 *
 *   rdrive SCRIPT IMAGES OUT
 *
 * IMAGES is a file of floats; the script declares images by offset.  See harness/README.md for the script language.
 *
 * Linked with -Wl,--wrap of the allocation functions, so that what the library allocates can be counted and made to fail.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include <inttypes.h>
#include <stdarg.h>
#include <math.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <pthread.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/resource.h>

#include "resdet.h"

/* ------------------------------------------------------------------ allocation wrappers */

static __thread int in_call;         /* inside a call of the library */
static int tlock;
/* The bookkeeping must not order the threads' calls in the eyes of ThreadSanitizer, or it would hide races. */
#define QUIET __attribute__((no_sanitize("thread"))) __attribute__((noinline))
QUIET static void lock(void) { while(__atomic_exchange_n(&tlock,1,__ATOMIC_ACQUIRE)); }
QUIET static void unlock(void) { __atomic_store_n(&tlock,0,__ATOMIC_RELEASE); }
static long fault_k;                 /* the fault_k-th allocation from now fails (0: none) */
static int fault_all;                /* and all later ones */
static long nalloc;                  /* allocations counted since the fault was armed */
static __thread int nfail, nfail_ext;
static bool count;                   /* report the number of allocations */
static int fillbyte = -1;

struct ent { void* p; size_t n; int kind; };
static struct ent tab[1<<16];
static size_t tabn;

void* __real_malloc(size_t);
void* __real_calloc(size_t,size_t);
void* __real_realloc(void*,size_t);
void __real_free(void*);
char* __real_strdup(const char*);
char* __real_strndup(const char*,size_t);
void* __real_reallocarray(void*,size_t,size_t);
int __real_posix_memalign(void**,size_t,size_t);
void* __real_aligned_alloc(size_t,size_t);
void* __real_memalign(size_t,size_t);
FILE* __real_fopen(const char*,const char*);

QUIET static void track(void* p, size_t n, int kind) {
	if(!p) return;
	lock();
	if(tabn == sizeof(tab)/sizeof(*tab)) abort();
	tab[tabn++] = (struct ent){p,n,kind};
	unlock();
}
QUIET static void untrack(void* p) {
	if(!p) return;
	lock();
	for(size_t i = tabn; i-- > 0;)
		if(tab[i].p == p) {
			tab[i] = tab[--tabn];
			break;
		}
	unlock();
}
QUIET static size_t tracked_size(void* p) {
	size_t n = SIZE_MAX;
	lock();
	for(size_t i = 0; i < tabn; i++)
		if(tab[i].p == p)
			n = tab[i].n;
	unlock();
	return n;
}
/* should this allocation fail? */
QUIET static bool faulty(int ext) {
	if(!in_call)
		return false;
	lock();
	bool f = false;
	nalloc++;
	if(fault_k && (nalloc == fault_k || (fault_all && nalloc > fault_k)))
		f = true;
	unlock();
	if(f) {
		nfail++;
		if(ext)
			nfail_ext++;
	}
	return f;
}

#define ALLOC(n,call) do { \
	if(!in_call) return call; \
	if(faulty(0)) { errno = ENOMEM; return NULL; } \
	void* p_ = call; \
	if(p_ && fillbyte >= 0 && (n) < 1u<<26) memset(p_,fillbyte,(n)); \
	track(p_,(n),0); \
	return p_; } while(0)

void* __wrap_malloc(size_t n) { ALLOC(n,__real_malloc(n)); }
void* __wrap_calloc(size_t a, size_t b) {
	if(!in_call) return __real_calloc(a,b);
	if(faulty(0)) { errno = ENOMEM; return NULL; }
	void* p = __real_calloc(a,b);
	track(p,a*b,0);
	return p;
}
void* __wrap_realloc(void* o, size_t n) {
	if(!in_call) return __real_realloc(o,n);
	if(faulty(0)) { errno = ENOMEM; return NULL; }
	size_t before = o ? tracked_size(o) : 0;
	untrack(o);
	void* p = __real_realloc(o,n);
	if(p) {
		if(fillbyte >= 0 && before < n && n < 1u<<26)
			memset((char*)p+before,fillbyte,n-before);
		track(p,n,0);
	}
	else if(o && n)
		track(o,before,0);
	return p;
}
void* __wrap_reallocarray(void* o, size_t a, size_t b) {
	if(!in_call) return __real_reallocarray(o,a,b);
	if(b && a > SIZE_MAX/b) { errno = ENOMEM; return NULL; }
	return __wrap_realloc(o,a*b);
}
void __wrap_free(void* p) { untrack(p); __real_free(p); }
char* __wrap_strdup(const char* s) { ALLOC(0,__real_strdup(s)); }
char* __wrap_strndup(const char* s, size_t n) { ALLOC(0,__real_strndup(s,n)); }
int __wrap_posix_memalign(void** r, size_t a, size_t n) {
	if(faulty(0)) return ENOMEM;
	int e = __real_posix_memalign(r,a,n);
	if(!e && in_call) track(*r,n,0);
	return e;
}
void* __wrap_aligned_alloc(size_t a, size_t n) { ALLOC(n,__real_aligned_alloc(a,n)); }
void* __wrap_memalign(size_t a, size_t n) { ALLOC(n,__real_memalign(a,n)); }
FILE* __wrap_fopen(const char* f, const char* m) {
	if(faulty(1)) { errno = ENFILE; return NULL; }
	return __real_fopen(f,m);
}

/* constructors of other libraries; absent ones are weak */
#define EXT(ret,name,params,args) \
	extern ret __real_##name params __attribute__((weak)); \
	ret __wrap_##name params; \
	ret __wrap_##name params { if(faulty(EXTK)) { errno = ENOMEM; return NULL; } ret p = __real_##name args; return p; }
#define EXTT(ret,name,params,args,size) \
	extern ret __real_##name params __attribute__((weak)); \
	ret __wrap_##name params; \
	ret __wrap_##name params { if(faulty(EXTK)) { errno = ENOMEM; return NULL; } ret p = __real_##name args; \
		if(p && in_call) { track((void*)p,(size),1); } \
		if(p && in_call && fillbyte >= 0 && (size) && (size) < 1u<<26) memset((void*)p,fillbyte,(size)); return p; }
#define EXTF(name) \
	extern void __real_##name(void*) __attribute__((weak)); \
	void __wrap_##name(void*); \
	void __wrap_##name(void* p) { untrack(p); __real_##name(p); }

#define EXTK 0
EXTT(void*,fftwf_alloc_real,(size_t n),(n),n*sizeof(float))
EXTT(void*,fftw_alloc_real,(size_t n),(n),n*sizeof(double))
EXTT(void*,fftwl_alloc_real,(size_t n),(n),n*sizeof(long double))
EXTT(void*,fftwf_malloc,(size_t n),(n),n)
EXTT(void*,fftw_malloc,(size_t n),(n),n)
EXTT(void*,fftwl_malloc,(size_t n),(n),n)
EXTF(fftwf_free) EXTF(fftw_free) EXTF(fftwl_free)
EXTF(fftwf_destroy_plan) EXTF(fftw_destroy_plan) EXTF(fftwl_destroy_plan)
EXT(void*,png_create_read_struct,(const char* v, void* a, void* b, void* c),(v,a,b,c))
EXT(void*,png_create_info_struct,(void* a),(a))
EXT(void*,avcodec_alloc_context3,(const void* a),(a))
EXT(void*,sws_alloc_context,(void),())
EXT(void*,av_frame_alloc,(void),())
EXT(void*,av_packet_alloc,(void),())
#undef EXTK
#define EXTK 1
/* tracked as a resource, but a plan that cannot be made need not be for lack of memory */
EXTT(void*,fftwf_plan_r2r_2d,(int a,int b,void* c,void* d,int e,int f,unsigned g),(a,b,c,d,e,f,g),0)
EXTT(void*,fftw_plan_r2r_2d,(int a,int b,void* c,void* d,int e,int f,unsigned g),(a,b,c,d,e,f,g),0)
EXTT(void*,fftwl_plan_r2r_2d,(int a,int b,void* c,void* d,int e,int f,unsigned g),(a,b,c,d,e,f,g),0)

/* ------------------------------------------------------------------ output */

static FILE* outf;
static __thread FILE* out;
static __thread const char* tid;
static __thread bool in_thread;

static void ev_begin(const char* op) {
	fprintf(out,"{\"t\":\"%s\",\"op\":\"%s\"",tid,op);
}
static void ev_int(const char* k, int64_t v) { fprintf(out,",\"%s\":%" PRId64,k,v > INT32_MAX ? INT32_MAX : v < -INT32_MAX ? -INT32_MAX : v); }
static void ev_bool(const char* k, bool v) { fprintf(out,",\"%s\":%s",k,v ? "true" : "false"); }
static void ev_str(const char* k, const char* v) {
	fprintf(out,",\"%s\":\"",k);
	for(; *v; v++) {
		unsigned char c = *v;
		if(c == '"' || c == '\\') fprintf(out,"\\%c",c);
		else if(c < 32 || c > 126) fprintf(out,"\\u%04x",c);
		else fputc(c,out);
	}
	fputc('"',out);
}
static void ev_end(void) {
	fputs("}\n",out);
	fflush(out);
}

/* ------------------------------------------------------------------ state */

#define NH 16
static RDParameters* par[NH];
static RDAnalysis* ana[NH];
static struct { RDImage* im; size_t w, h; float* buf; bool open; } img[NH];
#define NCHILD 64
static pid_t writers[NCHILD]; static int nwriters;
static int srcfds[NCHILD]; static int nsrcfds;
static struct { float* data; size_t n; } images[65536];
static float* imgdata;
static size_t imgdatan;
static int fd_base;

static int count_fds(void) {
	int n = 0;
	DIR* d = opendir("/proc/self/fd");
	if(!d) return -1;
	while(readdir(d)) n++;
	closedir(d);
	return n;
}

static void enter(void) { nfail = nfail_ext = 0; in_call = 1; }
static void leave(void) { in_call = 0; }
/* what the system says of a file which cannot be opened */
static int system_error(const char* path) {
	struct stat st;
	return !path || !strcmp(path,"-") || !stat(path,&st) ? 0 : errno;
}
static void ev_fail(void) { ev_int("nf",nfail); ev_int("nx",nfail_ext); if(count) ev_int("na",nalloc); }

static bool isnull(const char* s) { return !strcmp(s,"NULL"); }
static const char* strarg(const char* s) { return isnull(s) ? NULL : !strcmp(s,"EMPTY") ? "" : s; }
static size_t sizearg(const char* s) { return strtoull(s,NULL,10); }

#define SENT ((RDResolution*)(uintptr_t)0x5e5e5e5e5e50)

static void ev_list(const char* k, RDResolution* r, size_t n) {
	fprintf(out,",\"%s\":[",k);
	for(size_t i = 0; i < n && i < 100000; i++) {
		double c = r[i].confidence;
		int64_t ppb = isfinite(c) && fabs(c) <= 2 ? llround(c*1e9) : -2000000000;
		fprintf(out,"%s[%" PRId64 ",%" PRId64 "]",i?",":"",(int64_t)(r[i].index > INT32_MAX ? INT32_MAX : r[i].index),ppb);
	}
	fputc(']',out);
}
static void ev_results(int mask, RDResolution* rw, size_t cw, RDResolution* rh, size_t ch) {
	ev_int("mask",mask);
	if(mask&1) ev_bool("rwn",!rw);
	if(mask&2) ev_int("cwv",cw);
	if(mask&4) ev_bool("rhn",!rh);
	if(mask&8) ev_int("chv",ch);
	/* a list left at the sentinel was not set at all */
	if((mask&3) == 3 && rw && rw != SENT) { ev_list("lw",rw,cw); }
	if((mask&12) == 12 && rh && rh != SENT) { ev_list("lh",rh,ch); }
}
static void free_results(int mask, RDResolution* rw, RDResolution* rh) {
	if(mask&1 && rw != SENT) free(rw);
	if(mask&4 && rh != SENT) free(rh);
}

struct prog { uint64_t v[4096]; size_t n; bool unordered; };
static void progress(void* ctx, uint64_t n) {
	struct prog* p = ctx;
	if(p->n < 4096) p->v[p->n] = n;
	p->n++;
	if(n != p->n) p->unordered = true;
}

static void ev_pixels(const char* k, const float* f, size_t n) {
	fprintf(out,",\"%s\":[",k);
	for(size_t i = 0; i < n; i++) {
		uint32_t u;
		memcpy(&u,f+i,4);
		fprintf(out,"%s%u,%u",i?",":"",u>>16,u&0xffff);
	}
	fputc(']',out);
}

/* --- sources --- */
/* PIPE:chunk:path  a pipe fed the contents of path in writes of chunk bytes; its name goes into buf */
static int make_pipe(const char* spec) {
	size_t chunk = strtoul(spec,NULL,10);
	const char* path = strchr(spec,':')+1;
	int p[2];
	if(pipe(p)) _exit(90);
	fflush(NULL);
	pid_t pid = fork();
	if(!pid) {
		signal(SIGPIPE,SIG_DFL);
		for(int i = 3; i < 256; i++) if(i != p[1]) close(i);
		int f = open(path,O_RDONLY);
		char buf[65536];
		ssize_t n;
		if(!chunk || chunk > sizeof(buf)) chunk = sizeof(buf);
		while(f >= 0 && (n = read(f,buf,chunk)) > 0) {
			for(ssize_t o = 0; o < n;) {
				ssize_t w = write(p[1],buf+o,n-o);
				if(w < 0) _exit(0);
				o += w;
			}
		}
		_exit(0);
	}
	close(p[1]);
	if(nwriters < NCHILD) writers[nwriters++] = pid;
	return p[0];
}
static const char* source(const char* spec, char* buf) {
	if(isnull(spec)) return NULL;
	if(!strcmp(spec,"EMPTY")) return "";
	if(!strncmp(spec,"PIPE:",5)) {
		int fd = make_pipe(spec+5);
		if(nsrcfds < NCHILD) srcfds[nsrcfds++] = fd;
		sprintf(buf,"/dev/fd/%d",fd);
		fd_base++; /* ours, not the library's */
		return buf;
	}
	return spec;
}
static void drop_sources(void) {
	while(nsrcfds) { close(srcfds[--nsrcfds]); fd_base--; }
}

/* ------------------------------------------------------------------ commands */

extern int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
/* leaves no stale pointers behind on the stack */
__attribute__((noinline)) static void scrub(void) {
	volatile char b[65536];
	for(size_t i = 0; i < sizeof(b); i++) b[i] = 0;
}

static void run_cmd(char** a, int n) {
	const char* op = a[0];
	char sbuf[64];
	if(op[0] == '?') { /* only if the image is open, and not huge */
		op++;
		if(!img[atoi(a[1])].im || (img[atoi(a[1])].h && img[atoi(a[1])].w > (1u<<24)/img[atoi(a[1])].h)) return;
	}
	if(op[0] == '!') { /* only if the handle is not in use */
		op++;
		int h = atoi(a[1]);
		if(!strcmp(op,"palloc") ? !!par[h] : !strcmp(op,"create") ? !!ana[h] : !!img[h].im) return;
	}
	if(!strcmp(op,"count")) { count = true; nalloc = 0; return; }
	if(!strcmp(op,"leakmake")) { volatile char* volatile p = __real_malloc(1234); p[0] = 1; p = NULL; return; }
	if(!strcmp(op,"leak")) { /* memory nothing points to; only where LeakSanitizer is there */
		scrub();
		ev_begin(op); ev_int("n",__lsan_do_recoverable_leak_check ? __lsan_do_recoverable_leak_check() : 0); ev_end();
		return;
	}
	if(!strcmp(op,"fault")) { /* k all */
		lock();
		fault_k = atol(a[1]); fault_all = atoi(a[2]); nalloc = 0;
		unlock();
		return;
	}
	if(!strcmp(op,"fill")) { fillbyte = atoi(a[1]); return; }
	if(!strcmp(op,"note")) { ev_begin("note"); ev_str("s",a[1]); ev_end(); return; }
	if(!strcmp(op,"palloc")) {
		int h = atoi(a[1]);
		enter(); par[h] = resdet_alloc_default_parameters(); leave();
		ev_begin(op); ev_int("h",h); ev_bool("ok",par[h]); ev_fail(); ev_end();
	}
	else if(!strcmp(op,"pfree")) {
		int h = atoi(a[1]);
		free(par[h]); par[h] = NULL;
		ev_begin(op); ev_int("h",h); ev_end();
	}
	else if(!strcmp(op,"prange")) {
		RDParameters* p = isnull(a[1]) ? NULL : par[atoi(a[1])];
		size_t r = sizearg(a[2]);
		enter(); RDError e = resdet_parameters_set_range(p,r); leave();
		ev_begin(op); ev_int("h",isnull(a[1]) ? -1 : atoi(a[1])); ev_int("n",r > 1<<30 ? 1<<30 : r); ev_int("ret",e); ev_end();
	}
	else if(!strcmp(op,"pthr")) { /* h bits ppb p q */
		RDParameters* p = isnull(a[1]) ? NULL : par[atoi(a[1])];
		uint32_t u = strtoul(a[2],NULL,16); float t; memcpy(&t,&u,4);
		enter(); RDError e = resdet_parameters_set_threshold(p,t); leave();
		ev_begin(op); ev_int("h",isnull(a[1]) ? -1 : atoi(a[1])); ev_int("hi",u>>16); ev_int("lo",u&0xffff);
		ev_int("ppb",atol(a[3])); ev_int("p",atol(a[4])); ev_int("q",atol(a[5])); ev_int("ret",e); ev_end();
	}
	else if(!strcmp(op,"pfilt")) {
		RDParameters* p = isnull(a[1]) ? NULL : par[atoi(a[1])];
		enter(); RDError e = resdet_parameters_set_compression_filter(p,atoi(a[2])); leave();
		ev_begin(op); ev_int("h",isnull(a[1]) ? -1 : atoi(a[1])); ev_int("v",atoi(a[2])); ev_int("ret",e); ev_end();
	}
	else if(!strcmp(op,"create")) { /* h method w h wl hl params err */
		int h = atoi(a[1]);
		RDMethod* m = NULL;
		if(!isnull(a[2])) {
			enter(); m = resdet_get_method(a[2]); leave();
			if(!m) { ev_begin("crash"); ev_str("why","no method"); ev_end(); _exit(0); }
		}
		RDError e = 77; bool we = atoi(a[6]);
		enter();
		ana[h] = resdet_create_analysis(m,sizearg(a[3]),sizearg(a[4]),isnull(a[5]) ? NULL : par[atoi(a[5])],we ? &e : NULL);
		leave();
		ev_begin(op); ev_int("h",h); ev_str("m",isnull(a[2]) ? "" : a[2]); ev_str("ws",a[3]); ev_str("hs",a[4]);
		ev_int("p",isnull(a[5]) ? -1 : atoi(a[5])); ev_bool("we",we); ev_int("ret",we ? e : 0); ev_bool("ok",ana[h]); ev_fail(); ev_end();
	}
	else if(!strcmp(op,"analyze")) { /* h img */
		RDAnalysis* x = isnull(a[1]) ? NULL : ana[atoi(a[1])];
		float* d = isnull(a[2]) ? NULL : images[atoi(a[2])].data;
		size_t nn = d ? images[atoi(a[2])].n : 0;
		float* copy = NULL;
		if(d) { copy = malloc(nn*sizeof(float)+1); memcpy(copy,d,nn*sizeof(float)); }
		enter(); RDError e = resdet_analyze_image(x,copy); leave();
		bool same = !d || !memcmp(copy,d,nn*sizeof(float));
		free(copy);
		ev_begin(op); ev_int("h",isnull(a[1]) ? -1 : atoi(a[1])); ev_int("img",isnull(a[2]) ? 0 : atoi(a[2])); ev_bool("same",same); ev_int("ret",e); ev_fail(); ev_end();
	}
	else if(!strcmp(op,"analyzen")) { /* h img k */
		RDAnalysis* x = ana[atoi(a[1])];
		float* d = images[atoi(a[2])].data;
		size_t nn = images[atoi(a[2])].n;
		float* copy = malloc(nn*sizeof(float)+1); memcpy(copy,d,nn*sizeof(float));
		RDError e = 0;
		enter(); for(long i = 0; i < atol(a[3]) && !e; i++) e = resdet_analyze_image(x,copy); leave();
		bool same = !memcmp(copy,d,nn*sizeof(float));
		free(copy);
		ev_begin(op); ev_int("h",atoi(a[1])); ev_int("img",atoi(a[2])); ev_int("k",atol(a[3])); ev_bool("same",same); ev_int("ret",e); ev_fail(); ev_end();
	}
	else if(!strcmp(op,"results")) { /* h mask */
		RDAnalysis* x = isnull(a[1]) ? NULL : ana[atoi(a[1])];
		int mask = atoi(a[2]);
		RDResolution* rw = SENT,* rh = SENT; size_t cw = 7777, ch = 7777;
		enter(); RDError e = resdet_analysis_results(x,mask&1?&rw:NULL,mask&2?&cw:NULL,mask&4?&rh:NULL,mask&8?&ch:NULL); leave();
		ev_begin(op); ev_int("h",isnull(a[1]) ? -1 : atoi(a[1])); ev_int("ret",e); ev_results(mask,rw,cw,rh,ch); ev_fail(); ev_end();
		free_results(mask,rw,rh);
	}
	else if(!strcmp(op,"destroy")) {
		RDAnalysis* x = isnull(a[1]) ? NULL : ana[atoi(a[1])];
		enter(); resdet_destroy_analysis(x); leave();
		if(x) ana[atoi(a[1])] = NULL;
		ev_begin(op); ev_int("h",isnull(a[1]) ? -1 : atoi(a[1])); ev_end();
	}
	else if(!strcmp(op,"detect") || !strcmp(op,"detectr")) { /* w h mask method params n img..., or w h mask method params repetitions img... */
		int rep = op[6] ? atoi(a[6]) : 1;
		int ni = op[6] ? n-7 : atoi(a[6]);
		int mask = atoi(a[3]);
		RDResolution* rw = SENT,* rh = SENT; size_t cw = 7777, ch = 7777;
		float* buf = NULL; size_t total = 0;
		bool nullimg = n > 7 && isnull(a[7]);
		if(!nullimg) {
			for(int i = 0; i < ni; i++) total += images[atoi(a[7+i])].n;
			buf = malloc(total*rep*sizeof(float)+1);
			size_t o = 0;
			for(int k = 0; k < rep; k++)
			for(int i = 0; i < ni; i++) { memcpy(buf+o,images[atoi(a[7+i])].data,images[atoi(a[7+i])].n*sizeof(float)); o += images[atoi(a[7+i])].n; }
		}
		enter();
		RDMethod* m = isnull(a[4]) ? NULL : resdet_get_method(a[4]);
		RDError e = resdetect(buf,(size_t)ni*rep,sizearg(a[1]),sizearg(a[2]),mask&1?&rw:NULL,mask&2?&cw:NULL,mask&4?&rh:NULL,mask&8?&ch:NULL,m,isnull(a[5]) ? NULL : par[atoi(a[5])]);
		leave();
		bool same = true;
		size_t o = 0;
		for(int k = 0; buf && k < rep; k++)
		for(int i = 0; i < ni; i++) { same = same && !memcmp(buf+o,images[atoi(a[7+i])].data,images[atoi(a[7+i])].n*sizeof(float)); o += images[atoi(a[7+i])].n; }
		free(buf);
		ev_begin("detect"); ev_bool("same",same); ev_str("ws",a[1]); ev_str("hs",a[2]); ev_str("m",isnull(a[4])?"":a[4]); ev_int("p",isnull(a[5]) ? -1 : atoi(a[5]));
		ev_bool("nullimg",nullimg); ev_int("n",(int64_t)ni*rep);
		if(op[6]) ev_int("rep",rep);
		fprintf(out,",\"imgs\":["); if(!nullimg) for(int i = 0; i < ni; i++) fprintf(out,"%s%d",i?",":"",atoi(a[7+i])); fputc(']',out);
		ev_int("ret",e); ev_results(mask,rw,cw,rh,ch); ev_fail(); ev_end();
		free_results(mask,rw,rh);
	}
	else if(!strcmp(op,"dfile")) { /* src type mask method params fileid */
		int mask = atoi(a[3]);
		RDResolution* rw = SENT,* rh = SENT; size_t cw = 7777, ch = 7777;
		const char* path = source(a[1],sbuf);
		enter();
		RDMethod* m = isnull(a[4]) ? NULL : resdet_get_method(a[4]);
		RDError e = resdetect_file(path,strarg(a[2]),mask&1?&rw:NULL,mask&2?&cw:NULL,mask&4?&rh:NULL,mask&8?&ch:NULL,m,isnull(a[5]) ? NULL : par[atoi(a[5])]);
		leave();
		ev_begin(op); ev_str("path",a[1]); ev_str("type",a[2]); ev_int("file",atoi(a[6])); ev_str("m",isnull(a[4])?"":a[4]); ev_int("p",isnull(a[5]) ? -1 : atoi(a[5])); ev_int("sys",system_error(path));
		ev_int("ret",e); ev_results(mask,rw,cw,rh,ch); ev_fail(); ev_end();
		free_results(mask,rw,rh);
		drop_sources();
	}
	else if(!strcmp(op,"open") || !strcmp(op,"openr")) { /* h src type|reader flags fileid ; flags: 1 want buffer, 2 error pointer, 4 width, 8 height */
		int h = atoi(a[1]), fl = atoi(a[4]);
		const char* path = source(a[2],sbuf);
		size_t w = 7777, hh = 7777; RDError e = 77; float* buf = (float*)SENT;
		RDImage* im;
		enter();
		if(op[4]) im = resdet_open_image_with_reader(path,strarg(a[3]),fl&4?&w:NULL,fl&8?&hh:NULL,fl&1?&buf:NULL,fl&2?&e:NULL);
		else im = resdet_open_image(path,strarg(a[3]),fl&4?&w:NULL,fl&8?&hh:NULL,fl&1?&buf:NULL,fl&2?&e:NULL);
		leave();
		ev_begin(op); ev_int("h",h); ev_str("path",a[2]); ev_str("type",a[3]); ev_int("fl",fl); ev_int("file",atoi(a[5])); ev_int("sys",system_error(path));
		ev_bool("ok",im); ev_int("ret",fl&2 ? e : 0);
		ev_int("w",fl&4 ? (int64_t)(w > INT32_MAX ? INT32_MAX : w) : -1); ev_int("hh",fl&8 ? (int64_t)(hh > INT32_MAX ? INT32_MAX : hh) : -1);
		/* does the buffer hold one frame? */
		size_t bs = 0;
		if(fl&1 && buf && buf != (float*)SENT) { bs = tracked_size(buf); }
		ev_str("buf",!(fl&1) ? "" : !buf ? "null" : buf == (float*)SENT ? "unset" : !im || bs == SIZE_MAX || bs/sizeof(float)/w >= hh ? "ok" : "small");
		ev_fail(); ev_end();
		img[h].im = im; img[h].w = w; img[h].h = hh; img[h].open = im;
		img[h].buf = fl&1 && buf != (float*)SENT ? buf : NULL;
	}
	else if(!strcmp(op,"read")) { /* h dest(g|b|n) err */
		int h = isnull(a[1]) ? -1 : atoi(a[1]);
		RDImage* im = h < 0 ? NULL : img[h].im;
		size_t px = h < 0 ? 4 : img[h].w*img[h].h;
		bool we = n > 3 ? atoi(a[3]) : true;
		RDError e = 77;
		float* b = NULL,* g = NULL;
		bool guard = true;
		if(a[2][0] == 'g' || (a[2][0] == 'b' && (h < 0 || !img[h].buf))) {
			g = malloc((px+64)*sizeof(float));
			memset(g,0x5a,(px+64)*sizeof(float));
			b = g+32;
		}
		else if(a[2][0] == 'b') { b = img[h].buf; memset(b,0x5a,px*sizeof(float)); }
		enter(); bool r = resdet_read_image_frame(im,b,we ? &e : NULL); leave();
		if(g) for(int i = 0; i < 32; i++) {
			uint32_t u,v; memcpy(&u,g+i,4); memcpy(&v,g+32+px+i,4);
			if(u != 0x5a5a5a5a || v != 0x5a5a5a5a) guard = false;
		}
		ev_begin(op); ev_int("h",h); ev_bool("nobuf",!b); ev_bool("we",we); ev_bool("ret",r); ev_int("err",we ? e : 0); ev_bool("guard",guard);
		if(r && b) ev_pixels("px",b,px);
		ev_fail(); ev_end();
		free(g);
	}
	else if(!strcmp(op,"readn")) { /* h k: k reads, of which the last is recorded */
		int h = atoi(a[1]);
		size_t px = img[h].w*img[h].h;
		float* b = malloc(px*sizeof(float)+1);
		RDError e = 77; bool r = true;
		enter(); for(long i = 0; i < atol(a[2]) && r; i++) r = resdet_read_image_frame(img[h].im,b,&e); leave();
		ev_begin(op); ev_int("h",h); ev_int("k",atol(a[2])); ev_bool("ret",r); ev_int("err",e);
		if(r) ev_pixels("px",b,px);
		ev_fail(); ev_end();
		free(b);
	}
	else if(!strcmp(op,"seek")) { /* h n cb(0|1) err */
		int h = isnull(a[1]) ? -1 : atoi(a[1]);
		RDImage* im = h < 0 ? NULL : img[h].im;
		struct prog* pr = calloc(1,sizeof(*pr));
		bool cb = atoi(a[3]), we = n > 4 ? atoi(a[4]) : true;
		RDError e = 77;
		uint64_t off = strtoull(a[2],NULL,10);
		enter(); bool r = resdet_seek_frame(im,off,cb ? progress : NULL,cb ? pr : NULL,we ? &e : NULL); leave();
		ev_begin(op); ev_int("h",h); ev_int("n",off > 1<<30 ? 1<<30 : off); ev_bool("cb",cb); ev_bool("we",we); ev_bool("ret",r); ev_int("err",we ? e : 0);
		fprintf(out,",\"prog\":["); for(size_t i = 0; i < pr->n && i < 4096; i++) fprintf(out,"%s%" PRIu64,i?",":"",pr->v[i] > INT32_MAX ? INT32_MAX : pr->v[i]); fputc(']',out);
		if(pr->n > 4096) { ev_int("progn",pr->n); ev_bool("progseq",!pr->unordered); }
		ev_fail(); ev_end();
		free(pr);
	}
	else if(!strcmp(op,"close")) {
		int h = isnull(a[1]) ? -1 : atoi(a[1]);
		enter(); resdet_close_image(h < 0 ? NULL : img[h].im); leave();
		if(h >= 0) { img[h].im = NULL; free(img[h].buf); img[h].buf = NULL; }
		ev_begin(op); ev_int("h",h); ev_end();
		bool any = in_thread; /* (threads do not use sources of ours) */
		if(!in_thread)
		for(int i = 0; i < NH; i++) if(img[i].im) any = true;
		if(!any) drop_sources();
	}
	else if(!strcmp(op,"readimg")) { /* src type fileid */
		const char* path = source(a[1],sbuf);
		size_t w = 7777, h = 7777, ni = 7777; float* im = (float*)SENT;
		enter(); RDError e = resdet_read_image(path,strarg(a[2]),&im,&ni,&w,&h); leave();
		ev_begin(op); ev_str("path",a[1]); ev_str("type",a[2]); ev_int("file",atoi(a[3])); ev_int("sys",system_error(path)); ev_int("ret",e);
		ev_int("n",ni > INT32_MAX ? INT32_MAX : ni); ev_int("w",w > INT32_MAX ? INT32_MAX : w); ev_int("hh",h > INT32_MAX ? INT32_MAX : h);
		ev_str("im",!im ? "null" : im == (float*)SENT ? "unset" : "ok");
		if(!e && im && im != (float*)SENT) {
			size_t bs = tracked_size(im);
			ev_bool("fits",bs == SIZE_MAX || bs/sizeof(float) >= w*h*ni);
			ev_pixels("px",im,w*h*ni);
		}
		ev_fail(); ev_end();
		if(im != (float*)SENT) free(im);
		drop_sources();
	}
	else if(!strcmp(op,"stdin")) { /* (file|pipe) chunk path */
		int fd = !strcmp(a[1],"file") ? open(a[3],O_RDONLY) : -1;
		if(fd < 0) { char b[512]; snprintf(b,sizeof(b),"%s:%s",a[2],a[3]); fd = make_pipe(b); }
		dup2(fd,0); close(fd);
		stdin = fdopen(0,"r"); /* a stream without a past */
	}
	else if(!strcmp(op,"quiesce")) {
		long live = 0;
		lock(); live = tabn; unlock();
		struct stat st;
		ev_begin(op); ev_int("live",live); ev_int("fds",count_fds()-fd_base); ev_bool("in0",!fstat(0,&st)); ev_end();
	}
	else if(!strcmp(op,"queries")) {
		ev_begin(op);
		RDMethod* m = resdet_methods();
		fprintf(out,",\"methods\":["); for(int i = 0; m[i].name && i < 64; i++) fprintf(out,"%s[\"%s\",%ld,%s,%s]",i?",":"",m[i].name,lround((double)m[i].threshold*1e9),resdet_get_method(m[i].name) == m+i ? "true" : "false",m[i].func ? "true":"false"); fputc(']',out);
		ev_bool("def",resdet_get_method(NULL) == m);
		fprintf(out,",\"nomethods\":[");
		const char* bad[] = {"","Sign","SIGN","sig","signs"," sign","default","zero","zerox ","origi","ma","magnitude"};
		bool f1 = true; for(size_t i = 0; i < sizeof(bad)/sizeof(*bad); i++) if(resdet_get_method(bad[i])) { fprintf(out,"%s\"%s\"",f1?"":",",bad[i]); f1 = false; }
		fputc(']',out);
		fprintf(out,",\"readers\":["); for(const char* const* r = resdet_list_image_readers(); *r; r++) fprintf(out,"%s\"%s\"",r == resdet_list_image_readers()?"":",",*r); fputc(']',out);
		ev_int("range",resdet_default_range()); ev_int("maxerr",resdet_get_max_error()); ev_str("version",resdet_libversion() ? resdet_libversion() : "");
		ev_end();
	}
	else if(!strcmp(op,"errstr")) {
		int e = atoi(a[1]);
		enter(); const char* s = resdet_error_str(e); leave();
		char* copy = s ? strdup(s) : NULL;
		ev_begin(op); ev_int("e",e); ev_bool("null",!copy); ev_str("s",copy ? copy : ""); ev_str("sys",e < 0 ? strerror(-e) : ""); ev_end();
		free(copy);
	}
	else {
		fprintf(stderr,"rdrive: unknown command %s\n",op);
		ev_begin("badscript"); ev_str("s",op); ev_end();
	}
}

/* ------------------------------------------------------------------ threads */

struct thr { int k; char** lines; size_t n, cap; char id[256]; char* buf; size_t bufn; pthread_t t; };
static struct thr thrs[16];
static pthread_barrier_t barrier;

static int tokenize(char* line, char** a) {
	int n = 0;
	for(char* s = strtok_r(line," \n",&line); s && n < 4000; s = strtok_r(NULL," \n",&line)) a[n++] = s;
	a[n] = NULL;
	return n;
}
static void* thr_main(void* arg) {
	struct thr* t = arg;
	tid = t->id; in_thread = true;
	out = open_memstream(&t->buf,&t->bufn);
	char** a = calloc(4096,sizeof(*a));
	pthread_barrier_wait(&barrier);
	for(size_t i = 0; i < t->n; i++) {
		int n = tokenize(t->lines[i],a);
		if(n) run_cmd(a,n);
	}
	fclose(out);
	free(a);
	return NULL;
}
static void join_threads(void) {
	int c = 0;
	for(int i = 0; i < 16; i++) if(thrs[i].n) c++;
	if(!c) return;
	pthread_barrier_init(&barrier,NULL,c);
	for(int i = 0; i < 16; i++) if(thrs[i].n) {
		snprintf(thrs[i].id,sizeof(thrs[i].id),"%s@%d",tid,i);
		pthread_create(&thrs[i].t,NULL,thr_main,thrs+i);
	}
	for(int i = 0; i < 16; i++) if(thrs[i].n) {
		pthread_join(thrs[i].t,NULL);
		fwrite(thrs[i].buf,1,thrs[i].bufn,out);
		for(size_t j = 0; j < thrs[i].n; j++) free(thrs[i].lines[j]);
		thrs[i].n = 0; free(thrs[i].buf); thrs[i].buf = NULL;
	}
	fflush(out);
	pthread_barrier_destroy(&barrier);
}

/* ------------------------------------------------------------------ main */

static void run_trace(char** lines, size_t nl) {
	char** a = calloc(4096,sizeof(*a));
	fd_base = 0;
	fd_base = count_fds();
	for(size_t i = 0; i < nl; i++) {
		if(lines[i][0] == '@') {
			int k = lines[i][1]-'0';
			struct thr* t = thrs+k;
			if(t->n == t->cap) { t->cap = t->cap ? t->cap*2 : 16; t->lines = realloc(t->lines,t->cap*sizeof(char*)); }
			t->lines[t->n++] = strdup(lines[i]+2);
			continue;
		}
		if(!strncmp(lines[i],"join",4)) { join_threads(); continue; }
		int n = tokenize(lines[i],a);
		if(n) run_cmd(a,n);
	}
	for(int i = 0; i < nwriters; i++) { kill(writers[i],SIGKILL); waitpid(writers[i],NULL,0); }
	ev_begin("end"); ev_end();
}

int main(int argc, char** argv) {
	if(argc < 4) return 2;
	struct stat st;
	int fd = open(argv[2],O_RDONLY);
	if(fd < 0 || fstat(fd,&st)) return 2;
	imgdatan = st.st_size/sizeof(float);
	if(imgdatan) imgdata = mmap(NULL,st.st_size,PROT_READ,MAP_PRIVATE,fd,0);
	close(fd);
	FILE* s = fopen(argv[1],"r");
	outf = fopen(argv[3],"a");
	if(!s || !outf) return 2;
	int timeout = getenv("RDRIVE_TIMEOUT") ? atoi(getenv("RDRIVE_TIMEOUT")) : 60;

	char* line = NULL; size_t cap = 0; ssize_t len;
	char id[200] = ""; char** lines = NULL; size_t nl = 0, cl = 0;
	while((len = getline(&line,&cap,s)) > 0) {
		if(!strncmp(line,"image ",6)) { /* image idx offset count */
			unsigned idx; size_t o, c;
			if(sscanf(line,"image %u %zu %zu",&idx,&o,&c) == 3 && idx < 65536 && o+c <= imgdatan) { images[idx].data = imgdata+o; images[idx].n = c; }
			else { fprintf(stderr,"rdrive: bad image: %s",line); return 2; }
		}
		else if(!strncmp(line,"T ",2)) { sscanf(line,"T %199s",id); while(nl) free(lines[--nl]); }
		else if(line[0] == 'E' && (line[1] == '\n' || !line[1])) {
			fflush(outf);
			pid_t pid = fork();
			if(!pid) {
				setpgid(0,0);
				int dn = open("/dev/null",O_RDONLY); dup2(dn,0); close(dn);
				alarm(timeout);
				out = outf; tid = id;
				fclose(s);
				run_trace(lines,nl);
				fflush(out);
				_exit(0);
			}
			int status;
			while(waitpid(pid,&status,0) < 0 && errno == EINTR);
			kill(-pid,SIGKILL);
			if(!(WIFEXITED(status) && !WEXITSTATUS(status))) {
				fseek(outf,0,SEEK_END);
				fprintf(outf,"\n{\"t\":\"%s\",\"op\":\"crash\",\"why\":\"%s %d\"}\n",id,WIFSIGNALED(status) ? (WTERMSIG(status) == SIGALRM ? "timeout" : "signal") : "exit",WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status));
				fflush(outf);
			}
			for(size_t i = 0; i < nl; i++) free(lines[i]);
			nl = 0;
		}
		else {
			if(nl == cl) { cl = cl ? cl*2 : 64; lines = realloc(lines,cl*sizeof(char*)); }
			lines[nl++] = strdup(line);
		}
	}
	fclose(outf);
	return 0;
}
