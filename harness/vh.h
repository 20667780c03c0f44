/* vh - common runtime of all monitors: deterministic workload generation,
 * case bookkeeping, violation reporting, allocation ledger, fault injection. */
#ifndef VH_H
#define VH_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <sys/types.h>

typedef uint64_t u64; typedef uint32_t u32; typedef unsigned char u8;

typedef struct { const char *name; void (*fn)(u64 idx); u64 quick, thorough; } vh_mode;
extern const vh_mode vh_modes[];          /* ends with name==NULL */
extern const char *const vh_required[];   /* counters that must be >0 over all shards, NULL-terminated */
extern const char *const vh_rule;
void vh_setup(void);                      /* optional (weak) */

/* --- randomness (seeded per case) --- */
u64 vh_rnd(void);
void vh_rng_get(u64 s[2]); void vh_rng_set(const u64 s[2]);
u64 vh_below(u64 n);                      /* 0..n-1, n>0 */
static inline u64 vh_range(u64 a, u64 b) { return a + vh_below(b - a + 1); }
int vh_chance(unsigned num, unsigned den);
u64 vh_case_hash(void);
/* size in 0..max biased to small values and to boundaries (powers of two, buffer sizes, literals of the source) */
size_t vh_size(size_t max);
/* vh_size(max), but now and then a size around or beyond 2^16 */
size_t vh_xsize(size_t max);
u64 vh_lit(void);                         /* a literal harvested from the source tree */
u64 vh_u64val(void);                      /* value biased to boundaries */
void vh_bytes(void *p, size_t n);         /* random bytes, several shapes */
/* random text over an alphabet */
void vh_text(char *p, size_t n, const char *alphabet, size_t alen);
extern int vh_thorough;
extern u64 vh_seed;

/* --- observation bookkeeping --- */
int vh_counter(const char *name);
extern u64 vh_cnt[];
#define VH_COUNT(name, n) do { static int vhi_ = -1; if(vhi_ < 0) vhi_ = vh_counter(name); vh_cnt[vhi_] += (n); } while(0)
u64 vh_hash(const void *p, size_t n, u64 h);
static inline u64 vh_hashu(u64 v, u64 h) { return vh_hash(&v, sizeof v, h); }
void vh_seen(u64 h);                      /* this case was non-trivial, with that content */
void vh_sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
int  vh_want_sample(void);
extern int vh_tracing;
#define VH_TRACE(...) do { if(vh_tracing) vh_trace_(__VA_ARGS__); } while(0)
void vh_trace_(const char *fmt, ...) __attribute__((format(printf,1,2)));
const char *vh_esc(const void *p, size_t n); /* printable, rotating static buffers */

/* --- verdicts --- */
void vh_fail(const char *key, const char *fmt, ...) __attribute__((format(printf,2,3), noreturn));
void vh_internal(const char *fmt, ...) __attribute__((format(printf,1,2), noreturn));
#define VH_CHECK(c, key, ...) do { if(!(c)) vh_fail(key, __VA_ARGS__); } while(0)
void vh_tick(void);                       /* progress inside a long case */
void vh_log(const void *p, size_t n);     /* append to the event log of this shard (offline checkers) */
int  vh_logging(void);
const char *vh_scratch(void);             /* private scratch dir of this shard (exists) */

/* --- harness memory: invisible to ledger and fault injection --- */
void *xmalloc(size_t n);
void *xcalloc(size_t a, size_t b);
void *xrealloc(void *p, size_t n);
void xfree(void *p);
/* exact-size buffer: a byte before or after is off limits (ASan redzone, or guard page in plain builds) */
void *vh_gbuf(size_t n);
void *vh_gdup(const void *p, size_t n);
char *vh_gstr(const char *s);             /* exact strlen+1 copy */
void *vh_rdup(const void *p, size_t n);   /* like vh_gdup, sometimes in read-only memory: for arguments that are only read */
char *vh_rstr(const char *s);
void vh_gfree(void *p);

/* --- allocation ledger --- */
void vh_ledger_begin(void);
/* number of blocks allocated since begin (by anyone but the harness) and still live */
size_t vh_ledger_live(void);
u64 vh_ledger_allocs(void);
void vh_ledger_end(void);
size_t vh_ledger_badfree(void);           /* frees of harness memory seen (never ok unless expected) */
/* --- allocation faults: fail the n-th (1-based) wrapped allocation from now; 0 = off --- */
void vh_fault_arm(u64 nth);
u64 vh_fault_seen(void);                  /* wrapped allocations since arm */
int vh_fault_fired(void);
void vh_fault_disarm(void);
extern int vh_fault_repeat;               /* 1: all later allocations fail as well */

/* --- descriptors --- */
void vh_fdset(unsigned char set[128]);    /* bitmap of open fds 0..1023 */
int vh_fdcount(void);

/* growing byte string for models */
typedef struct { u8 *d; size_t n, cap; } bs;
void bs_put(bs *b, const void *p, size_t n);
void bs_putc(bs *b, int c);
void bs_puts(bs *b, const char *s);
void bs_free(bs *b);
#endif
