/* malloc/calloc/realloc/free as seen by the library (linked with --wrap). */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>

void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);

static int g_fill = -1, g_fail_from = 0;
static int64_t g_fail_at = -1, g_count = 0, g_live = 0, g_failed = 0;
static uint64_t g_limit = (uint64_t) 1 << 30;

/* open-addressing table of live blocks */
static void** tab; static size_t* tsz; static size_t cap, used;
#define TOMB ((void*) 1)
static size_t hsh(const void* p) { uint64_t x = (uint64_t) (uintptr_t) p; x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 29; return (size_t) x; }
static void put(void* p, size_t s);
static void grow(void)
{
	void** ot = tab; size_t* os = tsz; size_t oc = cap;
	cap = cap ? (((size_t) g_live * 4 > cap) ? cap * 2 : cap) : 4096;
	tab = __real_calloc(cap, sizeof(void*)); tsz = __real_calloc(cap, sizeof(size_t)); used = 0;
	if (!tab || !tsz) abort();
	for (size_t i = 0; i < oc; ++i) if (ot[i] && ot[i] != TOMB) put(ot[i], os[i]);
	__real_free(ot); __real_free(os);
}
static void put(void* p, size_t s)
{
	if (used * 2 >= cap) grow();
	size_t i = hsh(p) & (cap - 1);
	while (tab[i] && tab[i] != TOMB) i = (i + 1) & (cap - 1);
	if (!tab[i]) ++used;
	tab[i] = p; tsz[i] = s;
}
static int del(void* p, size_t* s)
{
	if (!cap) return 0;
	size_t i = hsh(p) & (cap - 1);
	while (tab[i]) {
		if (tab[i] == p) { *s = tsz[i]; tab[i] = TOMB; return 1; }
		i = (i + 1) & (cap - 1);
	}
	return 0;
}

/* fill < 256: every byte; otherwise small integers as 64-bit (even) or 32-bit (odd) words */
static void fill_mem(void* p, size_t from, size_t to)
{
	if (g_fill < 256) { memset((char*) p + from, g_fill, to - from); return; }
	uint64_t v = (uint64_t) (g_fill - 256) / 2;
	if (g_fill & 1) v |= v << 32;
	for (size_t i = from; i < to; ++i) ((unsigned char*) p)[i] = (unsigned char) (v >> (8 * (i & 7)));
}

/* reuse mode: a freed block is handed out again at the next request of the same size, as an ordinary allocator would do
   (the sanitizer's keeps freed blocks away for long) */
#if defined(__SANITIZE_ADDRESS__)
void __asan_poison_memory_region(void const volatile*, size_t); void __asan_unpoison_memory_region(void const volatile*, size_t);
#define POISON(p, s) __asan_poison_memory_region(p, s)
#define UNPOISON(p, s) __asan_unpoison_memory_region(p, s)
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
void __asan_poison_memory_region(void const volatile*, size_t); void __asan_unpoison_memory_region(void const volatile*, size_t);
#define POISON(p, s) __asan_poison_memory_region(p, s)
#define UNPOISON(p, s) __asan_unpoison_memory_region(p, s)
#endif
#endif
#ifndef POISON
#define POISON(p, s) ((void) 0)
#define UNPOISON(p, s) ((void) 0)
#endif
#define KEEP 256
static int g_reuse; static size_t kept; static struct { void* p; size_t s; } keep[KEEP];
static void* again(size_t s)
{
	for (size_t i = kept; i-- > 0; ) if (keep[i].s == s) {
		void* p = keep[i].p; memmove(keep + i, keep + i + 1, (kept - i - 1) * sizeof keep[0]); --kept; UNPOISON(p, s); return p;
	}
	return NULL;
}
static void* fresh_block(size_t s)
{
	void* p = g_reuse && s ? again(s) : NULL;
	return p ? p : __real_malloc(s);
}
static void give_back(void* p, size_t s)
{
	if (!g_reuse || s == 0) { __real_free(p); return; }
	if (kept == KEEP) { UNPOISON(keep[0].p, keep[0].s); __real_free(keep[0].p); memmove(keep, keep + 1, (KEEP - 1) * sizeof keep[0]); --kept; }
	keep[kept].p = p; keep[kept].s = s; ++kept; POISON(p, s);
}
void vf_alloc_reuse(int on)
{
	g_reuse = on;
	if (!on) while (kept > 0) { --kept; UNPOISON(keep[kept].p, keep[kept].s); __real_free(keep[kept].p); }
}

static int denied(size_t s)
{
	int64_t c = g_count++;
	if (s > g_limit) { ++g_failed; return 1; }
	if (g_fail_at >= 0 && (c == g_fail_at || (g_fail_from && c > g_fail_at))) { ++g_failed; return 1; }
	return 0;
}

void* __wrap_malloc(size_t s)
{
	if (denied(s)) return NULL;
	void* p = fresh_block(s);
	if (p) { if (g_fill >= 0) fill_mem(p, 0, s); put(p, s); ++g_live; }
	return p;
}
void* __wrap_calloc(size_t a, size_t b)
{
	size_t s;
	if (__builtin_mul_overflow(a, b, &s)) s = SIZE_MAX;
	if (denied(s)) return NULL;
	void* p = g_reuse && s ? again(s) : NULL;
	if (p) memset(p, 0, s); else p = __real_calloc(a, b);
	if (p) { put(p, s); ++g_live; }
	return p;
}
void* __wrap_realloc(void* o, size_t s)
{
	if (!o) return __wrap_malloc(s);
	if (s == 0) { void __wrap_free(void*); __wrap_free(o); return NULL; }
	if (denied(s)) return NULL;
	size_t os = 0; int known = del(o, &os);
	if (known) --g_live;
	void* p = __real_realloc(o, s);
	if (p) {
		if (known && g_fill >= 0 && s > os) fill_mem(p, os, s);
		put(p, s); ++g_live;
	} else if (known) { put(o, os); ++g_live; }
	return p;
}
void __wrap_free(void* p)
{
	size_t s;
	if (p && del(p, &s)) { --g_live; if (g_fill >= 0) memset(p, 0xDD ^ (g_fill & 255), s); give_back(p, s); return; }
	if (p) for (size_t i = 0; i < kept; ++i) if (keep[i].p == p) { UNPOISON(p, keep[i].s); __real_free(p); break; } /* the next line makes the sanitizer report a double free */
	__real_free(p);
}

void vf_alloc_reset(int fill, int64_t fail_at, int fail_from) { g_fill = fill; g_fail_at = fail_at; g_fail_from = fail_from; g_count = 0; g_failed = 0; }
int64_t vf_alloc_count(void) { return g_count; }
int64_t vf_alloc_live(void) { return g_live; }
int64_t vf_alloc_failed(void) { return g_failed; }
void vf_alloc_limit(uint64_t m) { g_limit = m; }
