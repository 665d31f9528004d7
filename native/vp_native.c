// Native runtime of the specification interface: replays verifier counterexamples and samples inputs against the real code.
#define _GNU_SOURCE
#include "../specs/vp.h"
#include <sanitizer/asan_interface.h>
#include <setjmp.h>
#include <stdio.h>
#include <time.h>
#include <unistd.h>

size_t __sanitizer_get_allocated_size(const volatile void*);
int __sanitizer_get_ownership(const volatile void*);

typedef struct { const char* name; void (*f)(void); } harness;
static harness harnesses[256];
static int n_harnesses;

void vp_register(const char* name, void (*f)(void))
{
	harnesses[n_harnesses].name = name;
	harnesses[n_harnesses++].f = f;
}

// ---------------------------------------------------------------- recorded inputs
typedef struct { char* name; char kind; uint64_t v; uint64_t args[3]; int nargs; uint8_t* data; size_t ndata; } entry;
static entry in[65536];
static int n_in;
static bool replay;

static struct { char name[64]; int n; } occ[4096];
static int n_occ;

typedef struct { char name[80]; char kind; uint64_t v; uint64_t args[3]; int nargs; uint8_t* data; size_t ndata; } logent;
static logent logs[65536];
static int n_logs;

static uint64_t rng;
static jmp_buf skip;
static int alloc_count, fail_at, may_fail, failed;
static long live;
static const char* dump_path;

static uint64_t rnd(void)
{
	rng ^= rng << 13;
	rng ^= rng >> 7;
	rng ^= rng << 17;
	return rng * 0x2545F4914F6CDD1DULL;
}

static void occname(const char* name, char* out)
{
	for (int i = 0; i < n_occ; i++) {
		if (strcmp(occ[i].name, name) == 0) {
			sprintf(out, "%s#%d", name, occ[i].n++);
			return;
		}
	}
	if (n_occ < 4096) {
		strcpy(occ[n_occ].name, name);
		occ[n_occ++].n = 1;
	}
	strcpy(out, name);
}

static entry* find(const char* name, char kind)
{
	for (int i = 0; i < n_in; i++) {
		if (in[i].kind == kind && strcmp(in[i].name, name) == 0) {
			return &in[i];
		}
	}
	return NULL;
}

static logent* log_new(const char* name, char kind)
{
	logent* l = &logs[n_logs < 65535 ? n_logs++ : 65535];
	memset(l, 0, sizeof(*l));
	strncpy(l->name, name, 79);
	l->kind = kind;
	return l;
}

static uint64_t pick(int w)
{
	uint64_t r = rnd();
	uint64_t m = w == 64 ? ~0ULL : (1ULL << w) - 1;
	switch (r % 8) {
		case 0: case 1: case 2: return (rnd() >> 8) % 9 & m;
		case 3: return (rnd() >> 8) % 300 & m;
		case 4: { int b = (rnd() >> 8) % w; return ((1ULL << b) + (rnd() >> 8) % 3 - 1) & m; }
		case 5: return (0 - (rnd() >> 8) % 40) & m;
		case 6: return rnd() & m;
		default: return (rnd() >> ((rnd() >> 8) % 64)) & m;
	}
}

static uint64_t get(const char* name, int w)
{
	char nm[80];
	occname(name, nm);
	uint64_t v;
	if (replay) {
		entry* e = find(nm, 'i');
		v = e ? e->v : 0;
	}
	else {
		v = pick(w);
	}
	log_new(nm, 'i')->v = v;
	return w == 64 ? v : v & ((1ULL << w) - 1);
}

uint8_t vp_u8(const char* n) { return (uint8_t)get(n, 8); }
uint16_t vp_u16(const char* n) { return (uint16_t)get(n, 16); }
uint32_t vp_u32(const char* n) { return (uint32_t)get(n, 32); }
uint64_t vp_u64(const char* n) { return get(n, 64); }
bool vp_bool(const char* n) { return get(n, 1) & 1; }

uint64_t vp_range(const char* name, uint64_t lo, uint64_t hi)
{
	char nm[80];
	occname(name, nm);
	uint64_t v;
	if (replay) {
		entry* e = find(nm, 'i');
		v = e ? e->v : lo;
		if (v < lo || v > hi) {
			longjmp(skip, 1);
		}
	}
	else {
		uint64_t span = hi - lo;
		uint64_t r = rnd() >> 8;
		uint64_t k = r % 8;
		uint64_t lim = k < 4 ? 4 : k < 6 ? 20 : k < 7 ? 300 : span;
		if (lim > span) {
			lim = span;
		}
		v = lo + (lim == ~0ULL ? rnd() : rnd() % (lim + 1));
		if (r % 16 == 9 && span < 70000) {
			v = hi - (rnd() >> 8) % (lim + 1);
		}
	}
	log_new(nm, 'i')->v = v;
	return v;
}

static void* block(const char* name, size_t size, bool str)
{
	char nm[80];
	occname(name, nm);
	if (size > (1u << 26)) {
		longjmp(skip, 1);
	}
	uint8_t* p = malloc(size + (str ? 1 : 0));
	entry* e = replay ? find(nm, 'o') : NULL;
	int style = rnd() % 4;
	for (size_t i = 0; i < size; i++) {
		uint8_t b;
		if (replay) {
			b = e && i < e->ndata ? e->data[i] : str ? 'a' : 0;
		}
		else {
			b = style == 0 ? rnd() >> 8 : style == 1 ? (rnd() >> 8) % 3 : style == 2 ? (uint8_t)pick(8) : 'a' + (rnd() >> 8) % 26;
		}
		p[i] = str && b == 0 ? 'a' : b;
	}
	if (str) {
		p[size] = 0;
	}
	logent* l = log_new(nm, 'o');
	l->v = size;
	l->data = malloc(size + 1);
	memcpy(l->data, p, size);
	l->ndata = size;
	live++;
	return p;
}

void* vp_obj(size_t size, const char* name) { return block(name, size, false); }
void* vp_obj_where(size_t size, const char* name, bool (*pred)(uint64_t off, uint64_t byte))
{
	uint8_t* p = block(name, size, false);
	for (size_t i = 0; i < size; i++) {
		for (int k = 0; k < 4096 && ! pred(i, p[i]); k++) {
			p[i] = k < 2048 ? (uint8_t)(rnd() >> 8) : (uint8_t)k;
		}
	}
	return p;
}
char* vp_cstr(size_t len, const char* name) { return block(name, len, true); }
void vp_havoc(void* p, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = rnd() >> 8; }

static uint64_t uf(const char* f, int k, uint64_t a, uint64_t b, uint64_t c)
{
	uint64_t args[3] = { a, b, c };
	for (int i = 0; i < n_in; i++) {
		if (in[i].kind == 'u' && strcmp(in[i].name, f) == 0 && memcmp(in[i].args, args, 8 * k) == 0) {
			return in[i].v;
		}
	}
	uint64_t h = 1469598103934665603ULL;
	for (const char* s = f; *s; s++) {
		h = (h ^ (uint8_t)*s) * 1099511628211ULL;
	}
	for (int i = 0; i < k; i++) {
		h = (h ^ args[i]) * 0x9E3779B97F4A7C15ULL;
		h ^= h >> 29;
	}
	return h;
}

uint64_t vp_uf1(const char* f, uint64_t a) { return uf(f, 1, a, 0, 0); }
uint64_t vp_uf2(const char* f, uint64_t a, uint64_t b) { return uf(f, 2, a, b, 0); }
uint64_t vp_uf3(const char* f, uint64_t a, uint64_t b, uint64_t c) { return uf(f, 3, a, b, c); }

// ---------------------------------------------------------------- contracts
static void dump(void)
{
	if (! dump_path) {
		return;
	}
	FILE* f = fopen(dump_path, "w");
	if (! f) {
		return;
	}
	for (int i = 0; i < n_logs; i++) {
		if (logs[i].kind == 'i') {
			fprintf(f, "i %s %llu\n", logs[i].name, (unsigned long long)logs[i].v);
		}
		else if (logs[i].kind == 'o') {
			fprintf(f, "o %s %llu ", logs[i].name, (unsigned long long)logs[i].v);
			for (size_t j = 0; j < logs[i].ndata; j++) {
				fprintf(f, "%02x", logs[i].data[j]);
			}
			fprintf(f, "-\n");
		}
	}
	if (fail_at) {
		fprintf(f, "m malloc#%d 1\n", fail_at);
	}
	fclose(f);
}

void vp_assume(bool c)
{
	if (! c) {
		longjmp(skip, 1);
	}
}

void vp_assert(bool c, const char* name)
{
	if (! c) {
		fprintf(stderr, "VP-FAIL obligation: %s\n", name);
		dump();
		fflush(stderr);
		_exit(1);
	}
}

void __asan_on_error(void) { dump(); }
void vp_cover(const char* name) { (void)name; }
void vp_note(const char* s) { (void)s; }

static struct { void* p; size_t n; int* cell; } guards[64];
static int n_guards;

void vp_guard_sync(void)
{
	for (int i = 0; i < n_guards; i++) {
		if (*guards[i].cell == 1) {
			__asan_unpoison_memory_region(guards[i].p, guards[i].n);
		}
		else {
			__asan_poison_memory_region(guards[i].p, guards[i].n);
		}
	}
}

void vp_guard(const void* p, size_t n, int* lock)
{
	if (n == 0) {
		n = __sanitizer_get_allocated_size(p);
	}
	guards[n_guards].p = (void*)p;
	guards[n_guards].n = n;
	guards[n_guards++].cell = lock;
	vp_guard_sync();
}

void vp_guard_clear(void)
{
	for (int i = 0; i < n_guards; i++) {
		if (guards[i].p) {
			__asan_unpoison_memory_region(guards[i].p, guards[i].n);
		}
	}
	n_guards = 0;
}

static void guard_drop(void* p)
{
	for (int i = 0; i < n_guards; i++) {
		if (guards[i].p == p) {
			if (*guards[i].cell != 1) {
				fprintf(stderr, "VP-FAIL obligation: shared block freed without the lock\n");
			}
			guards[i] = guards[--n_guards];
			i--;
		}
	}
}

void* vp_snap(const void* p, size_t n)
{
	if (! p) {
		return NULL;
	}
	void* q = malloc(n + 1);
	memcpy(q, p, n);
	return q;
}

bool vp_freed(const void* p) { return __asan_address_is_poisoned((void*)p); }
bool vp_valid(const void* p, size_t n) { return n == 0 || (p && ! __asan_region_is_poisoned((void*)p, n)); }
bool vp_heap(const void* p) { return __sanitizer_get_ownership(p) && ! __asan_address_is_poisoned((void*)p); }
uint64_t vp_live(void) { return live; }
void vp_alloc_may_fail(bool on) { may_fail = on; }
bool vp_alloc_failed(void) { return failed; }
void vp_inv_n(bool (*f)(uint64_t)) { (void)f; }
void vp_inv_v(bool (*f)(uint64_t)) { (void)f; }
void vp_inv_nv(bool (*f)(uint64_t, uint64_t)) { (void)f; }
void vp_inv_clear(void) {}
void vp_witness(uint64_t i) { (void)i; }
void vp_unroll(uint32_t k) { (void)k; }
void vp_shared(void* c, uint32_t w, bool (*rely)(uint64_t, uint64_t)) { (void)c; (void)w; (void)rely; }
void vp_shared_clear(void) {}
uint64_t vp_split(uint64_t v, uint32_t max) { (void)max; return v; }
bool vp_bounded(void) { return true; }
bool vp_native(void) { return true; }
void vp_trace(const char* n, uint64_t v) { if (getenv("VP_TRACE")) fprintf(stderr, "TRACE %s %llu\n", n, (unsigned long long)v); }

// ---------------------------------------------------------------- allocation (linked with --wrap)
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
char* __real_strdup(const char*);
char* __real_strndup(const char*, size_t);

static bool fail_now(size_t n)
{
	alloc_count++;
	if (may_fail && ! replay && fail_at == 0 && rnd() % 6 == 0) {
		fail_at = alloc_count;
	}
	if ((fail_at == alloc_count && (may_fail || replay)) || n > (1ULL << 32)) {
		failed = 1;
		return true;
	}
	return false;
}

void* vp_malloc(size_t n) { if (fail_now(n)) return NULL; live++; return malloc(n); }
void* vp_calloc(size_t a, size_t b) { if (fail_now(a * b)) return NULL; live++; return calloc(a, b); }
void* vp_realloc(void* p, size_t n)
{
	if (fail_now(n)) return NULL;
	if (! p) live++;
	else guard_drop(p);
	return realloc(p, n);
}
void vp_free(void* p) { if (p) { live--; guard_drop(p); } free(p); }
char* vp_strdup(const char* s) { if (fail_now(0)) return NULL; live++; return strdup(s); }
char* vp_strndup(const char* s, size_t n) { if (fail_now(0)) return NULL; live++; return strndup(s, n); }

// ---------------------------------------------------------------- driver
static void load(const char* path)
{
	FILE* f = fopen(path, "r");
	if (! f) {
		exit(3);
	}
	char* line = NULL;
	size_t cap = 0;
	while (getline(&line, &cap, f) > 0) {
		char kind, name[96];
		int pos = 0;
		if (line[0] == '#' || sscanf(line, "%c %90s %n", &kind, name, &pos) < 2) {
			continue;
		}
		char* s = line + pos;
		entry* e = &in[n_in++];
		e->kind = kind;
		e->name = strdup(name);
		if (kind == 'i') {
			e->v = strtoull(s, NULL, 10);
		}
		else if (kind == 'o') {
			e->v = strtoull(s, &s, 10);
			while (*s == ' ') s++;
			e->data = malloc(strlen(s) / 2 + 1);
			while (s[0] && s[1] && s[0] != '-' && s[0] != '\n') {
				unsigned b;
				sscanf(s, "%2x", &b);
				e->data[e->ndata++] = b;
				s += 2;
			}
		}
		else if (kind == 'u') {
			e->v = strtoull(s, &s, 10);
			while (e->nargs < 3 && *s == ' ') {
				e->args[e->nargs++] = strtoull(s, &s, 10);
			}
		}
		else if (kind == 'm') {
			fail_at = atoi(strchr(name, '#') + 1);
			n_in--;
		}
	}
	free(line);
	fclose(f);
}

static void once(void (*f)(void))
{
	n_occ = n_logs = 0;
	alloc_count = failed = may_fail = 0;
	live = 0;
	vp_guard_clear();
	f();
}

int main(int argc, char** argv)
{
	if (argc < 4) {
		fprintf(stderr, "usage: %s HARNESS replay FILE | HARNESS fuzz SEED SECONDS COUNT DUMP\n", argv[0]);
		return 3;
	}
	void (*f)(void) = NULL;
	for (int i = 0; i < n_harnesses; i++) {
		if (strcmp(harnesses[i].name, argv[1]) == 0) {
			f = harnesses[i].f;
		}
	}
	if (! f) {
		fprintf(stderr, "no harness %s\n", argv[1]);
		return 3;
	}
	rng = 88172645463325252ULL;
	if (strcmp(argv[2], "replay") == 0) {
		replay = true;
		load(argv[3]);
		if (setjmp(skip)) {
			fprintf(stderr, "input does not satisfy the preconditions\n");
			return 77;
		}
		once(f);
		fprintf(stderr, "no violation on this input\n");
		return 0;
	}
	uint64_t seed = strtoull(argv[3], NULL, 10);
	double secs = atof(argv[4]);
	long count = atol(argv[5]);
	dump_path = argv[6];
	struct timespec t0, t;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	volatile long done = 0, tried = 0;
	for (;;) {
		rng = (seed * 1000003ULL + tried) * 0x9E3779B97F4A7C15ULL | 1;
		for (int i = 0; i < 4; i++) rnd();
		fail_at = 0;
		tried++;
		if (setjmp(skip) == 0) {
			once(f);
			done++;
		}
		for (int i = 0; i < n_logs; i++) {
			free(logs[i].data);
		}
		if (done >= count || tried > 400 * count) {
			break;
		}
		if (tried % 16 == 0) {
			clock_gettime(CLOCK_MONOTONIC, &t);
			if (t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) / 1e9 > secs) {
				break;
			}
		}
	}
	printf("samples %ld of %ld\n", done, tried);
	return 0;
}
