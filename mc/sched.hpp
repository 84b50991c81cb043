// Controlled two-thread execution of library calls.  The library is compiled with the compiler's memory-access instrumentation
// (-fsanitize=thread) but linked with the callbacks below instead of a race detector's run time: every load and store of the library is a
// visible step.  Memory a thread allocates itself and its stack are private to it; everything else is shared.
//
// 1. record(): both calls run one after the other; the shared addresses each of them reads and writes are recorded.  If no address written
//    by one is touched by the other, all steps of the two calls are independent: every interleaving is equivalent to the one observed
//    (one Mazurkiewicz trace), and nothing is left to explore.
// 2. otherwise the accesses to the addresses in conflict are the scheduling points, and run() executes a given schedule of them.
#pragma once
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <poll.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <new>
#include <unordered_map>
#include <vector>

extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); }
namespace sched {
enum { ARENA = 1u << 30, CLASSES = 40 };
struct Thr {
  int id = 0; char *base = nullptr, *top = nullptr, *stackLo = nullptr, *stackHi = nullptr; void* freeList[CLASSES] = {};
  int noPreempt = 0; bool inHook = false; sem_t go; uint64_t conflicts = 0; long spin = 0; std::function<uint64_t()> f; uint64_t result = 0; bool finished = false;
};
inline Thr g_thr[2];
inline thread_local Thr* cur = nullptr;
enum Mode { OFF, RECORD, RUN };
inline Mode g_mode = OFF;
// a fixed open-addressing table: address granule -> bits 1 read by 0, 2 written by 0, 4 read by 1, 8 written by 1
struct Table { static constexpr size_t N = 1u << 18; uint64_t key[N]; unsigned char bits[N]; size_t used = 0;
  unsigned char* at(uint64_t k, bool add) { size_t i = (k * 0x9e3779b97f4a7c15ULL) >> 46; while (key[i] && key[i] != k) i = (i + 1) & (N - 1); if (!key[i]) { if (!add || used > N / 2) return nullptr; key[i] = k; used++; } return &bits[i]; } };
inline Table* g_table = nullptr;
inline std::vector<uint64_t> g_plan; inline size_t g_planPos = 0; inline int g_running = 0;      // plan: number of conflicting accesses to run before each switch
inline uint64_t g_left = 0; inline sem_t g_main;

inline void setup() { if (g_table) return; g_table = (Table*)mmap(nullptr, sizeof(Table), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); for (int i = 0; i < 2; i++) { g_thr[i].id = i; g_thr[i].base = g_thr[i].top = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } }
inline void clearTable() { setup(); if (g_table->used) std::memset(g_table, 0, sizeof(Table)); }      // shared with the child processes that record
inline void handOver(Thr* t) { Thr& o = g_thr[1 - t->id]; if (o.finished) return; g_running = o.id; g_left = g_planPos < g_plan.size() ? g_plan[g_planPos++] : ~0ULL; sem_post(&o.go); sem_wait(&t->go); }
inline bool arenaOf(const Thr& t, uintptr_t p) { return p >= (uintptr_t)t.base && p < (uintptr_t)t.base + ARENA; }
inline void step(Thr* t, uintptr_t p, size_t n, bool w) {
  if (p >= (uintptr_t)t->stackLo && p < (uintptr_t)t->stackHi) return;
  t->inHook = true; Thr& o = g_thr[1 - t->id];
  if (g_mode == RECORD) { if (!arenaOf(*t, p)) { bool foreign = arenaOf(o, p); for (uintptr_t g = p >> 3; g <= (p + n - 1) >> 3; g++) if (auto* b = g_table->at(g + 1, true)) { *b |= (w ? 2 : 1) << (2 * t->id); if (foreign) *b |= 2 << (2 * o.id); } } }
  else if (g_mode == RUN && !t->noPreempt) {
    bool c = false; for (uintptr_t g = p >> 3; g <= (p + n - 1) >> 3 && !c; g++) { auto* b = g_table->at(g + 1, false); c = b && (((*b & 2) && (*b & 12)) || ((*b & 8) && (*b & 3))); }
    if (c) { t->conflicts++; if (g_left == 0) handOver(t); else if (g_left != ~0ULL) g_left--; } }
  t->inHook = false;
}
inline void access(const void* p, size_t n, bool w) { Thr* t = cur; if (!t || t->inHook || g_mode == OFF || n == 0) return; t->spin = 0; step(t, (uintptr_t)p, n, w); }
inline void atomicAccess(const volatile void* p, size_t n, bool w) { Thr* t = cur; if (!t || t->inHook || g_mode == OFF) return; step(t, (uintptr_t)p, n, w); if (++t->spin > 500 && g_mode == RUN && !t->noPreempt) { t->spin = 0; handOver(t); } }

inline void* alloc(size_t n) {
  Thr* t = cur; if (!t || t->inHook) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
  int k = 5; while ((size_t(1) << k) < n + 16) k++; char* p = (char*)t->freeList[k];
  if (p) std::memcpy(&t->freeList[k], p + 16, sizeof(void*)); else { if (t->top + (size_t(1) << k) > t->base + ARENA) throw std::bad_alloc(); p = t->top; t->top += size_t(1) << k; }
  *(uint64_t*)p = k; return p + 16;
}
inline void release(void* p) {
  if (!p) return; for (auto& t : g_thr) if (t.base && arenaOf(t, (uintptr_t)p)) { if (cur != &t) return; char* q = (char*)p - 16; int k = (int)*(uint64_t*)q; std::memcpy(q + 16, &t.freeList[k], sizeof(void*)); t.freeList[k] = q; return; }
  __real_free(p);
}
inline void* body(void* a) {
  Thr* t = (Thr*)a; pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); t->stackLo = (char*)lo; t->stackHi = (char*)lo + sz; pthread_attr_destroy(&at);
  sem_wait(&t->go); cur = t; uint64_t r = t->f(); cur = nullptr; t->result = r; t->finished = true; Thr& o = g_thr[1 - t->id]; if (g_mode == RUN && !o.finished) { g_left = g_planPos < g_plan.size() ? g_plan[g_planPos++] : ~0ULL; g_running = o.id; sem_post(&o.go); } else sem_post(&g_main); return nullptr;
}
struct Outcome { bool ok = false; bool hung = false; uint64_t r[2] = {0, 0}, n[2] = {0, 0}, conflictAddrs = 0, sharedAddrs = 0; };
inline void start(std::function<uint64_t()> a, std::function<uint64_t()> b, pthread_t* th) { g_thr[0].f = a; g_thr[1].f = b; sem_init(&g_main, 0, 0); for (auto& t : g_thr) { t.finished = false; t.noPreempt = 0; t.conflicts = 0; t.inHook = false; sem_init(&t.go, 0, 0); pthread_create(&th[t.id], nullptr, body, &t); } }
inline uint64_t countConflicts(uint64_t* shared = nullptr) { uint64_t n = 0, s = 0; for (size_t i = 0; i < Table::N; i++) if (g_table->key[i]) { auto b = g_table->bits[i]; s++; n += ((b & 2) && (b & 12)) || ((b & 8) && (b & 3)); } if (shared) *shared = s; return n; }
// one after the other, recording; `first` runs first
inline void recordHere(std::function<uint64_t()> a, std::function<uint64_t()> b, int first, Outcome& o) { pthread_t th[2]; g_mode = RECORD; start(a, b, th); for (int k = 0; k < 2; k++) { int i = k ? 1 - first : first; sem_post(&g_thr[i].go); sem_wait(&g_main); pthread_join(th[i], nullptr); } g_mode = OFF; o.conflictAddrs = countConflicts(&o.sharedAddrs); for (int i = 0; i < 2; i++) o.r[i] = g_thr[i].result; }
inline void runHere(std::function<uint64_t()> a, std::function<uint64_t()> b, int first, const std::vector<uint64_t>& plan, Outcome& o) { pthread_t th[2]; g_plan = plan; g_planPos = 0; g_left = g_planPos < g_plan.size() ? g_plan[g_planPos++] : ~0ULL; g_running = first; g_mode = RUN; start(a, b, th); sem_post(&g_thr[first].go); sem_wait(&g_main); for (auto& t : th) pthread_join(t, nullptr); g_mode = OFF; for (int i = 0; i < 2; i++) { o.r[i] = g_thr[i].result; o.n[i] = g_thr[i].conflicts; } }
// everything in a fresh process, so that every execution starts from the same state of the library
inline Outcome inChild(std::function<void(Outcome&)> f, int seconds = 30) {
  setup(); int fd[2]; if (pipe(fd)) abort(); fflush(nullptr); pid_t p = fork(); if (p == 0) { close(fd[0]); alarm(seconds); Outcome o; f(o); o.ok = true; ssize_t w = write(fd[1], &o, sizeof o); (void)w; _exit(0); }
  close(fd[1]); Outcome o; size_t got = 0; while (got < sizeof o) { ssize_t n = read(fd[0], (char*)&o + got, sizeof o - got); if (n <= 0) break; got += n; } close(fd[0]); int st; waitpid(p, &st, 0); if (got < sizeof o) { o = Outcome(); o.hung = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM; } return o;
}
}  // namespace sched

void* operator new(size_t n) { return sched::alloc(n); }
void* operator new[](size_t n) { return sched::alloc(n); }
void operator delete(void* p) noexcept { sched::release(p); }
void operator delete[](void* p) noexcept { sched::release(p); }
void operator delete(void* p, size_t) noexcept { sched::release(p); }
void operator delete[](void* p, size_t) noexcept { sched::release(p); }

extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* p) { sched::access(p, n, false); } void __tsan_write##n(void* p) { sched::access(p, n, true); } void __tsan_unaligned_read##n(void* p) { sched::access(p, n, false); } void __tsan_unaligned_write##n(void* p) { sched::access(p, n, true); } void __tsan_volatile_read##n(void* p) { sched::access(p, n, false); } void __tsan_volatile_write##n(void* p) { sched::access(p, n, true); } void __tsan_read##n##_pc(void* p, void*) { sched::access(p, n, false); } void __tsan_write##n##_pc(void* p, void*) { sched::access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
void __tsan_read_range(void* p, unsigned long n) { sched::access(p, n, false); } void __tsan_write_range(void* p, unsigned long n) { sched::access(p, n, true); }
void __tsan_vptr_update(void** p, void* v) { sched::access(p, 8, true); } void __tsan_vptr_read(void** p) { sched::access(p, 8, false); }
#define AT(T, n) T __tsan_atomic##n##_load(const volatile T* p, int) { sched::atomicAccess(p, sizeof(T), false); return __atomic_load_n(p, 5); } void __tsan_atomic##n##_store(volatile T* p, T v, int) { sched::atomicAccess(p, sizeof(T), true); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { sched::atomicAccess(p, sizeof(T), true); return __atomic_exchange_n(p, v, 5); } T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { sched::atomicAccess(p, sizeof(T), true); return __atomic_fetch_add(p, v, 5); } T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { sched::atomicAccess(p, sizeof(T), true); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { sched::atomicAccess(p, sizeof(T), true); return __atomic_fetch_and(p, v, 5); } T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { sched::atomicAccess(p, sizeof(T), true); return __atomic_fetch_or(p, v, 5); } T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { sched::atomicAccess(p, sizeof(T), true); return __atomic_fetch_xor(p, v, 5); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { sched::atomicAccess(p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { sched::atomicAccess(p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); }
AT(unsigned char, 8) AT(unsigned short, 16) AT(unsigned int, 32) AT(unsigned long, 64)
#undef AT
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); } void __tsan_atomic_signal_fence(int) {}
void* __wrap_malloc(size_t n) { try { return sched::alloc(n); } catch (...) { return nullptr; } } void __wrap_free(void* p) { sched::release(p); } void* __wrap_calloc(size_t a, size_t b) { void* p = __wrap_malloc(a * b); if (p) std::memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) { if (!p) return __wrap_malloc(n); for (auto& t : sched::g_thr) if (t.base && sched::arenaOf(t, (uintptr_t)p)) { size_t old = (size_t(1) << *(uint64_t*)((char*)p - 16)) - 16; void* q = __wrap_malloc(n); if (q) { std::memcpy(q, p, old < n ? old : n); sched::release(p); } return q; } return __real_realloc(p, n); }
// library calls that the instrumentation does not see, and critical sections (run without interruption)
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { sched::access(s, n, false); sched::access(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { sched::access(s, n, false); sched::access(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { sched::access(d, n, true); return __real_memset(d, v, n); }
int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*); void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g) { int r = __real___cxa_guard_acquire(g); if (r && sched::cur) sched::cur->noPreempt++; return r; }
void __wrap___cxa_guard_release(void* g) { if (sched::cur) sched::cur->noPreempt--; __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(void* g) { if (sched::cur) sched::cur->noPreempt--; __real___cxa_guard_abort(g); }
#define LK(name, T, d) int __real_##name(T*); int __wrap_##name(T* m) { if (sched::cur && d > 0) sched::cur->noPreempt++; int r = __real_##name(m); if (sched::cur && d < 0) sched::cur->noPreempt--; return r; }
LK(pthread_mutex_lock, pthread_mutex_t, 1) LK(pthread_mutex_unlock, pthread_mutex_t, -1) LK(pthread_rwlock_rdlock, pthread_rwlock_t, 1) LK(pthread_rwlock_wrlock, pthread_rwlock_t, 1) LK(pthread_rwlock_unlock, pthread_rwlock_t, -1) LK(pthread_spin_lock, pthread_spinlock_t, 1) LK(pthread_spin_unlock, pthread_spinlock_t, -1)
#undef LK
int __real_pthread_once(pthread_once_t*, void (*)()); int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { if (sched::cur) sched::cur->noPreempt++; int r = __real_pthread_once(o, f); if (sched::cur) sched::cur->noPreempt--; return r; }
}
